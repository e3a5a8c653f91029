// C35: the chain of steps that base/DP3.cc makes from a parameter set, and how
// it is run, for all step lists up to a depth. The steps are stand-ins
// (dp3_mock/mocks.h) that note how they were made and what they were asked.
#include <cstdlib>
#include <filesystem>
#include <fstream>
#include <map>
#include "mocks.h"
#include "vp.h"
#include "base/DP3.h"
#include "steps/NullStep.h"
#include "steps/Split.h"
#include <aocommon/logger.h>
#include <schaapcommon/threading/threadpool.h>

using namespace dp3;
using common::ParameterSet;
using steps::Step;
using KV = std::vector<std::pair<std::string, std::string>>;

// casacore is a stand-in, so no data set can be opened.
namespace dp3::steps {
InputStep::~InputStep() = default;
std::string InputStep::msName() const { return std::string(); }
const casacore::Table& InputStep::table() const { throw std::runtime_error("no table"); }
bool InputStep::HasBda(const casacore::MeasurementSet&) { return false; }
std::unique_ptr<InputStep> InputStep::CreateReader(const ParameterSet& p) { return std::make_unique<MockReader>("Reader", p, "msin."); }
}  // namespace dp3::steps

static std::string Join(const std::vector<std::string>& v, const std::string& sep = ",") { std::string r; for (auto& s : v) r += (r.empty() ? "" : sep) + s; return r; }
static ParameterSet Make(const KV& kv) { ParameterSet p; for (auto& e : kv) p.replace(e.first, e.second); return p; }
static std::string Abs(const std::string& n) { return n[0] == '/' ? n : std::filesystem::current_path().string() + "/" + n; }
static void Clear() { mock::made.clear(); mock::events.clear(); mock::throw_at = -1; }
static std::string One(const mock::Made& m) { return m.cls + "(" + m.prefix + (m.name.empty() ? "" : " " + m.name) + (m.input < 0 ? "" : m.input ? " bda" : " regular") + (m.history < 0 ? "" : m.history ? " history" : " quiet") + ")"; }

// ---------------------------------------------------------------- step types
struct Kind { const char* cls; int in, out; };  // 0 regular, 1 BDA, 2 as told
static const std::map<std::string, Kind>& Types() {
  static const std::map<std::string, Kind> t = {
    {"aoflagger", {"AOFlaggerStep", 0, 0}}, {"aoflag", {"AOFlaggerStep", 0, 0}},
    {"averager", {"Averager", 0, 0}}, {"average", {"Averager", 0, 0}}, {"squash", {"Averager", 0, 0}},
    {"bdaaverage", {"BdaAverager", 0, 1}}, {"bdaaverager", {"BdaAverager", 0, 1}}, {"bdaexpander", {"BdaExpander", 1, 0}},
    {"madflagger", {"MadFlagger", 0, 0}}, {"madflag", {"MadFlagger", 0, 0}}, {"preflagger", {"PreFlagger", 0, 0}}, {"preflag", {"PreFlagger", 0, 0}},
    {"antennaflagger", {"AntennaFlagger", 0, 0}}, {"antflag", {"AntennaFlagger", 0, 0}}, {"uvwflagger", {"UVWFlagger", 2, 2}}, {"uvwflag", {"UVWFlagger", 2, 2}},
    {"clipper", {"Clipper", 0, 0}}, {"combine", {"Combine", 2, 2}}, {"columnreader", {"MsColumnReader", 2, 2}},
    {"counter", {"Counter", 0, 0}}, {"count", {"Counter", 0, 0}}, {"phaseshifter", {"PhaseShift", 0, 0}}, {"phaseshift", {"PhaseShift", 0, 0}},
    {"demixer", {"Demixer", 0, 0}}, {"demix", {"Demixer", 0, 0}}, {"applybeam", {"ApplyBeam", 0, 0}},
    {"stationadder", {"StationAdder", 0, 0}}, {"stationadd", {"StationAdder", 0, 0}}, {"scaledata", {"ScaleData", 2, 2}}, {"setbeam", {"SetBeam", 0, 0}},
    {"filter", {"Filter", 0, 0}}, {"applycal", {"ApplyCal", 0, 0}}, {"correct", {"ApplyCal", 0, 0}}, {"nullstokes", {"NullStokes", 0, 0}},
    {"predict", {"Predict", 2, 2}}, {"wgridderpredict", {"WGridderPredict", 0, 0}}, {"idgpredict", {"IDGPredict", 0, 0}}, {"idgimager", {"IDGImager", 0, 0}},
    {"upsample", {"Upsample", 0, 0}}, {"interpolate", {"Interpolate", 0, 0}}, {"grouppredict", {"BdaGroupPredict", 1, 1}}, {"h5parmpredict", {"H5ParmPredict", 0, 0}},
    {"gaincal", {"GainCal", 0, 0}}, {"calibrate", {"GainCal", 0, 0}}, {"python", {"PyStep", 0, 0}}, {"pythondppp", {"PyStep", 0, 0}},
    {"ddecal", {"?", 2, 2}}, {"dynspec", {"DynSpec", 0, 0}}, {"wscleanwriter", {"WSCleanWriter", 0, 0}}, {"flagtransfer", {"FlagTransfer", 0, 0}}, {"transfer", {"Transfer", 0, 0}}};
  return t;
}
static mock::Made Expect(const std::string& type, const std::string& prefix, int bda) {
  const Kind& k = Types().at(type);
  mock::Made m;
  m.cls = type == "ddecal" ? (bda ? "BdaDdeCal" : "DDECal") : k.cls;
  m.prefix = prefix;
  if (k.in == 2 && type != "ddecal") m.input = bda;
  return m;
}

static void TypesSweep() {
  auto cased = [](std::string s, int c) { for (size_t i = 0; i < s.size(); ++i) if (c == 1 || (c == 2 && i % 2 == 0)) s[i] = toupper(s[i]); return s; };
  std::vector<std::string> names;
  for (auto& t : Types()) names.push_back(t.first);
  for (const char* bad : {"image", "sagecalpredict", "", "averagr", "average_", "7", "average1x", "msin", "updater", "none"}) names.push_back(bad);
  for (const std::string& type : names)
    for (int c = 0; c < 3; ++c)
      for (int how = 0; how < 4; ++how)       // name is the type; name+digits; by the key 'type'; the key overrides
        for (int bda = 0; bda < 2; ++bda) {
          if (type.empty() && how < 2) continue;
          const std::string t = cased(type, c);
          const std::string name = how == 0 ? t : how == 1 ? t + "12" : how == 2 ? "xyz" : "average";
          if (!vp::CaseF([&] { return "type " + t + " how " + vp::Str(how) + " bda " + vp::Str(bda); })) continue;
          Clear();
          KV kv = {{"steps", "[" + name + "]"}};
          if (how >= 2) kv.push_back({name + ".type", t});
          ParameterSet p = Make(kv);
          std::shared_ptr<Step> s;
          std::string err;
          try { s = base::MakeStepsFromParset(p, "", "steps", "in.ms", true, bda ? Step::MsType::kBda : Step::MsType::kRegular); }
          catch (std::exception& e) { err = e.what(); if (err.empty()) err = "?"; }
          vp::Step();
          auto it = Types().find(type);
          // A name that ends in digits loses them, unless the key is given.
          if (it == Types().end()) {
            vp::Check(!s && !err.empty(), "a step of an unknown type was made: " + (mock::made.empty() ? "?" : One(mock::made[0])));
            vp::Check(mock::made.empty(), "a step of an unknown type was made");
            continue;
          }
          const int in = it->second.in;
          const bool fits = in == 2 || in == bda;
          vp::Check(mock::made.size() == 1 && One(mock::made[0]) == One(Expect(type, name + ".", bda)),
                    "made " + (mock::made.empty() ? std::string("nothing") : One(mock::made[0])) + " instead of " + One(Expect(type, name + ".", bda)) + " " + err);
          vp::Check(fits == err.empty(), fits ? "refused: " + err : "a step that cannot take this kind of data was accepted");
          if (s) {
            vp::Check(s.get() == mock::made[0].step, "another step was returned");
            vp::Check(s->getNextStep() && dynamic_cast<steps::NullStep*>(s->getNextStep().get()), "the chain was not closed");
          }
          vp::Outcome(One(mock::made.empty() ? mock::Made() : mock::made[0]) + err);
        }
}

// ---------------------------------------------------------------- chains
struct Sym { std::string name, type; int req, prov; std::string out; };  // out: name of the data set of an output step
static std::vector<Sym> Alphabet() {
  return {{"avg", "average", 1, 1, ""}, {"pre", "PreFlagger", 0, 2, ""}, {"mad", "madflagger", 3, 2, ""}, {"count", "", 2, 0, ""},
          {"up", "upsample", 4, 4, ""}, {"pred", "predict", 8, 1, ""}, {"uvw", "uvwflagger", 8, 2, ""}, {"bdaaverage1", "", 7, 7, ""}, {"bdaexpander", "", 0, 0, ""},
          {"out1", "", 0, 0, "a.ms"}, {"output2", "", 0, 0, "."}, {"w", "MSOut", 0, 0, "in.ms"}, {"out", "", 0, 0, "@a.ms"}, {"msout3", "", 0, 0, "b.ms"}, {"out4", "", 0, 0, "?"},
          {"wsc", "wscleanwriter", 9, 0, ""}};
}
static const std::vector<std::string>& MsOuts() {
  static const std::vector<std::string> v = {"msout=", "msout=.", "msout=in.ms", "msout=@in.ms", "msout=c.ms", "msout=a.ms", "msout.name=c.ms", "msout.name=|msout=c.ms", "msout.name=.|msout=c.ms", "-"};
  return v;
}
static std::string Fill(std::string v) { return !v.empty() && v[0] == '@' ? Abs(v.substr(1)) : v; }
static KV Keys(const std::vector<Sym>& chain, const std::string& msout, bool bda, const std::string& msin = "in.ms") {
  KV kv = {{"msin", Fill(msin)}, {"msin.bda", bda ? "true" : "false"}};
  std::vector<std::string> names;
  for (auto& s : chain) {
    names.push_back(s.name);
    if (!s.type.empty()) kv.push_back({s.name + ".type", s.type});
    if (s.name != "bdaexpander") {      // takes no parameters
      kv.push_back({s.name + ".req", vp::Str(s.req)});
      kv.push_back({s.name + ".prov", vp::Str(s.prov)});
    }
    if (!s.out.empty() && s.out != "?") kv.push_back({s.name + ".name", Fill(s.out)});
  }
  kv.push_back({"steps", "[" + Join(names) + "]"});
  if (msout != "-") {
    std::string rest = msout;
    while (!rest.empty()) {
      const size_t bar = rest.find('|');
      const std::string part = rest.substr(0, bar);
      rest = bar == std::string::npos ? "" : rest.substr(bar + 1);
      const size_t eq = part.find('=');
      kv.push_back({part.substr(0, eq), Fill(part.substr(eq + 1))});
    }
  }
  return kv;
}

struct Model {                        // what should come out
  std::vector<mock::Made> made;
  std::vector<int> write;             // fields each output step writes, -1: not an output step
  std::vector<int> req, prov;
  bool error = false;
  int read = 0;
};
static const std::map<std::string, std::string>& Names() {
  static const std::map<std::string, std::string> m = {{"count", "count"}, {"bdaaverage1", "bdaaverage"}, {"bdaexpander", "bdaexpander"}};
  return m;
}
// Adds an output step; false: refused.
static bool Output(Model& m, const std::string& prefix, const std::string& name, std::string& current, int kind) {
  std::string out = name;
  bool update = false;
  if (out.empty() || out == ".") {
    if (current.empty()) return false;
    update = true;
  } else if (Abs(out) == current) {
    update = true;
  }
  if (update) out = current;
  mock::Made made;
  made.prefix = prefix;
  made.name = out;
  if (kind) { if (update) return false; made.cls = "MSBDAWriter"; }
  else if (update) { made.cls = "MSUpdater"; made.history = 0; }
  else made.cls = "MSWriter";
  current = Abs(out);
  m.made.push_back(made);
  m.req.push_back(update ? -2 : 15);   // -2: what it writes
  m.prov.push_back(0);
  m.write.push_back(0);
  return true;
}
// Adds the steps of a list. kind: what comes in, and what goes out.
static bool Steps(Model& m, const std::vector<Sym>& chain, std::string& current, int& kind) {
  for (const Sym& s : chain) {
    if (!s.out.empty()) {
      if (s.out == "?") return false;
      if (!Output(m, s.name + ".", Fill(s.out), current, kind)) return false;
      continue;                        // an output step passes on what it gets
    }
    std::string type = s.type;
    for (char& c : type) c = tolower(c);
    if (type.empty()) type = Names().at(s.name);
    const Kind& k = Types().at(type);
    m.made.push_back(Expect(type, s.name + ".", kind));
    m.req.push_back(type == "bdaexpander" ? 0 : s.req);
    m.prov.push_back(type == "bdaexpander" ? 0 : s.prov);
    m.write.push_back(type == "wscleanwriter" ? 0 : -1);
    if (k.in != 2 && k.in != kind) return false;
    if (k.out != 2) kind = k.out;
  }
  return true;
}
static void Fields(Model& m, size_t from, int start = 0) {
  int have = start;
  for (size_t i = from; i < m.made.size(); ++i) {
    if (m.write[i] >= 0) { m.write[i] = have; have = 0; }
    else have |= m.prov[i];
    if (m.req[i] == -2) m.req[i] = m.write[i];
  }
}
static int Need(const Model& m, size_t from) {
  int need = 0;
  for (size_t i = m.made.size(); i-- > from;) {
    need |= m.req[i];
    need &= ~(m.prov[i] & ~m.req[i]);
  }
  return need;
}
static Model Expected(const std::vector<Sym>& chain, const std::string& msout, bool bda, const std::string& msin = "in.ms") {
  Model m;
  mock::Made r; r.cls = "Reader"; r.prefix = "msin.";
  m.made.push_back(r); m.write.push_back(-1); m.req.push_back(0); m.prov.push_back(0);
  std::string current = Abs(Fill(msin));
  int kind = bda;
  if (!Steps(m, chain, current, kind)) { m.error = true; return m; }
  const bool last_writes = m.write.back() >= 0;
  if (!last_writes) {
    int have = 0;
    for (size_t i = 1; i < m.made.size(); ++i) { if (m.write[i] >= 0) have = 0; else have |= m.prov[i]; }
    std::string name_key, plain_key; bool has_name = false, has_plain = false;
    for (auto& e : Keys({}, msout, bda)) { if (e.first == "msout.name") { has_name = true; name_key = e.second; } if (e.first == "msout") { has_plain = true; plain_key = e.second; } }
    if (!has_name && !has_plain) { m.error = true; return m; }
    const std::string deciding = has_name ? name_key : plain_key;
    if (!deciding.empty() || have) {
      std::string base = Abs(Fill(msin));
      std::string name = !name_key.empty() ? name_key : plain_key;
      if (!Output(m, "msout.", name, base, kind)) { m.error = true; return m; }
    }
  }
  Fields(m, 1);
  m.read = Need(m, 1);
  return m;
}

static std::string Text(const std::vector<mock::Made>& v) { std::string r; for (auto& m : v) r += One(m) + " "; return r; }

static void Compare(const Model& want, const ParameterSet& p) {
  std::shared_ptr<steps::InputStep> first;
  std::string err;
  Clear();
  try { first = base::MakeMainSteps(p); }
  catch (std::exception& e) { err = e.what(); if (err.empty()) err = "?"; }
  vp::Step(mock::made.size());
  vp::Outcome(Text(mock::made) + vp::Str(want.read));
  if (want.error) {
    vp::Check(!err.empty(), "not refused: " + Text(mock::made));
    return;
  }
  if (!vp::Check(err.empty(), "refused: " + err)) return;
  if (!vp::Check(Text(mock::made) == Text(want.made), "made " + Text(mock::made) + " instead of " + Text(want.made))) return;
  // The links, in both directions, and the end.
  Step* s = first.get();
  Step* prev = nullptr;
  for (size_t i = 0; i < want.made.size(); ++i) {
    if (!vp::Check(s == mock::made[i].step, "step " + vp::Str(i) + " of the chain is not the one that was made for that place")) return;
    vp::Check(s->getPrevStep() == prev, "step " + vp::Str(i) + " does not point back to the one before");
    if (want.write[i] >= 0) {
      auto* o = dynamic_cast<steps::OutputStep*>(s);
      if (!vp::Check(o, "not an output step")) return;
      vp::Check(mock::Bits(o->GetFieldsToWrite()) == want.write[i], "output step " + vp::Str(i) + " is to write fields " + vp::Str(mock::Bits(o->GetFieldsToWrite())) + " instead of " + vp::Str(want.write[i]));
    }
    prev = s;
    s = s->getNextStep().get();
    if (!vp::Check(s, "the chain ends early")) return;
  }
  vp::Check(dynamic_cast<steps::NullStep*>(s) && !s->getNextStep(), "the chain does not end in a null step");
  vp::Check(mock::Bits(first->getFieldsToRead()) == want.read, "the reader is to read fields " + vp::Str(mock::Bits(first->getFieldsToRead())) + " instead of " + vp::Str(want.read));
  vp::Trace();
}

static void ChainSweep() {
  const std::vector<Sym> a = Alphabet();
  const int depth = vp::Thorough() ? 4 : 3;
  std::vector<int> pick;
  std::function<void()> go = [&] {
    for (int bda = 0; bda < 2; ++bda)
      for (size_t o = 0; o < MsOuts().size(); ++o) {
        if (pick.size() == size_t(depth) && o % (depth == 4 ? 5 : 3) != 0 && o != 4) continue;
        if (!vp::CaseF([&] { std::string k = "chain"; for (int i : pick) k += " " + a[i].name; return k + (bda ? " bda" : " regular") + " " + MsOuts()[o]; })) continue;
        std::vector<Sym> chain;
        for (int i : pick) chain.push_back(a[i]);
        Compare(Expected(chain, MsOuts()[o], bda), Make(Keys(chain, MsOuts()[o], bda)));
      }
    if (pick.size() == size_t(depth)) return;
    for (size_t i = 0; i < a.size(); ++i) { pick.push_back(i); go(); pick.pop_back(); }
  };
  go();
  // Which fields: all requirements and provisions of two steps, and an output.
  for (int r1 = 0; r1 < 16; ++r1) for (int p1 = 0; p1 < 16; ++p1) for (int r2 = 0; r2 < 16; r2 += vp::Thorough() ? 1 : 3) for (int p2 = 0; p2 < 16; p2 += vp::Thorough() ? 1 : 3)
    for (int o = 0; o < 3; ++o) {
      if (!vp::CaseF([&] { return "fields " + vp::Str(r1) + " " + vp::Str(p1) + " " + vp::Str(r2) + " " + vp::Str(p2) + " out " + vp::Str(o); })) continue;
      std::vector<Sym> chain = {{"f", "filter", r1, p1, ""}, {"g", "upsample", r2, p2, ""}};
      if (o == 2) chain.insert(chain.begin() + 1, {"out", "", 0, 0, "."});
      const std::string mo = o == 1 ? "msout=c.ms" : "msout=";
      Compare(Expected(chain, mo, false), Make(Keys(chain, mo, false)));
    }
}

// ---------------------------------------------------------------- split
static void SplitSweep() {
  std::vector<Sym> a = {{"avg", "average", 1, 1, ""}, {"pre", "preflagger", 0, 2, ""}, {"up", "upsample", 4, 4, ""}, {"out", "", 0, 0, "x"}, {"out2", "", 0, 0, "y.ms"}, {"outd", "out", 0, 0, "."}, {"bdaaverage", "", 7, 7, ""}};
  Types();
  const int depth = vp::Thorough() ? 4 : 3;
  std::vector<int> pick;
  std::function<void()> go = [&] {
    for (int streams = 0; streams < 4; ++streams)
      for (int main = 0; main < 4; ++main)      // steps before the split; 3: a step after it
        for (int uneven = 0; uneven < 3; ++uneven) {
          if (uneven && streams != 2) continue;
          if (!vp::CaseF([&] { std::string k = "split"; for (int i : pick) k += " " + a[i].name; return k + " streams " + vp::Str(streams) + " main " + vp::Str(main) + (uneven == 2 ? " missing" : uneven ? " uneven" : ""); })) continue;
          Clear();
          std::vector<std::string> sub, before;
          if (main == 1) before = {"pre"};
          if (main == 2) before = {"up", "avg"};
          before.push_back("split");
          if (main == 3) before.push_back("pre");
          KV kv = {{"msin", "in.ms"}, {"msout", ""}, {"steps", "[" + Join(before) + "]"}};
          for (auto& s : a) {
            if (!s.type.empty()) kv.push_back({s.name + ".type", s.type});
            kv.push_back({s.name + ".req", vp::Str(s.req)});
            kv.push_back({s.name + ".prov", vp::Str(s.prov)});
            if (!s.out.empty()) kv.push_back({s.name + ".name", s.out});
          }
          for (int i : pick) sub.push_back(a[i].name);
          kv.push_back({"split.steps", "[" + Join(sub) + "]"});
          kv.push_back({"split.replaceparms", "[out.name,pre.prov]"});
          std::vector<std::string> n, f;
          for (int k = 0; k < streams; ++k) { n.push_back("s" + vp::Str(k) + ".ms"); f.push_back(vp::Str(k == 0 ? 2 : k == 1 ? 9 : 4)); }
          if (uneven == 1) f.push_back("1");
          if (uneven == 2) kv.push_back({"split.replaceparms", "[out.name,nothere.value]"});
          KV main_kv = kv;
          kv.push_back({"out.name", "[" + Join(n) + "]"});
          if (main != 1 && main != 3) kv.push_back({"pre.prov", "[" + Join(f) + "]"});
          else { kv.back().second = "[" + Join(n) + "]"; for (auto& e : kv) if (e.first == "split.replaceparms") e.second = uneven == 2 ? "[out.name,nothere.value]" : "[out.name]"; }
          const bool both = main != 1 && main != 3;
          // Expected
          bool error = main == 3 || uneven == 2 || (uneven == 1 && both);
          Model top;                                    // steps before the split
          int have = 0;
          for (size_t i = 0; i + 1 < before.size() && main != 3; ++i) for (auto& s : a) if (s.name == before[i]) { top.made.push_back(Expect(s.type, s.name + ".", 0)); top.req.push_back(s.req); top.prov.push_back(s.prov); top.write.push_back(-1); have |= s.prov; }
          std::vector<Model> subs;
          int split_req = 0;
          for (int k = 0; k < streams && !error; ++k) {
            Model m;
            std::vector<Sym> chain;
            for (int i : pick) { Sym s = a[i]; if (s.name == "out") s.out = n[k]; if (s.name == "pre" && both) s.prov = atoi(f[k].c_str()); chain.push_back(s); }
            std::string current;
            int kind = 0;
            std::vector<Sym> named = chain;
            for (auto& s : named) if (s.name == "bdaaverage") s.type = "bdaaverage";
            if (!Steps(m, named, current, kind)) { error = true; break; }
            Fields(m, 0, have);
            split_req |= Need(m, 0);
            subs.push_back(m);
          }
          std::string err;
          std::shared_ptr<steps::InputStep> first;
          try { first = base::MakeMainSteps(Make(kv)); } catch (std::exception& e) { err = e.what(); if (err.empty()) err = "?"; }
          vp::Step(mock::made.size());
          vp::Outcome(Text(mock::made) + (err.empty() ? "" : "!"));
          if (error) { vp::Check(!err.empty(), "not refused: " + Text(mock::made)); continue; }
          if (!vp::Check(err.empty(), "refused: " + err)) continue;
          std::string want = "Reader(msin.) ";
          for (auto& m : top.made) want += One(m) + " ";
          for (auto& m : subs) want += Text(m.made);
          if (!vp::Check(Text(mock::made) == want, "made " + Text(mock::made) + " instead of " + want)) continue;
          Step* s = first.get();
          size_t at = 0;
          for (size_t i = 0; i <= top.made.size(); ++i, ++at) { vp::Check(s == mock::made[at].step, "wrong step before the split"); s = s->getNextStep().get(); if (!s) break; }
          auto* split = dynamic_cast<steps::Split*>(s);
          if (!vp::Check(split && !split->getNextStep(), "the split step is not the last")) continue;
          for (auto& m : subs) {
            Step* prev = split;
            for (size_t i = 0; i < m.made.size(); ++i, ++at) {
              Step* here = mock::made[at].step;
              vp::Check(here->getPrevStep() == prev, "a step of a sub-chain does not point back to the one before");
              if (m.write[i] >= 0) vp::Check(mock::Bits(dynamic_cast<steps::OutputStep*>(here)->GetFieldsToWrite()) == m.write[i], "an output step in a sub-chain is to write fields " + vp::Str(mock::Bits(dynamic_cast<steps::OutputStep*>(here)->GetFieldsToWrite())) + " instead of " + vp::Str(m.write[i]));
              if (i + 1 < m.made.size()) vp::Check(here->getNextStep().get() == mock::made[at + 1].step, "a sub-chain is linked wrongly");
              else vp::Check(dynamic_cast<steps::NullStep*>(here->getNextStep().get()), "a sub-chain does not end in a null step");
              prev = here;
            }
          }
          int need = split_req;
          for (size_t i = top.made.size(); i-- > 0;) { need |= top.req[i]; need &= ~(top.prov[i] & ~top.req[i]); }
          vp::Check(mock::Bits(first->getFieldsToRead()) == need, "the reader is to read fields " + vp::Str(mock::Bits(first->getFieldsToRead())) + " instead of " + vp::Str(need));
          // Run two slots: every stream sees every slot, and finishes once.
          mock::events.clear();
          std::string bad = vp::Throws([&] {
            first->setInfo(base::DPInfo());
            for (int k = 0; k < 2; ++k) first->getNextStep()->process(std::make_unique<base::DPBuffer>());
            first->finish();
          });
          bool runs = true;
          for (auto& m : subs) { bool b = false; for (auto& x : m.made) { (void)x; } (void)b; }
          vp::Check(runs && bad.empty(), "running the chain failed");
          std::map<std::string, int> times;
          for (auto& e : mock::events) ++times[e];
          std::map<std::string, int> wanted;
          auto expect = [&](const Model& m, bool reader) {
            int kind = 0; (void)reader;
            for (auto& x : m.made) {
              ++wanted["info " + x.prefix]; ++wanted["finish " + x.prefix];
              wanted[(kind ? "bda " : "slot ") + x.prefix] += 2;
              if (x.cls == "BdaAverager") kind = 1;
            }
          };
          expect(top, false);
          for (auto& m : subs) expect(m, false);
          ++wanted["info msin."]; ++wanted["finish msin."];
          vp::Check(times == wanted, "a stream of the split did not get all slots, or was not finished once");
          vp::Trace();
        }
    if (pick.size() == size_t(depth)) return;
    for (size_t i = 0; i < a.size(); ++i) { pick.push_back(i); go(); pick.pop_back(); }
  };
  go();
}

// ---------------------------------------------------------------- inputs
static void InputSweep() {
  for (int type = 0; type < 4; ++type) for (int msin = 0; msin < 2; ++msin) for (int name = 0; name < 2; ++name) for (int sock = 0; sock < 2; ++sock) {
    const char* kinds[] = {"", "ms", "aartfaac", "other"};
    if (!vp::CaseF([&] { return std::string("input filetype ") + kinds[type] + " msin " + vp::Str(msin) + " msin.name " + vp::Str(name) + " socket " + vp::Str(sock); })) continue;
    Clear();
    KV kv = {{"steps", "[]"}, {"msout", "c.ms"}};
    if (type) kv.push_back({"msin.filetype", kinds[type]});
    if (msin) kv.push_back({"msin", "in.ms"});
    if (name) kv.push_back({"msin.name", "in2.ms"});
    if (sock) kv.push_back({"stream.socket", "s"});
    const std::string want = type == 2 ? "AartfaacReader(msin.)" : msin || name ? "Reader(msin.)" : sock ? "SVPInput(stream.)" : "";
    std::string bad = vp::Throws([&] { base::MakeMainSteps(Make(kv)); });
    vp::Step();
    vp::Check(bad.empty() == !want.empty(), bad.empty() ? "a parameter set without input was accepted" : "refused");
    vp::Check(want.empty() ? mock::made.empty() : (!mock::made.empty() && One(mock::made[0]) == want), "the input is " + Text(mock::made));
  }
}

// ---------------------------------------------------------------- running
static int CountOf(const std::string& e) { int n = 0; for (auto& x : mock::events) n += x == e; return n; }
static void RunSweep() {
  const std::vector<std::string> checks = {"-", "-1", "0", "1", "2", "true", "false", "F", "T"};
  const std::vector<std::vector<Sym>> chains = {{}, {{"pre", "preflagger", 0, 2, ""}}, {{"pre", "preflagger", 0, 2, ""}, {"out", "", 0, 0, "a.ms"}, {"avg", "average", 1, 1, ""}},
                                                {{"bdaaverage", "bdaaverage", 1, 1, ""}, {"bdaexpander", "bdaexpander", 0, 0, ""}, {"up", "upsample", 1, 1, ""}}};
  for (size_t c = 0; c < chains.size(); ++c)
    for (int n = 0; n < 4; ++n)
      for (size_t ck = 0; ck < checks.size(); ++ck)
        for (int unused = 0; unused < 2; ++unused)
          for (int show = 0; show < 8; ++show)
            for (int bad = -1; bad < 2; ++bad)
              for (int threads = 0; threads < 3; ++threads) {
                if (!vp::Thorough() && ((show != 5 && show != 2 && show != 0) || (bad >= 0 && (ck > 1 || show)))) continue;
                if (c == 0 && bad >= 0) continue;
                if (!vp::CaseF([&] { return "run chain " + vp::Str(c) + " slots " + vp::Str(n) + " checkparset " + checks[ck] + (unused ? " unused" : "") + " show " + vp::Str(show) + " bad " + vp::Str(bad) + " threads " + vp::Str(threads); })) continue;
                Clear();
                std::ostringstream log;
                aocommon::LogStream::vp_sink = &log;
                std::vector<std::string> args = {"DP3"};
                KV kv = Keys(chains[c], "msout=c.ms", false);
                kv.push_back({"msin.count", vp::Str(n)});
                if (bad >= 0) { kv.push_back({chains[c][0].name + ".bad", "true"}); mock::throw_at = bad; }
                if (ck) kv.push_back({"checkparset", checks[ck]});
                if (unused) kv.push_back({"pre.mispelt", "4"});
                kv.push_back({"showcounts", show & 1 ? "true" : "false"});
                kv.push_back({"showtimings", show & 2 ? "true" : "false"});
                kv.push_back({"showprogress", show & 4 ? "true" : "false"});
                kv.push_back({"verbosity", show & 1 ? "quiet" : "verbose"});
                if (threads) kv.push_back({"numthreads", threads == 1 ? "0" : "3"});
                for (auto& e : kv) args.push_back(e.first + "=" + e.second);
                std::ostringstream swallow;
                std::streambuf* o = std::cout.rdbuf(swallow.rdbuf());
                std::streambuf* er = std::cerr.rdbuf(swallow.rdbuf());
                schaapcommon::ThreadPool::GetInstance().SetNThreads(2);
                const std::string failed = vp::Throws([&] { base::Execute("", args); });
                std::cout.rdbuf(o);
                std::cerr.rdbuf(er);
                aocommon::LogStream::vp_sink = nullptr;
                vp::Step(n);
                const bool strict = checks[ck] == "1" || checks[ck] == "2" || checks[ck] == "true" || checks[ck] == "T";
                const bool refuse = strict && unused;
                const bool broken = !refuse && bad >= 0 && bad < n;
                vp::Outcome(Join(mock::events) + failed);
                if (!vp::Check(failed.empty() == !(refuse || broken), refuse ? "unused parameters were accepted" : broken ? "a failing step was ignored" : "the run failed")) continue;
                std::vector<mock::Made> all;
                for (auto& m : mock::made) all.push_back(m);
                vp::Check(schaapcommon::ThreadPool::GetInstance().NThreads() == (threads == 2 ? 3u : 4u), "the wrong number of threads");
                vp::Check((aocommon::Logger::vp_verbosity == aocommon::LogVerbosityLevel::kQuiet) == bool(show & 1), "the wrong verbosity");
                vp::Check((log.str().find("pre.mispelt") != std::string::npos) == (unused && checks[ck] != "-1"), "the unused parameter was " + std::string(unused ? "not " : "") + "reported");
                // The order: information for all, then the slots, then one finish each.
                std::string want;
                size_t first_slot = mock::events.size(), last_slot = 0;
                for (size_t i = 0; i < mock::events.size(); ++i) {
                  const std::string& e = mock::events[i];
                  const bool slot = e == "read" || e.rfind("slot", 0) == 0 || e.rfind("bda", 0) == 0;
                  if (slot) { first_slot = std::min(first_slot, i); last_slot = i; }
                }
                for (size_t i = 0; i < mock::events.size(); ++i) {
                  const std::string& e = mock::events[i];
                  if (e.rfind("info", 0) == 0 || e.rfind("show", 0) == 0) vp::Check(i < first_slot, "'" + e + "' after data was read");
                  if (e.rfind("finish", 0) == 0 || e.rfind("counts", 0) == 0 || e.rfind("timings", 0) == 0) vp::Check(i > last_slot && !broken && !refuse, "'" + e + "' before the end");
                }
                if (refuse) { vp::Check(CountOf("read") == 0, "data was read although the parameters were refused"); continue; }
                for (size_t i = 0; i < all.size(); ++i) vp::Check(CountOf("info " + all[i].prefix) == 1 && CountOf("show " + all[i].prefix) == 1 && (i == 0 || mock::events[i] == "info " + all[i].prefix), "the steps were not informed one after the other");
                if (broken) { vp::Check(CountOf("read") == bad + 1, "the run went on after a failing step"); continue; }
                vp::Check(CountOf("read") == n + 1, "the input was asked " + vp::Str(CountOf("read")) + " times for " + vp::Str(n) + " slots");
                for (size_t i = 1; i < all.size(); ++i) {
                  vp::Check(CountOf("slot " + all[i].prefix) + CountOf("bda " + all[i].prefix) == n, One(all[i]) + " did not get all slots");
                  vp::Check(CountOf("finish " + all[i].prefix) == 1, One(all[i]) + " was not finished once");
                }
                for (auto& m : all) {
                  vp::Check(CountOf("counts " + m.prefix) == (show & 1 ? 1 : 0), "counts were shown wrongly");
                  vp::Check(CountOf("timings " + m.prefix) == (show & 2 ? 1 : 0), "timings were shown wrongly");
                  vp::Check((log.str().find("counts " + m.prefix) != std::string::npos) == bool(show & 1), "counts were not logged");
                }
                vp::Trace();
              }
}

// ---------------------------------------------------------------- command line
static void CommandLine() {
  char dir[] = "/tmp/vp_c35_XXXXXX";
  if (!mkdtemp(dir)) { vp::Fail("no scratch directory"); return; }
  const std::filesystem::path home = std::filesystem::current_path();
  const std::filesystem::path scratch(dir);
  std::filesystem::current_path(scratch);
  auto write = [&](const std::string& name, const std::string& mark) {
    std::ofstream f(name);
    f << "# a comment\nmsin = in.ms\nmsin.count=1\nmsout = c.ms   # here\nshowprogress=false\nsteps=[" << mark << "]\n" << mark << ".type=count\n";
  };
  const std::vector<std::vector<std::string>> commands = {
    {}, {"-h"}, {"--help"}, {"-help"}, {"--usage"}, {"-usage"}, {"-v"}, {"--version"}, {"mine"}, {"absent"}, {"mine", "steps=[viaarg]", "viaarg.type=count"}, {"steps=[viaarg]", "viaarg.type=count", "msin=in.ms", "msout=c.ms", "showprogress=false"},
    {"mine", "-h"}, {"mine", "mine.type=preflag"}, {"mine", "steps=[]"}, {"mine", "msin.count=3"}, {"mine", "other"}, {"mine", "msout=a.ms", "msout=b.ms"}, {"steps=[viaarg]", "viaarg.type=count", "mine"}};
  for (size_t c = 0; c < commands.size(); ++c)
    for (int have = 0; have < 8; ++have)
      for (int via = 0; via < 2; ++via) {
        if (!vp::CaseF([&] { return "command DP3 " + Join(commands[c], " ") + " files " + vp::Str(have) + (via ? " argv" : ""); })) continue;
        Clear();
        for (auto& e : std::filesystem::directory_iterator(scratch)) std::filesystem::remove(e.path());
        const char* defaults[] = {"DP3.parset", "DPPP.parset", "NDPPP.parset"};
        const char* marks[] = {"first", "second", "third"};
        for (int i = 0; i < 3; ++i) if (have >> i & 1) write(defaults[i], marks[i]);
        write("mine", "mine");
        std::vector<std::string> args = {"DP3"};
        for (auto& x : commands[c]) args.push_back(x);
        std::ostringstream log;
        aocommon::LogStream::vp_sink = &log;
        const std::string failed = vp::Throws([&] {
          if (via) { std::vector<char*> argv; for (auto& x : args) argv.push_back(const_cast<char*>(x.c_str())); base::ExecuteFromCommandLine(int(argv.size()), argv.data()); }
          else base::ExecuteFromCommandLine(args);
        });
        aocommon::LogStream::vp_sink = nullptr;
        vp::Step();
        const std::string got = failed.empty() ? Text(mock::made) : "failed";
        vp::Outcome(got);
        auto chain = [](const std::string& mid, const std::string& out = "c.ms") { return "Reader(msin.) " + mid + "MSWriter(msout. " + out + ") "; };
        std::string want;
        switch (c) {
          case 0: for (int i = 2; i >= 0; --i) if (have >> i & 1) want = chain(std::string("Counter(") + marks[i] + ".) "); break;
          case 1: case 2: case 3: case 4: case 5: case 6: case 7: break;
          case 8: case 12: case 15: case 16: want = chain("Counter(mine.) "); break;
          case 9: case 18: want = "failed"; break;
          case 10: case 11: want = chain("Counter(viaarg.) "); break;
          case 13: want = chain("PreFlagger(mine.) "); break;
          case 14: want = chain(""); break;
          case 17: want = chain("Counter(mine.) ", "b.ms"); break;
        }
        vp::Check(got == want, "ran '" + got + "' instead of '" + want + "'");
        if (want.empty()) vp::Check(mock::events.empty() && !log.str().empty(), "no usage or version text");
        else if (want != "failed") vp::Check(CountOf("read") == (c == 15 ? 4 : c == 11 ? 1 : 2), "the input was not read to the end");
        vp::Trace();
      }
  std::filesystem::current_path(home);
  for (auto& e : std::filesystem::directory_iterator(scratch)) std::filesystem::remove(e.path());
  std::filesystem::remove(scratch);
}

int main(int argc, char** argv) {
  vp::Init(argc, argv);
  TypesSweep();
  ChainSweep();
  SplitSweep();
  InputSweep();
  RunSweep();
  CommandLine();
  return vp::Finish();
}
