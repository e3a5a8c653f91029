// C36: a step's results depend on nothing but the fields it says it requires,
// it changes nothing but the fields it says it provides, and it handles the
// kinds of data that it says it accepts.
#include <map>
#include "vp.h"
#include "step_kit.h"
#include "base/UVWCalculator.h"
#include "steps/AntennaFlagger.h"
#include "steps/Averager.h"
#include "steps/BDAAverager.h"
#include "steps/BdaExpander.h"
#include "steps/Combine.h"
#include "steps/Counter.h"
#include "steps/DummyStep.h"
#include "steps/Filter.h"
#include "steps/Interpolate.h"
#include "steps/MadFlagger.h"
#include "steps/MsReader.h"
#include "steps/NullStep.h"
#include "steps/NullStokes.h"
#include "steps/PhaseShift.h"
#include "steps/PreFlagger.h"
#include "steps/ScaleData.h"
#include "steps/SetBeam.h"
#include "steps/StationAdder.h"
#include "steps/Upsample.h"
#include "steps/UVWFlagger.h"
using namespace kit;
using namespace dp3::steps;
typedef std::complex<float> F;
typedef Step::MsType Kind;

// Stand-ins for code that needs libraries which are not there.
namespace dp3::base {
UVWCalculator::UVWCalculator(const casacore::MDirection&, const casacore::MPosition&, const std::vector<casacore::MPosition>&) {}
std::array<double, 3> UVWCalculator::getUVW(unsigned int a, unsigned int b, double t) { return {{double(a) * 7 - double(b) * 3 + std::fmod(t, 16), double(b) * 5 - 6, double(a) * 2 - double(b) + 1}}; }
}  // namespace dp3::base
std::pair<unsigned int, unsigned int> dp3::steps::MsReader::ParseChannelSelection(const std::string& a, const std::string& b, unsigned int n) {
  const unsigned s = atoi(a.c_str()), c = atoi(b.c_str());
  return {s, c ? std::min(c, n - s) : n - s};
}

using KV = std::vector<std::pair<std::string, std::string>>;
struct Config {
  std::string type; KV kv; bool bda = false;
  int keeps = 1;             // output i is input i / keeps; 0: another shape
  unsigned ncorr = 4, nchan = 3;
  bool all_times = true;     // one output per input times keeps
  std::string Text() const { std::string s = type + (bda ? " bda" : "") + " ncorr=" + std::to_string(ncorr); for (auto& e : kv) s += " " + e.first + "=" + e.second; return s; }
};
static std::shared_ptr<Step> Make(const Config& c) {
  KV kv = c.kv;
  for (auto& e : kv) e.first = "s." + e.first;
  const auto p = Parset(kv);
  const std::string& t = c.type;
  const Kind k = c.bda ? Kind::kBda : Kind::kRegular;
  if (t == "averager") return std::make_shared<Averager>(p, "s.");
  if (t == "madflagger") return std::make_shared<MadFlagger>(p, "s.");
  if (t == "preflagger") return std::make_shared<PreFlagger>(p, "s.");
  if (t == "uvwflagger") return std::make_shared<UVWFlagger>(p, "s.", k);
  if (t == "antennaflagger") return std::make_shared<AntennaFlagger>(p, "s.");
  if (t == "counter") return std::make_shared<Counter>(p, "s.");
  if (t == "phaseshift") return std::make_shared<PhaseShift>(p, "s.");
  if (t == "nullstokes") return std::make_shared<NullStokes>(p, "s.");
  if (t == "scaledata") return std::make_shared<ScaleData>(p, "s.", k);
  if (t == "setbeam") return std::make_shared<SetBeam>(p, "s.");
  if (t == "filter") return std::make_shared<Filter>(p, "s.");
  if (t == "combine") return std::make_shared<Combine>(p, "s.", k);
  if (t == "upsample") return std::make_shared<Upsample>(p, "s.");
  if (t == "interpolate") return std::make_shared<Interpolate>(p, "s.");
  if (t == "stationadder") return std::make_shared<StationAdder>(p, "s.");
  if (t == "bdaaverager") return std::make_shared<BdaAverager>(p, "s.");
  if (t == "bdaaverager-plain") return std::make_shared<BdaAverager>(p, "s.", false);
  if (t == "bdaexpander") return std::make_shared<BdaExpander>("s.");
  if (t == "dummy") return std::make_shared<DummyStep>(p, "s.");
  if (t == "null") return std::make_shared<NullStep>();
  return nullptr;
}
static std::vector<Config> Configs() {
  std::vector<Config> v;
  auto add = [&](std::string t, KV kv, int keeps = 1, bool bda = false, unsigned ncorr = 4, bool all = true) { v.push_back({t, kv, bda, keeps, ncorr, 3, all}); };
  for (auto t : {"1", "2", "3"}) for (auto f : {"1", "3"}) add("averager", {{"timestep", t}, {"freqstep", f}}, 0, false, 2);
  add("averager", {{"timestep", "2"}, {"minpoints", "3"}}, 0); add("averager", {{"freqstep", "3"}, {"minperc", "60"}}, 0);
  for (auto t : {"1", "3", "5"}) for (auto f : {"1", "3"}) for (auto extra : {0, 1, 2, 3}) {
    KV kv{{"timewindow", t}, {"freqwindow", f}, {"threshold", "2"}};
    if (extra == 1) kv.push_back({"applyautocorr", "true"});
    if (extra == 2) kv.push_back({"correlations", "[1]"});
    if (extra == 3) kv.push_back({"blmax", "50"});
    add("madflagger", kv);
  }
  const std::vector<KV> crit = {{{"amplmin", "3"}}, {{"amplmax", "9"}}, {{"phasemin", "-0.2"}}, {{"realmax", "6"}}, {{"imagmin", "1"}}, {{"uvmmin", "12"}}, {{"uvmmax", "20"}}, {{"baseline", "[[ant0,ant1]]"}}, {{"chan", "[0,2]"}}, {{"timeslot", "[1]"}}, {{"corrtype", "auto"}},
    {{"expr", "s1 or s2"}, {"s1.amplmin", "3"}, {"s2.uvmmax", "20"}}, {{"expr", "s1 and not s2"}, {"s1.uvmmin", "3"}, {"s2.chan", "[1]"}}, {{"reltime", "[0:00:01..0:00:05]"}}, {{"blmin", "60"}}, {{"freqrange", "[100..101 MHz]"}}};
  for (auto mode : {"set", "setcomplement", "clear", "clearcomplement"}) for (auto& c : crit) { KV kv = c; kv.push_back({"mode", mode}); add("preflagger", kv, 1, false, 2); }
  for (bool bda : {false, true}) {
    for (auto& c : std::vector<KV>{{{"uvmmin", "12"}}, {{"wmrange", "[-5..5]"}}, {{"ulambdamax", "3"}}, {{"uvmmin", "0"}}, {{"vlambdarange", "[-4..1]"}, {"uvmmax", "20"}}}) {
      add("uvwflagger", c, 1, bda, 2);
      KV kv = c; kv.push_back({"phasecenter", "[30deg,-0.5rad]"});
      add("uvwflagger", kv, 1, bda, 2);
    }
    add("scaledata", {{"stations", "[ant1,*]"}, {"coeffs", "[[2,3],1.5]"}, {"scalesize", "false"}}, 1, bda);
    add("scaledata", {{"stations", "*"}, {"coeffs", "[[1,0.5]]"}, {"scalesize", "false"}}, 1, bda, 2);
    for (auto op : {"add", "subtract"}) add("combine", {{"buffername", "model"}, {"operation", op}}, 1, bda);
  }
  add("dummy", {});
  add("counter", {}); add("counter", {{"warnperc", "10"}, {"flagdata", "true"}});
  add("antennaflagger", {}); add("antennaflagger", {{"antenna_flagging_sigma", "0.5"}, {"station_flagging_sigma", "0.5"}});
  add("phaseshift", {{"phasecenter", "[30deg,0.5rad]"}}); add("phaseshift", {{"phasecenter", "[0.3rad,0.8rad]"}}, 1, false, 2); 
  for (auto k : {"modify_i", "modify_q", "modify_u", "modify_v"}) add("nullstokes", {{k, "true"}});
  add("nullstokes", {});
  add("setbeam", {}); add("setbeam", {{"direction", "[30deg,0.5rad]"}, {"beammode", "element"}});
  add("filter", {}); add("filter", {{"startchan", "1"}}, 0); add("filter", {{"nchan", "2"}}, 0); add("filter", {{"baseline", "[[ant0,ant1],[ant2,ant3]]"}}, 0); add("filter", {{"corrtype", "cross"}}, 0, false, 2);
  add("filter", {{"remove", "true"}, {"corrtype", "cross"}}, 0, false, 1); add("filter", {{"startchan", "2"}, {"blrange", "[0,100]"}}, 0); add("filter", {{"remove", "true"}});
  for (auto t : {"2", "3"}) for (auto u : {"false", "true"}) add("upsample", {{"timestep", t}, {"updateuvw", u}}, t[0] - '0');
  for (auto w : {"1", "3", "5", "15"}) add("interpolate", {{"windowsize", w}});
  for (auto a : {"true", "false"}) for (auto w : {"true", "false"}) for (auto c : {"true", "false"}) add("stationadder", {{"stations", "{sup:[ant0,ant1]}"}, {"average", a}, {"useweights", w}, {"autocorr", c}}, 0);
  for (auto t : {"bdaaverager", "bdaaverager-plain"}) for (auto tb : {"0", "150", "400"}) for (auto fb : {"0", "200"}) add(t, {{"timebase", tb}, {"frequencybase", fb}}, 0);
  add("bdaexpander", {}, 0, true); add("bdaexpander", {}, 0, true, 1);
  return v;
}

// Contents: 0 absent, 1 base, 2 other values, 3 NaN / all flagged / zero weights, 4 negative / infinite.
struct Contents { int data = 1, flags = 1, weights = 1, uvw = 1; };
static float Val(int v, unsigned k) {
  const float x = float((k * 37 + k / 7 * 11) % 23) - 9;
  return v == 1 ? (k % 41 == 5 ? 300 : x) : v == 2 ? 2 * x + 1 : v == 3 ? std::numeric_limits<float>::quiet_NaN() : std::numeric_limits<float>::infinity();
}
static F Vis(int v, unsigned k) { return F(Val(v, k), v == 1 && k % 29 == 3 ? std::numeric_limits<float>::infinity() : Val(v, k + 3)); }
static bool Flag(int v, unsigned k) { return v == 1 ? k % 4 == 1 || (k / 12) % 5 == 2 : v == 2 ? k % 3 == 0 : v == 3; }
static float Weight(int v, unsigned k) { return v == 1 ? (k % 6 == 4 ? 0 : 1 + k % 5) : v == 2 ? 7 + k % 3 : v == 3 ? 0 : -2; }
static double Uvw(int v, unsigned k) { return v == 1 ? double((k * 13) % 31) - 15 : v == 2 ? double((k * 5) % 29) - 20 : v == 3 ? std::nan("") : 1e12; }

static Shape TheShape(const Config& c, unsigned ntime) {
  Shape s{10, c.nchan, c.ncorr, 4};
  s.ntime = std::max(1u, ntime);
  AllBaselines(4, true, s.a1, s.a2);
  if (c.type != "antennaflagger") std::swap(s.a1[2], s.a2[2]);
  return s;
}
// Rows of the BDA data: even baselines averaged by 2 in time, every third by 3 channels.
static unsigned RowChannels(unsigned b, unsigned nchan) { return b % 3 == 1 ? 1 : nchan; }
struct Out { std::vector<std::unique_ptr<DPBuffer>> reg; std::vector<std::unique_ptr<BdaBuffer>> bda; std::vector<std::unique_ptr<DPBuffer>> in; std::vector<std::unique_ptr<BdaBuffer>> bda_in; std::string error; Fields req, prov; };

static std::unique_ptr<DPBuffer> Slot(const Config& c, const Shape& s, const Contents& q, unsigned t) {
  auto b = Buffer(s, t);
  unsigned k = t * 977;
  for (unsigned i = 0; i < s.nbl; ++i) {
    for (unsigned x = 0; x < 3; ++x) if (q.uvw) b->GetUvw()(i, x) = s.a1[i] == s.a2[i] ? 0 : Uvw(q.uvw, t * 31 + i * 3 + x);
    for (unsigned ch = 0; ch < s.nchan; ++ch) for (unsigned p = 0; p < s.ncorr; ++p, ++k) {
      b->GetData()(i, ch, p) = Vis(q.data, k); b->GetFlags()(i, ch, p) = Flag(q.flags, k); b->GetWeights()(i, ch, p) = Weight(q.weights, k);
    }
  }
  Fields have;
  if (q.data) have |= Step::kDataField;
  if (q.flags) have |= Step::kFlagsField;
  if (q.weights) have |= Step::kWeightsField;
  if (q.uvw) have |= Step::kUvwField;
  Strip(*b, have);
  b->AddData("model");
  b->GetData("model").resize({s.nbl, s.nchan, s.ncorr});
  k = t * 77;
  for (auto& z : b->GetData("model")) z = F(Val(2, k), Val(1, k + 1)), ++k;
  if (c.keeps) {
    xt::xtensor<std::complex<double>, 3> sol(std::array<size_t, 3>{1, 2, 1});
    sol(0, 0, 0) = {double(t), 1}; sol(0, 1, 0) = {2, double(t)};
    b->SetSolution({{"gain", sol}});
  }
  casacore::Vector<dp3::common::rownr_t> rows(s.nbl);
  for (unsigned i = 0; i < s.nbl; ++i) rows[i] = t * s.nbl + i;
  b->SetRowNumbers(rows);
  return b;
}
static std::unique_ptr<BdaBuffer> BdaSlot(const Shape& s, const Contents& q, unsigned t) {
  Fields have;
  if (q.data) have |= Step::kDataField;
  if (q.flags) have |= Step::kFlagsField;
  if (q.weights) have |= Step::kWeightsField;
  auto b = std::make_unique<BdaBuffer>(size_t(s.nbl) * s.nchan * s.ncorr, have);
  b->AddData("model");
  unsigned k = t * 977;
  for (unsigned i = 0; i < s.nbl; ++i) {
    const bool slow = i % 2 == 0;
    if (slow && t % 2) continue;
    const unsigned n = RowChannels(i, s.nchan);
    const double iv = s.interval * (slow ? 2 : 1), start = s.first_time - s.interval / 2 + t * s.interval;
    double uvw[3];
    for (unsigned x = 0; x < 3; ++x) uvw[x] = s.a1[i] == s.a2[i] ? 0 : Uvw(q.uvw, t * 31 + i * 3 + x);
    b->AddRow(start + iv / 2, iv, iv, i, n, s.ncorr, t * s.nbl + i, nullptr, nullptr, nullptr, uvw);
    const size_t r = b->GetRows().size() - 1;
    for (unsigned e = 0; e < n * s.ncorr; ++e, ++k) {
      if (q.data) b->GetData(r)[e] = Vis(q.data, k);
      if (q.flags) b->GetFlags(r)[e] = Flag(q.flags, k);
      if (q.weights) b->GetWeights(r)[e] = Weight(q.weights, k);
      b->GetData(r, "model")[e] = F(Val(2, k), Val(1, k + 1));
    }
  }
  return b;
}
static DPInfo TheInfo(const Config& c, const Shape& s) {
  DPInfo info = Info(s);
  if (c.bda) {
    std::vector<std::vector<double>> f(s.nbl), w(s.nbl);
    std::vector<unsigned> avg(s.nbl);
    for (unsigned i = 0; i < s.nbl; ++i) {
      const unsigned n = RowChannels(i, s.nchan);
      avg[i] = i % 2 == 0 ? 2 : 1;
      for (unsigned x = 0; x < n; ++x) { w[i].push_back(s.width * s.nchan / n); f[i].push_back(s.freq0 - s.width / 2 + (x + 0.5) * s.width * s.nchan / n); }
    }
    info.update(std::move(avg));
    info.setChannels(std::move(f), std::move(w));
    info.setIsBDAIntervalFactorInteger(true);
  }
  return info;
}
static Out Go(const Config& c, const Shape& s, const Contents& q, unsigned slots) {
  Out o;
  auto step = Make(c);
  auto sink = std::make_shared<Sink>();
  step->setNextStep(sink);
  o.req = step->getRequiredFields(); o.prov = step->getProvidedFields();
  const Kind k = c.bda ? Kind::kBda : Kind::kRegular;
  vp::Check(step->accepts(k), "does not accept its kind of data");
  const DPInfo info = TheInfo(c, s);
  o.error = vp::Throws([&] { step->setInfo(info); });
  if (!o.error.empty()) return o;
  vp::Check(step->getRequiredFields() == o.req && step->getProvidedFields() == o.prov, "required or provided fields change when the meta data is known");
  vp::Check(sink->getInfoIn().nbaselines() == step->getInfoOut().nbaselines(), "meta data not passed on");
  for (unsigned t = 0; t < slots && o.error.empty(); ++t) {
    if (c.bda) { o.bda_in.push_back(BdaSlot(s, q, t)); auto b = BdaSlot(s, q, t); o.error = vp::Throws([&] { step->process(std::move(b)); }); }
    else { o.in.push_back(Slot(c, s, q, t)); auto b = Slot(c, s, q, t); o.error = vp::Throws([&] { step->process(std::move(b)); }); }
    vp::Step();
  }
  if (!o.error.empty()) return o;
  o.error = vp::Throws([&] { step->finish(); });
  vp::Check(!o.error.empty() || (sink->finished == 1 && !sink->after_finish), "the next step is not finished once, at the end");
  vp::Check(step->outputs() == Kind::kBda ? sink->out.empty() : sink->bda.empty(), "passes on another kind of data than announced");
  std::ostringstream text;
  step->show(text); step->showCounts(text); step->showTimings(text, 1);
  o.reg = std::move(sink->out); o.bda = std::move(sink->bda);
  return o;
}
template <class A, class B> bool Bits(const A& a, const B& b) { return a.size() == b.size() && (a.size() == 0 || std::memcmp(a.data(), b.data(), a.size() * sizeof(*a.data())) == 0); }
static bool Equal(const float* a, const float* b, size_t n) { for (size_t i = 0; i < n; ++i) if (!(a[i] == b[i] || (std::isnan(a[i]) && std::isnan(b[i])))) return false; return true; }
static bool Equal(const double* a, const double* b, size_t n) { for (size_t i = 0; i < n; ++i) if (!(a[i] == b[i] || (std::isnan(a[i]) && std::isnan(b[i])))) return false; return true; }
static bool SameVis(const DPBuffer::DataType& a, const DPBuffer::DataType& b) { return a.shape() == b.shape() && Equal(reinterpret_cast<const float*>(a.data()), reinterpret_cast<const float*>(b.data()), 2 * a.size()); }

static void CompareBda(const BdaBuffer& a, const BdaBuffer& b, bool data, bool flags, bool weights, bool uvw, const std::string& what) {
  if (!vp::Check(a.GetRows().size() == b.GetRows().size() && a.GetNumberOfElements() == b.GetNumberOfElements(), what + ": other rows")) return;
  for (size_t r = 0; r < a.GetRows().size(); ++r) {
    const auto &x = a.GetRows()[r], &y = b.GetRows()[r];
    vp::Check(x.time == y.time && x.interval == y.interval && x.exposure == y.exposure && x.baseline_nr == y.baseline_nr && x.n_channels == y.n_channels && x.row_nr == y.row_nr, what + ": other row");
    vp::Check(!uvw || Equal(x.uvw, y.uvw, 3), what + ": other uvw");
    const size_t n = x.GetDataSize();
    vp::Check(!data || (a.GetData(r) && b.GetData(r) && Equal(reinterpret_cast<const float*>(a.GetData(r)), reinterpret_cast<const float*>(b.GetData(r)), 2 * n)), what + ": other visibilities");
    vp::Check(!flags || (a.GetFlags(r) && b.GetFlags(r) && std::memcmp(a.GetFlags(r), b.GetFlags(r), n) == 0), what + ": other flags");
    vp::Check(!weights || (a.GetWeights(r) && b.GetWeights(r) && Equal(a.GetWeights(r), b.GetWeights(r), n)), what + ": other weights");
  }
}

static std::string Text(const Contents& q) { return "data=" + std::to_string(q.data) + " flags=" + std::to_string(q.flags) + " weights=" + std::to_string(q.weights) + " uvw=" + std::to_string(q.uvw); }

static void Run(const Config& c, unsigned ntime, const Contents& q) {
  if (!vp::CaseF([&] { return c.Text() + " slots=" + std::to_string(ntime) + " " + Text(q); })) return;
  const Shape s = TheShape(c, ntime);
  Contents full = q;  // required fields as given; the others as in the base
  { auto st = Make(c); const Fields r = st->getRequiredFields(); if (!r.Data()) full.data = 1; if (!r.Flags()) full.flags = 1; if (!r.Weights()) full.weights = 1; if (!r.Uvw()) full.uvw = 1; }
  const Out base = Go(c, s, full, ntime), o = Go(c, s, q, ntime);
  if (!vp::Check(o.error == base.error, "with other contents of fields that are not required: " + (o.error.empty() ? "no error" : o.error) + " instead of " + (base.error.empty() ? "success" : base.error))) return;
  if (!o.error.empty()) { vp::Outcome(o.error); vp::Fail("refused: " + o.error); return; }
  vp::Trace();
  const Fields know = Fields(o.req) | o.prov;
  if (!vp::Check(o.reg.size() == base.reg.size() && o.bda.size() == base.bda.size(), "another number of outputs")) return;
  if (c.keeps && !c.bda) vp::Check(o.reg.size() == size_t(ntime) * c.keeps, "wrong number of outputs");
  for (size_t i = 0; i < o.reg.size(); ++i) {
    const DPBuffer &a = *o.reg[i], &b = *base.reg[i];
    const std::string n = "output " + std::to_string(i);
    vp::Check(a.GetTime() == b.GetTime() && a.GetExposure() == b.GetExposure(), n + ": other time or exposure");
    vp::Check(!know.Data() || SameVis(a.GetData(), b.GetData()), n + ": visibilities depend on fields that are not required");
    vp::Check(!know.Flags() || (a.GetFlags().shape() == b.GetFlags().shape() && Bits(a.GetFlags(), b.GetFlags())), n + ": flags depend on fields that are not required");
    vp::Check(!know.Weights() || (a.GetWeights().shape() == b.GetWeights().shape() && Equal(a.GetWeights().data(), b.GetWeights().data(), a.GetWeights().size())), n + ": weights depend on fields that are not required");
    vp::Check(!know.Uvw() || (a.GetUvw().shape() == b.GetUvw().shape() && Equal(a.GetUvw().data(), b.GetUvw().data(), a.GetUvw().size())), n + ": uvw depend on fields that are not required");
    if (c.bda || (!c.keeps && (c.type != "filter" || o.prov.Uvw()))) continue;
    const DPBuffer& in = *o.in[i / std::max(c.keeps, 1)];
    // What is not provided is passed on as it came.
    vp::Check(o.prov.Uvw() || Bits(a.GetUvw(), in.GetUvw()), n + ": uvw changed but not among the provided fields");
    if (!c.keeps) continue;
    vp::Check(o.prov.Data() || Bits(a.GetData(), in.GetData()), n + ": visibilities changed but not among the provided fields");
    vp::Check(o.prov.Flags() || Bits(a.GetFlags(), in.GetFlags()), n + ": flags changed but not among the provided fields");
    vp::Check(o.prov.Weights() || Bits(a.GetWeights(), in.GetWeights()), n + ": weights changed but not among the provided fields");
    vp::Check(a.GetData().size() == 0 || a.GetData().shape() == in.GetData().shape(), n + ": shape of the visibilities changed");
    vp::Check(c.keeps > 1 || (a.GetTime() == in.GetTime() && a.GetExposure() == in.GetExposure()), n + ": time or exposure changed");
    vp::Check(a.GetRowNumbers().size() == in.GetRowNumbers().size() && std::equal(a.GetRowNumbers().begin(), a.GetRowNumbers().end(), in.GetRowNumbers().begin()), n + ": row numbers changed");
    vp::Check(a.GetSolution().size() == 1 && a.GetSolution().count("gain") && Bits(a.GetSolution().at("gain"), in.GetSolution().at("gain")), n + ": solutions lost or changed");
    if (c.type == "combine") vp::Check(!a.HasData("model"), n + ": the combined visibilities are still there");
    else if (c.type == "phaseshift" || c.type == "scaledata" || c.type == "nullstokes") vp::Check(a.HasData("model"), n + ": extra visibilities lost");
    else vp::Check(a.HasData("model") && Bits(a.GetData("model"), in.GetData("model")), n + ": extra visibilities lost or changed");
  }
  for (size_t i = 0; i < o.bda.size(); ++i) {
    const std::string n = "output " + std::to_string(i);
    CompareBda(*o.bda[i], *base.bda[i], know.Data(), know.Flags(), know.Weights(), !c.bda && know.Uvw(), n + " depends on fields that are not required");
    if (!c.bda || !c.keeps) continue;
    const BdaBuffer& in = *o.bda_in[i];
    CompareBda(*o.bda[i], in, !o.prov.Data() && q.data, !o.prov.Flags() && q.flags, !o.prov.Weights() && q.weights, true, n + ": a field that is not provided");
  }
  std::string out;
  for (auto& b : o.reg) out += std::to_string(b->GetFlags().size() ? std::count(b->GetFlags().begin(), b->GetFlags().end(), true) : 0) + ",";
  vp::Outcome(c.Text() + out);
}

int main(int argc, char** argv) {
  vp::Init(argc, argv);
  const auto configs = Configs();
  const std::vector<unsigned> slots = vp::Thorough() ? std::vector<unsigned>{0, 1, 2, 3, 4, 5, 6, 7} : std::vector<unsigned>{0, 1, 3, 6};
  const std::vector<int> free_values = vp::Thorough() ? std::vector<int>{0, 1, 2, 3, 4} : std::vector<int>{0, 2, 3};
  const std::vector<int> fixed_values = vp::Thorough() ? std::vector<int>{1, 2, 3} : std::vector<int>{1, 2};
  for (const Config& c : configs) {
    const Fields r = Make(c)->getRequiredFields();
    for (unsigned n : slots) {
      if (n == 0 && c.bda) continue;
      for (int d : r.Data() ? fixed_values : free_values) for (int f : r.Flags() ? fixed_values : free_values) for (int w : r.Weights() ? fixed_values : free_values) for (int u : r.Uvw() ? fixed_values : free_values) Run(c, n, Contents{d, f, w, u});
    }
  }
  return vp::Finish();
}
