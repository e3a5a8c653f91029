// C07: unused-key report after every history of definitions and lookups.
#include "vp.h"
#include "parset_model.h"
#include "common/ParameterSet.h"
#include "common/ParameterRecord.h"

using dp3::common::KeyCompare;
using dp3::common::ParameterSet;

struct World {
  ParameterSet a, b;
  std::shared_ptr<RefSet> ra, rb;
  explicit World(bool nocase)
      : a(nocase ? KeyCompare::NOCASE : KeyCompare::NORMAL), b(nocase) {
    ra = std::make_shared<RefSet>(); rb = std::make_shared<RefSet>();
    ra->nocase = rb->nocase = nocase;
  }
};
struct Op { std::string name; std::function<void(World&)> run; };

static void Touch(RefSet& r, const std::string& k) {
  const int i = r.Find(k);
  if (i >= 0) r.asked.insert(r.kv[i].first);
}

// All typed lookups. Errors by conversion are irrelevant here.
typedef std::function<void(const ParameterSet&, const std::string&)> Getter;
static std::vector<std::pair<std::string, Getter>> Getters() {
  std::vector<std::pair<std::string, Getter>> g;
#define SC(T, D)                                                                                              \
  g.push_back({"get" #T, [](const ParameterSet& s, const std::string& k) { s.get##T(k); }});                  \
  g.push_back({"get" #T "+default", [](const ParameterSet& s, const std::string& k) { s.get##T(k, D); }});
#define VE(T, E)                                                                                              \
  g.push_back({"get" #T "Vector", [](const ParameterSet& s, const std::string& k) { s.get##T##Vector(k); }}); \
  g.push_back({"get" #T "Vector+default", [](const ParameterSet& s, const std::string& k) { s.get##T##Vector(k, std::vector<E>()); }}); \
  g.push_back({"get" #T "Vector+expand", [](const ParameterSet& s, const std::string& k) { s.get##T##Vector(k, std::vector<E>(), true); }});
  SC(Bool, true) SC(Int, 1) SC(Uint, 1u) SC(Int16, 1) SC(Uint16, 1) SC(Int32, 1) SC(Uint32, 1) SC(Int64, 1) SC(Uint64, 1)
  SC(Float, 1.0f) SC(Double, 1.0) SC(String, std::string("d")) SC(Time, time_t(1))
  VE(Bool, bool) VE(Int, int) VE(Uint, unsigned int) VE(Int16, int16_t) VE(Uint16, uint16_t) VE(Int32, int32_t) VE(Uint32, uint32_t)
  VE(Int64, int64_t) VE(Uint64, uint64_t) VE(Float, float) VE(Double, double) VE(String, std::string) VE(Time, time_t)
  g.push_back({"get", [](const ParameterSet& s, const std::string& k) { s.get(k); }});
  g.push_back({"[]", [](const ParameterSet& s, const std::string& k) { s[k]; }});
  g.push_back({"getVector", [](const ParameterSet& s, const std::string& k) { s.getVector(k); }});
  g.push_back({"getRecord", [](const ParameterSet& s, const std::string& k) { s.getRecord(k); }});
  g.push_back({"getSizeTVector", [](const ParameterSet& s, const std::string& k) { s.getSizeTVector(k); }});
  return g;
}

static std::vector<Op> Ops() {
  std::vector<Op> o;
  auto op = [&](const std::string& n, std::function<void(World&)> f) { o.push_back({n, f}); };
  for (std::string k : {"a", "a.b", "A.B", "c"}) {
    op("replace(" + k + ")", [=](World& w) { w.ra->Replace(k, "1"); w.a.replace(k, "1"); });
    op("getString(" + k + ",d)", [=](World& w) { Touch(*w.ra, k); w.a.getString(k, "d"); });
  }
  op("getInt(a.B)", [](World& w) { Touch(*w.ra, "a.B"); vp::Throws([&] { w.a.getInt("a.B"); }); });
  op("get(zz)", [](World& w) { vp::Throws([&] { w.a.get("zz"); }); });
  op("remove(a.b)", [](World& w) { w.ra->Remove("a.b"); w.a.remove("a.b"); });
  op("isDefined(all)", [](World& w) { for (auto k : {"a", "a.b", "c"}) w.a.isDefined(k); });
  op("iterate+size+find", [](World& w) { int n = w.a.size(); for (auto it = w.a.begin(); it != w.a.end(); ++it) n += it->second.get().size(); w.a.find("a"); });
  op("write", [](World& w) { std::string t; w.a.writeBuffer(t); std::ostringstream os; os << w.a; });
  op("unusedKeys", [](World& w) { w.a.unusedKeys(); });
  op("adoptBuffer", [](World& w) { w.ra->Define("a.b", "2"); w.ra->Define("z", "3"); w.a.adoptBuffer("a.b=2\nz=3\n"); });
  op("adoptArguments", [](World& w) { w.ra->Replace("a.b", "4"); w.ra->Replace("d", "5"); w.a.adoptArguments({"a.b=4", "d=5", "junk"}); });
  op("add(a)", [](World& w) { if (w.ra->Find("a") < 0) w.ra->Replace("a", "6"); vp::Throws([&] { w.a.add("a", "6"); }); });
  op("subtract(a.)", [](World& w) { w.ra->Subtract("a."); w.a.subtractSubset("a."); });
  op("B=A", [](World& w) { w.rb = w.ra; w.b = w.a; });
  op("B=A.subset(a.)", [](World& w) { w.rb = w.ra->Subset("a.", ""); w.b = w.a.makeSubset("a."); });
  op("B=A.subset(A,p)", [](World& w) { w.rb = w.ra->Subset("A", "p"); w.b = w.a.makeSubset("A", "p"); });
  op("B.getString(b)", [](World& w) { Touch(*w.rb, "b"); w.b.getString("b", ""); });
  op("A.adoptCollection(B)", [](World& w) { if (w.ra != w.rb) w.ra->Adopt(std::vector<std::pair<std::string, std::string>>(w.rb->kv), "");  w.a.adoptCollection(w.b); });
  op("B.adoptCollection(A,p)", [](World& w) { w.rb->Adopt(std::vector<std::pair<std::string, std::string>>(w.ra->kv), "p"); w.b.adoptCollection(w.a, "p"); });
  op("swap", [](World& w) { std::swap(w.ra, w.rb); ParameterSet t(w.a); w.a = w.b; w.b = t; });
  return o;
}

static std::string Join(const std::vector<std::string>& v) { std::string t; for (auto& s : v) t += s + ","; return t; }

static void Observe(const char* who, const ParameterSet& s, const RefSet& r) {
  const auto got = s.unusedKeys();
  vp::Check(got == r.Unused(), std::string(who) + ": unused keys are " + Join(got) + " want " + Join(r.Unused()));
}

int main(int argc, char** argv) {
  vp::Init(argc, argv);
  // Part 1: every typed accessor, present/absent key, exact/other case, value
  // convertible or not, marks exactly the consulted key.
  const auto getters = Getters();
  for (int nocase = 0; nocase < 2; ++nocase)
    for (auto& g : getters)
      for (std::string k : {"a", "A", "b.x", "none"})
        for (std::string v : {"1", "[1,2]", "{p:1}", "text", "'", ""})
          if (vp::Case("accessor:" + g.first + ":" + k + ":" + v + (nocase ? ":nocase" : ""))) {
            World w(nocase);
            for (std::string d : {"a", "b.x", "b.y"}) { w.a.add(d, v); w.ra->Add(d, v); }
            vp::Throws([&] { g.second(w.a, k); });
            vp::Step();
            Touch(*w.ra, k);
            Observe("A", w.a, *w.ra);
            vp::Trace();
            vp::Outcome(Join(w.a.unusedKeys()));
          }
  // Part 2: histories.
  const auto ops = Ops();
  const int depth = vp::Thorough() ? 5 : 4;
  for (int nocase = 0; nocase < 2; ++nocase)
    for (int n = 0; n <= depth; ++n) {
      std::vector<size_t> h(n, 0);
      for (;;) {
        if (vp::CaseF([&] { std::string k = nocase ? "nocase:" : "case:"; for (size_t o : h) k += ops[o].name + ";"; return k; })) {
          World w(nocase);
          for (size_t o : h) { ops[o].run(w); vp::Step(); }
          Observe("A", w.a, *w.ra);
          Observe("B", w.b, *w.rb);
          vp::Trace();
          vp::Outcome(Join(w.ra->Unused()) + "|" + Join(w.rb->Unused()));
        }
        int i = n - 1;
        while (i >= 0 && ++h[i] == ops.size()) h[i--] = 0;
        if (i < 0) break;
      }
    }
  return vp::Finish();
}
