// C06: all interleavings of threads that use one shared parameter set; every
// execution must be linearizable, race free and without use of freed memory.
#include "vp.h"
#include "vpsched.h"
#include "parset_model.h"
#include "common/ParameterSet.h"
#include "common/ParameterRecord.h"
using dp3::common::ParameterSet;

struct Ref { RefSet a, b; };
struct Real { ParameterSet a, b; };
struct Op { std::string name; std::function<std::string(Real&)> run; std::function<std::string(Ref&)> ref; };

static std::string Join(const std::vector<std::string>& v) { std::string t; for (auto& s : v) t += s + ","; return t; }
static void Touch(RefSet& r, const std::string& k) { const int i = r.Find(k); if (i >= 0) r.asked.insert(r.kv[i].first); }
static std::string Text(const ParameterSet& p) { std::string t; p.writeBuffer(t); return t; }
template <typename V> static std::string List(const V& v) { std::string t; for (size_t i = 0; i < v.size(); ++i) t += vp::Str(v[i]) + ","; return t; }

static std::vector<Op> Ops() {
  std::vector<Op> o;
  auto op = [&](const std::string& n, std::function<std::string(Real&)> f, std::function<std::string(Ref&)> g) { o.push_back({n, f, g}); };
  auto mut = [&](const std::string& n, std::function<void(ParameterSet&)> f, std::function<void(RefSet&)> g) {
    op(n, [f](Real& w) { return vp::Throws([&] { f(w.a); }); }, [g](Ref& w) { g(w.a); return std::string(); }); };
  for (std::string k : {"a.b", "d"}) {
    op("add(" + k + ")", [=](Real& w) { return vp::Throws([&] { w.a.add(k, "3"); }); }, [=](Ref& w) { return std::string(w.a.Add(k, "3") ? "" : "!exception"); });
    mut("replace(" + k + ")", [=](ParameterSet& p) { p.replace(k, "[4,5,a value that is not short]"); }, [=](RefSet& r) { r.Replace(k, "[4,5,a value that is not short]"); });
    op("getString(" + k + ",x)", [=](Real& w) { return w.a.getString(k, "x"); }, [=](Ref& w) { Touch(w.a, k); const int i = w.a.Find(k); return i < 0 ? "x" : w.a.kv[i].second; });
    op("getString(" + k + ")", [=](Real& w) { std::string r; const std::string e = vp::Throws([&] { r = w.a.getString(k); }); return e + r; }, [=](Ref& w) { Touch(w.a, k); const int i = w.a.Find(k); return i < 0 ? "!exception" : w.a.kv[i].second; });
  }
  mut("remove(a.b)", [](ParameterSet& p) { p.remove("a.b"); }, [](RefSet& r) { r.Remove("a.b"); });
  mut("clear", [](ParameterSet& p) { p.clear(); }, [](RefSet& r) { r.kv.clear(); });
  mut("subtract(a.)", [](ParameterSet& p) { p.subtractSubset("a."); }, [](RefSet& r) { r.Subtract("a."); });
  mut("adoptBuffer", [](ParameterSet& p) { p.adoptBuffer("a.b=6\nd=7\n"); }, [](RefSet& r) { r.Define("a.b", "6"); r.Define("d", "7"); });
  mut("adoptArguments", [](ParameterSet& p) { p.adoptArguments({"a.b=8", "e=9"}); }, [](RefSet& r) { r.Replace("a.b", "8"); r.Replace("e", "9"); });
  mut("adopt(itself,p.)", [](ParameterSet& p) { p.adoptCollection(p, "p."); }, [](RefSet& r) { r.Adopt(std::vector<std::pair<std::string, std::string>>(r.kv), "p."); });
  op("A.adopt(B)", [](Real& w) { return vp::Throws([&] { w.a.adoptCollection(w.b); }); }, [](Ref& w) { w.a.Adopt(w.b.kv, ""); return std::string(); });
  op("B.adopt(A)", [](Real& w) { return vp::Throws([&] { w.b.adoptCollection(w.a, "q."); }); }, [](Ref& w) { w.b.Adopt(w.a.kv, "q."); return std::string(); });
  op("B.replace(a.b)", [](Real& w) { w.b.replace("a.b", "11"); return std::string(); }, [](Ref& w) { w.b.Replace("a.b", "11"); return std::string(); });
  // The reference that get returns is not followed.
  op("get(a.b)", [](Real& w) { return vp::Throws([&] { w.a.get("a.b"); }); }, [](Ref& w) { Touch(w.a, "a.b"); return std::string(w.a.Find("a.b") < 0 ? "!exception" : ""); });
  op("isDefined", [](Real& w) { return vp::Str(w.a.isDefined("a.b")); }, [](Ref& w) { return vp::Str(w.a.Find("a.b") >= 0); });
  op("size", [](Real& w) { return vp::Str(w.a.size()); }, [](Ref& w) { return vp::Str(w.a.kv.size()); });
  op("empty", [](Real& w) { return vp::Str(w.a.empty()); }, [](Ref& w) { return vp::Str(w.a.kv.empty()); });
  op("subset(a.)", [](Real& w) { return Text(w.a.makeSubset("a.", "s.")); }, [](Ref& w) { return w.a.Subset("a.", "s.")->Text(); });
  op("unusedKeys", [](Real& w) { return Join(w.a.unusedKeys()); }, [](Ref& w) { return Join(w.a.Unused()); });
  op("write", [](Real& w) { return Text(w.a); }, [](Ref& w) { return w.a.Text(); });
  op("locateModule(a)", [](Real& w) { return w.a.locateModule("a"); }, [](Ref& w) { for (auto& e : w.a.kv) { const auto s = e.first.rfind('.'); if (s == std::string::npos) continue; const std::string m = e.first.substr(0, s); const auto d = m.rfind('.'); if (m.substr(d == std::string::npos ? 0 : d + 1) == "a") return d == std::string::npos ? std::string() : m.substr(0, d + 1); } return std::string(); });
  op("fullModuleName(a)", [](Real& w) { return w.a.fullModuleName("a"); }, [](Ref& w) { for (auto& e : w.a.kv) { if (e.first.substr(0, 2) == "a.") return std::string("a"); if (e.first.substr(0, 4) == "p.a.") return std::string("p.a"); } return std::string(); });
  op("getVector(a.b)", [](Real& w) { std::string r; const std::string e = vp::Throws([&] { for (auto& v : w.a.getVector("a.b")) r += v.get() + ";"; }); return e.empty() ? r : e; },
     [](Ref& w) { Touch(w.a, "a.b"); const int i = w.a.Find("a.b"); if (i < 0) return std::string("!exception"); const std::string& v = w.a.kv[i].second; return v[0] == '[' ? std::string("4;5;a value that is not short;") : v + ";"; });
  return o;
}

// Typed access of every kind, against every operation that changes the value.
static std::vector<Op> Typed() {
  std::vector<Op> o;
  // The value is "1", absent, "3" or "6".."11": always a number except the list.
  auto number = [](Ref& w, const std::string& absent, bool list) {
    Touch(w.a, "a.b");
    const int i = w.a.Find("a.b");
    if (i < 0) return absent;
    if (w.a.kv[i].second[0] == (char)91) return std::string("!exception");
    return w.a.kv[i].second + (list ? "," : "");
  };
#define SC(T, D)                                                                                                                                       \
  o.push_back({"get" #T, [](Real& w) { std::string r; const std::string e = vp::Throws([&] { r = vp::Str(w.a.get##T("a.b")); }); return e + r; },       \
               [=](Ref& w) { return number(w, "!exception", false); }});                                                                               \
  o.push_back({"get" #T "(default)", [](Real& w) { std::string r; const std::string e = vp::Throws([&] { r = vp::Str(w.a.get##T("a.b", D)); }); return e + r; }, \
               [=](Ref& w) { return number(w, "1", false); }});
#define VE(T, E)                                                                                                                                       \
  o.push_back({"get" #T "Vector", [](Real& w) { std::string r; const std::string e = vp::Throws([&] { r = List(w.a.get##T##Vector("a.b")); }); return e + r; }, \
               [=](Ref& w) { return number(w, "!exception", true); }});                                                                                \
  o.push_back({"get" #T "Vector(default)", [](Real& w) { std::string r; const std::string e = vp::Throws([&] { r = List(w.a.get##T##Vector("a.b", std::vector<E>(1, E(1)), true)); }); return e + r; }, \
               [=](Ref& w) { return number(w, "1,", true); }});
  SC(Int, 1) SC(Uint, 1u) SC(Int16, 1) SC(Uint16, 1) SC(Int32, 1) SC(Uint32, 1) SC(Int64, 1) SC(Uint64, 1) SC(Float, 1.0f) SC(Double, 1.0) SC(Time, time_t(1))
  VE(Int, int) VE(Uint, uint32_t) VE(Int16, int16_t) VE(Uint16, uint16_t) VE(Int32, int32_t) VE(Uint32, uint32_t) VE(Int64, int64_t) VE(Uint64, uint64_t)
  VE(Float, float) VE(Double, double) VE(Time, time_t)
  auto plain = [](Ref& w, const std::string& absent) { Touch(w.a, "a.b"); return w.a.Find("a.b") < 0 ? absent : std::string("yes"); };
  o.push_back({"getRecord", [](Real& w) { vp::Throws([&] { w.a.getRecord("a.b"); }); return std::string(); }, [=](Ref& w) { plain(w, ""); return std::string(); }});
  o.push_back({"getBool(any)", [](Real& w) { vp::Throws([&] { w.a.getBool("a.b"); }); return std::string(); }, [=](Ref& w) { plain(w, ""); return std::string(); }});
  o.push_back({"getBool(default)", [](Real& w) { vp::Throws([&] { w.a.getBool("a.b", true); }); return std::string(); }, [=](Ref& w) { plain(w, ""); return std::string(); }});
  o.push_back({"getBoolVector", [](Real& w) { vp::Throws([&] { w.a.getBoolVector("a.b"); }); return std::string(); }, [=](Ref& w) { plain(w, ""); return std::string(); }});
  o.push_back({"getBoolVector(default)", [](Real& w) { vp::Throws([&] { w.a.getBoolVector("a.b", std::vector<bool>()); }); return std::string(); }, [=](Ref& w) { plain(w, ""); return std::string(); }});
  o.push_back({"getStringVector", [](Real& w) { vp::Throws([&] { w.a.getStringVector("a.b"); }); return std::string(); }, [=](Ref& w) { plain(w, ""); return std::string(); }});
  o.push_back({"getStringVector(default)", [](Real& w) { vp::Throws([&] { w.a.getStringVector("a.b", std::vector<std::string>()); }); return std::string(); }, [=](Ref& w) { plain(w, ""); return std::string(); }});
  o.push_back({"getSizeTVector", [](Real& w) { vp::Throws([&] { w.a.getSizeTVector("a.b"); }); return std::string(); }, [=](Ref& w) { plain(w, ""); return std::string(); }});
  return o;
}

struct Event { int thread, index; uint64_t begin, end; std::string result; };

static void Initial(Real& w) { w.a = ParameterSet(); w.b = ParameterSet(); w.a.add("a.b", "1"); w.a.add("c", "2"); w.b.add("a.b", "10"); w.b.add("f", "12"); }
static Ref InitialRef() { Ref r; r.a.Add("a.b", "1"); r.a.Add("c", "2"); r.b.Add("a.b", "10"); r.b.Add("f", "12"); return r; }
static std::string Final(Real& w) { return Text(w.a) + "|" + Join(w.a.unusedKeys()) + "|" + Text(w.b) + "|" + Join(w.b.unusedKeys()); }
static std::string Final(Ref& w) { return w.a.Text() + "|" + Join(w.a.Unused()) + "|" + w.b.Text() + "|" + Join(w.b.Unused()); }

typedef std::vector<std::vector<const Op*>> Program;
static bool Linearizable(const Program& prog, const std::vector<std::vector<Event>>& ev, std::vector<size_t>& pos, const Ref& state, const std::string& final) {
  bool done = true;
  for (size_t t = 0; t < prog.size(); ++t) {
    if (pos[t] == prog[t].size()) continue;
    done = false;
    const Event& e = ev[t][pos[t]];
    // Not before an operation that ended before this one began.
    bool first = true;
    for (size_t u = 0; u < prog.size(); ++u) if (u != t && pos[u] < prog[u].size() && ev[u][pos[u]].end < e.begin) first = false;
    if (!first) continue;
    Ref next = state;
    if (prog[t][pos[t]]->ref(next) != e.result) continue;
    ++pos[t];
    const bool ok = Linearizable(prog, ev, pos, next, final);
    --pos[t];
    if (ok) return true;
  }
  if (!done) return false;
  Ref end = state;
  return Final(end) == final;
}

static void Run(const Program& prog, const std::string& key, int preemptions) {
  if (!vp::CaseF([&] { return key; })) return;
  Real real;
  std::vector<std::vector<Event>> ev;
  sched::Options opt;
  opt.max_preemptions = preemptions;
  const sched::Stats st = sched::Explore(
      [&] {
        Initial(real);
        ev.assign(prog.size(), {});
        std::vector<std::function<void()>> bodies;
        for (size_t t = 0; t < prog.size(); ++t) {
          ev[t].resize(prog[t].size());
          bodies.push_back([&, t] {
            for (size_t i = 0; i < prog[t].size(); ++i) {
              if (i) sched::Point();
              sched::SetOp(prog[t][i]->name.c_str());
              ev[t][i].begin = sched::Now();
              std::string r = prog[t][i]->run(real);
              ev[t][i].result.swap(r);
              ev[t][i].end = sched::Now();
            }
          });
        }
        return bodies;
      },
      [&](const std::string& problem) {
        vp::Progress();
        if (!problem.empty()) { vp::Fail(problem + " (schedule " + sched::Schedule() + ")"); return false; }
        std::string final = Final(real);
        std::vector<size_t> pos(prog.size(), 0);
        const Ref init = InitialRef();
        if (!Linearizable(prog, ev, pos, init, final)) {
          std::string r;
          for (size_t t = 0; t < prog.size(); ++t) for (size_t i = 0; i < prog[t].size(); ++i) r += prog[t][i]->name + "->" + vp::Show(ev[t][i].result) + " ";
          vp::Fail("no sequential order gives " + r + "and " + vp::Show(final) + " (schedule " + sched::Schedule() + ")");
          return false;
        }
        vp::Outcome(final);
        vp::Trace();
        return true;
      },
      opt);
  vp::Step(st.points);
  vp::Count("schedules", st.executions);
  vp::Count("memory_accesses_checked", st.accesses);
  vp::Count("lock_operations", st.locks);
  if (st.capped) vp::Count("executions_with_branch_limit");
}

int main(int argc, char** argv) {
  vp::Init(argc, argv);
  const auto ops = Ops();
  const auto typed = Typed();
  const int all = 1000000;
  for (auto& x : ops) for (auto& y : ops) {
    Run({{&x}, {&y}}, x.name + " || " + y.name, all);
    for (auto& z : ops) {
      Run({{&x, &z}, {&y}}, x.name + ";" + z.name + " || " + y.name, all);
    }
  }
  for (auto& x : typed) for (auto& y : ops) Run({{&x}, {&y}}, x.name + " || " + y.name, all);
  // Three threads; the order of the threads does not matter.
  for (size_t x = 0; x < ops.size(); ++x) for (size_t y = x; y < ops.size(); ++y) for (size_t z = y; z < ops.size(); ++z)
    Run({{&ops[x]}, {&ops[y]}, {&ops[z]}}, ops[x].name + " || " + ops[y].name + " || " + ops[z].name, vp::Thorough() ? 4 : 2);
  if (vp::Thorough())
    for (auto& x : ops) for (auto& y : ops) for (auto& z : ops) for (auto& u : ops)
      if (&x <= &z) Run({{&x, &y}, {&z, &u}}, x.name + ";" + y.name + " || " + z.name + ";" + u.name, 3);
  return vp::Finish();
}
