// C01: every history of operations up to a depth on real parameter sets,
// compared with the reference dictionary after the last operation (shorter
// histories are themselves enumerated, so every step of every history is
// compared).
#include "vp.h"
#include "parset_model.h"
#include "common/ParameterSet.h"
#include "common/ParameterRecord.h"
#include <fstream>

using dp3::common::KeyCompare;
using dp3::common::ParameterSet;

struct World {
  ParameterSet a, b;
  std::shared_ptr<RefSet> ra, rb;
  explicit World(bool nocase)
      : a(nocase ? KeyCompare::NOCASE : KeyCompare::NORMAL), b(nocase) {
    ra = std::make_shared<RefSet>();
    rb = std::make_shared<RefSet>();
    ra->nocase = rb->nocase = nocase;
  }
};

struct Op {
  std::string name;
  // Returns "" or a description of the disagreement.
  std::function<std::string(World&)> run;
};

static std::string ExpectThrow(bool want, const std::function<void()>& f) {
  std::string r = vp::Throws(f);
  if (want && r.empty()) return "no error was raised where one is required";
  if (!want && !r.empty()) return "an error was raised where none is allowed";
  return "";
}

static std::vector<Op> Ops() {
  std::vector<Op> ops;
  auto op = [&](const std::string& n, std::function<std::string(World&)> f) { ops.push_back({n, f}); };
  auto add = [&](const std::string& k, const std::string& v) {
    op("add(" + k + "," + v + ")", [=](World& w) {
      const bool ok = w.ra->Add(k, v);
      return ExpectThrow(!ok, [&] { w.a.add(k, v); });
    });
  };
  auto rep = [&](const std::string& k, const std::string& v) {
    op("replace(" + k + "," + v + ")", [=](World& w) {
      w.ra->Replace(k, v);
      return ExpectThrow(false, [&] { w.a.replace(k, v); });
    });
  };
  add("a.b", "1"); add("a", "2"); add("A.b", "3"); add("ab.c", "4");
  rep("a.b", "5"); rep("A", "6"); rep("b", " 7 ");
  for (std::string k : {"a", "A.B", "b"})
    op("remove(" + k + ")", [=](World& w) { w.ra->Remove(k); return ExpectThrow(false, [&] { w.a.remove(k); }); });
  op("clear()", [](World& w) { w.ra->kv.clear(); return ExpectThrow(false, [&] { w.a.clear(); }); });
  op("adoptBuffer('a.b=8 / x=9','')", [](World& w) {
    w.ra->Define("a.b", "8"); w.ra->Define("x", "9");
    return ExpectThrow(false, [&] { w.a.adoptBuffer("a.b=8\nx=9\n"); }); });
  op("adoptBuffer('b=1 / b=2','a.')", [](World& w) {
    w.ra->Define("a.b", "2");
    return ExpectThrow(false, [&] { w.a.adoptBuffer("b=1\nb=2\n", "a."); }); });
  op("adoptFile('b=f','A.')", [](World& w) {
    { std::ofstream f("f.parset"); f << "b=f\n# c\n"; }
    w.ra->Define("A.b", "f");
    return ExpectThrow(false, [&] { w.a.adoptFile("f.parset", "A."); }); });
  op("adoptFile(missing)", [](World& w) { return ExpectThrow(true, [&] { w.a.adoptFile("no.such.file"); }); });
  op("A.adoptCollection(B,'')", [](World& w) {
    if (w.ra != w.rb) w.ra->Adopt(std::vector<std::pair<std::string, std::string>>(w.rb->kv), "");
    return ExpectThrow(false, [&] { w.a.adoptCollection(w.b); }); });
  op("A.adoptCollection(B,'a.')", [](World& w) {
    w.ra->Adopt(std::vector<std::pair<std::string, std::string>>(w.rb->kv), "a.");
    return ExpectThrow(false, [&] { w.a.adoptCollection(w.b, "a."); }); });
  op("adoptArguments(a=1,junk,b=x=y)", [](World& w) {
    w.ra->Replace("a", "1"); w.ra->Replace("b", "x=y");
    return ExpectThrow(false, [&] { w.a.adoptArguments({"a=1", "junk", "b= x=y "}); }); });
  for (std::string p : {"a", "A.", ""})
    op("subtract('" + p + "')", [=](World& w) { w.ra->Subtract(p); return ExpectThrow(false, [&] { w.a.subtractSubset(p); }); });
  op("B=A", [](World& w) { w.rb = w.ra; w.b = w.a; return std::string(); });
  op("B=copy(A)", [](World& w) { w.rb = w.ra; ParameterSet t(w.a); w.b = t; return std::string(); });
  op("B=A.subset('a.')", [](World& w) { w.rb = w.ra->Subset("a.", ""); w.b = w.a.makeSubset("a."); return std::string(); });
  op("B=A.subset('A','q.')", [](World& w) { w.rb = w.ra->Subset("A", "q."); w.b = w.a.makeSubset("A", "q."); return std::string(); });
  op("B.replace(a,9)", [](World& w) { w.rb->Replace("a", "9"); w.b.replace("a", "9"); return std::string(); });
  op("swap(A,B)", [](World& w) { std::swap(w.ra, w.rb); ParameterSet t(w.a); w.a = w.b; w.b = t; return std::string(); });
  op("getString(a.b,dflt)", [](World& w) {
    const int i = w.ra->Find("a.b");
    const std::string want = i < 0 ? "dflt" : w.ra->kv[i].second;
    if (i >= 0) w.ra->asked.insert(w.ra->kv[i].first);
    const std::string got = w.a.getString("a.b", "dflt");
    return got == want ? std::string() : "getString with default: got " + got + " want " + want; });
  return ops;
}

static std::string Dump(const std::vector<std::pair<std::string, std::string>>& kv) {
  std::string t;
  for (auto& e : kv) t += "[" + e.first + "]=[" + e.second + "];";
  return t;
}

static void Observe(const char* who, ParameterSet& s, RefSet& r) {
  std::vector<std::pair<std::string, std::string>> got;
  const ParameterSet& cs = s;
  for (auto it = cs.begin(); it != cs.end(); ++it) got.emplace_back(it->first, it->second.get());
  vp::Check(got == r.kv, std::string(who) + ": contents are " + Dump(got) + " want " + Dump(r.kv));
  vp::Check(cs.size() == int(r.kv.size()) && cs.empty() == r.kv.empty(), std::string(who) + ": size/empty wrong");
  std::string text;
  cs.writeBuffer(text);
  std::ostringstream os; os << cs;
  vp::Check(text == r.Text() && os.str() == text, std::string(who) + ": written text is " + vp::Show(text) + " want " + vp::Show(r.Text()));
  for (const char* k : {"a", "a.b", "A.b", "ab.c", "b", "x", "q..b", "zz"}) {
    const int i = r.Find(k);
    vp::Check(cs.isDefined(k) == (i >= 0), std::string(who) + ": isDefined(" + k + ") wrong");
    vp::Check((cs.find(k) != cs.end()) == (i >= 0), std::string(who) + ": find(" + k + ") wrong");
    std::string v;
    const std::string e = vp::Throws([&] { v = cs.get(k).get(); });
    vp::Check(e.empty() == (i >= 0), std::string(who) + ": get(" + k + ") " + (e.empty() ? "returned" : "failed"));
    if (i >= 0 && e.empty()) vp::Check(v == r.kv[i].second, std::string(who) + ": get(" + k + ")=" + v);
    std::string s2;
    const std::string e2 = vp::Throws([&] { s2 = cs.getString(k); });
    vp::Check(e2.empty() == (i >= 0), std::string(who) + ": getString(" + k + ") error behaviour");
    if (i >= 0 && e2.empty()) vp::Check(s2 == r.kv[i].second, std::string(who) + ": getString(" + k + ")=" + s2);
    vp::Check(cs.getString(k, "D") == (i >= 0 ? r.kv[i].second : "D"), std::string(who) + ": getString default " + k);
  }
  // Looking things up changed nothing.
  std::string text2;
  cs.writeBuffer(text2);
  vp::Check(text2 == text, std::string(who) + ": lookups changed the set");
}

// Lookups of every type, with and without default, in sets where the key is
// present, absent or present in another spelling.
static void TypedLookups(bool nocase) {
  struct Val { const char *text; };
  const char* texts[] = {"1", "0", "17", "true", "2.5", "-3", "[1,0]", "[]"};
  for (int present = 0; present < 3; ++present) for (const char* t : texts) {
    if (!vp::Case(std::string(nocase ? "nocase:" : "case:") + "typed lookups " + (present == 0 ? "absent" : present == 1 ? "present " : "other spelling ") + t)) continue;
    ParameterSet s(nocase ? KeyCompare::NOCASE : KeyCompare::NORMAL);
    s.add("zz", "99");
    if (present) s.add(present == 1 ? "k.v" : "K.v", t);
    const bool there = present == 1 || (present == 2 && nocase);
    const dp3::common::ParameterValue v{std::string(t)};
    std::ostringstream o; o << s; const std::string before = o.str();
    auto one = [&](const char* what, auto def, auto plain, auto withdef, auto direct) {
      decltype(def) x{}, y{}, z{};
      const std::string e0 = vp::Throws([&] { z = direct(v); });
      const std::string e1 = vp::Throws([&] { x = plain(); });
      const std::string e2 = vp::Throws([&] { y = withdef(def); });
      vp::Step(2);
      vp::Check(e1.empty() == (there && e0.empty()), std::string(what) + ": lookup of " + (there ? "a present key " : "an absent key ") + (e1.empty() ? "succeeds" : "fails"));
      vp::Check(e2.empty() == (!there || e0.empty()), std::string(what) + ": lookup with default " + (e2.empty() ? "succeeds" : "fails"));
      if (there && e1.empty()) vp::Check(x == z, std::string(what) + ": lookup gives another value");
      if (e2.empty()) vp::Check(there ? y == z : y == def, std::string(what) + (there ? ": the default replaces the value" : ": another value than the default"));
    };
    using PV = dp3::common::ParameterValue;
#define VP_SCALAR(N, D) one(#N, D, [&] { return s.get##N("k.v"); }, [&](auto d) { return s.get##N("k.v", d); }, [](const PV& p) { return p.get##N(); })
    VP_SCALAR(Bool, true); VP_SCALAR(Bool, false); VP_SCALAR(Int, 5); VP_SCALAR(Uint, 5u); VP_SCALAR(Int32, int32_t(6)); VP_SCALAR(Uint32, uint32_t(6));
    VP_SCALAR(Int64, int64_t(7)); VP_SCALAR(Uint64, uint64_t(7)); VP_SCALAR(Float, 1.25f); VP_SCALAR(Double, 1.75); VP_SCALAR(String, std::string("dflt")); VP_SCALAR(Time, time_t(12345));
    VP_SCALAR(BoolVector, std::vector<bool>({true, false, true})); VP_SCALAR(IntVector, std::vector<int>({3, 4})); VP_SCALAR(UintVector, std::vector<unsigned>({3, 4, 5}));
    VP_SCALAR(FloatVector, std::vector<float>({0.5f})); VP_SCALAR(DoubleVector, std::vector<double>({0.25, 4})); VP_SCALAR(StringVector, std::vector<std::string>({"x", "y"}));
#undef VP_SCALAR
    std::ostringstream o2; o2 << s;
    vp::Check(o2.str() == before, "lookups changed the set");
    vp::Outcome(before);
    vp::Trace();
  }
}
// The module a name belongs to.
static void Modules() {
  const std::vector<std::string> keys{"d.p", "b.c.p", "a.b.c.d.param", "p", "e.b.q", "x.d.e.p"};
  const std::vector<std::string> names{"a", "b", "c", "d", "e", "p", "b.c", "a.b", "c.d", "d.e", "param", "a.b.c.d", "zz"};
  for (unsigned m = 0; m < 1u << keys.size(); ++m) {
    if (!vp::Case("modules " + vp::Str(m))) continue;
    ParameterSet s;
    std::vector<std::string> in;
    for (size_t i = 0; i < keys.size(); ++i) if (m >> i & 1) { s.add(keys[i], "1"); in.push_back(keys[i]); }
    std::sort(in.begin(), in.end());
    auto parts = [](const std::string& k) { std::vector<std::string> v(1); for (char c : k) if (c == '.') v.emplace_back(); else v.back() += c; return v; };
    for (auto& n : names) {
      const auto np = parts(n);
      std::string loc, full; bool got_loc = false, got_full = false;
      for (auto& k : in) {
        auto kp = parts(k); kp.pop_back();   // the module part
        if (!got_loc && np.size() == 1 && !kp.empty() && kp.back() == n) { got_loc = true; for (size_t i = 0; i + 1 < kp.size(); ++i) loc += kp[i] + "."; }
        for (size_t i = kp.size(); !got_full && i-- > 0;) if (i + np.size() <= kp.size() && std::equal(np.begin(), np.end(), kp.begin() + i)) { got_full = true; for (size_t j = 0; j < i; ++j) full += kp[j] + "."; full += n; }
      }
      vp::Step(2);
      if (np.size() == 1) vp::Check(s.locateModule(n) == loc, "locateModule(" + n + ") is '" + s.locateModule(n) + "', expected '" + loc + "'");
      vp::Check(s.fullModuleName(n) == full, "fullModuleName(" + n + ") is '" + s.fullModuleName(n) + "', expected '" + full + "'");
    }
    vp::Trace();
  }
}

int main(int argc, char** argv) {
  vp::Init(argc, argv);
  const std::vector<Op> ops = Ops();
  for (int nocase = 0; nocase < 2; ++nocase) TypedLookups(nocase);
  Modules();
  const int depth = vp::Thorough() ? 5 : 4;
  for (int nocase = 0; nocase < 2; ++nocase)
    for (int n = 0; n <= depth - (nocase && !vp::Thorough()); ++n) {
      std::vector<size_t> h(n, 0);
      for (;;) {
        if (vp::CaseF([&] {
              std::string k = nocase ? "nocase:" : "case:";
              for (size_t o : h) k += ops[o].name + ";";
              return k;
            })) {
          World w(nocase);
          for (size_t o : h) {
            const std::string bad = ops[o].run(w);
            vp::Step();
            if (!bad.empty()) vp::Fail(ops[o].name + ": " + bad);
          }
          Observe("A", w.a, *w.ra);
          Observe("B", w.b, *w.rb);
          vp::Trace();
          vp::Outcome(w.ra->Text() + "|" + w.rb->Text() + (w.ra == w.rb ? "=" : ""));
        }
        int i = n - 1;
        while (i >= 0 && ++h[i] == ops.size()) h[i--] = 0;
        if (i < 0) break;
      }
    }
  return vp::Finish();
}
