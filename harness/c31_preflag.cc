// C31: flagging what matches all given criteria, or a logical expression of
// sets of criteria.
#include "vp.h"
#include "step_kit.h"
#include "steps/PreFlagger.h"
using namespace kit;
using dp3::steps::PreFlagger;
typedef std::complex<float> F;

static constexpr unsigned kAnt = 3, kBl = 6, kChan = 4, kTime = 4;
static const double kFirst = 3 * 86400.0 + 86393.0, kStep = 4;  // runs over midnight
struct World {
  Shape s; DPInfo info; std::vector<DPBuffer> in; unsigned ncorr;
  std::vector<double> len;
  explicit World(unsigned nc) : ncorr(nc) {
    s = Shape{kBl, kChan, nc, kAnt};
    s.interval = kStep; s.first_time = kFirst; s.ntime = kTime; s.freq0 = 120e6; s.width = 0.5e6;
    s.names = {"CS001", "CS002", "RS7"};
    s.pos = {{0, 0, 0}, {60, 0, 0}, {60, 300, 0}};
    AllBaselines(kAnt, true, s.a1, s.a2);
    info = Info(s);
    for (unsigned b = 0; b < kBl; ++b) { double d = 0; for (int i = 0; i < 3; ++i) d += std::pow(s.pos[s.a1[b]][i] - s.pos[s.a2[b]][i], 2); len.push_back(std::sqrt(d)); }
    for (unsigned t = 0; t < kTime; ++t) {
      auto b = Buffer(s, t);
      for (unsigned i = 0; i < kBl; ++i) {
        for (unsigned c = 0; c < kChan; ++c) {
          const unsigned k = (t * kBl + i) * kChan + c;
          bool f = k % 5 == 0, bad = false;
          for (unsigned p = 0; p < nc; ++p) {
            b->GetData()(i, c, p) = F(float(int(k * 7 + p * 3) % 13) - 5.5f, float(int(k * 5 + p * 11) % 17) - 7.75f);
            b->GetWeights()(i, c, p) = 1 + k % 3;
          }
          if (k % 7 == 3) { b->GetData()(i, c, k % nc) = F(NAN, 1); bad = true; }
          if (k % 11 == 5) { b->GetData()(i, c, (k + 1) % nc) = F(1, INFINITY); bad = true; }
          if (k % 6 == 2) { b->GetWeights()(i, c, (k / 6) % nc) = 0; bad = true; }
          for (unsigned p = 0; p < nc; ++p) b->GetFlags()(i, c, p) = f || bad;
        }
        b->GetUvw()(i, 0) = 30.0 * i + 2 * t + 0.5; b->GetUvw()(i, 1) = i % 2 ? 12.5 : -4; b->GetUvw()(i, 2) = 500;
      }
      in.emplace_back(*b);
    }
  }
};
typedef std::function<bool(const World&, unsigned, unsigned, unsigned)> Pred;  // time slot, baseline, channel
struct Crit { std::string key, value; int group; Pred pred; };
static double Dist(const World& w, unsigned t, unsigned b) { const auto& u = w.in[t].GetUvw(); return std::hypot(u(b, 0), u(b, 1)); }
static double Tod(unsigned t) { return std::fmod(kFirst + t * kStep, 86400); }

static std::vector<Crit> Criteria() {
  std::vector<Crit> v;
  auto add = [&](int g, std::string k, std::string val, Pred p) { v.push_back({std::move(k), std::move(val), g, std::move(p)}); };
  auto slots = [&](std::string val, std::set<unsigned> s) { add(0, "timeslot", val, [s](const World&, unsigned t, unsigned, unsigned) { return s.count(t) > 0; }); };
  slots("[1]", {1}); slots("[0..2]", {0, 1, 2}); slots("[3,0]", {0, 3}); slots("2", {2}); slots("[9]", {});
  auto tod = [&](std::string val, std::function<bool(double)> f) { add(1, "timeofday", val, [f](const World&, unsigned t, unsigned, unsigned) { return f(Tod(t)); }); };
  tod("[23:59:50..23:59:58]", [](double x) { return x > 86390 && x < 86398; });
  tod("[23:59:55..0:0:3]", [](double x) { return x > 86395 || x < 3; });
  tod("[0:0:0+-5s]", [](double x) { return x > 86395 || x < 5; });
  tod("[23:59:59+-3s]", [](double x) { return x > 86396 || x < 2; });
  tod("[1h..2h, 0:0:0.5..0:0:2]", [](double x) { return (x > 3600 && x < 7200) || (x > 0.5 && x < 2); });
  auto rel = [&](std::string val, double lo, double hi) { add(2, "reltime", val, [=](const World&, unsigned t, unsigned, unsigned) { const double x = t * kStep + kStep / 2; return x > lo && x < hi; }); };
  rel("[0s..3s]", 0, 3); rel("[0:0:9+-4s]", 5, 13); rel("[1min..2min]", 60, 120);
  auto abs = [&](std::string val, double lo, double hi) { add(3, "abstime", val, [=](const World&, unsigned t, unsigned, unsigned) { const double x = kFirst + t * kStep; return x > lo && x < hi; }); };
  // Day 3 of the modified Julian calendar is 20 November 1858.
  abs("[20-Nov-1858/23:59:50..21-Nov-1858/00:00:02]", 3 * 86400.0 + 86390, 4 * 86400.0 + 2);
  abs("[21-Nov-1858/00:00:00+-4s]", 4 * 86400.0 - 4, 4 * 86400.0 + 4);
  auto bl = [&](int g, std::string k, std::string val, std::function<bool(const World&, unsigned)> f) { add(g, k, val, [f](const World& w, unsigned, unsigned b, unsigned) { return f(w, b); }); };
  auto name = [](const World& w, unsigned b, std::string n) { return w.s.names[w.s.a1[b]] == n || w.s.names[w.s.a2[b]] == n; };
  auto core = [](const World& w, int a) { return w.s.names[a][0] == 'C'; };
  bl(4, "baseline", "[RS7]", [=](const World& w, unsigned b) { return name(w, b, "RS7"); });
  bl(4, "baseline", "[[CS001,RS*]]", [=](const World& w, unsigned b) { return name(w, b, "CS001") && name(w, b, "RS7"); });
  bl(4, "baseline", "[[CS*,CS*]]", [=](const World& w, unsigned b) { return core(w, w.s.a1[b]) && core(w, w.s.a2[b]); });
  bl(4, "baseline", "[[RS7,CS00?],[CS001]]", [=](const World& w, unsigned b) { return name(w, b, "CS001") || (core(w, w.s.a1[b]) != core(w, w.s.a2[b])); });
  bl(4, "baseline", "[XX*]", [](const World&, unsigned) { return false; });
  bl(4, "baseline", "[[\"{CS002,RS7}\"]]", [=](const World& w, unsigned b) { return name(w, b, "CS002") || name(w, b, "RS7"); });
  bl(5, "corrtype", "auto", [](const World& w, unsigned b) { return w.s.a1[b] == w.s.a2[b]; });
  bl(5, "corrtype", "CROSS", [](const World& w, unsigned b) { return w.s.a1[b] != w.s.a2[b]; });
  bl(6, "blmin", "100", [](const World& w, unsigned b) { return w.len[b] < 100; });
  bl(6, "blmax", "50", [](const World& w, unsigned b) { return w.len[b] > 50; });
  bl(6, "blrange", "[10,80,302,1000]", [](const World& w, unsigned b) { const double l = w.len[b]; return (l > 10 && l < 80) || l > 302; });
  auto uv = [&](std::string k, std::string val, std::function<bool(double)> f) { add(k == "uvmmin" ? 7 : 8, k, val, [f](const World& w, unsigned t, unsigned b, unsigned) { return f(Dist(w, t, b)); }); };
  uv("uvmmin", "64", [](double d) { return d < 64; }); uv("uvmmin", "20", [](double d) { return d < 20; }); uv("uvmmin", "0", [](double) { return false; });
  uv("uvmmax", "95", [](double d) { return d > 95; }); uv("uvmmax", "152", [](double d) { return d > 152; }); uv("uvmmax", "1e6", [](double) { return false; });
  auto ch = [&](std::string val, std::set<unsigned> s) { add(9, "chan", val, [s](const World&, unsigned, unsigned, unsigned c) { return s.count(c) > 0; }); };
  ch("[1]", {1}); ch("[0..nchan/4, nchan-1]", {0, 1, 3}); ch("[2*nchan-6..3]", {2, 3}); ch("[2..100, 50]", {2, 3}); ch("[7]", {}); ch("[nchan..nchan+3]", {});
  auto fr = [&](std::string val, std::set<unsigned> s) { add(10, "freqrange", val, [s](const World&, unsigned, unsigned, unsigned c) { return s.count(c) > 0; }); };
  fr("[119.9..120.6]", {0, 1}); fr("[121MHz+-300kHz]", {2}); fr("[0.1212 .. 0.1218 GHz, 119..120.1 MHz]", {0, 3}); fr("[1..2MHz]", {}); fr("[120400..121100 kHz]", {1, 2});
  auto val = [&](int g, std::string k, std::string text, std::vector<float> lim, bool max, std::function<float(F)> f) {
    add(g, k, text, [=](const World& w, unsigned t, unsigned b, unsigned c) {
      for (unsigned p = 0; p < w.ncorr; ++p) { const float x = f(w.in[t].GetData()(b, c, p)); const float l = lim[p]; if (std::isnan(l)) continue; if (max ? x > l : x < l) return true; }
      return false;
    });
  };
  auto fa = [](F z) { return std::abs(z); }; auto fp = [](F z) { return std::arg(z); }; auto fre = [](F z) { return z.real(); }; auto fi = [](F z) { return z.imag(); };
  val(11, "amplmin", "4.2", {4.2f, 4.2f, 4.2f, 4.2f}, false, fa); val(11, "amplmin", "[,6.1]", {NAN, 6.1f, NAN, NAN}, false, fa);
  val(12, "amplmax", "8.3", {8.3f, 8.3f, 8.3f, 8.3f}, true, fa); val(12, "amplmax", "[6.2,,7.1,9.3]", {6.2f, NAN, 7.1f, 9.3f}, true, fa);
  val(13, "phasemin", "-1.1", {-1.1f, -1.1f, -1.1f, -1.1f}, false, fp); val(14, "phasemax", "[1.3,2]", {1.3f, 2, NAN, NAN}, true, fp);
  val(15, "realmin", "-3", {-3, -3, -3, -3}, false, fre); val(16, "realmax", "[,,,4]", {NAN, NAN, NAN, 4}, true, fre); val(16, "realmax", "5.9", {5.9f, 5.9f, 5.9f, 5.9f}, true, fre);
  val(17, "imagmin", "[-6.9]", {-6.9f, NAN, NAN, NAN}, false, fi); val(18, "imagmax", "2.1", {2.1f, 2.1f, 2.1f, 2.1f}, true, fi);
  return v;
}
// The criteria min and max of one kind are alternatives: below the one or
// above the other. So are the two limits of the uv distance.
static Pred And(const std::vector<const Crit*>& c) {
  return [c](const World& w, unsigned t, unsigned b, unsigned ch) {
    auto kind = [](int g) { return g == 8 ? 7 : g >= 11 ? 11 + (g - 11) / 2 * 2 : g; };
    std::map<int, bool> hit;
    for (const Crit* x : c) hit[kind(x->group)] |= x->pred(w, t, b, ch);
    if (c.empty()) return false;
    for (auto& e : hit) if (!e.second) return false;
    return true;
  };
}

static void Run(const World& w, const std::vector<std::pair<std::string, std::string>>& kv0, int mode, const Pred& match) {
  static const char* modes[] = {"set", "Clear", "setcomplement", "clearother", "setOther", "clearcomplement"};
  auto kv = kv0;
  if (mode || kv.size() % 2) kv.emplace_back("p.mode", modes[mode]);
  std::shared_ptr<PreFlagger> step;
  auto sink = std::make_shared<Sink>();
  std::string err = vp::Throws([&] { step = std::make_shared<PreFlagger>(Parset(kv), "p."); step->setNextStep(sink); step->setInfo(w.info); });
  if (!vp::Check(err.empty(), "refused: " + err)) return;
  const Fields all = Step::kDataField | Step::kFlagsField | Step::kWeightsField | Step::kUvwField;
  unsigned long h = 0;
  for (unsigned t = 0; t < kTime; ++t) {
    auto b = std::make_unique<DPBuffer>(w.in[t], all);
    const bool strip = (t + mode) % 2;
    if (strip) Strip(*b, step->getRequiredFields());
    step->process(std::move(b));
    vp::Step();
    if (!vp::Check(sink->out.size() == t + 1, "time slot " + std::to_string(t) + " did not come out")) return;
    const DPBuffer& o = *sink->out[t];
    if (!strip) Kept(w.in[t]).Check(o, step->getProvidedFields());
    for (unsigned i = 0; i < kBl; ++i) for (unsigned c = 0; c < kChan; ++c) {
      bool m = match(w, t, i, c), f = w.in[t].GetFlags()(i, c, 0), bad = false;
      for (unsigned p = 0; p < w.ncorr; ++p) { const F z = w.in[t].GetData()(i, c, p); bad |= !std::isfinite(z.real()) || !std::isfinite(z.imag()) || w.in[t].GetWeights()(i, c, p) == 0; }
      if (mode >= 2) m = !m;
      const bool want = !m ? f : mode == 0 || mode == 2 || mode == 4 ? true : bad;
      for (unsigned p = 0; p < w.ncorr; ++p) {
        const bool g = o.GetFlags()(i, c, p);
        h = h * 31 + g + 1;
        if (g != want) { vp::Fail("flag of time slot " + std::to_string(t) + " baseline " + std::to_string(i) + " channel " + std::to_string(c) + " correlation " + std::to_string(p) + " is " + std::to_string(g)); return; }
      }
    }
  }
  step->finish();
  vp::Check(sink->finished == 1, "finish is not passed on");
  vp::Outcome(h);
  vp::Trace();
}

// Reference for expressions: or of and of (negated) names and parentheses.
// The value is a bit per combination of truth of the sets a, b and c.
struct Expr {
  const std::vector<int>& t; size_t p = 0; bool ok = true;
  int Or() { int v = And(); while (ok && p < t.size() && t[p] == 5) { ++p; v |= And(); } return v; }
  int And() { int v = Not(); while (ok && p < t.size() && t[p] == 4) { ++p; v &= Not(); } return v; }
  int Not() {
    if (p >= t.size()) { ok = false; return 0; }
    const int x = t[p++];
    if (x == 3) return ~Not() & 255;
    if (x <= 2) return x == 0 ? 0xaa : x == 1 ? 0xcc : 0xf0;
    if (x == 6) { int v = Or(); if (p >= t.size() || t[p] != 7) { ok = false; return 0; } ++p; return v; }
    ok = false; return 0;
  }
};

int main(int argc, char** argv) {
  vp::Init(argc, argv);
  const bool th = vp::Thorough();
  const std::vector<Crit> crit = Criteria();
  std::vector<World> worlds; for (unsigned nc : {1u, 2u, 4u}) worlds.emplace_back(nc);
  auto clash = [](const Crit& a, const Crit& b) { return a.group == b.group; };
  auto text = [](const std::vector<const Crit*>& c) { std::string s; for (auto x : c) s += " " + x->key + "=" + x->value; return s; };
  auto kvs = [](const std::vector<const Crit*>& c, const std::string& prefix) { std::vector<std::pair<std::string, std::string>> kv; for (auto x : c) kv.emplace_back(prefix + x->key, x->value); return kv; };
  auto valid = [](const std::vector<const Crit*>& c) { for (auto a : c) for (auto b : c) if (a->key == "uvmmin" && b->key == "uvmmax" && atof(a->value.c_str()) >= atof(b->value.c_str())) return false; return true; };
  const int n = crit.size();
  // One criterion, and none.
  for (unsigned w = 0; w < worlds.size(); ++w) for (int m = 0; m < 6; ++m) for (int i = -1; i < n; ++i) {
    std::vector<const Crit*> c; if (i >= 0) c = {&crit[i]};
    if (!vp::CaseF([&] { return "world " + std::to_string(w) + " mode " + std::to_string(m) + text(c); })) continue;
    Run(worlds[w], kvs(c, "p."), m, And(c));
  }
  // Pairs and triples.
  for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) if (!clash(crit[i], crit[j])) for (int m = 0; m < 4; ++m) {
    std::vector<const Crit*> c{&crit[i], &crit[j]};
    if (!valid(c)) continue;
    const unsigned w = (i + j + m) % 3;
    if (vp::CaseF([&] { return "world " + std::to_string(w) + " mode " + std::to_string(m) + text(c); })) Run(worlds[w], kvs(c, "p."), m, And(c));
  }
  for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) if (!clash(crit[i], crit[j])) for (int k = j + 1; k < n; ++k) if (!clash(crit[k], crit[j]) && !clash(crit[k], crit[i])) {
    if (!th && (i * 3 + j * 5 + k * 7) % 13) continue;
    std::vector<const Crit*> c{&crit[i], &crit[j], &crit[k]};
    if (!valid(c)) continue;
    const unsigned w = (i + j + k) % 3, m = (i + 2 * j + k) % 4;
    if (vp::CaseF([&] { return "world " + std::to_string(w) + " mode " + std::to_string(m) + text(c); })) Run(worlds[w], kvs(c, "p."), m, And(c));
  }
  // Expressions: all token sequences. Sets: a on channels, b on baselines, c
  // on time slots and values, and a parent with criteria of its own.
  static const char* spell[8][4] = {{"a", "a", "a", "a"}, {"Orb", "Orb", "Orb", "Orb"}, {"nota", "nota", "nota", "nota"}, {"!", "NOT ", "not ", "! "}, {"&", "&&", " AND ", " and "}, {"|", "||", " OR ", ","}, {"(", "(", " ( ", "("}, {")", ")", " )", ") "}};
  auto find = [&](const char* k, const char* v) { for (auto& c : crit) if (c.key == k && c.value == v) return &c; abort(); };
  const std::vector<std::vector<const Crit*>> sets{{find("chan", "[0..nchan/4, nchan-1]")}, {find("baseline", "[RS7]"), find("amplmax", "8.3")}, {find("timeslot", "[0..2]"), find("uvmmin", "64")}};
  const std::vector<std::vector<const Crit*>> parents{{}, {find("corrtype", "CROSS")}, {find("freqrange", "[121MHz+-300kHz]")}, {find("timeofday", "[0:0:0+-5s]")}};
  const int maxlen = th ? 7 : 5;
  std::vector<int> t;
  std::function<void(int)> rec = [&](int left) {
    if (!t.empty()) {
      unsigned h = 0; for (int x : t) h = h * 9 + x + 1;
      std::string e;
      for (size_t i = 0; i < t.size(); ++i) {
        std::string x = spell[t[i]][(h + i) % 4];
        // Names need a blank between them, and so do repeated operators.
        const bool a = !e.empty() && !strchr(" (", e.back()), b = !strchr(" ()", x[0]);
        if (a && b && (t[i] <= 3 || t[i - 1] >= 3)) e += ' ';
        e += x;
      }
      if (vp::CaseF([&] { return "expression '" + e + "'"; })) {
        Expr x{t}; const int v = x.Or();
        const bool ok = x.ok && x.p == t.size();
        const auto& parent = parents[h % 4];
        auto kv = kvs(parent, "p.");
        kv.emplace_back("p.expr", e);
        for (int i = 0; i < 3; ++i) { auto s = kvs(sets[i], std::string("p.") + spell[i][0] + "."); kv.insert(kv.end(), s.begin(), s.end()); }
        if (!ok) {
          vp::Check(!vp::Throws([&] { PreFlagger p(Parset(kv), "p."); }).empty(), "accepted");
          vp::Step(); vp::Trace();
        } else {
          const Pred a = And(sets[0]), b = And(sets[1]), c = And(sets[2]), q = And(parent);
          const bool none = parent.empty();
          Run(worlds[h % 3], kv, h % 4, [=](const World& w, unsigned tt, unsigned bl, unsigned ch) { return (none || q(w, tt, bl, ch)) && (v >> (a(w, tt, bl, ch) + 2 * b(w, tt, bl, ch) + 4 * c(w, tt, bl, ch)) & 1); });
        }
      }
    }
    if (left) for (int x = 0; x < 8; ++x) { t.push_back(x); rec(left - 1); t.pop_back(); }
  };
  rec(maxlen);
  // Refused settings.
  for (auto& kv : std::vector<std::pair<std::string, std::string>>{{"mode", "flag"}, {"timeofday", "[1:0:0]"}, {"timeofday", "[x..y]"}, {"reltime", "[10s..5s]"}, {"reltime", "[-5s..5s]"}, {"abstime", "[1:0:0..2:0:0]"}, {"timeofday", "[1:0:0+-0s]"}, {"freqrange", "[120]"}, {"chan", "[3..1]"}, {"chan", "[..2]"}, {"chan", "[2..]"}, {"corrtype", "both"}, {"blrange", "[1,2,3]"}, {"baseline", "[[a,b,c]]"}, {"baseline", "[a"}, {"amplmin", "[1,x]"}, {"expr", "a$b"}})
    if (vp::CaseF([&] { return "refuse " + kv.first + "=" + kv.second; })) {
      vp::Check(!vp::Throws([&] { PreFlagger p(Parset({{"p." + kv.first, kv.second}}), "p."); p.setInfo(worlds[1].info); }).empty(), "accepted");
      vp::Step(); vp::Trace();
    }
  if (vp::Case("refuse uvmmin >= uvmmax")) { vp::Check(!vp::Throws([&] { PreFlagger p(Parset({{"p.uvmmin", "5"}, {"p.uvmmax", "5"}}), "p."); p.setInfo(worlds[1].info); }).empty(), "accepted"); vp::Step(); vp::Trace(); }
  return vp::Finish();
}
