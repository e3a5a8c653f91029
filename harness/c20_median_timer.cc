// C20: median of every short sequence; timers over every history of a mocked
// clock; printed units.
#include "vp.h"
#include <algorithm>
#include <limits>
#include "common/Median.h"
#include "common/Timer.h"

struct MockClock {
  typedef std::chrono::nanoseconds duration;
  typedef duration::rep rep;
  typedef duration::period period;
  typedef std::chrono::time_point<MockClock> time_point;
  static const bool is_steady = true;
  static int64_t t;
  static time_point now() { return time_point(duration(t)); }
};
int64_t MockClock::t = 0;
typedef dp3::common::BaseTimer<MockClock> Timer;

template <typename T>
void Medians(const std::string& name, const std::vector<T>& alphabet, int max_len) {
  for (int n = 0; n <= max_len; ++n) {
    std::vector<int> idx(n, 0);
    while (true) {
      if (vp::CaseF([&] { std::string k = "median<" + name + ">"; for (int i : idx) k += " " + vp::Str(+alphabet[i]); return k; })) {
        std::vector<T> v, sorted;
        for (int i : idx) v.push_back(alphabet[i]);
        sorted = v;
        std::sort(sorted.begin(), sorted.end());
        const T want = n == 0 ? T(0) : n % 2 ? sorted[n / 2] : T((sorted[n / 2 - 1] + sorted[n / 2]) / T(2));
        const T got = dp3::common::Median(v);
        vp::Step(); vp::Trace();
        vp::Check(got == want, "median is " + vp::Str(+got) + ", expected " + vp::Str(+want));
        std::sort(v.begin(), v.end());
        vp::Check(v == sorted, "the median changed the set of values");
        vp::Outcome(name + vp::Str(+got));
      }
      int p = 0;
      while (p < n && ++idx[p] == int(alphabet.size())) idx[p++] = 0;
      if (p == n) break;
    }
  }
}

struct RefTimer { int64_t total = 0, start = 0; uint64_t count = 0; };

static void Compare(const std::string& who, const Timer& t, const RefTimer& r) {
  vp::Check(t.getCount() == r.count, who + " count " + vp::Str(t.getCount()) + ", expected " + vp::Str(r.count));
  const double want = r.total * 1e-9;
  vp::Check(std::fabs(t.getElapsed() - want) <= 1e-12 * std::fabs(want), who + " elapsed " + vp::Str(t.getElapsed()) + ", expected " + vp::Str(want));
  if (r.count) vp::Check(std::fabs(t.getAverage() - want / r.count) <= 1e-12 * std::fabs(want), who + " average " + vp::Str(t.getAverage()));
}

static void Timers() {
  const int depth = vp::Thorough() ? 7 : 6;
  const int n_ops = 10;
  std::vector<int> h;
  const char* names[] = {"a.start", "tick 1ns", "tick 1.5s", "a.stop", "b.start", "b.stop", "a.reset", "a+=b", "scope b", "accumulate"};
  std::function<void()> rec = [&] {
    if (!h.empty() && vp::CaseF([&] { std::string k = "timer"; for (int o : h) k += std::string("; ") + names[o]; return k; })) {
      MockClock::t = 1000;
      Timer a, b("nm");
      RefTimer ra, rb;
      double acc = 5.0, racc = 5.0;
      int64_t& t = MockClock::t;
      bool a_on = false, b_on = false;
      for (int o : h) {
        vp::Step();
        switch (o) {
          case 0: a.start(); ra.start = t; a_on = true; break;
          case 1: t += 1; break;
          case 2: t += 1500000000; break;
          case 3: if (a_on) { a.stop(); ra.total += t - ra.start; ++ra.count; a_on = false; } break;
          case 4: b.start(); rb.start = t; b_on = true; break;
          case 5: if (b_on) { b.stop(); rb.total += t - rb.start; ++rb.count; b_on = false; } break;
          case 6: a.reset(); ra.total = 0; ra.count = 0; break;
          case 7: { Timer& r = (a += b); vp::Check(&r == &a, "+= returns another object"); ra.total += rb.total; ra.count += rb.count; } break;
          case 8: { Timer::StartStop s(b); rb.start = t; t += 7000; } rb.total += 7000; ++rb.count; b_on = false; break;
          case 9: { dp3::common::ScopedMicroSecondAccumulator<double, MockClock> s(acc); t += 2500; } racc += 2.5; break;
        }
      }
      Compare("first timer", a, ra);
      Compare("second timer", b, rb);
      vp::Check(std::fabs(acc - racc) < 1e-9, "accumulated " + vp::Str(acc) + " us, expected " + vp::Str(racc));
      std::ostringstream os1, os2;
      a.print(os1); b.print(os2);
      vp::Check((os1.str() == "timer: not used") == (ra.count == 0), "printed as " + os1.str());
      vp::Check((os2.str().find("not used") != std::string::npos) == (rb.count == 0) && os2.str().substr(0, 2) == "nm", "printed as " + os2.str());
      for (auto* p : {&os1, &os2}) {
        const RefTimer& r = p == &os1 ? ra : rb;
        if (!r.count) continue;
        const double total = r.total * 1e-9;
        const std::string want = "avg = " + dp3::common::PrettyTime(total / r.count) + ", total = " + dp3::common::PrettyTime(total) + ", count = ";
        const size_t at = p->str().find(want);
        vp::Check(at != std::string::npos && strtoull(p->str().c_str() + at + want.size(), nullptr, 10) == r.count, "printed as " + p->str());
      }
      vp::Trace();
      vp::Outcome(os1.str() + os2.str());
    }
    if (int(h.size()) == depth) return;
    for (int o = 0; o < n_ops; ++o) { h.push_back(o); rec(); h.pop_back(); }
  };
  rec();
}

static void Pretty() {
  std::vector<double> mant = {1, 1.5, 2, 9, 9.94, 9.96, 10, 12.3, 55, 99.4, 99.6, 100, 123, 500, 998, 999, 999.4, 999.6};
  for (int i = 1; i < (vp::Thorough() ? 2000 : 300); ++i) mant.push_back(i * (vp::Thorough() ? 0.5 : 3.33));
  for (int e = -24; e <= 24; e += 3)
    for (double m : mant)
      for (int sign = -1; sign <= 1; sign += 2)
        for (unsigned prec : {1u, 2u, 3u, 4u, 5u, 6u})
          for (int kind = 0; kind < 2; ++kind) {
            const double v = sign * m * std::pow(10.0, e);
            if (!vp::CaseF([&] { return (kind ? "frequency " : "time ") + vp::Str(v) + " precision " + vp::Str(prec); })) continue;
            vp::Step(); vp::Trace();
            std::string s;
            if (kind) s = prec == 3 ? dp3::common::PrettyFrequency(v) : dp3::common::PrettyFrequency(v, prec);
            else s = prec == 3 ? dp3::common::PrettyTime(v) : dp3::common::PrettyTime(v, prec);
            const std::string unit = kind ? "Hz" : "s";
            static const std::string prefixes = "yzafpnum kMGTPEZY";
            // <number><space><prefix><unit>
            bool ok = s.size() >= unit.size() + 3 && s.substr(s.size() - unit.size()) == unit && s[s.size() - unit.size() - 2] == ' ';
            double back = 0;
            if (ok) {
              const size_t p = prefixes.find(s[s.size() - unit.size() - 1]);
              char* endp;
              back = strtod(s.c_str(), &endp);
              ok = p != std::string::npos && endp == s.c_str() + s.size() - unit.size() - 2;
              back *= std::pow(10.0, 3 * int(p) - 24);
            }
            if (!vp::Check(ok, "badly formed: '" + s + "'")) continue;
            vp::Check(std::fabs(back - v) <= 0.5000001 * std::pow(10.0, 1.0 - prec) * std::fabs(v), "printed as '" + s + "', which is " + vp::Str(back));
            vp::Check(s.size() - unit.size() - 2 >= prec + 1, "number not padded to the width: '" + s + "'");
            if (prec == 3 && e < 24) {
              const double num = std::fabs(strtod(s.c_str(), nullptr));
              vp::Check(num < 1000 && (num >= 0.99 || e == -24), "prefix out of scale: '" + s + "'");
            }
            vp::Outcome(s);
          }
  if (vp::Case("pretty zero")) {
    vp::Step(2);
    std::string z = dp3::common::PrettyTime(0), z2 = dp3::common::PrettyFrequency();
    vp::Check(z == "   0  s" && z2 == "   0  Hz", "zero printed as '" + z + "' / '" + z2 + "'");
    vp::Trace();
  }
}

int main(int argc, char** argv) {
  vp::Init(argc, argv);
  const int n = vp::Thorough() ? 8 : 7;
  Medians<double>("double", {-2.5, 0.0, 1.0, 1.25, 7.0}, n);
  Medians<float>("float", {-3.f, 0.f, 0.5f, 1e20f}, n);
  Medians<int>("int", {-7, 0, 3, 4}, n);
  Medians<double>("double, longer", {1.0, 2.0}, n + 9);
  for (int m = 2; m <= (vp::Thorough() ? 10 : 8); ++m) {   // all orders of distinct values
    std::vector<double> perm(m);
    for (int i = 0; i < m; ++i) perm[i] = i * i - 5;
    std::vector<double> sorted = perm;
    do {
      if (!vp::CaseF([&] { std::string k = "median of order"; for (double d : perm) k += " " + vp::Str(d); return k; })) continue;
      std::vector<double> v = perm;
      const double got = dp3::common::Median(v);
      vp::Step(); vp::Trace();
      const double want = m % 2 ? sorted[m / 2] : (sorted[m / 2 - 1] + sorted[m / 2]) / 2;
      if (got != want) vp::Fail("median is " + vp::Str(got) + ", expected " + vp::Str(want));
    } while (std::next_permutation(perm.begin(), perm.end()));
  }
  Timers();
  Pretty();
  return vp::Finish();
}
