// C19: baseline numbering for every antenna count, pair and order.
#include "vp.h"
#include "common/baseline_indices.h"
using namespace dp3::common;
int main(int argc, char** argv) {
  vp::Init(argc, argv);
  const size_t max_n = vp::Thorough() ? 1200 : 400;
  for (int o = 0; o < 2; ++o) {
    const BaselineOrder order = o ? BaselineOrder::kRowMajor : BaselineOrder::kColumnMajor;
    for (size_t n = 0; n <= max_n; ++n) {
      if (!vp::CaseF([&] { return std::string(o ? "row-major" : "column-major") + " n=" + vp::Str(n); })) continue;
      vp::Step();
      const size_t nb = ComputeNBaselines(n);
      if (!vp::Check(nb == n * (n + 1) / 2, "number of baselines of " + vp::Str(n) + " antennas is " + vp::Str(nb))) continue;
      size_t expected = 0;
      uint64_t steps = 0;
      bool ok = true;
      auto pair = [&](size_t a, size_t b) {   // a <= b, in documented order
        const size_t i = ComputeBaselineIndex(a, b, n, order), j = ComputeBaselineIndex(b, a, n, order);
        const std::pair<size_t, size_t> back = ComputeBaseline(expected, n, order);
        steps += 3;
        if (i == expected && j == expected && back.first == a && back.second == b) { ++expected; return; }
        const std::string p = "(" + vp::Str(a) + "," + vp::Str(b) + ") of " + vp::Str(n) + ": ";
        ok = vp::Check(i == expected, p + "index " + vp::Str(i) + ", expected " + vp::Str(expected)) &&
             vp::Check(j == expected, p + "index of the swapped pair is " + vp::Str(j)) &&
             vp::Check(back.first == a && back.second == b, p + "inverse gives (" + vp::Str(back.first) + "," + vp::Str(back.second) + ")");
        ++expected;
      };
      if (o) { for (size_t a = 0; a < n && ok; ++a) for (size_t b = a; b < n && ok; ++b) pair(a, b); }
      else   { for (size_t b = 0; b < n && ok; ++b) for (size_t a = 0; a <= b && ok; ++a) pair(a, b); }
      if (!ok) continue;
      vp::Check(expected == nb, "not all indices are used");
      for (size_t a = 0; a < n; ++a) {
        const std::vector<size_t> list = ComputeBaselineList(a, n, order);
        ++steps;
        if (!vp::Check(list.size() == n, "baseline list of antenna " + vp::Str(a) + " has " + vp::Str(list.size()) + " entries")) break;
        for (size_t b = 0; b < n; ++b) {
          const size_t lo = std::min(a, b), hi = std::max(a, b);
          const size_t e = o ? lo * n - lo * (lo - 1) / 2 + (hi - lo) : hi * (hi + 1) / 2 + lo;
          if (list[b] != e) { vp::Fail("baseline list of antenna " + vp::Str(a) + " of " + vp::Str(n) + " has " + vp::Str(list[b]) + " at " + vp::Str(b) + ", expected " + vp::Str(e)); break; }
        }
      }
      vp::Step(steps); vp::Trace(expected);
      vp::Outcome(vp::Str(o) + ":" + vp::Str(nb));
    }
  }
  // Boundary pairs of very large arrays: the inverse uses a square root.
  for (int o = 0; o < 2; ++o) {
    const BaselineOrder order = o ? BaselineOrder::kRowMajor : BaselineOrder::kColumnMajor;
    for (size_t n : {1500, 2048, 4096, 5000, 10000, 20000, 40000, 65536, 100000}) {
      for (size_t a0 = 0; a0 < n; a0 += std::max<size_t>(1, n / 500)) {
        if (!vp::CaseF([&] { return std::string(o ? "row-major" : "column-major") + " n=" + vp::Str(n) + " a=" + vp::Str(a0); })) continue;
        // First, second, middle, last-but-one and last member of the row/column.
        for (size_t b0 : {size_t(0), size_t(1), n / 2, n - 2, n - 1}) {
          size_t a, b;
          if (o) { a = a0; b = std::min(n - 1, a0 + b0); } else { b = a0; a = std::min(a0, b0); }
          for (size_t aa : {a, b}) {
            const size_t bb = b;
            const size_t e = o ? aa * n - aa * (aa - 1) / 2 + (bb - aa) : bb * (bb + 1) / 2 + aa;
            vp::Step(2);
            const size_t i = ComputeBaselineIndex(aa, bb, n, order);
            const auto back = ComputeBaseline(e, n, order);
            vp::Check(i == e, "index of (" + vp::Str(aa) + "," + vp::Str(bb) + ") is " + vp::Str(i) + ", expected " + vp::Str(e));
            vp::Check(back.first == aa && back.second == bb, "inverse of " + vp::Str(e) + " gives (" + vp::Str(back.first) + "," + vp::Str(back.second) + ")");
            vp::Trace();
          }
        }
        vp::Outcome("big" + vp::Str(n) + "," + vp::Str(a0));
      }
    }
  }
  return vp::Finish();
}
