// C15: applying station Jones matrices, exact over Gaussian integers.
#include <algorithm>
#include "vp.h"
#include "base/Apply.h"
using dp3::base::Baseline; using dp3::base::cursor; using dp3::base::const_cursor;
typedef std::complex<double> C;
struct Layout { int c, f, b; const char* name; };   // which axis varies fastest: order of (correlation, channel, baseline) plus padding
int main(int argc, char** argv) {
  vp::Init(argc, argv);
  // Values: small Gaussian integers, all products and sums are exact.
  auto val = [](unsigned k) { static const C t[] = {C(1, 0), C(0, 1), C(2, -1), C(-1, 3), C(0, 0), C(-2, -2), C(3, 1), C(1, -4), C(5, 2), C(-3, 0), C(0, -5)}; return t[k % 11]; };
  auto run = [&](const std::vector<Baseline>& bl, size_t n_ch, size_t n_st, int layout, const std::vector<C>& jones /* n_st*4 */, const std::vector<C>& vis /* bl,ch,4 */, int bstride, int cstride) {
    const size_t nb = bl.size();
    // Strides of correlation, channel, baseline.
    size_t s0, s1, s2, size;
    const size_t fb = std::max<size_t>(nb, 1), fc = std::max<size_t>(n_ch, 1);
    switch (layout) {
      case 0: s0 = 1; s1 = 4; s2 = 4 * fc; size = s2 * fb; break;
      case 1: s0 = 1; s1 = 4 * fb; s2 = 4; size = s1 * fc; break;              // channel slowest
      case 2: s0 = fc * fb; s1 = 1; s2 = fc; size = s0 * 4; break;             // correlation slowest
      case 3: s0 = 2; s1 = 9; s2 = 9 * fc + 5; size = s2 * fb; break;          // padded
      default: s0 = fb; s1 = 4 * fb + 3; s2 = 1; size = s1 * fc; break;
    }
    const C guard(-777.0, 777.0);
    std::vector<C> data(size + 8, guard), want = data;
    for (size_t b = 0; b < nb; ++b) for (size_t ch = 0; ch < n_ch; ++ch) {
      const C* v = &vis[(b * n_ch + ch) * 4];
      C o[4] = {v[0], v[1], v[2], v[3]};
      const size_t p = bl[b].first, q = bl[b].second;
      if (p != q) {
        const C *P = &jones[p * 4], *Q = &jones[q * 4];
        for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) {
          C s = 0;
          for (int k = 0; k < 2; ++k) for (int l = 0; l < 2; ++l) s += P[i * 2 + k] * v[k * 2 + l] * std::conj(Q[j * 2 + l]);
          o[i * 2 + j] = s;
        }
      }
      for (int c = 0; c < 4; ++c) { data[c * s0 + ch * s1 + b * s2] = v[c]; want[c * s0 + ch * s1 + b * s2] = o[c]; }
    }
    std::vector<Baseline> bls(std::max<size_t>(nb * bstride, 1), Baseline(0, 0));
    for (size_t b = 0; b < nb; ++b) bls[b * bstride] = bl[b];
    std::vector<double> coeff(n_st * (8 * cstride + 3), -1e30);
    const size_t cs[2] = {size_t(cstride), size_t(8 * cstride + 3)}, ds[3] = {s0, s1, s2}, bs[1] = {size_t(bstride)};
    for (size_t s = 0; s < n_st; ++s) for (int c = 0; c < 4; ++c) { coeff[s * cs[1] + 2 * c * cs[0]] = jones[s * 4 + c].real(); coeff[s * cs[1] + (2 * c + 1) * cs[0]] = jones[s * 4 + c].imag(); }
    const std::vector<double> coeff0 = coeff;
    const std::vector<Baseline> bls0 = bls;
    dp3::base::apply(nb, n_ch, const_cursor<Baseline>(bls.data(), 1, bs), const_cursor<double>(coeff.data(), 2, cs), cursor<C>(data.data(), 3, ds));
    vp::Step(); vp::Trace();
    for (size_t i = 0; i < data.size(); ++i) if (data[i] != want[i]) { vp::Fail("element " + vp::Str(i) + " is " + vp::Str(data[i]) + ", expected " + vp::Str(want[i])); return; }
    vp::Check(coeff == coeff0 && bls == bls0, "the input was changed");
    vp::Outcome(vp::Hash(data.data(), data.size() * sizeof(C)));
  };
  // All baseline lists of up to L baselines over 3 stations (9 ordered pairs).
  const size_t L = vp::Thorough() ? 4 : 3;
  for (size_t nb = 0; nb <= L; ++nb) {
    size_t n_lists = 1;
    for (size_t i = 0; i < nb; ++i) n_lists *= 9;
    for (size_t list = 0; list < n_lists; ++list) for (size_t n_ch = 0; n_ch <= 3; ++n_ch) for (int layout = 0; layout < 5; ++layout) for (int v = 0; v < (vp::Thorough() ? 3 : 2); ++v) {
      if (!vp::CaseF([&] { return "list n=" + vp::Str(nb) + " list=" + vp::Str(list) + " channels=" + vp::Str(n_ch) + " layout=" + vp::Str(layout) + " values=" + vp::Str(v); })) continue;
      std::vector<Baseline> bl;
      for (size_t i = 0, l = list; i < nb; ++i, l /= 9) bl.push_back(Baseline(l % 9 / 3, l % 3));
      std::vector<C> jones, vis;
      for (size_t i = 0; i < 12; ++i) jones.push_back(val(i * 7 + v * 3 + i / 4));
      for (size_t i = 0; i < nb * n_ch * 4; ++i) vis.push_back(val(i * 5 + v + i / 3));
      run(bl, n_ch, 3, layout, jones, vis, 1 + v, 1 + v % 2);
    }
  }
  // One baseline: all unit impulses of both Jones matrices and the visibility,
  // with each of 1, i: identifies every coefficient of the product.
  for (int a = 0; a < 8; ++a) for (int b = 0; b < 8; ++b) for (int c = 0; c < 8; ++c) for (int order = 0; order < 2; ++order) for (int layout = 0; layout < 5; ++layout) {
    if (!vp::CaseF([&] { return "impulse " + vp::Str(a) + "," + vp::Str(b) + "," + vp::Str(c) + " order=" + vp::Str(order) + " layout=" + vp::Str(layout); })) continue;
    std::vector<C> jones(8), vis(4);
    jones[a / 2] = a % 2 ? C(0, 1) : C(1, 0);
    jones[4 + b / 2] = b % 2 ? C(0, 1) : C(1, 0);
    vis[c / 2] = c % 2 ? C(0, 1) : C(1, 0);
    run({order ? Baseline(1, 0) : Baseline(0, 1)}, 1, 2, layout, jones, vis, 1, 1);
  }
  // All pairs of Jones matrices and visibilities with entries from {0,1,i} (sampled by full product of the first rows).
  for (int j = 0; j < 81 * 81; ++j) for (int v = 0; v < (vp::Thorough() ? 81 : 9); ++v) {
    if (!vp::CaseF([&] { return "product " + vp::Str(j) + " " + vp::Str(v); })) continue;
    static const C t[] = {C(0, 0), C(1, 0), C(0, 1)};
    std::vector<C> jones, vis;
    for (int i = 0, x = j; i < 8; ++i, x /= 3) jones.push_back(t[x % 3]);
    const int code = vp::Thorough() ? v : (v * 37 + j) % 81;
    for (int i = 0, x = code; i < 4; ++i, x /= 3) vis.push_back(t[x % 3]);
    run({Baseline(0, 1)}, 1, 2, 0, jones, vis, 1, 1);
  }
  // Composition: applying A, then B equals applying B*A; the identity changes nothing.
  for (int a = 0; a < 121; ++a) {
    if (!vp::CaseF([&] { return "compose " + vp::Str(a); })) continue;
    std::vector<double> A(16), B(16), BA(16);
    auto m = [&](std::vector<double>& d, int s, int i) { return C(d[s * 8 + i * 2], d[s * 8 + i * 2 + 1]); };
    for (int s = 0; s < 2; ++s) for (int i = 0; i < 4; ++i) { C x = val(a + i * 3 + s), y = val(a / 11 + i * 5 + 2 * s); A[s * 8 + i * 2] = x.real(); A[s * 8 + i * 2 + 1] = x.imag(); B[s * 8 + i * 2] = y.real(); B[s * 8 + i * 2 + 1] = y.imag(); }
    for (int s = 0; s < 2; ++s) for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) { C x = m(B, s, i * 2) * m(A, s, j) + m(B, s, i * 2 + 1) * m(A, s, 2 + j); BA[s * 8 + (i * 2 + j) * 2] = x.real(); BA[s * 8 + (i * 2 + j) * 2 + 1] = x.imag(); }
    std::vector<C> d1(8), d2(8);
    for (int i = 0; i < 8; ++i) d1[i] = d2[i] = val(a + 2 * i);
    const Baseline bl(0, 1);
    const size_t cs[2] = {1, 8}, ds[3] = {1, 4, 8};
    auto ap = [&](std::vector<double>& j, std::vector<C>& d) { dp3::base::apply(1, 2, const_cursor<Baseline>(&bl), const_cursor<double>(j.data(), 2, cs), cursor<C>(d.data(), 3, ds)); };
    ap(A, d1); ap(B, d1); ap(BA, d2);
    vp::Step(3); vp::Trace();
    for (int i = 0; i < 8; ++i) vp::Check(d1[i] == d2[i], "composition differs at " + vp::Str(i));
    vp::Outcome(vp::Hash(d1.data(), sizeof(C) * 8));
  }
  return vp::Finish();
}
