// C16: subtracting a weighted model, exact over small integers.
#include <algorithm>
#include <limits>
#include "vp.h"
#include "base/SubtractMixed.h"
using dp3::base::Baseline; using dp3::base::cursor; using dp3::base::const_cursor;
typedef std::complex<double> C; typedef std::complex<float> F;
static void Strides(int layout, size_t nb, size_t nc, size_t* s, size_t& size) {
  nb = std::max<size_t>(nb, 1); nc = std::max<size_t>(nc, 1);
  switch (layout) {
    case 0: s[0] = 1; s[1] = 4; s[2] = 4 * nc; size = s[2] * nb; break;
    case 1: s[0] = 1; s[1] = 4 * nb; s[2] = 4; size = s[1] * nc; break;
    case 2: s[0] = nc * nb; s[1] = 1; s[2] = nc; size = s[0] * 4; break;
    case 3: s[0] = 2; s[1] = 9; s[2] = 9 * nc + 5; size = s[2] * nb; break;
    default: s[0] = nb; s[1] = 4 * nb + 3; s[2] = 1; size = s[1] * nc; break;
  }
  size += 8;
}
int main(int argc, char** argv) {
  vp::Init(argc, argv);
  auto run = [&](const std::vector<Baseline>& bl, size_t nc, int ld, int lm, int lw, int values, int nan_at, bool split) {
    const size_t nb = bl.size();
    size_t sd[3], sm[3], sw[3], nd, nm, nw;
    Strides(ld, nb, nc, sd, nd); Strides(lm, nb, nc, sm, nm); Strides(lw, nb, nc, sw, nw);
    std::vector<F> data(nd, F(-99, 98)); std::vector<C> model(nm, C(1e9, 1e9)), weight(nw, C(1e9, -1e9));
    unsigned k = values * 17 + 1;
    auto next = [&]() { k = k * 5 + 3; k %= 4099; return double(int(k % 9) - 4); };
    double before = 0, after = 0;
    std::vector<F> want = data;
    const float nan = std::numeric_limits<float>::quiet_NaN();
    int n = 0;
    for (size_t b = 0; b < nb; ++b) for (size_t ch = 0; ch < nc; ++ch) for (int c = 0; c < 4; ++c, ++n) {
      F d(next() * 3, next() * 3); C m(next(), next()), w(next(), next());
      if (values % 3 == 2) d = F(3 * std::ceil(d.real() / 3) , 4 * std::ceil(d.imag() / 3));
      if (n == nan_at) d = F(nan, 1);
      const size_t i = c * sd[0] + ch * sd[1] + b * sd[2];
      data[i] = d; model[c * sm[0] + ch * sm[1] + b * sm[2]] = m; weight[c * sw[0] + ch * sw[1] + b * sw[2]] = w;
      want[i] = d;
      if (bl[b].first != bl[b].second) {
        want[i] = F(float(d.real() - (w * m).real()), float(d.imag() - (w * m).imag()));
        if ((c == 0 || c == 3) && n != nan_at) { before += std::norm(C(d)); after += std::norm(C(want[i])); }
      }
    }
    const auto model0 = model, weight0 = weight;
    float vb = -5, va = -5;
    if (!split) {
      dp3::base::subtract(nb, nc, const_cursor<Baseline>(bl.data()), cursor<F>(data.data(), 3, sd), const_cursor<C>(model.data(), 3, sm), const_cursor<C>(weight.data(), 3, sw), vb, va);
      vp::Step();
    } else {      // channel by channel
      float tb = 0, ta = 0;
      for (size_t ch = 0; ch < nc; ++ch) {
        dp3::base::subtract(nb, 1, const_cursor<Baseline>(bl.data()), cursor<F>(data.data() + ch * sd[1], 3, sd), const_cursor<C>(model.data() + ch * sm[1], 3, sm), const_cursor<C>(weight.data() + ch * sw[1], 3, sw), vb, va);
        tb += vb; ta += va;
        vp::Step();
      }
      vb = tb; va = ta;
    }
    vp::Trace();
    for (size_t i = 0; i < nd; ++i) {
      const bool same = data[i] == want[i] || (std::isnan(want[i].real()) && std::isnan(data[i].real()));
      if (!same) { vp::Fail("element " + vp::Str(i) + " is " + vp::Str(data[i]) + ", expected " + vp::Str(want[i])); return; }
    }
    vp::Check(model == model0 && weight == weight0, "the model or the weights were changed");
    vp::Check(std::fabs(vb - before) <= 1e-4 * (1 + before), "power before is " + vp::Str(vb) + ", expected " + vp::Str(before));
    vp::Check(std::fabs(va - after) <= 1e-4 * (1 + after), "power after is " + vp::Str(va) + ", expected " + vp::Str(after));
    vp::Outcome(vp::Hash(data.data(), nd * sizeof(F)));
  };
  const size_t L = vp::Thorough() ? 5 : 4;
  for (size_t nb = 0; nb <= L; ++nb) {
    size_t n_lists = 1;
    for (size_t i = 0; i < nb; ++i) n_lists *= 4;   // 0-0, 0-1, 1-0, 1-1
    for (size_t list = 0; list < n_lists; ++list) for (size_t nc = 0; nc <= 3; ++nc) for (int lay = 0; lay < 125; ++lay) {
      if (!vp::Thorough() && nb > 2 && lay % 7 != int(list % 7)) continue;
      for (int split = 0; split < 2; ++split) for (int nan = -1; nan < 8; nan += 3) {
        if (split && nc == 0) continue;
        if (!vp::CaseF([&] { return "n=" + vp::Str(nb) + " list=" + vp::Str(list) + " channels=" + vp::Str(nc) + " layouts=" + vp::Str(lay) + " nan=" + vp::Str(nan) + (split ? " split" : ""); })) continue;
        std::vector<Baseline> bl;
        for (size_t i = 0, l = list; i < nb; ++i, l /= 4) bl.push_back(Baseline(l % 4 / 2, l % 2));
        if (bl.empty()) bl.reserve(1);
        run(bl, nc, lay % 5, lay / 5 % 5, lay / 25, list + lay, nan, split);
      }
    }
  }
  // Unit impulses: one non-zero model value and weight at a time.
  for (int ci = 0; ci < 2 * 3 * 4; ++ci) for (int wi = 0; wi < 2 * 3 * 4; ++wi) for (int u = 0; u < 4; ++u) {
    if (!vp::CaseF([&] { return "impulse model=" + vp::Str(ci) + " weight=" + vp::Str(wi) + " units=" + vp::Str(u); })) continue;
    std::vector<F> d(24); std::vector<C> m(24), w(24);
    m[ci] = u & 1 ? C(0, 2) : C(2, 0); w[wi] = u & 2 ? C(0, 3) : C(3, 0);
    const std::vector<Baseline> bl = {Baseline(0, 1), Baseline(2, 1)};
    const size_t s[3] = {1, 4, 12};
    float vb, va;
    dp3::base::subtract(2, 3, const_cursor<Baseline>(bl.data()), cursor<F>(d.data(), 3, s), const_cursor<C>(m.data(), 3, s), const_cursor<C>(w.data(), 3, s), vb, va);
    vp::Step(); vp::Trace();
    for (int i = 0; i < 24; ++i) { const F want = -F(m[i] * w[i]); vp::Check(d[i].real() == want.real() && d[i].imag() == want.imag(), "element " + vp::Str(i)); }
    vp::Check(vb == 0 && va == (ci == wi && (ci % 4 == 0 || ci % 4 == 3) ? 36.0f : 0.0f), "power " + vp::Str(vb) + " " + vp::Str(va));
    vp::Outcome(vp::Hash(d.data(), 24 * sizeof(F)));
  }
  return vp::Finish();
}
