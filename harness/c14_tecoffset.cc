// C14: TEC/offset/delay fitting on a grid of noiseless wrapped model phases.
#include "vp.h"
#include "ddecal/constraints/TecOffsetDelayFitting.h"
static double Rem(double x) { return std::remainder(x, 2 * M_PI); }
static bool Near(double a, double b, double t = 1e-9) { return std::fabs(a - b) <= t * (1 + std::fabs(b)); }
typedef std::vector<double> V;
int main(int argc, char** argv) {
  vp::Init(argc, argv);
  std::vector<V> xs;
  for (int n : {12, 30}) for (auto r : {std::pair<double, double>{1.0, 1.5}, {1.2, 1.9}, {0.5, 0.8}}) {
    V x;
    for (int i = 0; i < n; ++i) x.push_back(r.first + (r.second - r.first) * i / (n - 1));
    xs.push_back(x);
  }
  xs.push_back({1.0, 1.02, 1.05, 1.11, 1.2, 1.25, 1.26, 1.33, 1.4, 1.47, 1.5, 1.56, 1.62, 1.7});
  auto weights = [](size_t n, int wp) { V w(n, 1.0); for (size_t i = 0; i < n; ++i) { if (wp == 1) w[i] = 0.25 + i % 3; if (wp == 2) w[i] = i % 4 == 1 ? 0.0 : 1.0; if (wp == 3) w[i] = i % 4 == 1 || i % 4 == 2 ? 0.0 : 0.5 + i % 3; if (wp == 4) w[i] = i == 0 || i + 2 >= n ? 0.0 : 1.0; } return w; };
  // Grid search.
  for (size_t l = 0; l < xs.size(); ++l) for (size_t wraps = 1; wraps <= (vp::Thorough() ? 4u : 2u); ++wraps) {
    const V& x = xs[l];
    const double range = 2 * M_PI * wraps, max_a = range / (1 / x.front() - 1 / x.back()), max_c = range / (x.back() - x.front());
    const int g = vp::Thorough() ? 8 : 5;
    for (int ia = -g; ia <= g; ++ia) for (int ic = -g; ic <= g; ++ic) for (int ib = -3; ib <= 3; ++ib) for (int wp = 0; wp < 5; ++wp) for (int method = 0; method < 2; ++method) {
      if (method == 1 && (ia + ib + ic + wp) % 8 != 0) continue;   // the nonlinear method is slow
      // Without offset: see the second search below. The first layout keeps
      // the cases that are recorded as a known finding.
      for (int with_b = 0; with_b < 2; ++with_b) {
        if (!with_b && (ib || l || wraps != 1 || wp || method || ia != -g || vp::Thorough())) continue;
        if (!vp::CaseF([&] { return "search layout=" + vp::Str(l) + " wraps=" + vp::Str(wraps) + " a=" + vp::Str(ia) + " b=" + vp::Str(ib) + " c=" + vp::Str(ic) + " weights=" + vp::Str(wp) + (method ? " VonMises" : " LeastSquares") + (with_b ? "" : " without offset"); })) continue;
        const double a = max_a * 0.97 * ia / g, b = ib * 1.03, c = max_c * 0.97 * ic / g;
        const V w = weights(x.size(), wp);
        V y(x.size());
        for (size_t i = 0; i < x.size(); ++i) y[i] = w[i] == 0 ? 1.7 * i : Rem(a / x[i] + b + c * x[i]) + (wp == 1 ? 2 * M_PI * (i % 2) : 0);
        const V y0 = y;
        const TecOffsetDelayValues fit = TecOffsetDelayGridSearch(x, y, w, with_b, wraps, method ? TecOffsetDelayFittingMethod::VonMises : TecOffsetDelayFittingMethod::LeastSquares);
        V m(x.size());
        EvaluateLinearTecOffsetValues(fit, x, m);
        vp::Step(2); vp::Trace();
        vp::Check(with_b || fit.b == 0.0, "offset fitted although it was excluded");
        for (size_t i = 0; i < x.size(); ++i) {
          if (!(m[i] >= -M_PI - 1e-12 && m[i] < M_PI + 1e-12) || !(std::fabs(Rem(m[i] - (fit.a / x[i] + fit.b + fit.c * x[i]))) < 1e-9)) { vp::Fail("evaluated phase of channel " + vp::Str(i) + " is " + vp::Str(m[i])); break; }
          if (w[i] != 0 && !(std::fabs(Rem(m[i] - y0[i])) < 1e-2)) { vp::Fail("fitted phase of channel " + vp::Str(i) + " is " + vp::Str(m[i]) + " for " + vp::Str(y0[i])); break; }
        }
        vp::Outcome(vp::Str(fit.a) + vp::Str(fit.b));
      }
    }
  }
  // Grid search without offset, where a grid point leaves less than half a turn
  // of residual in every channel.
  for (size_t l = 0; l < xs.size(); ++l) for (int wraps = 1; wraps <= (vp::Thorough() ? 4 : 2); ++wraps) for (int ka = -2 * wraps; ka <= 2 * wraps; ++ka) for (int kc = -2 * wraps; kc <= 2 * wraps; ++kc) for (int fa = -2; fa <= 2; ++fa) for (int fc = -2; fc <= 2; ++fc) for (int wp = 0; wp < 5; ++wp) for (int method = 0; method < 2; ++method) {
    if (method == 1 && (ka + kc + fa + fc + wp + 40) % 8 != 0) continue;
    if (!vp::CaseF([&] { return "search without offset layout=" + vp::Str(l) + " wraps=" + vp::Str(wraps) + " a=" + vp::Str(ka) + "," + vp::Str(fa) + " c=" + vp::Str(kc) + "," + vp::Str(fc) + " weights=" + vp::Str(wp) + (method ? " VonMises" : " LeastSquares"); })) continue;
    const V& x = xs[l];
    const double range = 2 * M_PI * wraps, max_a = range / (1 / x.front() - 1 / x.back()), max_c = range / (x.back() - x.front());
    const double a = max_a * ka / (2 * wraps) + 0.22 * fa * M_PI * x.front(), c = max_c * kc / (2 * wraps) + 0.22 * fc * M_PI / x.back();
    const V w = weights(x.size(), wp);
    V y(x.size());
    for (size_t i = 0; i < x.size(); ++i) y[i] = w[i] == 0 ? 1.7 * i : Rem(a / x[i] + c * x[i]) + (wp == 1 ? 2 * M_PI * (i % 2) : 0);
    const TecOffsetDelayValues fit = TecOffsetDelayGridSearch(x, y, w, false, wraps, method ? TecOffsetDelayFittingMethod::VonMises : TecOffsetDelayFittingMethod::LeastSquares);
    V m(x.size());
    EvaluateLinearTecOffsetValues(fit, x, m);
    vp::Step(2); vp::Trace();
    vp::Check(fit.b == 0.0, "offset fitted although it was excluded");
    for (size_t i = 0; i < x.size(); ++i)
      if (w[i] != 0 && !(std::fabs(Rem(m[i] - y[i])) < 1e-2)) { vp::Fail("fitted phase of channel " + vp::Str(i) + " is " + vp::Str(m[i]) + " for " + vp::Str(y[i])); break; }
    vp::Outcome(vp::Str(fit.a) + vp::Str(fit.c));
  }
  // Linear fits (no wraps): exact recovery; also for 3 channels.
  std::vector<V> xl = xs;
  xl.push_back({1, 1.5, 2}); xl.push_back({0.7, 1.1, 1.3, 2});
  for (size_t l = 0; l < xl.size(); ++l) for (int ia = -3; ia <= 3; ++ia) for (int ib = -3; ib <= 3; ++ib) for (int ic = -3; ic <= 3; ++ic) for (int wp = 0; wp < 5; ++wp) for (int kind = 0; kind < 3; ++kind) {
    if (kind == 1 && ib) continue;
    const V& x = xl[l];
    if (wp >= 2 && x.size() < 5) continue;
    if (!vp::CaseF([&] { return std::string(kind == 0 ? "linear" : kind == 1 ? "linear without offset" : "gradient") + " layout=" + vp::Str(l) + " a=" + vp::Str(ia) + " b=" + vp::Str(ib) + " c=" + vp::Str(ic) + " weights=" + vp::Str(wp); })) continue;
    const double s = kind == 2 ? 0.1 : 1.0;
    const double a = ia * 1.3 * s, b = ib * 0.9 * s, c = ic * 1.7 * s;
    const V w = weights(x.size(), wp);
    V y(x.size());
    for (size_t i = 0; i < x.size(); ++i) y[i] = w[i] == 0 ? (kind == 2 ? 0.3 : 50.0) : a / x[i] + b + c * x[i];
    const auto fit = kind == 0 ? LinearTecOffsetDelaySolve(x, y, w) : kind == 1 ? LinearTecDelaySolve(x, y, w) : GradientTecOffsetDelaySolve(x, y, w);
    vp::Step(); vp::Trace();
    if (!vp::Check(bool(fit), "the fit fails")) continue;
    const double t = kind == 2 ? 1e-3 : 1e-6;
    if (kind < 2) vp::Check(Near(fit->a, a, t) && Near(fit->b, b, t) && Near(fit->c, c, t), "fitted " + vp::Str(fit->a) + "," + vp::Str(fit->b) + "," + vp::Str(fit->c) + " for " + vp::Str(a) + "," + vp::Str(b) + "," + vp::Str(c));
    else for (size_t i = 0; i < x.size(); ++i) if (w[i] != 0 && !(std::fabs(fit->a / x[i] + fit->b + fit->c * x[i] - y[i]) < 1e-3)) { vp::Fail("fitted phase of channel " + vp::Str(i) + " differs"); break; }
    vp::Outcome(vp::Str(fit->a));
  }
  // Cost: differences of the cost are those of sum of -w cos(residual).
  for (int ia = -6; ia <= 6; ++ia) for (int ib = -4; ib <= 4; ++ib) for (int ic = -6; ic <= 6; ++ic) for (int wp = 0; wp < 5; ++wp) {
    if (!vp::CaseF([&] { return "cost a=" + vp::Str(ia) + " b=" + vp::Str(ib) + " c=" + vp::Str(ic) + " weights=" + vp::Str(wp); })) continue;
    const V& x = xs[0];
    const V w = weights(x.size(), wp);
    V y(x.size());
    for (size_t i = 0; i < x.size(); ++i) y[i] = 0.7 * i - 2;
    const TecOffsetDelayValues v{.a = ia * 2.3, .b = ib * 1.1, .c = ic * 3.1}, z{.a = 0, .b = 0, .c = 0};
    double want = 0;
    for (size_t i = 0; i < x.size(); ++i) want += w[i] * (std::cos(y[i]) - std::cos(y[i] - v.a / x[i] - v.b - v.c * x[i]));
    const double got = TecOffsetDelayCost(x, y, w, v) - TecOffsetDelayCost(x, y, w, z);
    vp::Step(2); vp::Trace();
    vp::Check(Near(got, want), "cost difference " + vp::Str(got) + ", expected " + vp::Str(want));
    vp::Outcome(vp::Str(got));
  }
  // Evaluation wraps to [-pi, pi).
  for (int k = -40; k <= 40; ++k) for (int d = -2; d <= 2; ++d) {
    if (!vp::CaseF([&] { return "wrap " + vp::Str(k) + "*pi/4 " + vp::Str(d); })) continue;
    const double p = k * M_PI / 4 + d * 1e-3;
    V x = {1.0, 2.0, 4.0}, y(3);
    EvaluateLinearTecOffsetValues({.a = 0, .b = p, .c = 0}, x, y);
    vp::Step(); vp::Trace();
    for (double v : y) vp::Check(v >= -M_PI && v < M_PI && std::fabs(Rem(v - p)) < 1e-9, "wrapped to " + vp::Str(v));
    vp::Outcome(vp::Str(y[0]));
  }
  return vp::Finish();
}
