// C12: kernel smoothing: full impulse response of every small layout.
#include "vp.h"
#include <algorithm>
#include "ddecal/constraints/KernelSmoother.h"
typedef dp3::ddecal::KernelSmoother<std::complex<double>, double> SmootherC;
typedef dp3::ddecal::KernelSmoother<double, double> SmootherD;
typedef std::complex<double> C;

static double Kernel(int type, double x, bool truncate) {   // documented kernels, x in units of bandwidth
  const double ax = std::fabs(x);
  switch (type) {
    case 0: return ax > 1 ? 0 : 0.5;
    case 1: return ax > 1 ? 0 : 1 - ax;
    case 2: return truncate && ax > 1 ? 0 : std::exp(-9 * x * x);
    default: return ax > 1 ? 0 : 0.75 * (1 - x * x);
  }
}
static const char* kKernel[] = {"rectangular", "triangular", "gaussian", "epanechnikov"};
static bool Near(double a, double b, double tol = 1e-9) { return std::fabs(a - b) <= tol * (1 + std::fabs(b)); }

int main(int argc, char** argv) {
  vp::Init(argc, argv);
  // Frequency layouts (MHz): regular, irregular, gap, single.
  std::vector<std::vector<double>> layouts = {
      {100}, {100, 101}, {100, 101, 102}, {100, 100.5, 103}, {100, 101, 102, 103}, {100, 101, 105, 106}, {120, 121, 122, 123, 124}, {120, 120.3, 121.7, 126, 126.1, 126.2}, {100, 102, 104, 106, 108, 110, 112}};
  const std::vector<double> bands = {0.4, 1, 1.9, 2, 3, 4.1, 8, 30};
  struct Ref { double freq, exponent; };
  const std::vector<Ref> refs = {{0, 0}, {0, -1}, {110, 0}, {110, -1}, {100, -2}, {125, 1}};
  for (size_t l = 0; l < layouts.size(); ++l) {
    const std::vector<double>& f = layouts[l];
    const size_t n = f.size();
    for (int type = 0; type < 4; ++type) for (double bw : bands) for (size_t rf = 0; rf < refs.size(); ++rf) for (int trunc = 0; trunc < 2; ++trunc)
      for (double factor : {1.0, 2.0, 0.5}) {
        if (!vp::Thorough() && rf > 1 && factor != 1.0) continue;
        // All 0/1 weight patterns, and graded weights.
        for (unsigned w = 1; w < (2u << n); ++w) {
          if (w == (1u << n)) continue;
          const bool graded = w >> n;
          if (graded && !vp::Thorough() && (w % 3)) continue;
          if (!vp::CaseF([&] { return std::string(kKernel[type]) + " layout=" + vp::Str(l) + " bandwidth=" + vp::Str(bw) + " ref=" + vp::Str(rf) + (trunc ? " truncated" : " full") + " factor=" + vp::Str(factor) + " weights=" + vp::Str(w); })) continue;
          std::vector<double> weight(n);
          for (size_t i = 0; i < n; ++i) weight[i] = (w >> i & 1) ? (graded ? 0.5 + i : 1.0) : 0.0;
          std::vector<double> mhz(f);
          for (double& x : mhz) x = std::round(x * 1e6);   // whole Hz: window edges are exact
          const double hz = std::round(bw * 1e6);
          SmootherC sc(mhz, SmootherC::KernelType(type), hz, refs[rf].freq * 1e6, refs[rf].exponent, trunc);
          SmootherD sd(mhz, SmootherD::KernelType(type), hz, refs[rf].freq * 1e6, refs[rf].exponent, trunc);
          std::vector<std::vector<double>> h(n, std::vector<double>(n));   // h[i][j]: response of channel i to a unit in j
          std::vector<double> one(n, 1.0);
          sd.Smooth(one.data(), weight.data(), factor);
          std::vector<C> mix(n), mix0(n);
          for (size_t j = 0; j < n; ++j) {
            std::vector<double> d(n, 0.0);
            d[j] = 1;
            sd.Smooth(d.data(), weight.data(), factor);   // the scratch space is reused
            for (size_t i = 0; i < n; ++i) h[i][j] = d[i];
            mix[j] = mix0[j] = C(3.0 * j - 4, 1.5 - j * j);
          }
          sc.Smooth(mix.data(), weight.data(), factor);
          vp::Step(n + 2);
          for (size_t i = 0; i < n; ++i) {
            const double local = refs[rf].freq == 0 ? bw : bw * f[i] / refs[rf].freq;
            const double corr = std::pow(local / bw, refs[rf].exponent) * factor;
            std::vector<double> k(n);
            std::vector<int> must(n), may(n);
            double sum_must = 0;
            bool any_may = false;
            for (size_t j = 0; j < n; ++j) {
              const double dist = f[i] - f[j], x = dist * corr / bw;
              k[j] = Kernel(type, x, trunc) * weight[j];
              const bool edge = std::fabs(std::fabs(x) - 1) < 1e-9;   // rounding decides
              const bool inside = !trunc || (refs[rf].freq == 0 ? std::fabs(mhz[i] - mhz[j]) <= hz * 0.5 : std::fabs(dist) < local * 0.5 * (1 - 1e-9));
              must[j] = inside && !edge && k[j] > 0;
              may[j] = weight[j] > 0 && (edge || k[j] > 0);
              if (must[j]) sum_must += k[j];
              any_may |= may[j];
            }
            const std::string at = " at channel " + vp::Str(i);
            double kmax = 0;
            for (double kk : k) kmax = std::max(kmax, kk);
            if (any_may && kmax < 1e-250) continue;   // the kernel itself underflows
            if (!any_may) { vp::Check(std::isnan(one[i]) && std::isnan(mix[i].real()) && std::isnan(mix[i].imag()), "no sample in the window, but the value is " + vp::Str(one[i]) + at); continue; }
            if (sum_must > 0) vp::Check(std::isfinite(one[i]), "not finite although a weighted sample is in the window" + at);
            if (!std::isfinite(one[i])) continue;
            vp::Check(Near(one[i], 1.0), "a constant becomes " + vp::Str(one[i]) + at);
            C lin = 0;
            double hsum = 0;
            int jref = -1;
            for (size_t j = 0; j < n; ++j) { lin += h[i][j] * mix0[j]; hsum += h[i][j]; if (must[j] && (jref < 0 || k[j] > k[jref])) jref = j; }
            vp::Check(Near(hsum, 1.0), "responses add up to " + vp::Str(hsum) + at);
            vp::Check(Near(mix[i].real(), lin.real()) && Near(mix[i].imag(), lin.imag()), "not linear" + at);
            for (size_t j = 0; j < n; ++j) {
              if (!may[j]) vp::Check(h[i][j] == 0, "influenced by channel " + vp::Str(j) + " without weight or outside the kernel" + at);
              if (jref < 0) continue;
              const double want = k[j] / k[jref] * h[i][jref];
              if (must[j]) vp::Check(Near(h[i][j], want), "influence of channel " + vp::Str(j) + " is " + vp::Str(h[i][j]) + ", expected " + vp::Str(want) + at);
              else if (may[j] && k[j] > 0 && !(std::fabs(std::fabs((f[i] - f[j]) * corr / bw) - 1) < 1e-9)) vp::Check(h[i][j] == 0 || Near(h[i][j], want), "influence of channel " + vp::Str(j) + " is " + vp::Str(h[i][j]) + at);
            }
          }
          vp::Trace();
          vp::Outcome(vp::Str(h[0][n - 1]) + vp::Str(one[0]) + vp::Str(h[n - 1][0]));
        }
      }
  }
  // The kernel itself: symmetric, documented values.
  for (int type = 0; type < 4; ++type) for (int trunc = 0; trunc < 2; ++trunc) for (int i = -300; i <= 300; ++i) {
    if (!vp::CaseF([&] { return std::string(kKernel[type]) + (trunc ? " truncated" : " full") + " kernel at " + vp::Str(i / 150.0); })) continue;
    SmootherD sd({1.0, 2.0}, SmootherD::KernelType(type), 8.0, 0, 0, trunc);
    vp::Step(); vp::Trace();
    const double x = i / 128.0, got = sd.Kernel(x * 8.0);
    vp::Check(Near(got, Kernel(type, x, trunc), 1e-12), "kernel value " + vp::Str(got) + ", expected " + vp::Str(Kernel(type, x, trunc)));
  }
  return vp::Finish();
}
