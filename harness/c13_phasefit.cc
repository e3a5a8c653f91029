// C13: TEC phase fitting on a parameter grid of noiseless, wrapped model phases.
#include "vp.h"
#include <complex>
#include <limits>
#include "base/PhaseFitter.h"

static double Wrap(double x) { return std::remainder(x, 2 * M_PI); }
static bool Near(double a, double b) { return std::fabs(a - b) <= 1e-9 * (1 + std::fabs(b)); }
struct Layout { std::string name; std::vector<double> f; };
static Layout Regular(double f0, double f1, int n) {
  Layout l{vp::Str(f0) + "-" + vp::Str(f1) + "MHz/" + vp::Str(n), {}};
  for (int i = 0; i < n; ++i) l.f.push_back((f0 + (f1 - f0) * i / (n - 1)) * 1e6);
  return l;
}
// Weighted mean absolute phase difference with the model.
static double Cost(const std::vector<double>& f, const std::vector<double>& ph, const std::vector<double>& w, double a, double b) {
  double c = 0, s = 0;
  for (size_t i = 0; i < f.size(); ++i) { c += w[i] * std::fabs(Wrap(a / f[i] + b - ph[i])); s += w[i]; }
  return s == 0 ? 0 : c / s;
}
int main(int argc, char** argv) {
  vp::Init(argc, argv);
  std::vector<Layout> layouts = {Regular(120, 170, 8), Regular(110, 190, 24), Regular(120, 140, 12), Regular(140, 150, 10)};
  layouts.push_back({"irregular", {115e6, 116e6, 121e6, 122.5e6, 130e6, 144e6, 145e6, 159e6, 168e6}});
  const int na = vp::Thorough() ? 160 : 40, nb = vp::Thorough() ? 16 : 8;
  for (const Layout& l : layouts) {
    const size_t n = l.f.size();
    for (int model = 1; model <= 2; ++model)
      for (int ia = -na; ia <= na; ++ia)
        for (int ib = (model == 1 ? 0 : -nb); ib <= (model == 1 ? 0 : nb); ++ib)
          for (int wp = 0; wp < 5; ++wp) {
            if (model == 2 && wp && !vp::Thorough() && (ia + ib + wp) % 5) continue;
            if (!vp::CaseF([&] { return "TEC" + vp::Str(model) + " " + l.name + " alpha=" + vp::Str(ia) + " beta=" + vp::Str(ib) + " weights=" + vp::Str(wp); })) continue;
            const double alpha = (ia * 39.2e9 / na) + ia % 7 * 3.3e6, beta = model == 1 ? 0 : ib * M_PI / nb;
            PhaseFitter fit(n);
            fit.Initialize(l.f);
            vp::Check(fit.Size() == n && fit.GetFrequencies() == l.f, "frequencies not set");
            std::vector<double> w(n, 1.0), ph(n);
            for (size_t i = 0; i < n; ++i) {
              if (wp == 1) w[i] = 0.25 + (i % 3);            // uneven
              if (wp == 2) w[i] = i % 3 == 1 ? 0.0 : 1.0;    // interleaved bad channels
              if (wp == 3) w[i] = i < 2 ? 0.0 : 2.0;         // bad begin
              const double clean = alpha / l.f[i] + beta;
              ph[i] = w[i] == 0 ? 2.5 * i - 3 : wp == 4 ? clean + 2 * M_PI * (int(i * 5 % 7) - 3) : Wrap(clean);
              fit.PhaseData()[i] = ph[i];
              if (wp) fit.WeightData()[i] = w[i];
              else vp::Check(fit.WeightData()[i] == 1.0, "initial weight is not one");
            }
            // Parameters on input must not matter.
            double a = std::numeric_limits<double>::quiet_NaN(), b = std::numeric_limits<double>::quiet_NaN();
            double pa = 1e300, pb = 1e300;
            if (model == 2) fit.FitTEC2ModelParameters(pa, pb); else { fit.FitTEC1ModelParameters(pa); pb = 0; }
            for (size_t i = 0; i < n; ++i) if (fit.PhaseData()[i] != ph[i]) { vp::Fail("fitting parameters changes the phases"); break; }
            const double cost = model == 2 ? fit.FitDataToTEC2Model(a, b) : fit.FitDataToTEC1Model(a);
            if (model == 1) b = 0;
            vp::Step(2); vp::Trace();
            if (ib % 4 == 0) {
              // The variant without parameters, on a fitter used before for something else.
              PhaseFitter again(3);
              again.Initialize({130e6, 131e6, 150e6});
              for (int i = 0; i < 3; ++i) { again.PhaseData()[i] = 1 + i; again.WeightData()[i] = 0.5 * i; }
              again.FitDataToTEC1Model();
              again.Initialize(l.f);
              for (size_t i = 0; i < n; ++i) vp::Check(again.PhaseData()[i] == 0 && again.WeightData()[i] == 1, "data of earlier use remain after initialization");
              vp::Check(again.Size() == n, "size of earlier use remains");
              for (size_t i = 0; i < n; ++i) { again.PhaseData()[i] = ph[i]; again.WeightData()[i] = w[i]; }
              if (model == 2) again.FitDataToTEC2Model(); else again.FitDataToTEC1Model();
              for (size_t i = 0; i < n; ++i) if (!(std::fabs(Wrap(again.PhaseData()[i] - fit.PhaseData()[i])) < 1e-9)) { vp::Fail("the variant without parameters gives another fit"); break; }
              again.SetFittingAccuracy(1e-3);
              vp::Check(again.FittingAccuracy() == 1e-3 && fit.FittingAccuracy() == 1e-6, "accuracy not kept");
            }
            vp::Check(a == pa && b == pb, "the result depends on the values passed in: " + vp::Str(a) + "," + vp::Str(b) + " / " + vp::Str(pa) + "," + vp::Str(pb));
            vp::Check(Near(cost, Cost(l.f, ph, w, a, b)), "reported cost " + vp::Str(cost) + " is not the cost " + vp::Str(Cost(l.f, ph, w, a, b)) + " of the returned parameters");
            for (size_t i = 0; i < n; ++i) {
              const double want = a / l.f[i] + b;
              if (!(std::fabs(Wrap(fit.PhaseData()[i] - want)) < 1e-8)) { vp::Fail("channel " + vp::Str(i) + " is set to " + vp::Str(fit.PhaseData()[i]) + ", the model is " + vp::Str(want)); break; }
              if (w[i] != 0 && !(std::fabs(Wrap(want - alpha / l.f[i] - beta)) < 2e-4)) { vp::Fail("fitted phase of channel " + vp::Str(i) + " is off by " + vp::Str(Wrap(want - alpha / l.f[i] - beta)) + ": alpha " + vp::Str(a) + " for " + vp::Str(alpha) + ", beta " + vp::Str(b) + " for " + vp::Str(beta)); break; }
            }
            vp::Check(model == 1 || std::fabs(b) <= 2 * M_PI + 1e-9, "offset out of range: " + vp::Str(b));
            vp::Outcome(vp::Str(a) + vp::Str(b));
          }
  }
  // Cost functions for arbitrary data and parameters; conversions.
  for (int ia = -12; ia <= 12; ++ia) for (int ib = -8; ib <= 8; ++ib) for (int d = 0; d < 4; ++d) for (int wp = 0; wp < 4; ++wp) {
    if (!vp::CaseF([&] { return "cost alpha=" + vp::Str(ia) + " beta=" + vp::Str(ib) + " data=" + vp::Str(d) + " weights=" + vp::Str(wp); })) continue;
    const Layout l = Regular(120, 170, 6);
    PhaseFitter fit(6);
    fit.Initialize(l.f);
    std::vector<double> w(6), ph(6);
    for (int i = 0; i < 6; ++i) { fit.WeightData()[i] = w[i] = wp == 0 ? 1 : wp == 1 ? i : wp == 2 ? i == 3 : 0; fit.PhaseData()[i] = ph[i] = d == 0 ? 0 : d == 1 ? i * 1.1 : d == 2 ? -2.9 * i : 3.1 - i % 2 * 6.2; }
    const double a = ia * 3.1e9, b = ib * 1.7;
    vp::Step(4); vp::Trace();
    vp::Check(Near(fit.TEC2ModelCost(a, b), Cost(l.f, ph, w, a, b)), "two-parameter cost is " + vp::Str(fit.TEC2ModelCost(a, b)) + ", expected " + vp::Str(Cost(l.f, ph, w, a, b)));
    vp::Check(Near(fit.TEC1ModelCost(a), Cost(l.f, ph, w, a, 0)), "one-parameter cost is " + vp::Str(fit.TEC1ModelCost(a)));
    vp::Check(Near(PhaseFitter::AlphaToTEC(a), a / -8.44797245e9), "TEC conversion");
    vp::Check(std::fabs(Wrap(PhaseFitter::TEC2ModelFuncWrapped(l.f[2], a, b) - a / l.f[2] - b)) < 1e-9 && std::fabs(Wrap(PhaseFitter::TEC1ModelFuncWrapped(l.f[2], a) - a / l.f[2])) < 1e-9 && std::fabs(PhaseFitter::TEC2ModelFunc(l.f[2], a, b) - (a / l.f[2] + b)) < 1e-9, "model functions");
    vp::Outcome(vp::Str(fit.TEC2ModelCost(a, b)));
  }
  return vp::Finish();
}
