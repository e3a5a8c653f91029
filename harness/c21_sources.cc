// C21: sky-model components: flux as a function of frequency, inspection
// histories and patch directions.
#include <cmath>
#include "vp.h"
#include "base/ComponentInfo.h"
#include "base/GaussianSource.h"
#include "base/PointSource.h"
#include "sky_model/Patch.h"
using namespace dp3::base;
typedef std::vector<double> V;
static bool Near(double a, double b, double t = 1e-9) { return std::fabs(a - b) <= t * (1 + std::fabs(b)); }
struct Spec { double ra, dec; double I, Q, U, V_; int terms; bool log; double f0; bool rm; bool gauss; double pa, maj, min; };
static Spec MakeSpec(int k) {
  static const double d[] = {0.0, 0.7, -1.1, 2.9};
  Spec s;
  s.ra = d[k % 4]; s.dec = d[k % 3] / 2; s.I = 1.5 + k; s.Q = 0.25 * k - 1; s.U = 2 - k; s.V_ = 0.125 * k;
  s.terms = k % 4; s.log = k % 2; s.f0 = 1e8 + 1e7 * k; s.rm = k % 5 == 2; s.gauss = k % 2 == 1; s.pa = 0.1 * k; s.maj = 0.01 * (k + 1); s.min = 0.005 * (k + 2);
  return s;
}
static V Terms(int n, int k) { V t; for (int i = 0; i < n; ++i) t.push_back((i % 2 ? -0.3 : 0.8) * (1 + k % 3) - 0.1 * i); return t; }
static std::shared_ptr<PointSource> Make(const Spec& s, int k) {
  Stokes st; st.I = s.I; st.Q = s.Q; st.U = s.U; st.V = s.V_;
  std::shared_ptr<PointSource> p;
  if (s.gauss) {
    auto g = std::make_shared<GaussianSource>(Direction(s.ra, s.dec), st);
    g->setPositionAngle(s.pa); g->setMajorAxis(s.maj); g->setMinorAxis(s.min);
    p = g;
  } else p = std::make_shared<PointSource>(Direction(s.ra, s.dec), st);
  const V t = Terms(s.terms, k);
  if (s.terms) p->setSpectralTerms(s.f0, s.log, t.begin(), t.end());
  if (s.rm) p->setRotationMeasure(0.4, 0.3, 1.2);
  return p;
}
int main(int argc, char** argv) {
  vp::Init(argc, argv);
  // Flux at a frequency: all numbers of terms, both kinds, rotation measures.
  const V freqs = {3e7, 5.5e7, 1e8, 1.2e8, 1.5e8, 1.8e8, 2.4e8};
  const V all_values = {-0.8, -0.1, 0.0, 0.4, 1.3};
  const int n_terms = vp::Thorough() ? 6 : 5;
  const V few = {-0.8, 0.4};
  for (int n = 0; n <= n_terms; ++n) {
    const V& values = n > (vp::Thorough() ? 4 : 3) ? few : all_values;
    int combos = 1;
    for (int i = 0; i < n; ++i) combos *= values.size();
    for (int c = 0; c < combos; ++c) for (int log = 0; log < 2; ++log) for (double f0 : {6e7, 1.2e8, 1.5e8}) for (int rm = 0; rm < 4; ++rm) for (int st = 0; st < 3; ++st) {
      if (!vp::CaseF([&] { return "flux terms=" + vp::Str(n) + " combination=" + vp::Str(c) + (log ? " log" : " linear") + " f0=" + vp::Str(f0) + " rm=" + vp::Str(rm) + " stokes=" + vp::Str(st); })) continue;
      Stokes s; s.I = st == 0 ? 2.5 : st == 1 ? -1.0 : 0.0; s.Q = 0.5; s.U = -0.25; s.V = 0.125;
      V t;
      for (int i = 0, x = c; i < n; ++i, x /= values.size()) t.push_back(values[x % values.size()]);
      PointSource p(Direction(1, 0.5), s);
      // The settings may be given in any order and overwritten.
      if (rm == 3) { p.setRotationMeasure(0.9, 9, 9); }
      if (st == 1) { V old = {5, 6, 7, 8, 9}; p.setSpectralTerms(1, !log, old.begin(), old.end()); }
      if (n || st == 1) p.setSpectralTerms(f0, log, t.begin(), t.end());
      const double frac = rm == 1 ? 0.3 : rm == 2 ? 1.0 : 0.0, ang = rm == 1 ? 0.4 : rm == 2 ? -1.0 : 0.2, meas = rm == 1 ? 2.0 : rm == 2 ? -0.7 : 5.0;
      if (rm) p.setRotationMeasure(frac, ang, meas);
      vp::Check(p.hasSpectralTerms() == (n > 0) && p.hasRotationMeasure() == (rm > 0), "has terms / rotation measure is wrong");
      for (double f : freqs) {
        double I = s.I;
        if (n && log) { double e = 0, l = std::log10(f / f0); for (int i = 0; i < n; ++i) e += t[i] * std::pow(l, i); I *= std::pow(f / f0, e); }
        else if (n) { for (int i = 0; i < n; ++i) I += t[i] * std::pow(f / f0 - 1, i + 1); }
        double Q = s.Q, U = s.U;
        if (rm) { const double lam = 299792458.0 / f, chi = 2 * (ang + meas * lam * lam); Q = I * frac * std::cos(chi); U = I * frac * std::sin(chi); }
        const Stokes g = p.stokes(f), r = p.stokes();
        vp::Step(2);
        if (!(Near(g.I, I) && Near(g.Q, Q, 1e-8) && Near(g.U, U, 1e-8) && g.V == s.V)) { vp::Fail("flux at " + vp::Str(f) + " is " + vp::Str(g.I) + "," + vp::Str(g.Q) + "," + vp::Str(g.U) + "," + vp::Str(g.V) + ", expected " + vp::Str(I) + "," + vp::Str(Q) + "," + vp::Str(U)); break; }
        if (!(r.I == s.I && r.Q == s.Q && r.U == s.U && r.V == s.V)) { vp::Fail("reference flux changes"); break; }
        vp::Outcome(vp::Str(g.I) + vp::Str(g.Q));
      }
      vp::Trace();
    }
  }
  // Inspecting components: all histories of inspected components on one object.
  const int K = 8, L = vp::Thorough() ? 5 : 4;
  int total = 1;
  for (int len = 1; len <= L; ++len) {
    total *= K;
    for (int code = 0; code < total; ++code) {
      if (!vp::CaseF([&] { return "inspect length=" + vp::Str(len) + " history=" + vp::Str(code); })) continue;
      ComponentInfo info;
      for (int i = 0, x = code; i < len; ++i, x /= K) {
        const int k = x % K;
        const Spec s = MakeSpec(k);
        info.inspect(Make(s, k));
        const V t = Terms(s.terms, k);
        bool ok = info.ra_ == s.ra && info.dec_ == s.dec && info.sI_ == s.I && info.sQ_ == s.Q && info.sU_ == s.U && info.sV_ == s.V_ && info.spectrum_.size() == 3;
        for (int j = 0; ok && j < 3; ++j) ok = info.spectrum_[j] == (j < s.terms ? t[j] : 0.0);
        ok = ok && (s.terms == 0 || info.f0_ == s.f0) && info.source_type_ == (s.gauss ? ComponentInfo::kGaussian : ComponentInfo::kPoint);
        if (s.gauss) ok = ok && info.g_pa_ == s.pa && info.g_major_ == s.maj && info.g_minor_ == s.min;
        vp::Step();
        if (!vp::Check(ok, "component " + vp::Str(k) + " is described wrongly at step " + vp::Str(i))) break;
      }
      vp::Trace();
      vp::Outcome(vp::Str(code % (K * K)));
    }
  }
  for (int n = 4; n <= 6; ++n) for (int g = 0; g < 2; ++g) {
    if (!vp::CaseF([&] { return "inspect terms=" + vp::Str(n) + (g ? " gaussian" : ""); })) continue;
    Spec s = MakeSpec(g); s.gauss = g; s.terms = n;
    ComponentInfo info;
    vp::Check(vp::Throws([&] { info.inspect(Make(s, 0)); }) == "!exception", "more than three spectral terms are accepted");
    vp::Step(); vp::Trace(); vp::Outcome(vp::Str(n));
  }
  for (int ctor = 0; ctor < 2; ++ctor) {
    if (!vp::CaseF([&] { return "gaussian defaults " + vp::Str(ctor); })) continue;
    // On storage with each fill, to see members that are not initialised.
    for (int fill : {0, 1}) {
      alignas(16) static unsigned char mem[sizeof(GaussianSource)];
      memset(mem, fill, sizeof mem);
      GaussianSource* g = ctor ? new (mem) GaussianSource(Direction(1, 1), Stokes()) : new (mem) GaussianSource(Direction(1, 1));
      vp::Check(g->getPositionAngleIsAbsolute() && g->getPositionAngle() == 0 && g->getMajorAxis() == 0 && g->getMinorAxis() == 0 && g->stokes().I == 0 && !g->hasRotationMeasure() && !g->hasSpectralTerms(), "defaults of a new gaussian differ");
      g->setPositionAngleIsAbsolute(false);
      vp::Check(!g->getPositionAngleIsAbsolute(), "the position angle mode cannot be set");
      g->~GaussianSource();
    }
    vp::Step(); vp::Trace(); vp::Outcome(vp::Str(ctor));
  }
  // Patches: all multisets of up to 4 directions from a grid.
  std::vector<Direction> dirs;
  for (double ra : {0.0, 0.4, 1.5, 3.0, -2.5, 6.0}) for (double dec : {0.0, 0.3, 1.2, -0.9, 1.5}) dirs.push_back(Direction(ra, dec));
  const size_t D = dirs.size();
  auto patch = [&](const std::vector<size_t>& sel, const std::string& key) {
    if (!vp::CaseF([&] { return key; })) return;
    std::vector<std::shared_ptr<ModelComponent>> comp;
    double x = 0, y = 0, z = 0;
    for (size_t i : sel) { comp.push_back(i % 2 ? std::make_shared<PointSource>(dirs[i]) : std::static_pointer_cast<PointSource>(std::make_shared<GaussianSource>(dirs[i]))); x += std::cos(dirs[i].ra) * std::cos(dirs[i].dec); y += std::sin(dirs[i].ra) * std::cos(dirs[i].dec); z += std::sin(dirs[i].dec); }
    dp3::sky_model::Patch p("name", comp.begin(), comp.end());
    vp::Step(); vp::Trace();
    bool ok = p.Name() == "name" && p.NComponents() == sel.size() && p.Brightness() == 0 && p.Index() == 0;
    for (size_t i = 0; ok && i < sel.size(); ++i) ok = p.component(i) == comp[i] && *(p.begin() + i) == comp[i];
    vp::Check(ok && size_t(p.end() - p.begin()) == sel.size(), "components or name of the patch differ");
    const Direction d = p.Direction();
    const double r = std::sqrt(x * x + y * y + z * z);
    if (sel.empty()) vp::Check(d.ra == 0 && d.dec == 0, "direction of an empty patch");
    else if (r > 1e-3 * sel.size()) {
      const double px = std::cos(d.ra) * std::cos(d.dec), py = std::sin(d.ra) * std::cos(d.dec), pz = std::sin(d.dec);
      vp::Check(std::fabs(px - x / r) + std::fabs(py - y / r) + std::fabs(pz - z / r) < 1e-9 && std::fabs(d.dec) <= M_PI / 2, "direction of the patch is " + vp::Str(d.ra) + "," + vp::Str(d.dec) + ", the average vector is " + vp::Str(x / r) + "," + vp::Str(y / r) + "," + vp::Str(z / r));
    }
    p.SetDirection(Direction(0.5, 0.25)); p.SetBrightness(3); p.SetIndex(7);
    vp::Check(p.Direction().ra == 0.5 && p.Direction().dec == 0.25 && p.Brightness() == 3 && p.Index() == 7, "setters of the patch");
    p.ComputeDirection();
    vp::Check(p.Direction().ra == d.ra && p.Direction().dec == d.dec, "recomputing the direction gives another direction");
    vp::Outcome(vp::Str(d.ra) + vp::Str(d.dec));
  };
  patch({}, "patch");
  for (size_t a = 0; a < D; ++a) {
    patch({a}, "patch " + vp::Str(a));
    for (size_t b = 0; b < D; ++b) {
      patch({a, b}, "patch " + vp::Str(a) + " " + vp::Str(b));
      for (size_t c = b; c < D; ++c) {
        patch({a, b, c}, "patch " + vp::Str(a) + " " + vp::Str(b) + " " + vp::Str(c));
        if (vp::Thorough()) for (size_t d = c; d < D; d += 2) patch({a, b, c, d}, "patch " + vp::Str(a) + " " + vp::Str(b) + " " + vp::Str(c) + " " + vp::Str(d));
      }
    }
  }
  return vp::Finish();
}
