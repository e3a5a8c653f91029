// C42: constraints that fit or smooth over frequency, and the fit of a line to phases.
#include <array>
#include <optional>
#include "vp.h"
#include "solver_kit.h"
#include "ddecal/constraints/FaradayConstraint.h"
#include "ddecal/constraints/SmoothnessConstraint.h"
#include "ddecal/constraints/TecConstraint.h"
#include "ddecal/constraints/TecOffsetDelayConstraint.h"
#include "base/CalType.h"
#include "common/PhaseLineFitter.h"
using namespace skit;
using dp3::base::CalType;
namespace pf = dp3::common::phase_fitting;
typedef std::vector<uint32_t> Spd;

static const double kNan = std::numeric_limits<double>::quiet_NaN(), kInf = std::numeric_limits<double>::infinity();
static const double kC = 299792458.0, kTec = -8.44797245e9;
static bool Fin(D d) { return std::isfinite(d.real()) && std::isfinite(d.imag()); }
static bool Same(D a, D b, double tol = 1e-6) { return Fin(a) ? Fin(b) && std::abs(a - b) <= tol * (1 + std::abs(b)) : !Fin(b); }
static size_t Sum(const Spd& s) { size_t n = 0; for (uint32_t x : s) n += x; return n; }
static std::string Name(const Spd& s) { std::string r = "["; for (uint32_t x : s) r += vp::Str(x); return r + "]"; }
static D Bad(int kind) { return kind == 1 ? D(kNan, kNan) : kind == 2 ? D(kInf, 0) : kind == 3 ? D(0.5, kNan) : D(-kInf, 2); }
static const Spd kSpds[] = {{1}, {2}, {1, 1}, {3, 1}};

struct Sol {
  size_t c, a, s, p;
  SolutionTensor t;
  Sol(size_t c, size_t a, size_t s, size_t p) : c(c), a(a), s(s), p(p), t({c, a, s, p}) {}
  D& operator()(size_t i, size_t j, size_t k, size_t l) { return t.data()[((i * a + j) * s + k) * p + l]; }
  void Apply(Constraint& k) { SolutionSpan span = aocommon::xt::CreateSpan(t); k.Apply(span, 1e9); vp::Step(); }
  bool Equal(Sol& o, double tol, const char* what) {
    for (size_t i = 0; i < c * a * s * p; ++i)
      if (!vp::Check(Same(t.data()[i], o.t.data()[i], tol), what, ": block ", i / p / s / a, " antenna ", i / p / s % a, " solution ", i / p % s, " element ", i % p, " is ", t.data()[i], ", not ", o.t.data()[i])) return false;
    return true;
  }
  bool Identical(Sol& o, const char* what) {
    for (size_t i = 0; i < c * a * s * p; ++i)
      if (!vp::Check(Fin(t.data()[i]) ? t.data()[i] == o.t.data()[i] : !Fin(o.t.data()[i]), what, ": value ", i, " is ", t.data()[i], ", not ", o.t.data()[i])) return false;
    return true;
  }
};
struct Band { const char* name; std::vector<double> f; };
static Band Make(const char* name, double f0, double step, int n, bool irregular) {
  Band b{name, {}};
  for (int i = 0; i < n; ++i) b.f.push_back(f0 + step * i + (irregular ? step * 0.3 * (i % 3) : 0));
  return b;
}
static const std::vector<Band>& Bands() {
  static const std::vector<Band> v = {Make("hba", 120e6, 6e6, 8, true), Make("lba", 50e6, 1.5e6, 8, true), Make("many", 110e6, 3e6, 22, false), Make("three", 140e6, 9e6, 3, true)};
  return v;
}
static bool Dims(const ConstraintResult& r, const std::string& name, const std::string& axes, const std::vector<size_t>& d) {
  size_t n = 1;
  for (size_t x : d) n *= x;
  return vp::Check(r.name == name && r.dims == d && r.axes == axes, "result ", name, " has the wrong name, dimensions or axes: ", r.name, " ", r.axes) &&
         vp::Check(r.vals.size() == n && r.weights.size() == n, "result ", name, " has ", r.vals.size(), " values and ", r.weights.size(), " weights instead of ", n);
}
static const CalType kModes[] = {CalType::kRotation, CalType::kDiagonal, CalType::kDiagonalAmplitude, CalType::kDiagonalPhase, CalType::kScalar, CalType::kScalarAmplitude, CalType::kScalarPhase};
static void Diagonal(D& a, D& b, int mode) {
  if (mode == 0) { a = b = 1; return; }
  if (mode >= 4) a = b = (a + b) / 2.0;
  if (mode % 3 == 2) { a = std::abs(a); b = std::abs(b); }
  if (mode % 3 == 0) { a /= std::abs(a); b /= std::abs(b); }
}

// Threads and loop orders that may not matter.
struct Par { size_t threads; int order; };
static const Par kPars[] = {{1, 0}, {2, 1}, {3, 2}, {4, 0}};
static void Set(const Par& p) { kit::Threads(p.threads); kit::Order(p.order); }

static void Faraday() {
  for (const Band& band : Bands()) {
    const size_t nc = band.f.size(), na = 3;
    double dmin = 1e300;
    std::vector<double> l2;
    for (double f : band.f) l2.push_back(kC / f * kC / f);
    for (size_t i = 1; i < nc; ++i) dmin = std::min(dmin, l2[i - 1] - l2[i]);
    // Faraday depths that the channels can tell apart: half a turn between neighbours.
    const double range = M_PI / 2 / dmin * 0.9, step = M_PI / 2 / l2[0];
    for (const Spd& spd : kSpds)
      for (int mode = 0; mode < 7; ++mode)
        for (int bad = 0; bad < 4; ++bad)      // which channels have no solution
          for (int lim = 0; lim < 4; ++lim)
            for (int seed = 0; seed < (vp::Thorough() ? 24 : 3); ++seed) {
              if (!vp::CaseF([&] { return std::string("faraday ") + band.name + " " + Name(spd) + " mode=" + vp::Str(mode) + " missing=" + vp::Str(bad) + " limit=" + vp::Str(lim) + " " + vp::Str(seed); })) continue;
              const size_t ns = Sum(spd), np = mode >= 4 ? 1 : 2;
              // Limit 0: none; 1: just enough; 2: ample; 3: less than some of the values.
              const double used = lim == 0 ? range : range * (0.2 + 0.25 * seed / (vp::Thorough() ? 24 : 3));
              const double limit = lim == 1 ? used * 1.001 : lim == 2 ? used * 3 : used * 0.4;
              const size_t variant = seed % 2;
              std::vector<double> w(na * nc);
              std::vector<std::vector<double>> ws(ns, w);
              for (size_t i = 0; i < w.size(); ++i) { w[i] = 1 + 0.25 * (i % 5); for (size_t s = 0; s < ns; ++s) ws[s][i] = 1 + 0.125 * ((i + 3 * s) % 7); }
              Sol first(nc, na, ns, 4), want = first;
              std::vector<double> rm(na * ns), sums(na * ns, 0);
              std::vector<D> diag(na * ns * nc * 2);
              for (size_t a = 0; a < na; ++a) for (size_t s = 0; s < ns; ++s) {
                const double v = rm[a * ns + s] = used * (s == 0 && a == 1 ? 0.999 : s == 0 && a == 2 ? -0.999 : Mix(seed, a, s));
                for (size_t c = 0; c < nc; ++c) {
                  const size_t i = (a * ns + s) * nc + c;
                  const double t = v * l2[c];
                  D da = std::polar(1 + 0.5 * Mix(a, s, c), 0.8 * Mix(a, s, c, 1)), db = std::polar(1.5 + 0.5 * Mix(a, s, c, 2), 0.8 * Mix(a, s, c, 3));
                  J m = {da * std::cos(t), -da * std::sin(t), db * std::sin(t), db * std::cos(t)};
                  Diagonal(da, db, mode);
                  J n = {da * std::cos(t), -da * std::sin(t), db * std::sin(t), db * std::cos(t)};
                  diag[2 * i] = da; diag[2 * i + 1] = db;
                  double& weight = variant ? ws[s][a * nc + c] : w[a * nc + c];
                  if (bad == 1 && (c + a) % 4 == 2) for (int j = 0; j < 4; ++j) { m[j] = Bad(1 + (c + s) % 4); if (mode) n[j] = m[j]; }   // a pure rotation fills gaps
                  if (bad == 2 && a == 1 && s == ns - 1) for (int j = 0; j < 4; ++j) m[j] = n[j] = D(kNan, kNan);
                  if (bad == 3 && (c + 2 * a) % 5 == 3) weight = 0;   // any value
                  if (bad == 3 && weight == 0) for (int j = 0; j < 4; ++j) { m[j] = D(Mix(seed, a, c, j), 1); n[j] = D(kInf, 7); }
                  for (int j = 0; j < 4; ++j) { first(c, a, s, j) = m[j]; want(c, a, s, j) = n[j]; }
                }
              }
              for (size_t a = 0; a < na; ++a) for (size_t s = 0; s < ns; ++s) for (size_t c = 0; c < nc; ++c) sums[a * ns + s] += variant ? ws[s][a * nc + c] : w[a * nc + c];
              Sol reference = first;
              std::vector<ConstraintResult> kept;
              for (const Par& par : kPars) {
                Set(par);
                FaradayConstraint k(kModes[mode], lim ? std::optional<double>(limit) : std::nullopt);
                k.Initialize(na, spd, band.f);
                if (variant) k.SetSubSolutionWeights(ws); else k.SetWeights(w);
                Sol x = first;
                x.Apply(k);
                const std::vector<ConstraintResult> r = k.GetResult();
                if (par.threads == 1) {
                  const size_t nr = mode == 0 ? 1 : mode % 3 == 1 ? 3 : 2;
                  if (!vp::Check(r.size() == nr, "there are ", r.size(), " results") || !Dims(r[0], "rotationmeasure", "ant,dir", {na, ns})) break;
                  const std::vector<size_t> d = np == 1 ? std::vector<size_t>{na, ns, nc} : std::vector<size_t>{na, ns, nc, np};
                  const std::string axes = np == 1 ? "ant,dir,freq" : "ant,dir,freq,pol";
                  if (nr > 1 && !Dims(r[1], mode % 3 == 0 ? "phase" : "amplitude", axes, d)) break;
                  if (nr > 2 && !Dims(r[2], "phase", axes, d)) break;
                  for (size_t a = 0; a < na; ++a) for (size_t s = 0; s < ns; ++s) {
                    const double v = r[0].vals[a * ns + s], t = rm[a * ns + s];
                    vp::Check(std::abs(r[0].weights[a * ns + s] - sums[a * ns + s]) < 1e-9, "weight of the depth of antenna ", a, " solution ", s, " is ", r[0].weights[a * ns + s], ", not ", sums[a * ns + s]);
                    if (bad == 2 && a == 1 && s == ns - 1) continue;
                    if (lim == 3) vp::Check(std::abs(v) <= limit + 2 * step, "depth ", v, " is out of the range of ", limit);
                    if (lim < 3 || std::abs(t) < limit) {
                      if (!vp::Check(std::abs(v - t) < 1e-6 * range, "depth of antenna ", a, " solution ", s, " is ", v, ", not ", t)) break;
                      for (size_t c = 0; c < nc; ++c) {
                        for (int j = 0; j < 4; ++j)
                          if (want(c, a, s, j) != D(kInf, 7))
                            vp::Check(Same(x(c, a, s, j), want(c, a, s, j)), "block ", c, " antenna ", a, " solution ", s, " element ", j, " is ", x(c, a, s, j), ", not ", want(c, a, s, j));
                        const size_t i = (a * ns + s) * nc + c;
                        for (size_t p = 0; nr > 1 && p < np; ++p) {
                          for (size_t q = 1; q < nr; ++q) {
                            const double weight = variant ? ws[s][a * nc + c] : w[a * nc + c];
                            vp::Check(r[q].weights[i * np + p] == weight, "weight of the ", r[q].name, " of antenna ", a, " solution ", s, " block ", c, " is ", r[q].weights[i * np + p], ", not ", weight);
                          }
                          const double amp = mode % 3 == 0 ? 1 : r[1].vals[i * np + p], ph = mode % 3 == 2 ? 0 : r[nr - 1].vals[i * np + p];
                          if (Fin(want(c, a, s, 0)) ) vp::Check(Same(std::polar(amp, ph), diag[2 * i + p]), "diagonal of antenna ", a, " solution ", s, " block ", c, " is reported as ", std::polar(amp, ph), ", not ", diag[2 * i + p]);
                        }
                      }
                    }
                    vp::Outcome(vp::Str(v));
                  }
                  reference = x;
                  kept = r;
                  if (bad != 3 && lim < 3) { x.Apply(k); x.Equal(reference, 1e-6, "faraday once more"); }
                } else {
                  x.Identical(reference, "other threads");
                  for (size_t i = 0; i < r[0].vals.size(); ++i) vp::Check(r[0].vals[i] == kept[0].vals[i], "depth depends on the threads");
                }
              }
              vp::Trace();
            }
  }
}

// Fits of lines: every slope on a grid, any weights and turns.
static void Lines() {
  struct Set { const char* name; std::vector<double> x; };
  const std::vector<Set> sets = {{"even", {1, 2, 3, 4, 5, 6}}, {"zero", {0, 1, 2.5, 3}}, {"wide", {2, 2.3, 3.1, 7}}, {"far", {20, 21, 22.5, 23, 24}}, {"negative", {-5, -3.5, -3, -1}}, {"both", {-5, -3, -2.5, 0.5, 1}}, {"right", {-1, 0.5, 3, 4}}, {"one", {3}}, {"double", {2, 2, 3, 3.5}}};
  for (const Set& set : sets) {
    const std::vector<double>& x = set.x;
    const size_t n = x.size();
    double dmin = 1e300, xmax = 0;
    for (size_t i = 0; i < n; ++i) { if (i && x[i] > x[i - 1]) dmin = std::min(dmin, x[i] - x[i - 1]); xmax = std::max(xmax, std::abs(x[i])); }
    if (n == 1) dmin = xmax;
    for (int g = -40; g <= 40; ++g)
      for (int wp = 0; wp < 4; ++wp)
        for (int turns = 0; turns < 3; ++turns) {
          if (!vp::CaseF([&] { return std::string("line ") + set.name + " slope=" + vp::Str(g) + " weights=" + vp::Str(wp) + " turns=" + vp::Str(turns); })) continue;
          const double slope = g / 40.0 * M_PI / dmin * 0.97 + 1e-3 * g;
          std::vector<pf::FitSample> d;
          for (size_t i = 0; i < n; ++i) {
            double w = wp == 0 ? 1 : wp == 1 ? 0.5 + i : wp == 2 ? (i == 1 ? 0 : 2) : 0;
            double y = slope * x[i];
            if (turns == 1) y = std::remainder(y, 2 * M_PI);
            if (turns == 2) y = std::remainder(y, 2 * M_PI) + 2 * M_PI * (int(i * 5 % 7) - 3);
            if (w == 0) y = 1.5 + i;
            d.push_back({x[i], y, w});
          }
          const std::vector<pf::FitSample> copy = d;
          const double s = pf::FitSlope(d);
          vp::Step();
          double cost = 0, sum = 0;
          for (size_t i = 0; i < n; ++i) { cost += d[i].weight * std::abs(std::remainder(s * x[i] - d[i].y, 2 * M_PI)); sum += d[i].weight; }
          if (sum) cost /= sum;
          vp::Check(std::abs(pf::SlopeModelCost(d, s) - cost) < 1e-9, "cost is ", pf::SlopeModelCost(d, s), ", not ", cost);
          if (wp == 3) { vp::Check(s == 0 && cost == 0, "slope without weights is ", s); continue; }
          // There may be several slopes that fit as well: those of the same phases.
          vp::Check(cost < 1e-6, "slope ", s, " does not fit phases made with ", slope, ": cost ", cost);
          if (n > 1) vp::Check(std::abs(s) < 2 * M_PI / dmin * 1.2 + M_PI / xmax, "slope ", s, " is larger than can be told apart");
          const pf::SlopeFitRange r = pf::GetRange(d);
          vp::Check(pf::FitSlope(d, r) == s, "fit with a range gives another slope");
          // A limit of the number of turns is respected.
          for (int lim = 0; lim < 4; ++lim) {
            const pf::SlopeFitRange q = pf::GetRange(d, aocommon::OptionalNumber<int>(lim));
            vp::Check(q.max_wraps == std::min(lim, r.max_wraps) && q.wrap_step == r.wrap_step, "limit of turns gives ", q.max_wraps);
          }
          for (size_t i = 0; i < n; ++i) vp::Check(d[i].x == copy[i].x && d[i].y == copy[i].y && d[i].weight == copy[i].weight, "fit changes the data");
          // From near the right slope the fit is direct.
          for (double off : {-0.45, 0.0, 0.45}) vp::Check(std::abs(pf::SlopeModelCost(d, pf::UnwrapAndFit(d, slope + off * M_PI / xmax))) < 1e-9, "fit from nearby does not find the slope");
          vp::Outcome(vp::Str(s));
        }
  }
  // No data at all: no slope.
  if (vp::Case("line empty")) { vp::Check(pf::FitSlope({}) == 0.0, "slope without data"); const pf::SlopeFitRange r = pf::GetRange({}); vp::Check(r.max_wraps == 0, "range without data"); }
}

// Pieces of a line: phases that change slowly in a chunk are reproduced.
static void Pieces() {
  for (int n = 1; n <= 12; ++n)
    for (int chunk = 1; chunk <= n + 1; ++chunk)
      for (int slope = -3; slope <= 3; ++slope)
        for (int start = -6; start <= 6; ++start)
          for (int wp = 0; wp < 5; ++wp)
            for (int how = 0; how < 5; ++how) {
              if (!vp::Thorough() && n > 6 && (slope + start + wp + how + 20) % 5) continue;
              if (!vp::CaseF([&] { return "pieces n=" + vp::Str(n) + " chunk=" + vp::Str(chunk) + " slope=" + vp::Str(slope) + " start=" + vp::Str(start) + " weights=" + vp::Str(wp) + " how=" + vp::Str(how); })) continue;
              std::vector<double> f, y, w, out(n, 77.0);
              for (int i = 0; i < n; ++i) {
                f.push_back(140e6 + 2e5 * i + (i % 3) * 3e4);
                // Up to a third of a turn in a chunk.
                double p = start * 0.52 + slope * 0.25 / std::max(1, std::min(n, chunk)) * (f[i] - f[0]) / 2e5;
                y.push_back(std::remainder(p, 2 * M_PI));
                w.push_back(wp == 0 ? 1 : wp == 1 ? 0.3 + 0.1 * (i % 4) : wp == 2 ? 1 + i : wp == 3 ? (i % 2 ? 0 : 2) : (i == n / 2 ? 1.5 : 0));
              }
              if (wp >= 3) for (int i = 0; i < n; ++i) if (w[i] == 0) y[i] = 0;
              PieceWisePhaseFitter p(chunk);
              vp::Check(p.ChunkSize() == size_t(chunk), "chunk size is not kept");
              const std::vector<double> y0 = y;
              size_t bp = 0;
              if (how == 0) p.PieceWiseFit(f, y, out);
              if (how == 1) p.PieceWiseFit(f, y, w.data(), out);
              if (how == 2) p.SlidingFit(f.data(), y.data(), out.data(), n);
              if (how == 3) p.SlidingFit(f.data(), y.data(), w.data(), out.data(), n);
              if (how == 4) bp = p.SlidingFitWithBreak(f.data(), y.data(), w.data(), out.data(), n);
              vp::Step();
              vp::Check(y == y0, "fit changes the data");
              vp::Check(bp <= size_t(n), "break is at ", bp);
              const bool weighted = how == 1 || how >= 3;
              if (!weighted && wp) continue;
              for (int i = 0; i < n; ++i) {
                if (!vp::Check(std::isfinite(out[i]) && out[i] != 77.0, "channel ", i, " becomes ", out[i])) break;
                if (std::min(n, chunk) <= 1) { vp::Check(out[i] == y[i], "single channels change"); continue; }
                if (w[i] == 0 || wp == 4) continue;
                // With missing channels a chunk may have only one value, and no slope.
                const double tol = wp == 3 && (chunk < 4 || how == 4) ? 0.26 * 3 : 1e-6;
                if (!vp::Check(std::abs(std::remainder(out[i] - y[i], 2 * M_PI)) < tol, "channel ", i, " becomes ", out[i], ", not ", y[i])) break;
              }
              vp::Outcome(vp::Str(out[n / 2]));
            }
  // Weighted medians of up to 5 values.
  for (int n = 0; n <= 5; ++n) {
    int combos = 1;
    for (int i = 0; i < n; ++i) combos *= 12;
    for (int code = 0; code < combos; code += n == 5 && !vp::Thorough() ? 7 : 1) {
      if (!vp::CaseF([&] { return "median n=" + vp::Str(n) + " values=" + vp::Str(code); })) continue;
      std::vector<std::pair<double, double>> v;
      for (int i = 0, c = code; i < n; ++i, c /= 12) v.push_back({c % 4 - 1, std::vector<double>{0, 1, 2.5}[c / 4 % 3]});
      const std::vector<std::pair<double, double>> v0 = v;
      const double m = PieceWisePhaseFitter::WeightedMedian(v);
      vp::Step();
      double below = 0, above = 0, sum = 0;
      bool there = n == 0 && m == 0;
      for (auto& x : v0) { sum += x.second; if (x.first < m) below += x.second; if (x.first > m) above += x.second; there |= x.first == m; }
      vp::Check(there, "median ", m, " is not one of the values");
      vp::Check(below <= sum / 2 && above <= sum / 2, "median ", m, " has ", below, " below and ", above, " above it");
    }
  }
  // Unwrapping: all short sequences on a grid of eighths of a turn.
  for (int n = 1; n <= 4; ++n) {
    int combos = 1;
    for (int i = 0; i < n; ++i) combos *= 17;
    for (int code = 0; code < combos; code += n == 4 ? 3 : 1) {
      if (!vp::CaseF([&] { return "unwrap n=" + vp::Str(n) + " values=" + vp::Str(code); })) continue;
      std::vector<double> v;
      for (int i = 0, c = code; i < n; ++i, c /= 17) v.push_back((c % 17 - 8) * 0.7);
      const std::vector<double> v0 = v;
      PieceWisePhaseFitter::Unwrap(v.begin(), v.end());
      vp::Step();
      for (int i = 0; i < n; ++i) {
        vp::Check(std::abs(std::remainder(v[i] - v0[i], 2 * M_PI)) < 1e-9, "unwrapping changes a phase");
        if (i) vp::Check(std::abs(v[i] - v[i - 1]) <= M_PI + 1e-9, "unwrapped phases ", v[i - 1], " and ", v[i], " differ by more than half a turn");
      }
      vp::Check(v[0] == v0[0], "the first phase changes");
    }
  }
  // Chunk sizes: ten in an octave.
  for (int n = 1; n <= 40; ++n)
    for (int o = 0; o < 8; ++o) {
      if (!vp::CaseF([&] { return "chunks n=" + vp::Str(n) + " octaves=" + vp::Str(o); })) continue;
      std::vector<double> f;
      for (int i = 0; i < n; ++i) f.push_back(100e6 * (1 + 0.2 * o * i / std::max(1, n - 1)));
      const size_t c = PieceWisePhaseFitter::CalculateChunkSize(f);
      const double octaves = std::log2(f.back() / f.front());
      vp::Check(octaves > 0 ? (c == std::min<size_t>(n, std::ceil(n / (10 * octaves) - 1e-9)) || c == std::min<size_t>(n, std::ceil(n / (10 * octaves) + 1e-9))) : c == size_t(n), "chunk size ", c, " of ", n, " channels in ", octaves, " octaves");
    }
}

static void Smoothness() {
  for (const Band& band : Bands())
    for (const Spd& spd : kSpds)
      for (size_t np : {1, 2, 4})
        for (int width = 0; width < 3; ++width)
          for (int exponent = 0; exponent < 3; ++exponent)
            for (int truncate = 0; truncate < 2; ++truncate)
              for (int bad = 0; bad < 4; ++bad) {
                if (!vp::CaseF([&] { return std::string("smooth ") + band.name + " " + Name(spd) + "x" + vp::Str(np) + " width=" + vp::Str(width) + " exponent=" + vp::Str(exponent) + " truncate=" + vp::Str(truncate) + " missing=" + vp::Str(bad); })) continue;
                const size_t nc = band.f.size(), na = 3, ns = Sum(spd);
                const double bw = (width == 0 ? 0.5 : width == 1 ? 1.5 : 4) * (band.f[1] - band.f[0]), ref = exponent ? band.f[nc / 2] : 0, ex = exponent == 2 ? 1.0 : -1.0;
                std::vector<double> w(na * nc), dd, af;
                for (size_t i = 0; i < w.size(); ++i) w[i] = bad == 2 && i % 5 == 3 ? 0 : 1 + 0.25 * (i % 7);
                std::vector<std::vector<double>> ws;
                if (bad >= 2) for (size_t s = 0; s < ns; ++s) { ws.push_back(w); for (size_t i = 0; i < w.size(); ++i) ws[s][i] += bad == 2 ? 0 : 0.5 * ((i + s) % 4); }
                if ((width + bad) % 2) for (size_t s = 0; s < ns; ++s) dd.push_back(1.0 / (1 + s));
                for (size_t a = 0; a < na; ++a) af.push_back(a == 0 ? 1 : a == 1 ? (bad == 2 ? 0 : 0.5) : 2);   // 0: no smoothing
                Sol first(nc, na, ns, np), reference = first;
                for (size_t c = 0; c < nc; ++c) for (size_t a = 0; a < na; ++a) for (size_t s = 0; s < ns; ++s) for (size_t p = 0; p < np; ++p) {
                  first(c, a, s, p) = D(Mix(c, a, s, p), Mix(c, a, s, p, 1));
                  if (bad == 1 && (c + a + s) % 3 == 0) first(c, a, s, p) = Bad(1 + (c + p) % 4);
                  if (bad == 3 && a == 2 && s == 0) first(c, a, s, p) = D(kNan, 0);
                }
                // The wanted result: each antenna, solution and polarization by itself.
                Sol want = first;
                for (size_t a = 0; a < na; ++a) for (size_t s = 0; s < ns; ++s) for (size_t p = 0; p < np; ++p) {
                  KernelSmoother<D, double> one(band.f, KernelSmoother<D, double>::GaussianKernel, bw, ref, ex, truncate);
                  std::vector<D> data(nc);
                  std::vector<double> weight(nc);
                  for (size_t c = 0; c < nc; ++c) {
                    const bool ok = Fin(first(c, a, s, p));
                    data[c] = ok ? first(c, a, s, p) : D(0);
                    weight[c] = ok ? (ws.empty() ? w : ws[s])[a * nc + c] : 0;
                  }
                  // A larger factor makes the kernel wider.
                  if (af[a] == 0) continue;
                  one.Smooth(data.data(), weight.data(), 1.0 / ((dd.empty() ? 1.0 : dd[s]) * af[a]));
                  for (size_t c = 0; c < nc; ++c) want(c, a, s, p) = data[c];
                }
                for (const Par& par : kPars) {
                  Set(par);
                  SmoothnessConstraint k(bw, ref, ex, truncate);
                  k.Initialize(na, spd, band.f);
                  std::vector<double> copy = af;
                  k.SetAntennaFactors(std::move(copy));
                  vp::Check(!vp::Throws([&] { k.SetDdSmoothingFactors(std::vector<double>(ns + 1, 1.0)); }).empty(), "a wrong number of factors is accepted");
                  k.SetDdSmoothingFactors(dd);
                  vp::Check(k.GetAntennaFactors() == af && k.GetDdSmoothingFactors() == dd, "factors are not kept");
                  k.SetWeights(w);
                  if (!ws.empty()) k.SetSubSolutionWeights(ws);
                  Sol x = first;
                  x.Apply(k);
                  if (!x.Equal(want, 1e-12, "smooth")) break;
                  // Afterwards the constraint can be used for other solutions.
                  Sol y(nc, na, ns, np);
                  for (size_t i = 0; i < nc * na * ns * np; ++i) y.t.data()[i] = D(2, -1);
                  y.Apply(k);
                  for (size_t i = 0; i < nc * na * ns * np; ++i) if (Fin(y.t.data()[i])) vp::Check(Same(y.t.data()[i], D(2, -1), 1e-9), "constant solutions are changed");
                }
                vp::Trace();
              }
}

// The phases that a constraint makes of solutions, and what it reports.
static void Tec() {
  for (const Band& band : Bands()) {
    const size_t nc = band.f.size(), na = 3;
    if (nc < 4) continue;
    for (const Spd& spd : kSpds)
      for (int type = 0; type < 4; ++type)            // tec, tec and phase, tec and delay, all three
        for (int ref = 0; ref < 2; ++ref)
          for (int bad = 0; bad < 3; ++bad)
            for (int approx = 0; approx < (type < 2 ? 2 : 1); ++approx)
              for (int seed = 0; seed < (vp::Thorough() ? 12 : 2); ++seed) {
                if (!vp::CaseF([&] { return std::string("tec") + vp::Str(type) + " " + band.name + " " + Name(spd) + " reference=" + vp::Str(ref) + " missing=" + vp::Str(bad) + " approximate=" + vp::Str(approx) + " " + vp::Str(seed); })) continue;
                const size_t ns = Sum(spd);
                std::vector<double> w(na * nc), tec(na * ns), phase(na * ns), delay(na * ns), sums(na * ns, 0);
                for (size_t i = 0; i < w.size(); ++i) w[i] = 1 + 0.25 * (i % 5);
                Sol first(nc, na, ns, 1), want = first;
                for (size_t a = 0; a < na; ++a) for (size_t s = 0; s < ns; ++s) {
                  const size_t i = a * ns + s;
                  const double top = band.f[0] / 120e6;
                  tec[i] = 0.05 * top * Mix(seed, a, s);
                  phase[i] = type & 1 ? 1.4 * Mix(seed, a, s, 1) : 0;
                  delay[i] = type & 2 ? 4e-9 * Mix(seed, a, s, 2) : 0;
                  for (size_t c = 0; c < nc; ++c) {
                    const double p = tec[i] * kTec / band.f[c] + phase[i] + 2 * M_PI * delay[i] * band.f[c];
                    first(c, a, s, 0) = std::polar(type % 3 ? 1.0 : 0.5 + a, p);
                    if (bad == 1 && (c + a + s) % 5 == 1) first(c, a, s, 0) = Bad(a ? 1 + (c + s) % 4 : 1 + (c + s) % 2 * 2);
                    if (bad == 2 && a == 2 && c < 2) first(c, a, s, 0) = D(kNan, kNan);
                  }
                }
                // The reference antenna is the first: it always has most channels.
                for (size_t a = 0; a < na; ++a) for (size_t s = 0; s < ns; ++s) for (size_t c = 0; c < nc; ++c) {
                  const size_t i = a * ns + s, r = s;
                  const double p = (tec[i] - (ref ? tec[r] : 0)) * kTec / band.f[c] + phase[i] - (ref ? phase[r] : 0) + 2 * M_PI * (delay[i] - (ref ? delay[r] : 0)) * band.f[c];
                  want(c, a, s, 0) = std::polar(1.0, p);
                  const bool own = Fin(first(c, a, s, 0)), refs = !ref || (a == 0 ? true : Fin(first(c, 0, s, 0)));
                  if ((a == 0 && ref) || (own && refs)) sums[i] += w[a * nc + c];
                }
                Sol reference = first;
                std::vector<ConstraintResult> kept;
                for (const Par& par : kPars) {
                  Set(par);
                  std::unique_ptr<Constraint> k;
                  if (type < 2) {
                    const TecConstraint::Mode m = type ? TecConstraint::Mode::kTecAndCommonScalar : TecConstraint::Mode::kTecOnly;
                    auto t = approx ? std::unique_ptr<TecConstraint>(new ApproximateTECConstraint(m)) : std::make_unique<TecConstraint>(m);
                    t->setDoPhaseReference(ref);
                    k = std::move(t);
                  } else k = std::make_unique<TecOffsetDelayConstraint>(type == 3, 4, ref);
                  k->Initialize(na, spd, band.f);
                  k->SetWeights(w);
                  Sol x = first;
                  if (approx) {
                    k->PrepareIteration(false, 3, false);
                    vp::Check(!k->Satisfied(), "approximate constraint is satisfied before its last stage");
                    x.Apply(*k);
                    vp::Check(k->GetResult().empty(), "approximate stage has results");
                    for (size_t i = 0; i < nc * na * ns; ++i) vp::Check(std::abs(std::abs(x.t.data()[i]) - 1) < 1e-9, "approximate solution is not a phase: ", x.t.data()[i]);
                    x = first;
                    k->PrepareIteration(seed == 0, seed == 1 ? 50 : 4, seed > 1);
                    vp::Check(k->Satisfied(), "approximate constraint does not start its last stage");
                  } else {
                    k->PrepareIteration(false, 0, false);
                    vp::Check(k->Satisfied(), "constraint is not satisfied");
                  }
                  x.Apply(*k);
                  const std::vector<ConstraintResult> r = k->GetResult();
                  if (par.threads > 1) {
                    x.Identical(reference, "other threads");
                    for (size_t q = 0; q < r.size(); ++q) for (size_t i = 0; i < na * ns; ++i) vp::Check(r[q].vals[i] == kept[q].vals[i] && r[q].weights[i] == kept[q].weights[i], "result depends on the threads");
                    continue;
                  }
                  reference = x;
                  kept = r;
                  const size_t nr = type == 0 ? 2 : type == 1 ? 3 : type;
                  if (!vp::Check(r.size() == nr, "there are ", r.size(), " results")) break;
                  const std::vector<size_t> d = {na, ns, 1};
                  if (!Dims(r[0], "tec", "ant,dir,freq", d) || (type & 1 && !Dims(r[1], "phase", "ant,dir,freq", d)) || !Dims(r.back(), type < 2 ? "error" : "delay", "ant,dir,freq", d)) break;
                  for (size_t a = 0; a < na; ++a) for (size_t s = 0; s < ns; ++s) {
                    const size_t i = a * ns + s;
                    for (const ConstraintResult& q : r) vp::Check(std::abs(q.weights[i] - sums[i]) < 1e-9, "weight of the ", q.name, " of antenna ", a, " solution ", s, " is ", q.weights[i], ", not ", sums[i]);
                    const double t = r[0].vals[i], p = type & 1 ? r[1].vals[i] : 0, l = type & 2 ? r.back().vals[i] : 0;
                    for (size_t c = 0; c < nc; ++c) {
                      const double model = t * kTec / band.f[c] + p + 2 * M_PI * l * band.f[c];
                      if (!vp::Check(Same(x(c, a, s, 0), std::polar(1.0, model), 1e-6), "block ", c, " antenna ", a, " solution ", s, " is ", x(c, a, s, 0), ", while the reported values make ", std::polar(1.0, model))) break;
                      if (type == 2) continue;   // the search without offset does not find everything, see below
                      if (type == 1 && bad && ref && nc < 12) continue;   // few phases may be met by another tec and phase
                      if (!vp::Check(Same(x(c, a, s, 0), want(c, a, s, 0), 3e-4), "block ", c, " antenna ", a, " solution ", s, " is ", x(c, a, s, 0), ", not ", want(c, a, s, 0))) break;
                    }
                    if (type >= 2) {
                      // The values are those of the search with the phases and weights of this solution only.
                      std::vector<double> rel, ph, ww;
                      for (size_t c = 0; c < nc; ++c) {
                        D v = first(c, a, s, 0);
                        bool ok = Fin(v);
                        if (ref) { if (a == 0) { v = 1; ok = true; } else { ok &= Fin(first(c, 0, s, 0)); v /= first(c, 0, s, 0); } }
                        rel.push_back(band.f[c] / band.f[0]);
                        ph.push_back(ok ? std::arg(v) : 0);
                        ww.push_back(ok ? w[a * nc + c] : 0);
                      }
                      const TecOffsetDelayValues best = TecOffsetDelayGridSearch(rel, ph, ww, type == 3, 4);
                      vp::Check(Same(t, best.a * band.f[0] / kTec, 1e-9) && Same(p, best.b, 1e-7) && Same(l * 1e9, best.c / band.f[0] / 2 / M_PI * 1e9, 1e-7), "values of antenna ", a, " solution ", s, " are ", t, " ", p, " ", l, ", not ", best.a * band.f[0] / kTec, " ", best.b, " ", best.c / band.f[0] / 2 / M_PI);
                    }
                    if (type < 2 && !(type == 1 && bad && ref && nc < 12)) vp::Check(r.back().vals[i] >= 0 && r.back().vals[i] < 1e-3, "error of a perfect fit is ", r.back().vals[i]);
                    vp::Outcome(vp::Str(t));
                  }
                }
                vp::Trace();
              }
  }
  // The stages of the approximate constraint: every history of iterations.
  for (int max = 0; max <= 4; ++max)
    for (int h = 0; h < (1 << 8); ++h) {
      if (!vp::CaseF([&] { return "stages max=" + vp::Str(max) + " history=" + vp::Str(h); })) continue;
      kit::Threads(1); kit::Order(0);
      ApproximateTECConstraint k(TecConstraint::Mode::kTecOnly);
      k.SetMaxApproximatingIterations(max);
      k.Initialize(1, {1}, Bands()[0].f);
      vp::Check(!k.Satisfied() && k.GetResult().empty(), "constraint starts satisfied");
      for (int i = 0; i < 4; ++i) {
        const bool precise = h >> i & 1, last = h >> (4 + i) & 1;
        k.PrepareIteration(precise, i, last);
        const bool done = precise || last || i >= max;
        vp::Check(k.Satisfied() == done, "iteration ", i, ": satisfied is ", k.Satisfied());
        Sol x(Bands()[0].f.size(), 1, 1, 1);
        for (size_t c = 0; c < x.c; ++c) x(c, 0, 0, 0) = std::polar(2.0, 0.1 * c);
        x.Apply(k);
        vp::Check(k.GetResult().empty() == !done, "iteration ", i, ": results at the wrong stage");
      }
      vp::Trace();
    }
}

int main(int argc, char** argv) {
  vp::Init(argc, argv);
  Lines();
  Pieces();
  Faraday();
  Smoothness();
  Tec();
  return vp::Finish();
}
