// C42: constraints without fits over frequency, on every small pattern of solutions.
#include <array>
#include "vp.h"
#include "solver_kit.h"
#include "ddecal/constraints/AmplitudeOnlyConstraint.h"
#include "ddecal/constraints/AntennaConstraint.h"
#include "ddecal/constraints/AntennaIntervalConstraint.h"
#include "ddecal/constraints/PolarizationLeakageConstraint.h"
#include "ddecal/constraints/RotationConstraint.h"
#include "ddecal/constraints/RotationAndDiagonalConstraint.h"
#include "base/CalType.h"
using namespace skit;
using dp3::base::CalType;
typedef std::vector<uint32_t> Spd;

static const double kNan = std::numeric_limits<double>::quiet_NaN(), kInf = std::numeric_limits<double>::infinity();
static bool Fin(D d) { return std::isfinite(d.real()) && std::isfinite(d.imag()); }
static bool Same(D a, D b) { return Fin(a) ? Fin(b) && std::abs(a - b) <= 1e-9 * (1 + std::abs(b)) : !Fin(b); }
static size_t Sum(const Spd& s) { size_t n = 0; for (uint32_t x : s) n += x; return n; }

struct Sol {
  size_t c, a, s, p;
  SolutionTensor t;
  Sol(size_t c, size_t a, size_t s, size_t p) : c(c), a(a), s(s), p(p), t({c, a, s, p}) {}
  D& operator()(size_t i, size_t j, size_t k, size_t l) { return t.data()[((i * a + j) * s + k) * p + l]; }
  void Apply(Constraint& k) { SolutionSpan span = aocommon::xt::CreateSpan(t); k.Apply(span, 1e9); vp::Step(); }
  void Ref(Constraint& k) { SolutionSpan span = aocommon::xt::CreateSpan(t); k.ApplyReferenceAntenna(span); vp::Step(); }
  bool Equal(Sol& o, const char* what) {
    for (size_t i = 0; i < c * a * s * p; ++i)
      if (!vp::Check(Same(t.data()[i], o.t.data()[i]), what, ": block ", i / p / s / a, " antenna ", i / p / s % a, " solution ", i / p % s, " element ", i % p, " is ", t.data()[i], ", not ", o.t.data()[i])) return false;
    return true;
  }
  // Solutions of all sizes and phases.
  void Fill(unsigned seed) { for (size_t i = 0; i < c * a * s * p; ++i) t.data()[i] = D(Mix(seed, i, 1), Mix(seed, i, 2)) + D(0.1, 0.2); }
};
static const std::vector<Spd>& Spds() {
  static const std::vector<Spd> v = {{1}, {2}, {3}, {1, 1}, {2, 1}, {1, 2}, {3, 2}, {2, 4, 1}};
  return v;
}
static std::vector<double> Freqs(size_t n) { std::vector<double> f; for (size_t i = 0; i < n; ++i) f.push_back(120e6 + 1e6 * i + 1e5 * (i * i % 3)); return f; }
static std::string Name(const Spd& s) { std::string r = "["; for (uint32_t x : s) r += vp::Str(x); return r + "]"; }
// The values that can be wrong.
static D Bad(int kind) { return kind == 1 ? D(kNan, kNan) : kind == 2 ? D(kInf, 0) : kind == 3 ? D(0.5, kNan) : D(-kInf, 2); }

// Amplitudes, leakage and averages of antennas and intervals.
static void Averages() {
  for (const Spd& spd : Spds())
    for (size_t nc = 1; nc <= 3; ++nc)
      for (size_t np : {1, 2, 4})
        for (int bad = 0; bad <= 4; ++bad)
          for (int seed = 0; seed < (vp::Thorough() ? 8 : 2); ++seed) {
            if (!vp::CaseF([&] { return "amplitude " + Name(spd) + " " + vp::Str(nc) + "x" + vp::Str(np) + " bad=" + vp::Str(bad) + " " + vp::Str(seed); })) continue;
            const size_t na = 3, ns = Sum(spd);
            Sol x(nc, na, ns, np);
            x.Fill(seed);
            if (bad) x(nc - 1, 1, ns - 1, np - 1) = Bad(bad);
            Sol want = x, first = x;
            for (size_t i = 0; i < nc * na * ns * np; ++i) want.t.data()[i] = std::abs(x.t.data()[i]);
            AmplitudeOnlyConstraint k;
            k.Initialize(na, spd, Freqs(nc));
            vp::Check(k.NAntennas() == na && k.NDirections() == spd.size() && k.NSubSolutions() == ns && k.NChannelBlocks() == nc, "dimensions are not kept");
            for (size_t d = 0; d < spd.size(); ++d) vp::Check(k.GetSubSolutions(d) == spd[d], "solutions per direction are not kept");
            x.Apply(k);
            x.Equal(want, "amplitude");
            x.Apply(k);
            x.Equal(want, "amplitude of amplitude");
            vp::Check(k.Satisfied() && k.GetResult().empty(), "amplitude constraint is not satisfied or has results");
            if (np == 4) {
              PolarizationLeakageConstraint l;
              l.Initialize(na, spd, Freqs(nc));
              Sol y = first, w = first;
              for (size_t i = 0; i < nc * na * ns; ++i) w.t.data()[4 * i] = w.t.data()[4 * i + 3] = 1;
              y.Apply(l);
              y.Equal(w, "leakage");
            }
          }
  // Every family of disjoint sets of 4 antennas (and some that overlap), every pattern of missing solutions.
  std::vector<std::vector<int>> owners;
  for (int code = 0; code < 256; ++code) {
    std::vector<int> o;
    int max = 0;
    bool ok = true;
    for (int i = 0; i < 4; ++i) {
      o.push_back(code >> (2 * i) & 3);
      if (o[i] > max + 1 || o[i] > 3) ok = false;
      max = std::max(max, o[i]);
    }
    if (ok) owners.push_back(o);
  }
  for (const std::vector<int>& o : owners)
    for (int miss = 0; miss < 16; ++miss)
      for (const Spd& spd : {Spd{1}, Spd{2, 1}})
        for (size_t np : {1, 2, 4}) {
          if (!vp::CaseF([&] { return "antennas " + vp::Str(o[0]) + vp::Str(o[1]) + vp::Str(o[2]) + vp::Str(o[3]) + " missing=" + vp::Str(miss) + " " + Name(spd) + "x" + vp::Str(np); })) continue;
          const size_t nc = 2, na = 4, ns = Sum(spd);
          Sol x(nc, na, ns, np);
          x.Fill(miss);
          for (size_t a = 0; a < na; ++a) if (miss >> a & 1) x(1, a, ns - 1, np - 1) = Bad(1 + (miss + a) % 4);
          std::vector<std::set<size_t>> sets(3);
          for (size_t a = 0; a < na; ++a) if (o[a]) sets[o[a] - 1].insert(a);
          while (!sets.empty() && sets.back().empty()) sets.pop_back();
          Sol want = x;
          for (const std::set<size_t>& set : sets)
            for (size_t c = 0; c < nc; ++c)
              for (size_t s = 0; s < ns; ++s)
                for (size_t p = 0; p < np; ++p) {
                  D sum = 0; int n = 0;
                  for (size_t a : set) if (Fin(x(c, a, s, p))) { sum += x(c, a, s, p); ++n; }
                  for (size_t a : set) want(c, a, s, p) = n ? sum / double(n) : D(kNan, kNan);
                }
          AntennaConstraint k;
          std::vector<std::set<size_t>> copy = sets;
          k.SetAntennaSets(std::move(copy));
          k.Initialize(na, spd, Freqs(nc));
          vp::Check(k.GetAntennaSets() == sets, "antenna sets are not kept");
          x.Apply(k);
          x.Equal(want, "mean of antennas");
          x.Apply(k);
          x.Equal(want, "mean of antennas once more");
          vp::Trace();
        }
  // Antenna intervals: all factors of 3 antennas.
  for (const Spd& spd : Spds()) {
    const size_t max = *std::max_element(spd.begin(), spd.end());
    for (size_t f0 = 0; f0 <= max + 1; ++f0) for (size_t f1 = 0; f1 <= max + 1; ++f1) for (size_t f2 = 0; f2 <= max + 1; ++f2)
      for (int miss = 0; miss < 16; ++miss)
        for (size_t np : {1, 4}) {
          if ((f0 == 0 || f1 == 0 || f2 == 0 || f0 > max || f1 > max || f2 > max) && (miss || np > 1)) continue;
          if (!vp::Thorough() && max > 3 && (f0 + 2 * f1 + 3 * f2 + miss) % 4) continue;
          if (!vp::CaseF([&] { return "intervals " + Name(spd) + " factors " + vp::Str(f0) + vp::Str(f1) + vp::Str(f2) + " missing=" + vp::Str(miss) + "x" + vp::Str(np); })) continue;
          const std::vector<size_t> f = {f0, f1, f2};
          const size_t nc = 2, na = 3, ns = Sum(spd);
          AntennaIntervalConstraint k(f);
          const bool valid = f0 && f1 && f2 && f0 <= max && f1 <= max && f2 <= max;
          const std::string err = vp::Throws([&] { k.Initialize(na, spd, Freqs(nc)); });
          if (!vp::Check(err.empty() == valid, "wrong factors: ", err) || !valid) continue;
          vp::Check(!vp::Throws([&] { k.Initialize(na + 1, spd, Freqs(nc)); }).empty(), "more antennas than factors are accepted");
          vp::Check(k.GetIntervalsPerAntenna() == f, "factors are not kept");
          Sol x(nc, na, ns, np);
          x.Fill(miss + 5);
          for (size_t s = 0; s < ns && s < 4; ++s) if (miss >> s & 1) { x(0, s % 3, s, np - 1) = Bad(1 + s); x(1, 1, s, 0) = Bad(1 + (s + miss) % 4); }
          Sol want = x;
          for (size_t c = 0; c < nc; ++c) for (size_t a = 0; a < na; ++a) for (size_t p = 0; p < np; ++p) {
            size_t base = 0;
            for (uint32_t n : spd) {
              for (size_t s = 0; s < n; ++s) {
                const size_t from = s / f[a] * f[a], to = std::min<size_t>(from + f[a], n);
                D sum = 0; int m = 0;
                for (size_t q = from; q < to; ++q) if (Fin(x(c, a, base + q, p))) { sum += x(c, a, base + q, p); ++m; }
                want(c, a, base + s, p) = m ? sum / double(m) : D(kNan, kNan);
              }
              base += n;
            }
          }
          x.Apply(k);
          x.Equal(want, "mean of intervals");
          x.Apply(k);
          x.Equal(want, "mean of intervals once more");
          vp::Trace();
        }
  }
}

// The reference antenna.
static void Reference() {
  for (const Spd& spd : {Spd{1}, Spd{2}, Spd{1, 2}})
    for (size_t nc : {1, 2, 5, 6, 10})
      for (size_t np : {1, 2, 4})
        for (int miss = 0; miss < (1 << 9); ++miss) {
          if (nc == 1 && (miss & ~73)) continue;   // three bits per antenna: thirds of the blocks
          if (!vp::CaseF([&] { return "reference " + Name(spd) + " " + vp::Str(nc) + "x" + vp::Str(np) + " missing=" + vp::Str(miss); })) continue;
          const size_t na = 3, ns = Sum(spd);
          Sol x(nc, na, ns, np);
          x.Fill(miss);
          for (size_t a = 0; a < na; ++a)
            for (size_t c = 0; c < nc; ++c)
              if (miss >> (3 * a + c % 3) & 1)
                for (size_t s = 0; s < ns; ++s) for (size_t p = 0; p < np; ++p) if (p == 0 || miss % 2) x(c, a, s, p) = Bad(1 + (c + a) % 4);
          Sol want = x;
          for (size_t p = 0; p < np; ++p) {
            size_t ref = na;
            for (size_t a = 0; a < na && ref == na; ++a) {
              size_t n = 0;
              for (size_t c = 0; c < nc; ++c) n += Fin(x(c, a, 0, p));
              if (n * 5 > nc) ref = a;
            }
            if (ref == na) ref = 0;
            for (size_t c = 0; c < nc; ++c) for (size_t s = 0; s < ns; ++s) for (size_t a = 0; a < na; ++a)
              want(c, a, s, p) = a == ref ? D(1) : Fin(x(c, a, s, p)) && Fin(x(c, ref, s, p)) ? x(c, a, s, p) / x(c, ref, s, p) : D(kNan, kNan);
          }
          AmplitudeOnlyConstraint k;
          k.Initialize(na, spd, Freqs(nc));
          x.Ref(k);
          bool infinite = false;   // division by infinity may give zero
          for (size_t i = 0; i < nc * na * ns * np; ++i) infinite |= !Fin(want.t.data()[i]);
          if (!infinite) x.Equal(want, "reference");
          else
            for (size_t i = 0; i < nc * na * ns * np; ++i)
              if (Fin(want.t.data()[i]) && !vp::Check(Same(x.t.data()[i], want.t.data()[i]), "reference: value ", i, " is ", x.t.data()[i], ", not ", want.t.data()[i])) break;
          vp::Trace();
        }
}

static double Half(double x) { x = std::fmod(x, M_PI); if (x >= M_PI / 2) x -= M_PI; if (x < -M_PI / 2) x += M_PI; return x; }
static J Rot(double t) { return {std::cos(t), -std::sin(t), std::sin(t), std::cos(t)}; }
// The rotation, up to half a turn, of diagonal * rotation: the circular phases differ by twice the angle.
static double Angle(const J& m) {
  const D rr = m[0] + m[3] + D(0, 1) * (m[1] - m[2]), ll = m[0] + m[3] - D(0, 1) * (m[1] - m[2]);
  return Half(0.5 * (std::arg(ll) - std::arg(rr)));
}
static bool Dims(const ConstraintResult& r, const std::string& name, size_t a, size_t s, size_t c, size_t p) {
  const std::vector<size_t> d = p > 1 ? std::vector<size_t>{a, s, c, p} : std::vector<size_t>{a, s, c};
  return vp::Check(r.name == name && r.dims == d && r.axes == (p > 1 ? "ant,dir,freq,pol" : "ant,dir,freq"), "result ", name, " has the wrong name, dimensions or axes: ", r.name, " ", r.axes) &&
         vp::Check(r.vals.size() == a * s * c * p && r.weights.size() == r.vals.size(), "result ", name, " has ", r.vals.size(), " values and ", r.weights.size(), " weights");
}

// What a diagonal of a mode looks like.
static const CalType kModes[] = {CalType::kDiagonal, CalType::kDiagonalAmplitude, CalType::kDiagonalPhase, CalType::kScalar, CalType::kScalarAmplitude, CalType::kScalarPhase};
static void Diagonal(D& a, D& b, int mode) {
  if (mode >= 3) a = b = (a + b) / 2.0;
  if (mode % 3 == 1) { a = std::abs(a); b = std::abs(b); }
  if (mode % 3 == 2) { a /= std::abs(a); b /= std::abs(b); }
}

static void Rotation() {
  // All angles (also outside a half turn), all antennas, weights of each antenna and block.
  for (const Spd& spd : Spds())
    for (size_t nc = 1; nc <= 3; ++nc)
      for (int kind = 0; kind < 4; ++kind)
        for (int seed = 0; seed < (vp::Thorough() ? 60 : 12); ++seed) {
          if (!vp::CaseF([&] { return "rotation " + Name(spd) + " blocks=" + vp::Str(nc) + " kind=" + vp::Str(kind) + " " + vp::Str(seed); })) continue;
          const size_t na = 3, ns = Sum(spd);
          RotationConstraint k;
          k.Initialize(na, spd, Freqs(nc));
          std::vector<double> w(na * nc);
          for (size_t i = 0; i < w.size(); ++i) w[i] = 1 + i;
          Sol x(nc, na, ns, 4), want = x;
          std::vector<double> angle(na * ns * nc);
          for (int round = 0; round < 2; ++round) {
            for (double& v : w) v += 0.5;
            k.SetWeights(w);
            for (size_t c = 0; c < nc; ++c) for (size_t a = 0; a < na; ++a) for (size_t s = 0; s < ns; ++s) {
              const double t = 3.3 * Mix(seed, c, a, s, round);
              const double g = kind == 1 ? 2.5 : 1.0;
              J m = Rot(t);
              if (kind == 2) for (int i = 0; i < 4; ++i) m[i] += 0.3 * Mix(seed, c, a, s, 10 + i);  // real matrix
              const D ph = kind == 3 ? std::polar(1.7, 3 * Mix(c, a, s, seed)) : D(g);
              for (int i = 0; i < 4; ++i) x(c, a, s, i) = m[i] * ph;
              if ((c + a + s + seed) % 7 == 0 && round == 0) x(c, a, s, seed % 4) = D(kNan, 0);
              J got = {x(c, a, s, 0), x(c, a, s, 1), x(c, a, s, 2), x(c, a, s, 3)};
              angle[(a * ns + s) * nc + c] = Angle(got);
            }
            x.Apply(k);
            const std::vector<ConstraintResult> r = k.GetResult();
            if (!vp::Check(r.size() == 1, "rotation gives ", r.size(), " results") || !Dims(r[0], "rotation", na, ns, nc, 1)) break;
            for (size_t c = 0; c < nc; ++c) for (size_t a = 0; a < na; ++a) for (size_t s = 0; s < ns; ++s) {
              const size_t i = (a * ns + s) * nc + c;
              const double t = angle[i];
              vp::Check(r[0].weights[i] == w[a * nc + c], "weight of antenna ", a, " solution ", s, " block ", c, " is ", r[0].weights[i], ", not ", w[a * nc + c]);
              if (!std::isfinite(t)) { vp::Check(!Fin(x(c, a, s, 0)), "a missing solution becomes a rotation"); continue; }
              vp::Check(std::abs(Half(r[0].vals[i] - t)) < 1e-9, "angle of antenna ", a, " solution ", s, " block ", c, " is ", r[0].vals[i], ", not ", t);
              const J m = Rot(r[0].vals[i]);
              for (int j = 0; j < 4; ++j) vp::Check(Same(x(c, a, s, j), m[j]), "solution is not the rotation that is reported: ", x(c, a, s, j), " for ", m[j]);
            }
            Sol y = x;
            y.Apply(k);
            y.Equal(x, "rotation once more");
          }
          vp::Trace();
        }
  // Rotation and diagonal: amplitudes that are in range or not, missing antennas, references.
  for (int mode = 0; mode < 6; ++mode)
    for (const Spd& spd : Spds())
      for (size_t nc = 1; nc <= 2; ++nc)
        for (int miss = 0; miss < 16; ++miss)
          for (int wild = 0; wild < 8; ++wild)
            for (int ref = 0; ref < 2; ++ref) {
              if (wild == 7 && mode % 3 == 2) continue;   // zero has no phase
              if (!vp::Thorough() && (mode + miss * 3 + wild * 5 + ref + nc + spd.size()) % 3) continue;
              if (!vp::CaseF([&] { return "rotation+" + vp::Str(mode) + " " + Name(spd) + " blocks=" + vp::Str(nc) + " missing=" + vp::Str(miss) + " wild=" + vp::Str(wild) + " reference=" + vp::Str(ref); })) continue;
              const size_t na = 4, ns = Sum(spd), np = mode < 3 ? 2 : 1;
              RotationAndDiagonalConstraint k(kModes[mode]);
              k.SetDoRotationReference(ref);
              k.Initialize(na, spd, Freqs(nc));
              std::vector<double> w(na * nc);
              for (size_t i = 0; i < w.size(); ++i) w[i] = 2 + i;
              Sol x(nc, na, ns, 4);
              // The amplitudes differ; antenna 2 of the last solution in the last block may be far off.
              for (int round = 0; round < 2; ++round) {
                for (double& v : w) v += 0.5;
                k.SetWeights(w);
                Sol want = x;
                std::vector<int> flagged(na * ns * nc, 0);
                std::vector<double> angle(na * ns * nc);
                std::vector<D> diag(na * ns * nc * 2);
                std::vector<char> gone(na * ns * nc, 0);
                for (size_t c = 0; c < nc; ++c) for (size_t s = 0; s < ns; ++s) {
                  const bool last = c == nc - 1 && s == ns - 1 && round == 0;
                  std::vector<D> da(na), db(na);
                  std::vector<double> t(na);
                  double ma = 0, mb = 0;
                  int n = 0;
                  for (size_t a = 0; a < na; ++a) {
                    double ga = 1 + 0.4 * Mix(mode, c, s, a), gb = 2 + 0.8 * Mix(mode, c, s, a, 1);
                    if (last && wild && a == 2) {
                      if (wild == 1) ga *= 40;
                      if (wild == 2) gb *= 40;
                      if (wild == 3) ga *= 0.02;
                      if (wild == 4) gb *= 0.02;
                      if (wild == 5) { ga *= 0.02; gb *= 50; }
                      if (wild == 6) ga *= 1.6;    // not far off
                      if (wild == 7) ga = gb = 0;
                    }
                    t[a] = 1.5 * Mix(mode, c, s, a, 2);
                    da[a] = std::polar(ga, 0.7 * Mix(c, s, a, 3));
                    db[a] = std::polar(gb, 0.7 * Mix(c, s, a, 4));
                    J m = Rot(t[a]);
                    m = {da[a] * m[0], da[a] * m[1], db[a] * m[2], db[a] * m[3]};
                    for (int i = 0; i < 4; ++i) x(c, a, s, i) = m[i];
                    t[a] = Angle(m);
                    const J rot = Rot(t[a]);
                    da[a] = m[0] * rot[0] + m[1] * rot[1];
                    db[a] = m[2] * rot[2] + m[3] * rot[3];
                    gone[(a * ns + s) * nc + c] = 0;
                    if (last && (miss >> a & 1)) {
                      x(c, a, s, (miss + a) % 4) = Bad(1 + (miss + 2 * a + wild) % 4);
                      gone[(a * ns + s) * nc + c] = 1;
                    } else { ma += std::abs(da[a]); mb += std::abs(db[a]); ++n; }
                  }
                  if (n) { ma /= n; mb /= n; }
                  bool diverged = false, have = false;
                  double zero = 0;
                  for (size_t a = 0; a < na; ++a) {
                    const size_t i = (a * ns + s) * nc + c;
                    if (gone[i]) { flagged[i] = 1; continue; }
                    for (int q = 0; q < 2; ++q) {
                      D& d = q ? db[a] : da[a];
                      const double mean = q ? mb : ma, r = std::abs(d) / mean;
                      if (r > 5) { d *= 5 / r; diverged = true; }
                      if (r < 0.2) { if (r > 0) d *= 0.2 / r; diverged = true; }
                    }
                    Diagonal(da[a], db[a], mode);
                    if (ref) { if (!have) { zero = t[a]; have = true; } t[a] = Half(t[a] - zero); }
                    const J rot = Rot(t[a]);
                    want(c, a, s, 0) = da[a] * rot[0]; want(c, a, s, 1) = da[a] * rot[1];
                    want(c, a, s, 2) = db[a] * rot[2]; want(c, a, s, 3) = db[a] * rot[3];
                    angle[i] = t[a]; diag[2 * i] = da[a]; diag[2 * i + 1] = db[a];
                  }
                  if (diverged) for (size_t a = 0; a < na; ++a) flagged[(a * ns + s) * nc + c] = 1;
                  for (size_t a = 0; a < na; ++a) if (gone[(a * ns + s) * nc + c]) for (int i = 0; i < 4; ++i) want(c, a, s, i) = x(c, a, s, i);
                }
                x.Apply(k);
                for (size_t c = 0; c < nc; ++c) for (size_t a = 0; a < na; ++a) for (size_t s = 0; s < ns; ++s) {
                  const size_t i = (a * ns + s) * nc + c;
                  // Half a turn may be in the rotation or in the diagonal.
                  for (int j = 0; j < 4; ++j) {
                    const bool ok = Same(x(c, a, s, j), want(c, a, s, j));
                    if (!ok && (mode % 3 == 1 || ref) && Same(x(c, a, s, j), -want(c, a, s, j)) && std::abs(std::abs(angle[i]) - M_PI / 2) < 1e-9) continue;
                    if (!vp::Check(ok, "block ", c, " antenna ", a, " solution ", s, " element ", j, " is ", x(c, a, s, j), ", not ", want(c, a, s, j))) goto done;
                  }
                }
                {
                  const std::vector<ConstraintResult> r = k.GetResult();
                  const bool both = mode % 3 == 0;
                  if (!vp::Check(r.size() == (both ? 3 : 2), "there are ", r.size(), " results") || !Dims(r[0], "rotation", na, ns, nc, 1) || !Dims(r[1], mode % 3 == 2 ? "phase" : "amplitude", na, ns, nc, np) || (both && !Dims(r[2], "phase", na, ns, nc, np))) break;
                  for (size_t c = 0; c < nc; ++c) for (size_t a = 0; a < na; ++a) for (size_t s = 0; s < ns; ++s) {
                    const size_t i = (a * ns + s) * nc + c;
                    const double weight = flagged[i] ? -1 : w[a * nc + c];
                    vp::Check(r[0].weights[i] == weight, "weight of the rotation of antenna ", a, " solution ", s, " block ", c, " is ", r[0].weights[i], ", not ", weight);
                    for (size_t q = 1; q < r.size(); ++q) for (size_t p = 0; p < np; ++p)
                      vp::Check(r[q].weights[i * np + p] == weight, "weight of the ", r[q].name, " of antenna ", a, " solution ", s, " block ", c, " is ", r[q].weights[i * np + p], ", not ", weight);
                    if (gone[i]) continue;
                    vp::Check(std::abs(Half(r[0].vals[i] - angle[i])) < 1e-9, "angle of antenna ", a, " solution ", s, " block ", c, " is ", r[0].vals[i], ", not ", angle[i]);
                    for (size_t p = 0; p < np; ++p) {
                      const double amp = mode % 3 == 2 ? 1 : r[1].vals[i * np + p], ph = mode % 3 == 1 ? 0 : r[both ? 2 : 1].vals[i * np + p];
                      vp::Check(Same(std::polar(amp, ph), diag[2 * i + p]), "diagonal of antenna ", a, " solution ", s, " block ", c, " is reported as ", std::polar(amp, ph), ", not ", diag[2 * i + p]);
                    }
                  }
                }
              }
            done:
              vp::Trace();
            }
  for (int m = 0; m <= int(CalType::kLeakageAmplitude); ++m) {
    if (!vp::CaseF([&] { return "rotation+mode " + vp::Str(m); })) continue;
    bool ok = false;
    for (CalType t : kModes) ok |= int(t) == m;
    vp::Check(vp::Throws([&] { RotationAndDiagonalConstraint k{CalType(m)}; }).empty() == ok, "wrong diagonal mode");
  }
}

int main(int argc, char** argv) {
  vp::Init(argc, argv);
  Averages();
  Reference();
  Rotation();
  return vp::Finish();
}
