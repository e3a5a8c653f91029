// Made-up calibration problems for the gain solvers.
#ifndef SOLVER_KIT_H_
#define SOLVER_KIT_H_
#include <array>
#include "vp.h"
#include "step_kit.h"
#include "ddecal/gain_solvers/SolveData.h"
#include "ddecal/gain_solvers/SolverTools.h"
#include "ddecal/gain_solvers/BdaSolverBuffer.h"
#include "ddecal/gain_solvers/ScalarSolver.h"
#include "ddecal/gain_solvers/DiagonalSolver.h"
#include "ddecal/gain_solvers/FullJonesSolver.h"
#include "ddecal/gain_solvers/HybridSolver.h"
#include "ddecal/gain_solvers/IterativeScalarSolver.h"
#include "ddecal/gain_solvers/IterativeDiagonalSolver.h"
#include "ddecal/gain_solvers/IterativeFullJonesSolver.h"
#include "ddecal/gain_solvers/DiagonalLowRankSolver.h"
#include "ddecal/gain_solvers/DiagonalAntennaSolver.h"

namespace skit {
using namespace kit;
using namespace dp3::ddecal;
typedef std::complex<float> F;
typedef std::complex<double> D;
typedef aocommon::MC2x2F Full;
typedef aocommon::MC2x2FDiag Duo;
typedef std::array<D, 4> J;   // a 2x2 matrix

inline J Mul(const J& a, const J& b) { return {a[0] * b[0] + a[1] * b[2], a[0] * b[1] + a[1] * b[3], a[2] * b[0] + a[3] * b[2], a[2] * b[1] + a[3] * b[3]}; }
inline J Herm(const J& a) { return {std::conj(a[0]), std::conj(a[2]), std::conj(a[1]), std::conj(a[3])}; }
// A number in [-1, 1) that depends on all of the arguments.
inline double Mix(unsigned a, unsigned b = 0, unsigned c = 0, unsigned d = 0, unsigned e = 0) {
  uint64_t h = 0x9E3779B97F4A7C15ull;
  for (unsigned x : {a, b, c, d, e}) { h ^= x + 0x7F4A7C15u; h *= 0xBF58476D1CE4E5B9ull; h ^= h >> 29; h *= 0x94D049BB133111EBull; h ^= h >> 32; }
  return double(h >> 11) / double(1ull << 52) - 1;
}

enum Which { kScalar, kDiagonal, kFullJones, kIterScalarUni, kIterScalarDuo, kIterScalarFull, kIterDiagDuo, kIterDiagFull, kIterFullJones, kLowRank, kAntenna, kNWhich };
inline const char* Name(int w) {
  static const char* n[] = {"scalar", "diagonal", "fulljones", "iterative-scalar-single", "iterative-scalar-dual", "iterative-scalar", "iterative-diagonal-dual", "iterative-diagonal", "iterative-fulljones", "lowrank", "antenna"};
  return n[w];
}
inline std::unique_ptr<SolverBase> Make(int w) {
  switch (w) {
    case kScalar: return std::make_unique<ScalarSolver>();
    case kDiagonal: return std::make_unique<DiagonalSolver>();
    case kFullJones: return std::make_unique<FullJonesSolver>();
    case kIterScalarUni: return std::make_unique<IterativeScalarSolver<F>>();
    case kIterScalarDuo: return std::make_unique<IterativeScalarSolver<Duo>>();
    case kIterScalarFull: return std::make_unique<IterativeScalarSolver<Full>>();
    case kIterDiagDuo: return std::make_unique<IterativeDiagonalSolver<Duo>>();
    case kIterDiagFull: return std::make_unique<IterativeDiagonalSolver<Full>>();
    case kIterFullJones: return std::make_unique<IterativeFullJonesSolver>();
    case kLowRank: return std::make_unique<DiagonalLowRankSolver>(25, 10);
    default: return std::make_unique<DiagonalAntennaSolver>();
  }
}
inline int Pols(int w) { return w == kScalar || w == kIterScalarUni || w == kIterScalarDuo || w == kIterScalarFull ? 1 : w == kFullJones || w == kIterFullJones ? 4 : 2; }
inline int DataType(int w) { return w == kIterScalarUni ? 2 : w == kIterScalarDuo || w == kIterDiagDuo ? 1 : 0; }
inline bool Iterative(int w) { return w >= kIterScalarUni; }
inline bool SubSolutions(int w) { return Iterative(w) && w < kLowRank; }

// A problem: all antennas but the extra ones have baselines with each other.
struct Problem {
  unsigned nant = 4, extra = 0, slots = 2, nchan = 2, blocks = 1;
  std::vector<size_t> sols = {1};
  int seed = 0;
  double gain_spread = 0.3, noise = 0;
  int flags = 0;            // pattern of flagged points
  bool polarized = true, reversed = false, linear = false, autos = true;
  int bda = 0;              // how baselines are averaged
  unsigned only_block = ~0u;  // keep the data of this channel block only
  unsigned N() const { return nant + extra; }
  unsigned NSub() const { unsigned n = 0; for (size_t s : sols) n += s; return n; }
  // A row of data: some slots of a baseline.
  struct Row { unsigned a, b, bl, t, len, nchan; };
  std::vector<Row> Rows() const {
    std::vector<int> a1, a2; Baselines(a1, a2);
    std::vector<Row> r;
    for (unsigned t = 0; t < slots; ++t) for (unsigned i = 0; i < a1.size(); ++i) {
      Row x{unsigned(a1[i]), unsigned(a2[i]), i, t, 1, nchan};
      if (bda) {
        const unsigned factor = bda >= 2 ? slots : i % 3 == 0 ? 1 : i % 3 == 1 ? 2 : slots;
        const unsigned len = t % factor + 1;
        if (len != factor && t + 1 != slots) continue;
        x.t = t + 1 - len; x.len = len; x.nchan = bda == 3 || (bda == 1 && i % 2) ? 1 : nchan;
      }
      r.push_back(x);
    }
    return r;
  }
  unsigned Sub(unsigned dir, const Row& r) const {
    unsigned n = 0;
    for (unsigned i = 0; i < dir; ++i) n += sols[i];
    if (!bda) return n + r.t * sols[dir] / slots;
    return n + std::min<unsigned>(sols[dir] - 1, (2 * r.t + r.len) * sols[dir] / (2 * slots));
  }
  std::string Text() const {
    std::ostringstream o;
    o << "antennas=" << nant << "+" << extra << " slots=" << slots << " nchan=" << nchan << " blocks=" << blocks << " solutions=";
    for (size_t s : sols) o << s << ",";
    o << " seed=" << seed << " spread=" << gain_spread << " noise=" << noise << " flags=" << flags << (polarized ? "" : " unpolarized") << (reversed ? " reversed" : "") << " bda=" << bda;
    return o.str();
  }
  void Baselines(std::vector<int>& a1, std::vector<int>& a2) const {
    for (unsigned i = 0; i < N(); ++i) for (unsigned j = i; j < N(); ++j) {
      if (i == j && !autos && i < nant) continue;
      if (i != j && j >= nant) continue;
      const bool swap = (i + j + seed) % 3 == 0;
      a1.push_back(swap ? j : i); a2.push_back(swap ? i : j);
    }
    if (reversed) { std::reverse(a1.begin(), a1.end()); std::reverse(a2.begin(), a2.end()); }
  }
  J Gain(int pols, unsigned block, unsigned ant, unsigned sub) const {
    J g;
    for (unsigned p = 0; p < 4; ++p) g[p] = gain_spread * D(Mix(seed, block + 1, ant, sub, p), Mix(seed + 77, block + 1, ant, sub, p));
    g[0] += 1.0; g[3] += 1.0;
    if (pols == 1) { g[3] = g[0]; }
    if (pols < 4) g[1] = g[2] = 0;
    return g;
  }
  J Model(unsigned dir, unsigned t, unsigned a, unsigned b, unsigned c) const {
    J m;
    for (unsigned p = 0; p < 4; ++p) m[p] = D(Mix(seed * 5 + dir, t * 64 + c, a, b, p), Mix(seed * 5 + dir + 1000, t * 64 + c, a, b, p));
    if (!polarized) { m[1] = m[2] = 0; m[3] = m[0]; }
    for (unsigned p = 0; p < 4; ++p) if (polarized || p == 0 || p == 3) m[p] += std::polar(p == 0 || p == 3 ? 1.5 : 0.5, 3 * Mix(seed * 5 + dir + 2000, t * 64 + c, a, b));
    return m;
  }
  bool Flagged(unsigned t, unsigned a, unsigned b, unsigned c) const {
    switch (flags) {
      case 1: return t == 0 && c == 0;
      case 2: return a == 1 || b == 1;             // an antenna without data
      case 3: return Mix(t, c, a, b, 99) > 0.4;
      case 4: return t == 0 && (a == 2 || b == 2);
      case 5: return t + 1 == slots;               // a time slot without data
      case 6: return c == 0;                       // a channel without data
      default: return false;
    }
  }
  unsigned Block(const Row& r, unsigned c) const { for (unsigned b = 0; b < blocks; ++b) if (c < (b + 1) * r.nchan / blocks) return b; return blocks - 1; }
  J Data(int pols, const Row& r, unsigned c) const {
    J v = {};
    const unsigned a = r.a, b = r.b, t = r.t;
    for (unsigned d = 0; d < sols.size(); ++d) {
      const J x = Mul(Mul(Gain(pols, Block(r, c), a, Sub(d, r)), Model(d, t, a, b, c)), Herm(Gain(pols, Block(r, c), b, Sub(d, r))));
      for (unsigned p = 0; p < 4; ++p) v[p] += x[p];
    }
    for (unsigned p = 0; p < 4; ++p) v[p] += noise * D(Mix(seed + 3, t * 64 + c, a * 16 + b, p), Mix(seed + 4, t * 64 + c, a * 16 + b, p));
    return v;
  }
  float Weight(unsigned t, unsigned a, unsigned b, unsigned c) const { return 1 + 0.5f * float(Mix(seed + 9, t, a, b, c)); }
};
template <class T> std::unique_ptr<SolveData<T>> MakeData(const Problem& q, int pols) {
  std::vector<int> a1, a2; q.Baselines(a1, a2);
  Shape s{unsigned(a1.size()), q.nchan, 4, q.N()};
  std::vector<std::string> names;
  for (unsigned d = 0; d < q.sols.size(); ++d) names.push_back("d" + std::to_string(d));
  const auto rows = q.Rows();
  auto fill = [&](const Problem::Row& r, auto put) {
    for (unsigned c = 0; c < r.nchan; ++c) {
      const J v = q.Data(pols, r, c);
      const bool other = q.only_block != ~0u && q.Block(r, c) != q.only_block;
      std::vector<J> m;
      for (unsigned d = 0; d < names.size(); ++d) m.push_back(q.Model(d, r.t, r.a, r.b, c));
      for (unsigned p = 0; p < 4; ++p) put(c, p, F(v[p]), q.Weight(r.t, r.a, r.b, c), q.Flagged(r.t, r.a, r.b, c) || other, m);
    }
  };
  if (q.bda) {
    BdaSolverBuffer sb(100, q.slots, a1.size());
    size_t n = 0;
    for (auto& r : rows) n += r.nchan * 4;
    auto b = std::make_unique<BdaBuffer>(n, dp3::common::Fields(dp3::common::Fields::Single::kData) | dp3::common::Fields(dp3::common::Fields::Single::kWeights) | dp3::common::Fields(dp3::common::Fields::Single::kFlags));
    for (auto& name : names) b->AddData(name);
    for (auto& r : rows) b->AddRow(100 + r.t + 0.5 * r.len, r.len, r.len, r.bl, r.nchan, 4, 0, nullptr, nullptr, nullptr, nullptr);
    size_t i = 0;
    for (auto& r : rows) {
      const size_t k = i++;
      fill(r, [&](unsigned c, unsigned p, F v, float w, bool f, const std::vector<J>& m) {
        b->GetData(k)[c * 4 + p] = v; b->GetWeights(k)[c * 4 + p] = w; b->GetFlags(k)[c * 4 + p] = f;
        for (unsigned d = 0; d < names.size(); ++d) b->GetData(k, names[d])[c * 4 + p] = F(m[d][p]);
      });
    }
    sb.AppendAndWeight(std::move(b), names, false);
    return std::make_unique<SolveData<T>>(sb, q.blocks, q.N(), q.sols, a1, a2, q.linear);
  }
  std::vector<std::unique_ptr<DPBuffer>> in;
  for (unsigned t = 0; t < q.slots; ++t) {
    auto b = Buffer(s, t);
    for (auto& n : names) b->AddData(n);
    in.push_back(std::move(b));
  }
  for (auto& r : rows) fill(r, [&](unsigned c, unsigned p, F v, float w, bool f, const std::vector<J>& m) {
    DPBuffer& b = *in[r.t];
    b.GetData()(r.bl, c, p) = v; b.GetWeights()(r.bl, c, p) = w; b.GetFlags()(r.bl, c, p) = f;
    for (unsigned d = 0; d < names.size(); ++d) b.GetData(names[d])(r.bl, c, p) = F(m[d][p]);
  });
  std::vector<DPBuffer> weighted(q.slots);
  AssignAndWeight(in, names, weighted, false, q.linear);
  return std::make_unique<SolveData<T>>(std::move(weighted), names, q.blocks, q.N(), q.sols, a1, a2);
}
// The data and a solver that takes this type of data.
struct Data {
  std::unique_ptr<SolveData<Full>> full; std::unique_ptr<SolveData<Duo>> duo; std::unique_ptr<SolveData<F>> uni;
  Data(const Problem& q, int which) {
    if (DataType(which) == 0) full = MakeData<Full>(q, Pols(which));
    else if (DataType(which) == 1) duo = MakeData<Duo>(q, Pols(which));
    else uni = MakeData<F>(q, Pols(which));
  }
  SolverBase::SolveResult Solve(SolverBase& s, std::vector<std::vector<D>>& sol, double time = 5) const { return full ? s.Solve(*full, sol, time) : duo ? s.Solve(*duo, sol, time) : s.Solve(*uni, sol, time); }
};
typedef std::vector<std::vector<D>> Solutions;
inline void Put(std::vector<D>& v, int pols, const J& g) { if (pols == 1) v.push_back(g[0]); else if (pols == 2) { v.push_back(g[0]); v.push_back(g[3]); } else v.insert(v.end(), g.begin(), g.end()); }
inline Solutions Truth(const Problem& q, int pols) {
  Solutions s(q.blocks);
  for (unsigned b = 0; b < q.blocks; ++b) for (unsigned a = 0; a < q.N(); ++a) for (unsigned k = 0; k < q.NSub(); ++k) Put(s[b], pols, q.Gain(pols, b, a, k));
  return s;
}
inline Solutions Ones(const Problem& q, int pols) {
  Solutions s(q.blocks);
  for (auto& b : s) for (unsigned i = 0; i < q.N() * q.NSub(); ++i) Put(b, pols, {1, 0, 0, 1});
  return s;
}
// Start values that are neither.
inline Solutions Off(const Problem& q, int pols) {
  Solutions s = Ones(q, pols);
  for (unsigned b = 0; b < s.size(); ++b) for (unsigned i = 0; i < s[b].size(); ++i) s[b][i] += 0.2 * D(Mix(i, b, 5, q.seed), Mix(i, b, 6, q.seed));
  return s;
}
inline J Get(const std::vector<D>& v, int pols, size_t index) {
  if (pols == 1) return {v[index], 0, 0, v[index]};
  if (pols == 2) return {v[index * 2], 0, 0, v[index * 2 + 1]};
  return {v[index * 4], v[index * 4 + 1], v[index * 4 + 2], v[index * 4 + 3]};
}
inline bool Finite(D d) { return std::isfinite(d.real()) && std::isfinite(d.imag()); }
// Largest difference of two sets of solutions; NaN in both counts as equal.
inline double Distance(const Solutions& a, const Solutions& b) {
  double m = 0;
  if (a.size() != b.size()) return INFINITY;
  for (size_t i = 0; i < a.size(); ++i) {
    if (a[i].size() != b[i].size()) return INFINITY;
    for (size_t k = 0; k < a[i].size(); ++k) {
      if (!Finite(a[i][k]) || !Finite(b[i][k])) { if (Finite(a[i][k]) != Finite(b[i][k])) return INFINITY; continue; }
      m = std::max(m, std::abs(a[i][k] - b[i][k]));
    }
  }
  return m;
}
}  // namespace skit
#endif
