// C41: the gain solvers against direct least squares.
#include <Eigen/Dense>
#include "solver_kit.h"
using namespace skit;

// LAPACK reports arguments it cannot handle here; its own version of this
// function may end the program.
extern "C" void xerbla_(const char* name, const int* argument, size_t) { vp::Fail("LAPACK function " + std::string(name, 6) + " refuses argument " + std::to_string(*argument)); }

struct Setup {
  int which = 0; Problem p;
  double step = 0.5; bool phase_only = false; int iterations = 1; int lls = 0, order = 0; unsigned threads = 1;
  std::string Text(const char* what) const {
    std::ostringstream o;
    o << what << " " << Name(which) << " " << p.Text() << " step=" << step << (phase_only ? " phaseonly" : "") << " iterations=" << iterations << " lls=" << lls << " order=" << order << " threads=" << threads;
    return o.str();
  }
};
static std::unique_ptr<SolverBase> MakeSolver(const Setup& q, double accuracy = 0) {
  auto s = Make(q.which);
  s->SetStepSize(q.step); s->SetPhaseOnly(q.phase_only); s->SetMaxIterations(q.iterations);
  s->SetAccuracy(accuracy); s->SetDetectStalling(false, 0.1);
  s->SetLLSSolverType(q.lls == 0 ? LLSSolverType::QR : q.lls == 1 ? LLSSolverType::SVD : LLSSolverType::NORMAL_EQUATIONS);
  s->Initialize(q.p.N(), q.p.sols, q.p.blocks);
  return s;
}

// One visibility as the solver sees it: weighted, with the correlations used.
struct Vis { unsigned a, b, block; std::vector<unsigned> sub; J v; std::vector<J> m; };
static std::vector<Vis> Visibilities(const Setup& q) {
  std::vector<Vis> r;
  for (auto& row : q.p.Rows()) for (unsigned c = 0; c < row.nchan; ++c) {
    if (row.a == row.b || q.p.Flagged(row.t, row.a, row.b, c)) continue;
    Vis x; x.a = row.a; x.b = row.b; x.block = q.p.Block(row, c);
    for (unsigned d = 0; d < q.p.sols.size(); ++d) x.sub.push_back(q.p.Sub(d, row));
    const double w = std::sqrt(double(q.p.Weight(row.t, row.a, row.b, c)));
    auto f = [&](J j) {
      for (D& d : j) d *= w;
      if (DataType(q.which) == 1) j[1] = j[2] = 0;
      if (DataType(q.which) == 2) { j[0] = (j[0] + j[3]) / 2.0; j[1] = j[2] = j[3] = 0; }
      return j;
    };
    x.v = f(q.p.Data(Pols(q.which), row, c));
    for (unsigned d = 0; d < q.p.sols.size(); ++d) x.m.push_back(f(q.p.Model(d, row.t, row.a, row.b, c)));
    r.push_back(std::move(x));
  }
  return r;
}
static J Apply(const J& a, const J& m, const J& b) { return Mul(Mul(a, m), Herm(b)); }

// The least squares solution of every antenna with the others kept as they
// are, with all directions together or with the others subtracted.
static Solutions Iterate(const Setup& q, const std::vector<Vis>& all, const Solutions& old, bool& determined) {
  const int pols = Pols(q.which);
  const unsigned nsub = q.p.NSub(), ndir = q.p.sols.size();
  Solutions next = old;
  for (unsigned block = 0; block < q.p.blocks; ++block) for (unsigned ant = 0; ant < q.p.N(); ++ant) {
    // The sets of unknowns that are solved together.
    std::vector<std::vector<unsigned>> sets;
    if (!Iterative(q.which)) { sets.emplace_back(); for (unsigned s = 0; s < nsub; ++s) sets.back().push_back(s); }
    else for (unsigned s = 0; s < nsub; ++s) sets.push_back({s});
    for (auto& set : sets) for (unsigned row = 0; row < (pols == 1 ? 1u : 2u); ++row) {
      const unsigned per = pols == 4 ? 2 : 1, n = set.size() * per;
      std::vector<std::vector<D>> lhs; std::vector<D> rhs;
      for (const Vis& x : all) {
        if (x.block != block || (x.a != ant && x.b != ant)) continue;
        const bool first = x.a == ant; const unsigned other = first ? x.b : x.a;
        bool uses = true;
        if (Iterative(q.which)) { uses = false; for (unsigned d = 0; d < ndir; ++d) uses |= x.sub[d] == set[0]; }
        if (!uses) continue;
        J v = x.v;
        if (Iterative(q.which)) for (unsigned d = 0; d < ndir; ++d) {
          const unsigned s = x.sub[d];
          if (s == set[0]) continue;
          const J c = Apply(Get(old[block], pols, x.a * nsub + s), x.m[d], Get(old[block], pols, x.b * nsub + s));
          for (unsigned p = 0; p < 4; ++p) v[p] -= c[p];
        }
        if (!first) v = Herm(v);
        for (unsigned i = 0; i < 2; ++i) for (unsigned j = 0; j < 2; ++j) {
          if (pols != 1 && i != row) continue;
          if (DataType(q.which) == 1 && i != j) continue;
          if (DataType(q.which) == 2 && (i || j)) continue;
          std::vector<D> r(n, 0.0);
          for (unsigned k = 0; k < set.size(); ++k) {
            const unsigned s = set[k];
            unsigned d = 0; while (x.sub[d] != s) ++d;
            const J m = first ? x.m[d] : Herm(x.m[d]);
            const J mg = Mul(m, Herm(Get(old[block], pols, other * nsub + s)));
            if (pols == 1) r[k] = mg[i * 2 + j];
            else if (pols == 2) r[k] = mg[i * 2 + j];
            else { r[k * 2] = mg[j]; r[k * 2 + 1] = mg[2 + j]; }
          }
          lhs.push_back(std::move(r)); rhs.push_back(v[i * 2 + j]);
        }
      }
      std::vector<D> x(n, D(NAN, NAN));
      if (lhs.size() >= n) {
        Eigen::MatrixXcd A(lhs.size(), n); Eigen::VectorXcd b(lhs.size());
        for (size_t i = 0; i < lhs.size(); ++i) { for (unsigned k = 0; k < n; ++k) A(i, k) = lhs[i][k]; b(i) = rhs[i]; }
        const Eigen::JacobiSVD<Eigen::MatrixXcd> svd(A, Eigen::ComputeThinU | Eigen::ComputeThinV);
        if (svd.singularValues()(n - 1) < 0.05 * svd.singularValues()(0)) determined = false;
        const Eigen::VectorXcd y = svd.solve(b);
        for (unsigned k = 0; k < n; ++k) x[k] = y(k);
      } else if (!lhs.empty()) determined = false;
      for (unsigned k = 0; k < set.size(); ++k) for (unsigned z = 0; z < per; ++z) {
        const size_t i = (ant * nsub + set[k]) * pols + (pols == 4 ? row * 2 + z : row);
        D y = x[k * per + z];
        const D o = old[block][i];
        if (!Finite(y)) next[block][i] = D(NAN, NAN);
        else if (q.phase_only) { double dist = std::arg(y / o); next[block][i] = std::polar(1.0, std::arg(o) + q.step * dist); }
        else next[block][i] = o * (1 - q.step) + y * q.step;
      }
    }
  }
  return next;
}
static void MakeFinite(const Setup& q, Solutions& s) {
  const int pols = Pols(q.which);
  for (auto& b : s) {
    std::vector<double> mean(pols, 0); size_t n = 0;
    for (size_t i = 0; i < b.size(); i += pols) {
      bool f = true;
      for (int p = 0; p < pols; ++p) f &= Finite(b[i + p]);
      if (f) { ++n; for (int p = 0; p < pols; ++p) mean[p] += std::abs(b[i + p]); }
    }
    for (int p = 0; p < pols; ++p) mean[p] = n ? mean[p] / n : pols == 4 && p % 3 ? 0 : 1;
    for (size_t i = 0; i < b.size(); i += pols) {
      bool f = true;
      for (int p = 0; p < pols; ++p) f &= Finite(b[i + p]);
      if (!f) for (int p = 0; p < pols; ++p) b[i + p] = mean[p];
    }
  }
}

static void Steps(const Setup& q) {
  if (!vp::CaseF([&] { return q.Text("steps"); })) return;
  Order(q.order); Threads(q.threads);
  const int pols = Pols(q.which);
  const Data data(q.p, q.which);
  auto solver = MakeSolver(q);
  Solutions sol = Off(q.p, pols), want = sol;
  const auto result = data.Solve(*solver, sol);
  vp::Step(); vp::Trace();
  const auto vis = Visibilities(q);
  const bool data_left = !vis.empty();
  vp::Check(!data_left || int(result.iterations) == q.iterations + 1, "reports ", result.iterations, " iterations after ", q.iterations, " without reaching the accuracy");
  bool determined = true;
  for (int i = 0; i < q.iterations; ++i) { MakeFinite(q, want); want = Iterate(q, vis, want, determined); }
  if (!determined) { vp::Count("underdetermined"); return; }
  for (unsigned b = 0; b < q.p.blocks; ++b) for (size_t i = 0; i < want[b].size(); ++i) {
    const size_t ant = i / pols / q.p.NSub(), sub = i / pols % q.p.NSub();
    if (!Finite(want[b][i])) { vp::Check(!Finite(sol[b][i]), "block ", b, " antenna ", ant, " solution ", sub, " has a value without any data"); continue; }
    const double d = std::abs(sol[b][i] - want[b][i]);
    if (!(d <= 2e-3 * (1 + std::abs(want[b][i])))) {
      vp::Check(false, "block ", b, " antenna ", ant, " solution ", sub, " element ", i % pols, " is ", vp::Str(sol[b][i].real()), ",", vp::Str(sol[b][i].imag()), " instead of ", vp::Str(want[b][i].real()), ",", vp::Str(want[b][i].imag()));
      return;
    }
  }
  vp::Outcome(std::to_string(q.which) + (q.phase_only ? "p" : "") + std::to_string(q.iterations));
}

// How well the solutions reproduce the data, relative to the data.
static double Misfit(const Setup& q, const Solutions& sol) {
  double r = 0, n = 0;
  const int pols = Pols(q.which); const unsigned nsub = q.p.NSub();
  for (const Vis& x : Visibilities(q)) {
    J v = x.v;
    for (unsigned p = 0; p < 4; ++p) n += std::norm(v[p]);
    for (unsigned d = 0; d < q.p.sols.size(); ++d) { const unsigned s = x.sub[d]; const J c = Apply(Get(sol[x.block], pols, x.a * nsub + s), x.m[d], Get(sol[x.block], pols, x.b * nsub + s)); for (unsigned p = 0; p < 4; ++p) v[p] -= c[p]; }
    for (unsigned p = 0; p < 4; ++p) r += std::norm(v[p]);
  }
  return n ? std::sqrt(r / n) : 0;
}
// Whether the data determine the solutions well.
static bool Determined(const Setup& q) {
  bool determined = true;
  Iterate(q, Visibilities(q), Truth(q.p, Pols(q.which)), determined);
  if (!determined) vp::Count("underdetermined");
  return determined;
}
// Solves noise-free data, from the true solutions and from others.
static void Recover(Setup q, bool from_truth) {
  if (!vp::CaseF([&] { return q.Text(from_truth ? "truth" : "recover"); })) return;
  Order(q.order); Threads(q.threads);
  q.p.linear = q.which == kLowRank;
  if (!Determined(q)) return;
  const int pols = Pols(q.which);
  const Data data(q.p, q.which);
  auto solver = MakeSolver(q, 1e-5);
  Solutions sol = from_truth ? Truth(q.p, pols) : Ones(q.p, pols);
  if (q.which == kLowRank && from_truth) {
    // This solver makes the phase of the first antenna zero.
    for (auto& b : sol) { const unsigned nsub = q.p.NSub(); for (unsigned k = 0; k < nsub; ++k) { const D ph = std::polar(1.0, -std::arg(b[k * 2])); for (unsigned a = 0; a < q.p.N(); ++a) for (int z = 0; z < 2; ++z) b[(a * nsub + k) * 2 + z] *= ph; } }
  }
  const Solutions start = sol;
  const auto result = data.Solve(*solver, sol);
  vp::Step(); vp::Trace();
  const bool converged = int(result.iterations) <= q.iterations;
  vp::Check(converged || !from_truth, "not converged after ", q.iterations, " iterations, with a misfit of ", Misfit(q, sol));
  if (from_truth) {
    // A channel block, antenna or interval without data has no solution.
    double d = 0;
    for (size_t b = 0; b < sol.size(); ++b) for (size_t i = 0; i < sol[b].size(); ++i) if (Finite(sol[b][i])) d = std::max(d, std::abs(sol[b][i] - start[b][i]));
    vp::Check(d < (q.which == kLowRank ? 2e-2 : 2e-3), "the true solutions moved by ", d);
    if (q.which != kLowRank) vp::Check(result.iterations <= 4, result.iterations, " iterations from the true solutions");
  }
  const double m = Misfit(q, sol);
  vp::Check(m < (q.which == kLowRank || !converged ? 3e-2 : 3e-3), converged ? "converged" : "stopped", " with a misfit of ", m, " on noise-free data");
  vp::Outcome(std::to_string(q.which) + "/" + std::to_string(result.iterations));
}
// The result depends on the data given only: not on what was solved before,
// the number of threads, other channel blocks, or flagged values.
static void Independent(Setup q) {
  if (!vp::CaseF([&] { return q.Text("independent"); })) return;
  q.p.linear = q.which == kLowRank;
  if (!Determined(q)) return;
  const int pols = Pols(q.which);
  Order(0); Threads(1);
  const Data data(q.p, q.which);
  Solutions ref = Off(q.p, pols);
  auto solver = MakeSolver(q, 1e-4);
  const auto r = data.Solve(*solver, ref);
  // Again, and after other data.
  Setup o = q; o.p.seed += 50; o.p.flags = (q.p.flags + 1) % 4;
  const Data other(o.p, o.which);
  for (int k = 0; k < 2; ++k) {
    Solutions s = Off(o.p, pols);
    if (k) other.Solve(*solver, s);
    s = Off(q.p, pols);
    const auto r2 = data.Solve(*solver, s);
    vp::Step();
    vp::Check(Distance(ref, s) == 0 && r.iterations == r2.iterations, "solving again", k ? " after other data" : "", " gives ", r2.iterations, " instead of ", r.iterations, " iterations and other solutions by ", Distance(ref, s));
  }
  for (int order = 0; order < 3; ++order) for (unsigned threads : {2u, 4u}) {
    Order(order); Threads(threads);
    Solutions s = Off(q.p, pols);
    auto fresh = MakeSolver(q, 1e-4);
    const auto r2 = data.Solve(*fresh, s);
    vp::Step();
    const double d = Distance(ref, s);
    vp::Check(d < 2e-3 && std::llabs(int64_t(r.iterations) - int64_t(r2.iterations)) <= 1, "with ", threads, " threads, order ", order, " the solutions differ by ", d);
  }
  Order(0); Threads(1);
  if (q.p.blocks > 1) {
    // Without convergence every block has the same number of iterations.
    Solutions all = Off(q.p, pols);
    MakeSolver(q, 0)->GetMaxIterations();
    auto fresh = MakeSolver(q, 0);
    data.Solve(*fresh, all);
    for (unsigned b = 0; b < q.p.blocks; ++b) {
      Setup one = q; one.p.only_block = b;
      Solutions s = Off(q.p, pols);
      auto again = MakeSolver(one, 0);
      Data(one.p, one.which).Solve(*again, s);
      vp::Step();
      if (q.which >= kLowRank && q.step > 0.99) continue;  // the order of the directions depends on all blocks
      const double d = Distance({all[b]}, {s[b]});
      vp::Check(d < 2e-3, "the solutions of channel block ", b, " differ by ", d, " without the other blocks");
    }
  }
  vp::Trace();
  vp::Outcome(std::to_string(q.which) + "/" + std::to_string(r.iterations));
}

int main(int argc, char** argv) {
  vp::Init(argc, argv);
  const bool th = vp::Thorough();
  const std::vector<std::vector<size_t>> plain = {{1}, {1, 1}, {1, 1, 1}}, dd = {{2}, {2, 1}, {1, 2}, {2, 4}, {4, 1, 2}};
  const int seeds = th ? 6 : 1;
  for (int seed = 0; seed < seeds; ++seed) for (int which = 0; which < kLowRank; ++which) for (int extra = 0; extra < 2; ++extra) for (unsigned slots : {2u, 4u}) for (unsigned nchan = 2; nchan <= 3; ++nchan) for (unsigned blocks = 1; blocks <= nchan; ++blocks)
    for (int flags = 0; flags < 7; ++flags) for (unsigned sol = 0; sol < 8; ++sol) for (int bda = 0; bda < 4; ++bda) {
      Setup q; q.which = which; q.p.seed = seed; q.p.extra = extra; q.p.slots = slots; q.p.nchan = nchan; q.p.blocks = blocks; q.p.flags = flags; q.p.noise = 0.05; q.p.bda = bda;
      q.p.sols = sol < 3 ? plain[sol] : dd[sol - 3];
      if (sol >= 3 && (!SubSolutions(which) || slots < 4)) continue;
      q.p.nant = 5; q.p.reversed = (flags + blocks) % 2; q.p.autos = flags % 2;
      const unsigned h = seed + which + extra + slots / 2 + nchan + blocks + flags + sol;
      q.lls = h % 3; q.order = h / 2 % 3; q.threads = 1 + h % 4;
      if (!th && ((h + sol) % 2 || (h / 2 + bda) % 4)) continue;
      for (q.iterations = 1; q.iterations <= 3; ++q.iterations) {
        q.step = q.iterations == 1 ? 1.0 : q.iterations == 2 ? 0.3 : 0.6;
        q.phase_only = false; Steps(q);
        if (Pols(which) < 4) { q.phase_only = true; Steps(q); }
      }
    }
  for (int seed = 0; seed < seeds; ++seed) for (int which = 0; which < kNWhich; ++which) for (unsigned blocks = 1; blocks <= 2; ++blocks) for (int flags = 0; flags < 5; ++flags) for (unsigned sol = 0; sol < 8; ++sol) for (int bda = 0; bda < 4; ++bda) {
    Setup q; q.which = which; q.p.seed = seed; q.p.slots = 4; q.p.nchan = 2; q.p.blocks = blocks; q.p.flags = flags; q.p.nant = which == kAntenna ? 4 : 6; q.p.gain_spread = 0.2; q.p.bda = bda;
    q.p.sols = sol < 3 ? plain[sol] : dd[sol - 3];
    if (sol >= 3 && !SubSolutions(which)) continue;
    if (bda == 3 && blocks == 2 && which == kAntenna) continue;
    if (!th && (flags + sol + which) % 4 != bda) continue;
    q.step = 0.5; q.iterations = 100; q.lls = sol % 3; q.threads = 1 + sol % 3; q.order = flags % 3;
    Recover(q, true);
    if (!bda) Recover(q, false);
    q.iterations = 6; q.step = flags % 2 ? 0.6 : 0.4; q.p.noise = 0.02;
    if (flags != 3 || bda < 2) Independent(q);
    if (which >= kLowRank) { q.step = 1.0; q.p.noise = 0; q.iterations = 60; Recover(q, true); if (!bda) Recover(q, false); q.iterations = 6; Independent(q); }
  }
  return vp::Finish();
}
