// C41: what the gain solvers have in common: steps, convergence, constraints,
// stalling and stages.
#include "solver_kit.h"
using namespace skit;

static const double kNan = NAN;
// Gives access to what the solvers share.
class Probe final : public SolverBase {
 public:
  explicit Probe(int pols) : pols_(pols) {}
  size_t NSolutionPolarizations() const override { return pols_; }
  void MakeFinite(Solutions& s) { if (pols_ == 1) MakeSolutionsFinite1Pol(s); else if (pols_ == 2) MakeSolutionsFinite2Pol(s); else MakeSolutionsFinite4Pol(s); }
  void DoStep(const Solutions& s, SolutionTensor& next) const { Step(s, next); }
  bool Assign(Solutions& s, SolutionTensor& next, bool constraint, double& diff, std::vector<double>& mags) const { return AssignSolutions(s, next, constraint, diff, mags); }
  bool Stop(size_t it, bool conv, bool sat, const std::vector<double>& mags) { return ReachedStoppingCriterion(it, conv, sat, mags); }
 private:
  int pols_;
};
static bool Same(D a, D b, double tol = 1e-12) { if (!Finite(a) || !Finite(b)) return Finite(a) == Finite(b); return std::abs(a - b) <= tol * (1 + std::abs(b)); }

static void Finiteness() {
  for (int pols : {1, 2, 4}) for (int n = 1; n <= 4; ++n) {
    const int kinds = 2 + pols;   // two finite values, or one with element k not finite
    int total = 1; for (int i = 0; i < n; ++i) total *= kinds;
    for (int code = 0; code < total; ++code) {
      if (!vp::CaseF([&] { return "finite pols=" + std::to_string(pols) + " n=" + std::to_string(n) + " code=" + std::to_string(code); })) continue;
      Solutions s(2), want;
      for (unsigned b = 0; b < 2; ++b) { int c = b ? total - 1 - code : code; for (int i = 0; i < n; ++i, c /= kinds) for (int p = 0; p < pols; ++p) { const int k = c % kinds; D v = std::polar(1.0 + p + 4 * (k == 1) + b, 0.7 * p + k); if (k >= 2 && k - 2 == p) v = p % 2 ? D(kNan, 1) : D(1, INFINITY); s[b].push_back(v); } }
      want = s;
      for (auto& b : want) {
        std::vector<double> mean(pols); int m = 0;
        auto bad = [&](int i) { for (int p = 0; p < pols; ++p) if (!Finite(b[i * pols + p])) return true; return false; };
        std::vector<bool> isbad; for (int i = 0; i < n; ++i) isbad.push_back(bad(i));
        for (int i = 0; i < n; ++i) if (!isbad[i]) { ++m; for (int p = 0; p < pols; ++p) mean[p] += std::abs(b[i * pols + p]); }
        for (int p = 0; p < pols; ++p) mean[p] = m ? mean[p] / m : pols == 4 && (p == 1 || p == 2) ? 0 : 1;
        for (int i = 0; i < n; ++i) if (isbad[i]) for (int p = 0; p < pols; ++p) b[i * pols + p] = mean[p];
      }
      Probe probe(pols);
      probe.MakeFinite(s);
      vp::Step(); vp::Trace();
      for (unsigned b = 0; b < 2; ++b) for (size_t i = 0; i < s[b].size(); ++i) vp::Check(Same(s[b][i], want[b][i]), "block ", b, " value ", i, " becomes ", s[b][i], " instead of ", want[b][i]);
      vp::Outcome(std::to_string(code));
    }
  }
}

static void Steps() {
  const double phases[] = {0, 1, 3, -1, -3, 2.5};
  for (int pols : {1, 2, 4}) for (unsigned ants = 1; ants <= 5; ++ants) for (unsigned subs = 1; subs <= 2; ++subs) for (unsigned blocks = 1; blocks <= 2; ++blocks) for (double step : {0.1, 0.2, 0.5, 0.99, 1.0}) for (int phase = 0; phase < 2; ++phase) for (int from = 0; from < 6; ++from) for (int to = 0; to < 6; ++to) {
    if (!vp::CaseF([&] { std::ostringstream o; o << "step pols=" << pols << " antennas=" << ants << " subs=" << subs << " blocks=" << blocks << " size=" << step << " phase=" << phase << " from=" << from << " to=" << to; return o.str(); })) continue;
    Probe probe(pols);
    probe.Initialize(ants, std::vector<size_t>(subs, 1), blocks);
    probe.SetStepSize(step); probe.SetPhaseOnly(phase);
    Solutions s(blocks), want(blocks);
    SolutionTensor next({blocks, ants, subs, size_t(pols)});
    for (unsigned b = 0; b < blocks; ++b) for (unsigned i = 0; i < ants * subs * pols; ++i) {
      const D o = std::polar(0.5 + 0.1 * i, phases[(from + i) % 6] + 0.01 * b), n = std::polar(1.5 - 0.02 * i, phases[(to + 2 * i) % 6]);
      s[b].push_back(o); next.data()[b * ants * subs * pols + i] = n;
      if (phase) { double d = std::fmod(std::arg(n) - std::arg(o), 2 * M_PI); if (d > M_PI) d -= 2 * M_PI; if (d < -M_PI) d += 2 * M_PI; want[b].push_back(std::polar(1.0, std::arg(o) + step * d)); }
      else want[b].push_back(o + (n - o) * step);
    }
    const Solutions before = s;
    probe.DoStep(s, next);
    vp::Step(); vp::Trace();
    vp::Check(Distance(before, s) == 0, "the solutions change already");
    for (unsigned b = 0; b < blocks; ++b) for (unsigned i = 0; i < ants * subs * pols; ++i) {
      const D got = next.data()[b * ants * subs * pols + i];
      vp::Check(Same(got, want[b][i], 1e-9), "block ", b, " value ", i, " becomes ", got, " instead of ", want[b][i]);
    }
    // The size of the step and whether it is small enough.
    for (double scale : {1.0, 1e-3, 0.0}) for (int constraint = 0; constraint < 2; ++constraint) {
      Solutions cur = before;
      for (unsigned b = 0; b < blocks; ++b) for (unsigned i = 0; i < ants * subs * pols; ++i) {
        if (pols == 4) cur[b][i] = (i % 4 == 1 || i % 4 == 2 ? 0.3 : 1.0) * before[b][i];
        if (i / pols == 2 && b == 0) cur[b][i] = 0;                      // no scale to compare with
        next.data()[b * ants * subs * pols + i] = cur[b][i] * (1.0 + scale * D(0.5, 0.25 * (i % 3)));
        if (i / pols == 1 && b == 0) next.data()[i] = kNan;
      }
      double sum = 0; int n = 0;
      for (unsigned b = 0; b < blocks; ++b) for (unsigned i = 0; i < ants * subs; ++i) {
        const D* o = &cur[b][i * pols]; const D* x = &next.data()[(b * ants * subs + i) * pols];
        if (b == 0 && (i == 1 || i == 2)) continue;
        if (pols < 4) for (int p = 0; p < pols; ++p) { sum += std::abs((x[p] - o[p]) / o[p]); ++n; }
        else {
          const D det = o[0] * o[3] - o[1] * o[2];
          const J inv = {o[3] / det, -o[1] / det, -o[2] / det, o[0] / det}, diff = Mul({x[0] - o[0], x[1] - o[1], x[2] - o[2], x[3] - o[3]}, inv);
          for (auto& d : diff) { sum += std::abs(d); ++n; }
        }
      }
      const double mag = n ? sum / n / step : 0;
      for (double limit : {mag * 0.9, mag * 1.1}) {
        if (mag == 0 && limit > 0) continue;
        probe.SetAccuracy(constraint ? 1e-30 : limit); probe.SetConstraintAccuracy(constraint ? limit : 1e30);
        Solutions t = cur; double diff = -1; std::vector<double> mags = {7};
        const bool conv = probe.Assign(t, next, constraint, diff, mags);
        vp::Step();
        vp::Check(mags.size() == 2 && std::abs(mags[1] - mag) <= 1e-9 * (1 + mag), "the size of the step is ", mags.back(), " instead of ", mag);
        vp::Check(conv == (mag <= limit), conv ? "accepts" : "does not accept", " a step of ", mag, " with an accuracy of ", limit);
        for (unsigned b = 0; b < blocks; ++b) for (unsigned i = 0; i < ants * subs * pols; ++i) vp::Check(Same(t[b][i], next.data()[b * ants * subs * pols + i], 0), "the new solutions are not taken");
      }
    }
    vp::Outcome(std::to_string(phase) + std::to_string(from) + std::to_string(to));
  }
}

// Sequences of steps: when to stop, with an object used before or not.
static void Stopping() {
  const int kLen = vp::Thorough() ? 44 : 36;
  for (int used = 0; used < 3; ++used) for (int satisfied_from : {0, 1, 2, 5, 29, 33}) for (int converges = 0; converges <= kLen; ++converges) for (int shape = 0; shape < 6; ++shape) for (unsigned min : {0u, 3u, 34u}) for (unsigned max : {1u, 4u, 31u, 40u}) for (int detect = 0; detect < 2; ++detect) for (double sigma : {0.1, 1.0}) {
    if (!detect && (sigma > 0.5 || shape)) continue;
    if (shape && converges % 7) continue;
    if (!vp::CaseF([&] { std::ostringstream o; o << "stop used=" << used << " satisfied=" << satisfied_from << " converges=" << converges << " shape=" << shape << " min=" << min << " max=" << max << " detect=" << detect << " sigma=" << sigma; return o.str(); })) continue;
    Probe probe(1);
    probe.SetMinIterations(min); probe.SetMaxIterations(max); probe.SetDetectStalling(detect, sigma);
    if (used) {   // another solve before
      std::vector<double> m; probe.SetMaxIterations(100);
      for (int i = 1; i <= 20; ++i) { m.push_back(used == 1 ? 1e6 : i % 2 ? 5 : 1e-9); probe.Stop(i, false, i > 1, m); }
      probe.SetMaxIterations(max);
    }
    std::vector<double> mags; std::vector<double> counted;
    for (int it = 1; it <= kLen; ++it) {
      double m = 1;
      switch (shape) { case 0: m = 1.0 / it; break; case 1: m = it % 2 ? 1 : 3; break; case 2: m = it == 3 ? 100 : 1; break; case 3: m = 1 + it; break; case 4: m = it < 10 ? 50 : 0.01; break; default: m = std::fabs(std::sin(double(it))); }
      mags.push_back(m);
      const bool sat = it >= satisfied_from, conv = it >= converges;
      bool stalled = false;
      if (detect && sat) {
        counted.push_back(m);
        double mean = 0, var = 0;
        for (double x : counted) mean += x / counted.size();
        for (double x : counted) var += (x - mean) * (x - mean) / counted.size();
        if (std::fabs(mean - sigma * std::sqrt(var)) < 1e-9 * (1 + mean)) break;
        stalled = it >= 30 && mean < sigma * std::sqrt(var);
      }
      const bool want = it >= int(min) && (it >= int(max) || (conv && sat) || stalled);
      const bool got = probe.Stop(it, conv, sat, mags);
      vp::Step();
      vp::Check(got == want, got ? "stops" : "does not stop", " after iteration ", it);
      if (got || want) { vp::Outcome(std::to_string(it) + (stalled ? "s" : "")); break; }
    }
    vp::Trace();
  }
}

// A constraint that records how it is used, and is satisfied after a number
// of iterations.
struct Note { int which; bool apply; bool precise; size_t iteration; bool last; double time; };
class Recorder final : public Constraint {
 public:
  Recorder(int which, int satisfied, std::vector<Note>& notes) : which_(which), satisfied_(satisfied), notes_(notes) {}
  void PrepareIteration(bool precise, size_t iteration, bool last) override { notes_.push_back({which_, false, precise, iteration, last, 0}); }
  bool Satisfied() const override { return applied_ >= satisfied_; }
  void Apply(SolutionSpan& s, double time) override {
    notes_.push_back({which_, true, false, 0, false, time}); ++applied_;
    // The first constraint rounds, the second reverses the effect on one value.
    for (auto& v : s) v = which_ == 0 ? D(std::round(v.real() * 1e9) / 1e9, v.imag()) : v;
  }
  std::vector<ConstraintResult> GetResult() const override { ConstraintResult r; r.name = std::to_string(which_) + "/" + std::to_string(applied_); return {r}; }
  void Restart() { applied_ = 0; }
 private:
  int which_, satisfied_, applied_ = 0; std::vector<Note>& notes_;
};
static void Constraints() {
  for (int which = 0; which < kNWhich; ++which) for (int n = 0; n <= 2; ++n) for (int s0 = 0; s0 <= 3; ++s0) for (int s1 = 0; s1 <= 3; ++s1) for (unsigned max : {1u, 2u, 4u, 60u}) for (unsigned min : {0u, 3u}) for (double caccuracy : {1e-2, 1e-30}) for (double step : {0.5, 1.0}) {
    if (step > 0.9 && which < kLowRank) continue;
    if ((n < 2 && s1) || (n < 1 && s0)) continue;
    if (!vp::CaseF([&] { std::ostringstream o; o << "constraints " << Name(which) << " n=" << n << " satisfied=" << s0 << "," << s1 << " max=" << max << " min=" << min << " accuracy=" << caccuracy << " step=" << step; return o.str(); })) continue;
    Order(0); Threads(1);
    Problem p; p.nant = 4; p.slots = 2; p.nchan = 1; p.gain_spread = 0.1; p.linear = which == kLowRank;
    if (step > 0.9) p.sols = {1, 1};
    const Data data(p, which);
    auto solver = Make(which);
    solver->SetMaxIterations(max); solver->SetMinIterations(min); solver->SetAccuracy(1e-4); solver->SetConstraintAccuracy(caccuracy); solver->SetDetectStalling(false, 0); solver->SetStepSize(step);
    solver->Initialize(p.N(), p.sols, p.blocks);
    std::vector<Note> notes;
    if (n > 0) solver->AddConstraint(std::make_unique<Recorder>(0, s0, notes));
    if (n > 1) solver->AddConstraint(std::make_unique<Recorder>(1, s1, notes));
    Solutions sol = Off(p, Pols(which));
    const auto r = data.Solve(*solver, sol, 17.5);
    vp::Step(); vp::Trace();
    // First every constraint is prepared, and then each iteration.
    size_t at = 0;
    for (int k = 0; k < n; ++k, ++at) vp::Check(at < notes.size() && notes[at].which == k && !notes[at].apply && !notes[at].precise && notes[at].iteration == 0 && !notes[at].last, "constraint ", k, " is not prepared before the first iteration");
    size_t it = 0; bool precise = false;
    while (n && at < notes.size()) {
      for (int k = 0; k < n; ++k) {
        vp::Check(at + 1 < notes.size(), "iteration ", it, " ends before constraint ", k);
        if (at + 1 >= notes.size()) return;
        const Note &a = notes[at], &b = notes[at + 1];
        at += 2;
        vp::Check(a.which == k && !a.apply && b.which == k && b.apply, "the constraints are not prepared and applied in order in iteration ", it);
        vp::Check(a.iteration == it && b.time == 17.5, "constraint ", k, " is told about iteration ", a.iteration, " in iteration ", it);
        vp::Check(a.last == (it + 1 >= max), "constraint ", k, " is told that iteration ", it, " of ", max, " is ", a.last ? "" : "not ", "the last one");
        vp::Check(!precise || a.precise, "convergence is forgotten in iteration ", it);
        if (k && a.precise != precise) vp::Check(false, "the constraints are told different things");
        precise = a.precise;
      }
      ++it;
    }
    if (n) {
      const size_t required = std::max(s0, n > 1 ? s1 : 0);   // iterations before all are satisfied
      const bool satisfied = it > required;
      vp::Check(it >= min && it <= std::max<size_t>({max, min, 1}), it, " iterations with at least ", min, " and at most ", max);
      vp::Check(it >= max || satisfied, "stops after ", it, " iterations while the constraints need ", required);
      vp::Check(r.iterations == it || r.iterations == it + 1, "reports ", r.iterations, " iterations of ", it);
      if (!satisfied) vp::Check(r.iterations == it + 1 && r.constraint_iterations == it + 1, "reports that it converged without satisfying the constraints");
      if (max >= 60) vp::Check(r.iterations == it && it < 60, "does not converge within ", it, " iterations");
      if (it < max && it > min) vp::Check(r.iterations == it, "stops without convergence");
      vp::Check(r.results.size() == size_t(n), r.results.size(), " results of ", n, " constraints");
      for (size_t k = 0; k < r.results.size(); ++k) vp::Check(r.results[k].size() == 1 && r.results[k][0].name == std::to_string(k) + "/" + std::to_string(it), "the result of constraint ", k, " is not the last one");
      vp::Outcome(std::to_string(which) + "/" + std::to_string(it) + (precise ? "p" : ""));
    }
  }
}

// A stage that takes a given number of iterations.
class Stage final : public SolverBase {
 public:
  Stage(int id, int needs, std::vector<std::array<size_t, 2>>& log) : id_(id), needs_(needs), log_(log) {}
  size_t NSolutionPolarizations() const override { return 1; }
  SolveResult Solve(const FullSolveData&, Solutions& s, double time) override {
    log_.push_back({size_t(id_), GetMaxIterations()});
    vp::Check(time == 3.5, "time"); s[0][0] = s[0][0] * 10.0 + D(id_ + 1);
    SolveResult r; r.iterations = size_t(needs_) <= GetMaxIterations() ? needs_ : GetMaxIterations() + 1; r.constraint_iterations = id_ + 1;
    ConstraintResult c; c.name = std::to_string(id_); r.results = {{c}};
    return r;
  }
 private:
  int id_, needs_; std::vector<std::array<size_t, 2>>& log_;
};
static void Hybrid() {
  const Problem p; auto data = MakeData<Full>(p, 1);
  for (int n = 1; n <= 3; ++n) for (int total : {5, 8, 12, 40}) for (int stop = 0; stop < 2; ++stop) for (int code = 0; code < (n == 1 ? 16 : n == 2 ? 256 : 4096); ++code) for (int runs = 1; runs <= 2; ++runs) {
    if (!vp::CaseF([&] { std::ostringstream o; o << "hybrid n=" << n << " total=" << total << " stop=" << stop << " code=" << code << " runs=" << runs; return o.str(); })) continue;
    static const int kNeeds[] = {1, 3, 6, 99}, kMax[] = {2, 4, 7, 100};
    HybridSolver h; h.SetMaxIterations(total); h.SetStopOnConvergence(stop);
    std::vector<std::array<size_t, 2>> log, want;
    std::vector<int> needs, max; int c = code;
    for (int i = 0; i < n; ++i) { needs.push_back(kNeeds[c % 4]); c /= 4; max.push_back(kMax[c % 4]); c /= 4; auto s = std::make_unique<Stage>(i, needs[i], log); s->SetMaxIterations(max[i]); h.AddSolver(std::move(s)); }
    h.Initialize(4, {1}, 1);
    for (int run = 0; run < runs; ++run) {
      log.clear(); want.clear();
      Solutions s(1, std::vector<D>(4, 0.0));
      const auto r = h.Solve(*data, s, 3.5);
      vp::Step();
      int left = total, used = 0; bool converged = false, nothing_left = false; int last = 0; D value = 0; size_t ci = 0;
      for (int i = 0; i < n; ++i) {
        if (left == 0) nothing_left = true;
        const int m = std::min(max[i], left);
        want.push_back({size_t(i), size_t(m)}); last = i; value = value * 10.0 + D(i + 1); ci += i + 1;
        converged = needs[i] <= m;
        used += converged ? needs[i] : m; left -= converged ? needs[i] : m;
        if (converged && stop) break;
      }
      if (nothing_left) { vp::Count("without iterations left"); continue; }
      vp::Check(log == want, "the stages get other numbers of iterations");
      vp::Check(s[0][0] == value, "the stages do not continue with each other's solutions");
      vp::Check(converged ? int(r.iterations) == used : int(r.iterations) == total + 1, "reports ", r.iterations, " iterations after ", used, converged ? "" : " without convergence");
      vp::Check(r.constraint_iterations == ci, "constraint iterations");
      vp::Check(r.results.size() == 1 && r.results[0].size() == 1 && r.results[0][0].name == std::to_string(last), "not the results of the last stage");
      vp::Outcome(std::to_string(r.iterations));
    }
    vp::Trace();
  }
}

int main(int argc, char** argv) {
  vp::Init(argc, argv);
  Order(0); Threads(1);
  Finiteness(); Steps(); Stopping(); Constraints(); Hybrid();
  return vp::Finish();
}
