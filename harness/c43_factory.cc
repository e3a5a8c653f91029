// C43: the solver and the constraints that settings ask for.
#include <array>
#include <fnmatch.h>
#include "vp.h"
#include "solver_kit.h"
#include "ddecal/Settings.h"
#include "ddecal/SolverFactory.h"
#include "common/ParameterSet.h"
#include "common/ValuePerStationParsing.h"
#include "ddecal/constraints/AmplitudeOnlyConstraint.h"
#include "ddecal/constraints/AntennaConstraint.h"
#include "ddecal/constraints/AntennaIntervalConstraint.h"
#include "ddecal/constraints/FaradayConstraint.h"
#include "ddecal/constraints/PolarizationLeakageConstraint.h"
#include "ddecal/constraints/RotationAndDiagonalConstraint.h"
#include "ddecal/constraints/RotationConstraint.h"
#include "ddecal/constraints/SmoothnessConstraint.h"
#include "ddecal/constraints/TecConstraint.h"
#include "ddecal/constraints/TecOffsetDelayConstraint.h"
#include "ddecal/gain_solvers/DiagonalAntennaSolver.h"
#include "ddecal/gain_solvers/DiagonalLowRankSolver.h"
#include "ddecal/gain_solvers/DiagonalSolver.h"
#include "ddecal/gain_solvers/FullJonesSolver.h"
#include "ddecal/gain_solvers/HybridSolver.h"
#include "ddecal/gain_solvers/IterativeDiagonalSolver.h"
#include "ddecal/gain_solvers/IterativeFullJonesSolver.h"
#include "ddecal/gain_solvers/IterativeScalarSolver.h"
#include "ddecal/gain_solvers/ScalarSolver.h"
using namespace skit;
using dp3::base::CalType;
using dp3::common::ParameterSet;
typedef std::vector<std::string> Names;
typedef std::vector<std::array<double, 3>> Positions;
typedef std::vector<std::unique_ptr<Constraint>> Constraints;

static const Names kNames = {"CS001", "CS002", "RS106", "RS2.1"};
static const Positions kPlaces = {{{1, 2, 3}}, {{61, -78, 3}}, {{1, 2, 1003}}, {{4001, 2, 3}}};
static const std::vector<double> kFreqs = {120e6, 127e6, 133e6, 141e6, 150e6, 156e6};
static bool Fin(D d) { return std::isfinite(d.real()) && std::isfinite(d.imag()); }

template <class T> static bool Is(const SolverBase* s) { return s && typeid(*s) == typeid(T); }

struct Config {
  std::string mode, algorithm, use;
  int approx, group, averaging, smooth, variant;
};
static const char* kAlgorithms[] = {"directionsolve", "directioniterative", "antennasolve", "lowrank", "hybrid", "lbfgs"};
static const char* kModes[] = {"scalar", "scalaramplitude", "scalarphase", "tec", "tec+delay", "tec+phase", "tec+phase+delay", "tecscreen", "diagonal", "diagonalamplitude", "diagonalphase", "fulljones", "rotation+diagonal", "rotation", "faradayrotation", "leakage", "leakageamplitude"};
static const char* kUses[] = {"full", "dual", "single"};

static int Form(const std::string& mode) {   // numbers per antenna: 1, 2, 4, or 0: not available
  if (mode == "tecscreen") return 0;
  if (mode.compare(0, 6, "scalar") == 0 || mode.compare(0, 3, "tec") == 0) return 1;
  if (mode.compare(0, 8, "diagonal") == 0) return 2;
  return 4;
}
static bool IsType(const SolverBase* s, const std::string& mode, const std::string& algorithm, const std::string& use) {
  const int f = Form(mode);
  if (algorithm == "directionsolve") return f == 1 ? Is<ScalarSolver>(s) : f == 2 ? Is<DiagonalSolver>(s) : Is<FullJonesSolver>(s);
  if (algorithm == "antennasolve") return f == 2 && Is<DiagonalAntennaSolver>(s);
  if (algorithm == "lowrank") return f == 2 && Is<DiagonalLowRankSolver>(s);
  if (f == 4) return Is<IterativeFullJonesSolver>(s);
  if (f == 1) return use == "full" ? Is<IterativeScalarSolver<aocommon::MC2x2F>>(s) : use == "dual" ? Is<IterativeScalarSolver<aocommon::MC2x2FDiag>>(s) : Is<IterativeScalarSolver<std::complex<float>>>(s);
  return use == "full" ? Is<IterativeDiagonalSolver<aocommon::MC2x2F>>(s) : Is<IterativeDiagonalSolver<aocommon::MC2x2FDiag>>(s);
}
static bool Available(const std::string& mode, const std::string& algorithm, const std::string& use) {
  const int f = Form(mode);
  if (f == 0 || algorithm == "lbfgs") return false;
  if (f != 2 && (algorithm == "antennasolve" || algorithm == "lowrank")) return false;
  if (f == 2 && use == "single" && (algorithm == "directioniterative" || algorithm == "hybrid")) return false;
  return true;
}

// What the documentation asks for.
static Constraints Wanted(const Config& c, const std::vector<uint32_t>& spd) {
  Constraints r;
  if (c.group) {
    auto k = std::make_unique<AntennaConstraint>();
    std::vector<std::set<size_t>> sets;
    if (c.group == 1) sets = {{0, 1}};                       // 100 m
    if (c.group == 2) sets = {{0, 2}, {1, 3}};
    k->SetAntennaSets(std::move(sets));
    r.push_back(std::move(k));
  }
  if (c.averaging) r.push_back(std::make_unique<AntennaIntervalConstraint>(std::vector<size_t>{spd[0], spd[0], 1, 1}));
  if (c.smooth) {
    auto k = std::make_unique<SmoothnessConstraint>(9e6, c.smooth == 2 ? 140e6 : 0, c.smooth == 2 ? -2 : -1, c.smooth != 3);
    std::vector<double> f(4, 1.0);
    if (c.smooth == 2) f = {2.0, 2.0, 0.2, 0.05};            // 200 m / distance, the reference as the nearest
    if (c.smooth == 3) f = {0.5, 0.5, 1, 2};
    k->SetAntennaFactors(std::move(f));
    r.push_back(std::move(k));
  }
  const bool other = c.variant;
  if (c.mode == "scalaramplitude" || c.mode == "diagonalamplitude") r.push_back(std::make_unique<AmplitudeOnlyConstraint>());
  if (c.mode == "tec" || c.mode == "tec+phase") {
    const TecConstraint::Mode m = c.mode == "tec" ? TecConstraint::Mode::kTecOnly : TecConstraint::Mode::kTecAndCommonScalar;
    std::unique_ptr<TecConstraint> k;
    if (c.approx) {
      auto a = std::make_unique<ApproximateTECConstraint>(m);
      a->SetMaxApproximatingIterations(c.approx == 1 ? (c.variant ? 2 : 20) : 2);
      a->SetFittingChunkSize(c.approx == 1 ? 0 : 3);
      k = std::move(a);
    } else k = std::make_unique<TecConstraint>(m);
    k->setDoPhaseReference(!other);
    r.push_back(std::move(k));
  }
  if (c.mode == "tec+delay" || c.mode == "tec+phase+delay") r.push_back(std::make_unique<TecOffsetDelayConstraint>(c.mode != "tec+delay", other ? 2 : 5, !other));
  if (c.mode == "rotation+diagonal") {
    auto k = std::make_unique<RotationAndDiagonalConstraint>(other ? CalType::kScalarPhase : CalType::kDiagonal);
    k->SetDoRotationReference(other);
    r.push_back(std::move(k));
  }
  if (c.mode == "rotation") r.push_back(std::make_unique<RotationConstraint>());
  if (c.mode == "faradayrotation") r.push_back(std::make_unique<FaradayConstraint>(other ? CalType::kDiagonalPhase : CalType::kRotation, other ? std::optional<double>(0.5) : std::nullopt));
  if (c.mode == "leakageamplitude") r.push_back(std::make_unique<AmplitudeOnlyConstraint>());
  if (c.mode == "leakage" || c.mode == "leakageamplitude") r.push_back(std::make_unique<PolarizationLeakageConstraint>());
  for (auto& k : r) {
    k->Initialize(4, spd, kFreqs);
    if (auto* s = dynamic_cast<SmoothnessConstraint*>(k.get())) if (c.smooth == 2) { std::vector<double> dd; const double f[2] = {0.5, 1}; for (size_t d = 0; d < spd.size(); ++d) dd.insert(dd.end(), spd[d], f[d]); s->SetDdSmoothingFactors(dd); }
  }
  return r;
}
static ParameterSet MakeParset(const Config& c, const std::string& prefix) {
  ParameterSet p;
  auto add = [&](const char* k, const std::string& v) { p.add(prefix + k, v); };
  add("h5parm", "none.h5");
  add("mode", c.mode);
  add("solveralgorithm", c.algorithm);
  add("datause", c.use);
  if (c.group == 1) add("coreconstraint", "100");
  if (c.group == 2) { add("antennaconstraint", "[[RS106,CS001],[CS002,RS2.1,nosuch]]"); add("coreconstraint", "50"); }
  const bool two = c.algorithm == "directioniterative";   // the others have one solution per direction
  if (two) add("solutions_per_direction", "[2,1]");
  add("solint", "2");
  if (c.averaging) add("antenna_averaging_factors", two ? "[RS*:1,CS*:2]" : "[RS*:1,CS*:1]");
  if (c.smooth) add("smoothnessconstraint", "9e6");
  if (c.smooth == 2) { add("smoothnessreffrequency", "140e6"); add("smoothnessspectralexponent", "-2"); add("smoothnessrefdistance", "200"); add("smoothness_dd_factors", "[0.5,1]"); }
  if (c.smooth == 3) { add("smoothness_kernel_truncation", "false"); add("antenna_smoothness_factors", "[[CS00?,nosuch]:0.5,RS2.1:2]"); }
  if (c.approx) { add("approximatetec", "true"); if (c.approx == 2) { add("maxapproxiter", "2"); add("approxchunksize", "3"); add("approxtolerance", "3e-3"); } }
  if (c.variant) { add("phasereference", "false"); add("max_tec_delay_wraps", "2"); add("rotationreference", "true"); add("rotationdiagonalmode", "scalarphase"); add("faradaydiagonalmode", "diagonalphase"); add("faradaylimit", "0.5"); add("tolerance", "2e-4"); add("stepsize", "0.3"); add("detectstalling", "false"); add("llssolver", "svd"); }
  return p;
}

static void Solvers() {
  for (const char* mode : kModes) for (const char* algorithm : kAlgorithms) for (const char* use : kUses)
    for (int approx = 0; approx < (std::string(mode) == "tec" || std::string(mode) == "tec+phase" ? 3 : 1); ++approx)
      for (int group = 0; group < 3; ++group) for (int averaging = 0; averaging < 2; ++averaging) for (int smooth = 0; smooth < 4; ++smooth) for (int variant = 0; variant < 2; ++variant) {
        if (!vp::Thorough() && use != kUses[0] && (group + averaging + smooth + variant) % 3) continue;
        const Config c = {mode, algorithm, use, approx, group, averaging, smooth, variant};
        if (!vp::CaseF([&] { return c.mode + " " + c.algorithm + " " + c.use + " approximate=" + vp::Str(approx) + " group=" + vp::Str(group) + " averaging=" + vp::Str(averaging) + " smooth=" + vp::Str(smooth) + " variant=" + vp::Str(variant); })) continue;
        const size_t iterations[] = {40, 4};
        ParameterSet p = MakeParset(c, "d.");
        p.add("d.maxiter", vp::Str(iterations[variant]));
        dp3::ddecal::Settings settings(p, "d.");
        settings.PrepareSubSolutionsPerDirection(2);
        std::unique_ptr<SolverBase> solver;
        const std::string error = vp::Throws([&] { solver = CreateSolver(settings, kNames); });
        vp::Step(); vp::Trace();
        const bool available = Available(mode, algorithm, use);
        vp::Outcome(error);
        if (!vp::Check(error.empty() == available, available ? "not created: " : "created although it is not available", error)) continue;
        if (!available) { vp::Check(!solver, "there is a solver"); continue; }
        const bool hybrid = c.algorithm == "hybrid";
        vp::Check(Is<HybridSolver>(solver.get()) == hybrid, "the solver is of the wrong type");
        const std::vector<SolverBase*> stages = solver->ConstraintSolvers();
        if (!vp::Check(stages.size() == (hybrid ? 2 : 1), "there are ", stages.size(), " stages")) continue;
        vp::Check(solver->GetMaxIterations() == iterations[variant], "at most ", solver->GetMaxIterations(), " iterations");
        solver->Initialize(4, settings.sub_solutions_per_direction, kFreqs.size());
        const std::vector<uint32_t> spd = {c.algorithm == "directioniterative" ? 2u : 1u, 1};
        const size_t ns = spd[0] + 1;
        vp::Check(solver->SupportsDdSolutionIntervals() == (ns == 3), "several solutions per direction are supported: ", ns == 2);
        for (size_t s = 0; s < stages.size(); ++s) {
          SolverBase* stage = stages[s];
          const std::string at = " in stage " + vp::Str(s);
          vp::Check(IsType(stage, c.mode, !hybrid ? c.algorithm : s ? "directioniterative" : "directionsolve", c.use), "the solver has type ", typeid(*stage).name(), at);
          vp::Check(stage->NSolutionPolarizations() == size_t(Form(c.mode)), "the solver has ", stage->NSolutionPolarizations(), " numbers per solution", at);
          vp::Check(stage->GetMaxIterations() == (hybrid && s == 0 ? std::max<size_t>(1, iterations[variant] / 6) : iterations[variant]), "at most ", stage->GetMaxIterations(), " iterations", at);
          vp::Check(stage->GetPhaseOnly() == (c.mode == "scalarphase" || c.mode == "diagonalphase" || c.mode.compare(0, 3, "tec") == 0), "phases only: ", stage->GetPhaseOnly(), at);
          vp::Check(stage->GetAccuracy() == (variant ? 2e-4 : 1e-5), "accuracy ", stage->GetAccuracy(), at);
          if (approx) vp::Check(std::abs(stage->GetConstraintAccuracy() / (approx == 2 ? 3e-3 : variant ? 2e-3 : 1e-4) - 1) < 1e-9, "accuracy ", stage->GetConstraintAccuracy(), " while approximating", at);
          vp::Check(stage->GetStepSize() == (variant ? 0.3 : 0.2), "step size ", stage->GetStepSize(), at);
          vp::Check(stage->GetDetectStalling() == !variant, "stalling", at);
          vp::Check(stage->GetLLSSolverType() == (variant ? LLSSolverType::SVD : LLSSolverType::QR), "least squares method", at);
          InitializeSolverConstraints(*stage, settings, kPlaces, kNames, std::vector<dp3::base::Direction>(2), kFreqs);
        }
        const std::vector<double> w = [] { std::vector<double> r; for (int i = 0; i < 24; ++i) r.push_back(1 + i % 5); return r; }();
        std::vector<std::vector<double>> ws(ns);
        for (int s = 0; s < int(ns); ++s) for (int i = 0; i < 24; ++i) ws[s].push_back(0.5 + (i * 7 + s) % 6);
        // Weights of the sub solutions that come from the model are for every stage.
        for (SolverBase* stage : stages) for (const auto& k : stage->GetConstraints()) k->SetWeights(w);
        if (variant) solver->SetDdConstraintWeights(ws);
        for (size_t s = 0; s < stages.size(); ++s) {
          const std::string at = " in stage " + vp::Str(s);
          const Constraints& got = stages[s]->GetConstraints();
          Constraints want = Wanted(c, spd);
          if (!vp::Check(got.size() == want.size(), "there are ", got.size(), " constraints, not ", want.size(), at)) break;
          for (size_t k = 0; k < want.size(); ++k) {
            vp::Check(typeid(*got[k]) == typeid(*want[k]), "constraint ", k, " has type ", typeid(*got[k]).name(), at);
            vp::Check(got[k]->NAntennas() == 4 && got[k]->NDirections() == 2 && got[k]->NSubSolutions() == ns && got[k]->NChannelBlocks() == kFreqs.size(), "constraint ", k, " has the wrong sizes", at);
            want[k]->SetWeights(w);
            if (variant) want[k]->SetSubSolutionWeights(ws);
          }
          // They do the same, in the same order.
          const size_t n = size_t(Form(c.mode)), total = kFreqs.size() * 4 * ns * n;
          SolutionTensor x({kFreqs.size(), 4, ns, n}), y = x;
          for (size_t i = 0; i < total; ++i) x.data()[i] = D(0.8 + Mix(int(i), 1), Mix(int(i), 2));
          for (size_t i = 0; i < total; ++i) y.data()[i] = x.data()[i];
          for (int it = 0; it < (approx ? 4 : 1); ++it) {
            for (size_t k = 0; k < want.size(); ++k) {
              got[k]->PrepareIteration(it == 3, it, it == 3);
              want[k]->PrepareIteration(it == 3, it, it == 3);
              vp::Check(got[k]->Satisfied() == want[k]->Satisfied(), "constraint ", k, " is ", got[k]->Satisfied() ? "" : "not ", "satisfied in iteration ", it, at);
              SolutionSpan a = aocommon::xt::CreateSpan(x), b = aocommon::xt::CreateSpan(y);
              got[k]->Apply(a, 1e9);
              want[k]->Apply(b, 1e9);
              vp::Step();
              for (size_t i = 0; i < total; ++i) if (!vp::Check(x.data()[i] == y.data()[i] || (!Fin(x.data()[i]) && !Fin(y.data()[i])), "constraint ", k, " makes value ", i, " ", x.data()[i], ", not ", y.data()[i], " in iteration ", it, at)) { k = want.size() - 1; it = 9; break; }
            }
          }
        }
      }
}

static bool Match(const std::string& pattern, const std::string& name) { return fnmatch(pattern.c_str(), name.c_str(), 0) == 0; }

// A value per station.
template <class T> static void PerStation(const char* type) {
  const std::vector<Names> stations = {{"CS001", "CS002", "RS106"}, {"RS2.1", "RS201", "CS001", "A"}, {"CS001"}, {}};
  const std::vector<std::vector<std::string>> patterns = {{"CS*"}, {"*"}, {"RS2.1"}, {"CS00?"}, {"CS001", "RS106"}, {"*", "!CS001"}, {"^CS*", "CS001"}, {"CS*", "^CS001", "A"}, {"nosuch"}, {"CS"}, {"!A"}, {"*1", "!RS*", "RS*6"}};
  struct Val { const char* text; double value; bool ok; };
  const bool whole = std::is_integral<T>::value;
  const std::vector<Val> values = {{"3", 3, true}, {" 4", 4, true}, {"7 ", 7, true}, {"2.5", 2.5, !whole}, {"1e1", 10, !whole}, {"", 0, false}, {"abc", 0, false}, {"3x", 0, false}, {"3:4", 0, false}, {"3 4", 0, false}};
  const size_t np = patterns.size(), nv = values.size();
  for (size_t st = 0; st < stations.size(); ++st)
    for (size_t p1 = 0; p1 <= np; ++p1) for (size_t v1 = 0; v1 < nv; ++v1) for (size_t p2 = 0; p2 <= np; ++p2) for (size_t v2 = 0; v2 < nv; ++v2) {
      if ((p1 == np && v1) || (p2 == np && v2) || (p1 == np && p2 < np)) continue;
      if (!vp::Thorough() && v2 > 1 && v1 > 1 && (v1 + v2 + p1 + p2) % 4) continue;
      if (!vp::CaseF([&] { return std::string(type) + " stations=" + vp::Str(st) + " pattern " + vp::Str(p1) + " value " + vp::Str(v1) + " pattern " + vp::Str(p2) + " value " + vp::Str(v2); })) continue;
      const Names& names = stations[st];
      Names list;
      std::vector<T> got(names.size()), want;
      for (size_t i = 0; i < names.size(); ++i) got[i] = T(100 + i);
      want = got;
      bool ok = true;
      for (int item = 0; item < 2; ++item) {
        const size_t p = item ? p2 : p1, v = item ? v2 : v1;
        if (p == np) continue;
        std::string text;
        for (const std::string& q : patterns[p]) text += (text.empty() ? "" : ",") + q;
        if (patterns[p].size() > 1 || (p + v) % 2) text = "[" + text + "]";
        list.push_back(text + ":" + values[v].text);
        ok = ok && values[v].ok;
        for (size_t i = 0; i < names.size(); ++i) {
          bool in = false;
          for (const std::string& q : patterns[p]) {
            const bool no = q[0] == '!' || q[0] == '^';
            if (Match(no ? q.substr(1) : q, names[i])) in = !no;
          }
          if (in) want[i] = T(values[v].value);
        }
      }
      const std::string error = vp::Throws([&] { dp3::common::ParseValuePerStation<T>(got, list, names); });
      vp::Step(); vp::Trace();
      if (!vp::Check(error.empty() == ok, ok ? "refused: " : "accepted", error)) continue;
      if (ok) vp::Check(got == want, "the values are not those of the last item that matches: ", got.empty() ? 0.0 : double(got[0]), " ", want.empty() ? 0.0 : double(want[0]));
      vp::Outcome(error);
    }
  if (vp::CaseF([&] { return std::string(type) + " no colon"; })) {
    std::vector<T> v(1);
    const Names list = {"CS001"}, names = {"CS001"};
    vp::Check(!vp::Throws([&] { dp3::common::ParseValuePerStation<T>(v, list, names); }).empty(), "an item without a colon is accepted");
  }
}

// Antennas within a distance, and smoothing that depends on the distance.
static void Places() {
  const double grid[4][3] = {{0, 0, 0}, {30, 40, 0}, {-60, 0, 80}, {0, 300, 400}};
  for (int n = 1; n <= 4; ++n)
    for (int code = 0; code < (1 << (2 * n)); ++code) {
      Positions places;
      Names names;
      for (int i = 0; i < n; ++i) { const double* g = grid[code >> (2 * i) & 3]; places.push_back({{g[0] + 5, g[1] - 7, g[2] + 11}}); names.push_back(std::string(1, char('a' + i))); }
      auto far = [&](int i, int j) { double s = 0; for (int k = 0; k < 3; ++k) s += (places[i][k] - places[j][k]) * (places[i][k] - places[j][k]); return std::sqrt(s); };
      for (double limit : {1.0, 49.0, 50.0, 100.0, 499.0, 1e4}) {
        if (!vp::CaseF([&] { return "core n=" + vp::Str(n) + " places=" + vp::Str(code) + " limit=" + vp::Str(limit); })) continue;
        ParameterSet p;
        p.add("h5parm", "x"); p.add("mode", "scalar"); p.add("coreconstraint", vp::Str(limit));
        dp3::ddecal::Settings settings(p, "");
        settings.PrepareSubSolutionsPerDirection(1);
        auto solver = CreateSolver(settings, names);
        InitializeSolverConstraints(*solver, settings, places, names, std::vector<dp3::base::Direction>(1), kFreqs);
        vp::Step(); vp::Trace();
        std::set<size_t> want;
        for (int i = 0; i < n; ++i) if (far(0, i) <= limit) want.insert(i);
        const auto* k = dynamic_cast<AntennaConstraint*>(solver->GetConstraints()[0].get());
        vp::Check(k && k->GetAntennaSets() == std::vector<std::set<size_t>>{want}, "the core does not consist of the antennas within ", limit, " m of the first");
      }
      for (int ref = -1; ref <= n; ++ref) for (double dist : {0.0, 25.0, 1000.0}) for (int f = 0; f < 4; ++f) {
        if (!vp::CaseF([&] { return "smooth n=" + vp::Str(n) + " places=" + vp::Str(code) + " reference=" + vp::Str(ref) + " distance=" + vp::Str(dist) + " factors=" + vp::Str(f); })) continue;
        const std::vector<Names> lists = {{}, {"*:2"}, {"a:0.5", "[*,!a]:3"}, {"[b,c]:-1"}};
        const std::string name = ref < 0 ? "" : ref == n ? "nosuch" : names[ref];
        std::vector<double> got, want;
        const std::string error = vp::Throws([&] { got = CalculateAntennaSmoothnessFactors(dist, name, places, lists[f], names); });
        vp::Step(); vp::Trace();
        const bool wrong = (dist != 0 && ref == n) || (f == 3 && n > 1);
        if (!vp::Check(error.empty() == !wrong, wrong ? "accepted" : "refused: ", error)) continue;
        if (wrong) continue;
        const int r = ref < 0 ? 0 : ref;
        double top = 0;
        for (int i = 0; i < n; ++i) if (i != r && dist != 0) top = std::max(top, dist / far(i, r));
        for (int i = 0; i < n; ++i) want.push_back((dist == 0 ? 1 : i == r ? top : dist / far(i, r)) * (f == 1 ? 2 : f == 2 ? (i ? 3 : 0.5) : 1));
        bool same = got.size() == want.size();
        for (int i = 0; same && i < n; ++i) same = got[i] == want[i] || std::abs(got[i] - want[i]) < 1e-9 * want[i];
        vp::Check(same, "factor of antenna 0 is ", got.empty() ? 0.0 : got[0], ", not ", want[0]);
      }
    }
}

// Groups of antennas by name.
static void Groups() {
  for (int code = 0; code < 6 * 6 * 6 * 6; ++code) {
    if (!vp::CaseF([&] { return "groups " + vp::Str(code); })) continue;
    const char* all[] = {"CS001", "RS106", "RS2.1", "CS002", "nosuch", "none"};
    const int q[4] = {code % 6, code / 6 % 6, code / 36 % 6, code / 216};
    ParameterSet p;
    p.add("h5parm", "x"); p.add("mode", "diagonal");
    p.add("antennaconstraint", std::string("[[") + all[q[0]] + "," + all[q[1]] + "],[" + all[q[2]] + "," + all[q[3]] + "," + all[q[0]] + "]]");
    std::vector<std::set<size_t>> want(2);
    std::set<std::string> first = {all[q[0]], all[q[1]]}, second = {all[q[2]], all[q[3]], all[q[0]]};
    for (size_t i = 0; i < kNames.size(); ++i) { if (first.count(kNames[i])) want[0].insert(i); if (second.count(kNames[i])) want[1].insert(i); }
    std::string error;
    std::vector<std::set<size_t>> got;
    error = vp::Throws([&] {
      dp3::ddecal::Settings settings(p, "");
      settings.PrepareSubSolutionsPerDirection(1);
      auto solver = CreateSolver(settings, kNames);
      InitializeSolverConstraints(*solver, settings, kPlaces, kNames, std::vector<dp3::base::Direction>(1), kFreqs);
      got = dynamic_cast<AntennaConstraint&>(*solver->GetConstraints()[0]).GetAntennaSets();
    });
    vp::Step(); vp::Trace();
    const bool wrong = first.size() < 2 || second.size() < 2;
    if (vp::Check(error.empty() == !wrong, wrong ? "a group of one antenna is accepted" : "refused: ", error) && !wrong) vp::Check(got == want, "the groups do not have the antennas of the given names");
  }
}

int main(int argc, char** argv) {
  vp::Init(argc, argv);
  Solvers();
  PerStation<double>("double");
  PerStation<size_t>("count");
  Places();
  Groups();
  return vp::Finish();
}
