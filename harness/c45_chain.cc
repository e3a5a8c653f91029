// C45: the calibration step with the real writer and reader of solutions: every
// solution interval ends up in the file, and a run that starts from that file
// starts from the solutions of the same antennas, directions and times.
#define DK_REAL_FILES
#include "vp.h"
#include "ddecal_kit.h"
using namespace kit;
using dk::D;
using dk::F;
using dp3::ddecal::SolverBase;
using dp3::steps::DDECal;
using namespace schaapcommon::h5parm;

static unsigned g_pols;
static std::vector<dk::Sols> starts;
static std::vector<double> times;
static size_t n_ants, n_blocks; static std::vector<size_t> n_subs;
// Gains that differ in everything, without wrapping phases.
static D Sol(size_t k, size_t cb, size_t ant, size_t sub, size_t pol) { return std::polar(1 + 0.05 * k + 0.01 * cb + 0.2 * ant + 0.003 * sub + 0.5 * pol, 0.02 * k + 0.001 * cb - 0.3 * ant + 0.07 * sub - 0.11 * pol); }
class Mock : public SolverBase {
 public:
  size_t NSolutionPolarizations() const override { return g_pols; }
  bool SupportsDdSolutionIntervals() const override { return true; }
  void Initialize(size_t a, const std::vector<size_t>& s, size_t b) override { n_ants = a; n_subs = s; n_blocks = b; SolverBase::Initialize(a, s, b); }
  SolveResult Solve(const dp3::ddecal::FullSolveData&, dk::Sols& s, double t) override { return Take(s, t); }
  SolveResult Solve(const dp3::ddecal::DuoSolveData&, dk::Sols& s, double t) override { return Take(s, t); }
  SolveResult Solve(const dp3::ddecal::UniSolveData&, dk::Sols& s, double t) override { return Take(s, t); }
  SolveResult Take(dk::Sols& s, double t) {
    const size_t k = starts.size(); starts.push_back(s); times.push_back(t);
    size_t subs = 0; for (auto x : n_subs) subs += x;
    for (size_t cb = 0; cb < s.size(); ++cb) { s[cb].clear(); for (size_t a = 0; a < n_ants; ++a) for (size_t u = 0; u < subs; ++u) for (size_t p = 0; p < g_pols; ++p) s[cb].push_back(Sol(k, cb, a, u, p)); }
    SolveResult r; r.iterations = 3; r.constraint_iterations = 0; return r;
  }
};
namespace dp3::ddecal {
std::unique_ptr<SolverBase> CreateSolver(const Settings& s, const std::vector<std::string>&) { auto m = std::make_unique<Mock>(); m->SetMaxIterations(s.max_iterations); return m; }
void InitializeSolverConstraints(SolverBase&, const Settings&, const std::vector<std::array<double, 3>>&, const std::vector<std::string>&, const std::vector<base::Direction>&, const std::vector<double>&) {}
}  // namespace dp3::ddecal

struct Config { unsigned nt = 1, solint = 1, pols = 1, nchan = 1, per = 1, layout = 0; std::vector<unsigned> subs = {1}; double first = 10, dt = 1; bool initial = false; unsigned pols2 = 0, solint2 = 0; };
static void Go(const Config& q, const Shape& s, const std::string& file, const std::string& from, unsigned pols, unsigned solint) {
  starts.clear(); times.clear(); dk::Reset(); g_pols = pols;
  dk::slot_of = [&](double t) { return unsigned(std::lround((t - s.first_time) / s.interval)); };
  dk::model = [](const std::string&, unsigned, unsigned, unsigned, unsigned) { return F(1, 0); };
  auto p = Parset({{"dde.h5parm", file}, {"dde.solint", std::to_string(solint)}, {"dde.nchan", std::to_string(q.per)}, {"dde.mode", pols == 1 ? "scalar" : pols == 2 ? "diagonal" : "fulljones"}});
  std::string reuse; DPInfo info = Info(s); std::string subs;
  for (unsigned d = 0; d < q.subs.size(); ++d) { const std::string n = "m.d" + std::to_string(d); reuse += (d ? "," : "") + n; subs += (d ? "," : "") + std::to_string(q.subs[d]); info.GetDirections()[n] = dk::Direction(0.3 * d, 0.1); }
  p.add("dde.reusemodel", "[" + reuse + "]"); p.add("dde.solutions_per_direction", "[" + subs + "]"); p.add("dde.solveralgorithm", "directioniterative");
  if (!from.empty()) p.add("dde.initialsolutions.h5parm", from);
  auto step = std::make_shared<DDECal>(p, "dde.");
  auto sink = std::make_shared<Sink>();
  step->setNextStep(sink); step->setInfo(info);
  for (unsigned t = 0; t < q.nt; ++t) {
    auto b = Buffer(s, t);
    for (unsigned d = 0; d < q.subs.size(); ++d) { const std::string n = "m.d" + std::to_string(d); b->AddData(n); b->GetData(n).resize({s.nbl, s.nchan, s.ncorr}); b->GetData(n).fill(F(1, 0)); }
    step->process(std::move(b));
  }
  step->finish();
}
static void Run(const Config& q) {
  if (!vp::CaseF([&] { std::string x = "slots=" + std::to_string(q.nt) + " solint=" + std::to_string(q.solint) + " pols=" + std::to_string(q.pols) + " nchan=" + std::to_string(q.nchan) + "/" + std::to_string(q.per) + " layout=" + std::to_string(q.layout) + " subs="; for (auto s : q.subs) x += std::to_string(s) + ","; return x + " first=" + vp::Str(q.first) + " dt=" + vp::Str(q.dt) + (q.initial ? " second run pols=" + std::to_string(q.pols2) + " solint=" + std::to_string(q.solint2) : ""); })) return;
  Shape s; s.nchan = q.nchan; s.ncorr = 4; s.ntime = q.nt; s.first_time = q.first; s.interval = q.dt;
  if (q.layout == 0) { s.nant = 3; s.a1 = {0, 0, 1}; s.a2 = {1, 2, 2}; } else { s.nant = 5; s.a1 = {1, 1, 2}; s.a2 = {2, 4, 4}; }
  s.nbl = s.a1.size();
  std::vector<unsigned> used = q.layout == 0 ? std::vector<unsigned>{0, 1, 2} : std::vector<unsigned>{1, 2, 4};
  H5Parm::Files().clear();
  std::string wrong = vp::Throws([&] { Go(q, s, "one.h5", "", q.pols, q.solint); });
  if (!vp::Check(wrong.empty(), "the calibration fails: ", wrong)) return;
  const unsigned nint = (q.nt + q.solint - 1) / q.solint;
  unsigned k = 1, nsub = 0; for (auto x : q.subs) { k = std::max(k, x); nsub += x; }
  const unsigned length = q.solint / k, ntimes = (q.nt + length - 1) / length, nd = q.subs.size();
  if (!vp::Check(starts.size() == nint, "number of solves: ", starts.size())) return;
  auto& tabs = H5Parm::Files().at("one.h5")->tabs;
  if (!vp::Check(tabs.size() == 2 && tabs.count("amplitude000") && tabs.count("phase000"), "tables")) return;
  vp::Check(H5Parm::Files().at("one.h5")->antennas.size() == s.nant, "antennas of the file");
  for (auto& [n, tab] : tabs) {
    const auto& tt = tab.reals.at("time"); const auto& ff = tab.reals.at("freq");
    if (!vp::Check(tt.size() == ntimes, n, " has ", tt.size(), " times instead of ", ntimes)) return;
    for (unsigned t = 0; t < ntimes; ++t) { const double w = q.first - 0.5 * q.dt + (t + 0.5) * length * q.dt; vp::Check(std::abs(tt[t] - w) < 4e-6, "time ", t, " is off by ", tt[t] - w); }
    std::vector<std::string> names; for (auto a : used) names.push_back("ant" + std::to_string(a));
    vp::Check(tab.strings.at("ant") == names, "antennas of the table");
    size_t i = 0;
    if (!vp::Check(tab.values.size() == ntimes * ff.size() * used.size() * nd * q.pols, "number of values: ", tab.values.size())) return;
    for (unsigned t = 0; t < ntimes; ++t) for (unsigned f = 0; f < ff.size(); ++f) for (unsigned a = 0; a < used.size(); ++a) for (unsigned d = 0, u = 0; d < nd; u += q.subs[d++]) for (unsigned p = 0; p < q.pols; ++p, ++i) {
      const D w = Sol(t / k, f, a, u + (t % k) * q.subs[d] / k, p);
      vp::Check(std::abs(tab.values[i] - (n == "phase000" ? std::arg(w) : std::abs(w))) < 1e-9, n, " at time ", t, " block ", f, " antenna ", a, " direction ", d, " polarization ", p, ": ", tab.values[i]);
    }
  }
  vp::Step(ntimes);
  if (!q.initial) return;
  // A second run, from the nearest solutions of the first.
  JonesParameters::Fill() = [&](const JonesParameters::Request& r, casacore::Cube<casacore::Complex>& out) {
    const SolTab& tab = *r.first;
    const bool pol = tab.HasAxis("pol"); const unsigned tp = pol ? tab.GetAxis("pol").size : 1, np = r.type == GainType::kFullJones ? 4 : 2;
    out.resize(np, r.antennas.size(), r.freqs.size() * r.times.size());
    auto nearest = [](const std::vector<double>& v, double x) { size_t b = 0; for (size_t i = 1; i < v.size(); ++i) if (std::abs(v[i] - x) < std::abs(v[b] - x)) b = i; return b; };
    auto& names = tab.strings.at("ant");
    for (unsigned f = 0; f < r.freqs.size(); ++f) for (unsigned a = 0; a < r.antennas.size(); ++a) for (unsigned p = 0; p < np; ++p) {
      const size_t t = nearest(tab.reals.at("time"), r.times.at(0)), g = nearest(tab.reals.at("freq"), r.freqs[f]), n = std::find(names.begin(), names.end(), r.antennas[a]) - names.begin();
      if (n == names.size()) throw std::runtime_error("antenna " + r.antennas[a] + " is not in the file");
      const size_t i = (((t * tab.GetAxis("freq").size + g) * names.size() + n) * tab.GetAxis("dir").size + r.direction) * tp + std::min(p, tp - 1);
      if (r.second) out(p, a, f) = F(std::polar(tab.values.at(i), r.second->values.at(i)));
      else out(p, a, f) = tab.GetType() == "phase" ? F(std::polar(1.0, tab.values.at(i))) : F(tab.values.at(i), 0);
    }
  };
  wrong = vp::Throws([&] { Go(q, s, "two.h5", "one.h5", q.pols2, q.solint2); });
  if (!vp::Check(wrong.empty(), "the second calibration fails: ", wrong)) return;
  for (unsigned b = 0; b < starts.size(); ++b) {
    const unsigned lo = b * q.solint2, hi = std::min(q.nt, lo + q.solint2);
    const double middle = q.first + 0.5 * (lo + hi - 1) * q.dt;
    vp::Check(std::abs(times[b] - middle) < 4e-6, "time of solve ", b, " is off by ", times[b] - middle);
    auto& tt = H5Parm::Files().at("one.h5")->tabs.at("phase000").reals.at("time");
    unsigned at = 0; bool tie = false;
    for (unsigned t = 1; t < tt.size(); ++t) { const double x = std::abs(tt[t] - middle), y = std::abs(tt[at] - middle); if (std::abs(x - y) < 1e-3 * q.dt) tie = true; else if (x < y) { at = t; tie = false; } }
    if (tie) continue;
    for (unsigned f = 0; f < starts[b].size(); ++f) {
      if (!vp::Check(starts[b][f].size() == used.size() * nsub * q.pols2, "number of starting values")) return;
      for (unsigned a = 0; a < used.size(); ++a) for (unsigned d = 0, u = 0; d < nd; ++d) { unsigned first = 0; for (unsigned e = 0; e < d; ++e) first += q.subs[e]; for (unsigned x = 0; x < q.subs[d]; ++x, ++u) for (unsigned p = 0; p < q.pols2; ++p) {
        const unsigned element = q.pols2 == 4 ? p : q.pols2 == 2 ? 3 * p : 0;
        const unsigned from = first + (at % k) * q.subs[d] / k;
        D w;
        if (q.pols == 4) w = Sol(at / k, f, a, from, element);
        else if (element == 1 || element == 2) w = 0;
        else w = Sol(at / k, f, a, from, q.pols == 2 ? element / 3 : 0);
        const D got = starts[b][f][(a * nsub + u) * q.pols2 + p];
        vp::Check(std::abs(got - w) < 1e-4, "start of solve ", b, " block ", f, " antenna ", a, " direction ", d, ".", x, " polarization ", p, ": ", got, " != ", w);
      } }
    }
  }
}
int main(int argc, char** argv) {
  vp::Init(argc, argv);
  const bool more = vp::Thorough();
  for (double first : {10.0, 4472025740.0, 5.1e9 + 0.37, 4871282397.91}) for (double dt : {1.0, 10.0139, 5.00673, 1.00139, 0.7, 1.0 / 3}) for (unsigned nt = 1; nt <= (more ? 24u : 10u); ++nt) for (unsigned solint = 1; solint <= (more ? 8u : 5u); ++solint) for (const auto& subs : std::vector<std::vector<unsigned>>{{1}, {2, 1}, {1, 4}}) {
    unsigned k = 1; for (auto x : subs) k = std::max(k, x);
    if (solint % k) continue;
    Config q; q.first = first; q.dt = dt; q.nt = nt; q.solint = solint; q.subs = subs; Run(q);
  }
  for (unsigned pols : {1u, 2u, 4u}) for (unsigned pols2 : {1u, 2u, 4u}) for (unsigned layout : {0u, 1u}) for (unsigned nchan = 1; nchan <= 3; ++nchan) for (unsigned per = 1; per <= nchan; ++per) for (const auto& subs : std::vector<std::vector<unsigned>>{{1}, {1, 1, 1}, {2, 1}}) for (unsigned nt : {1u, 4u, 7u}) for (unsigned solint : {2u, 4u}) for (unsigned solint2 : {2u, 4u}) {
    if (!more && (nchan + per + nt + solint + solint2 + subs.size()) % 2) continue;
    Config q; q.first = 4471982740.0; q.dt = 2.5; q.initial = true; q.pols = pols; q.pols2 = pols2; q.layout = layout; q.nchan = nchan; q.per = per; q.subs = subs; q.nt = nt; q.solint = solint; q.solint2 = solint2; Run(q);
  }
  return vp::Finish();
}
