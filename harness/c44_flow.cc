// C44: what the calibration step does around the solver: which visibilities,
// weights, times and starting values each solve gets, what is done with its
// result, and what is passed on.
#include "vp.h"
#include "ddecal_kit.h"
using namespace kit;
using dk::D;
using dk::F;
using dp3::ddecal::Constraint;
using dp3::ddecal::ConstraintResult;
using dp3::ddecal::SolverBase;
using dp3::steps::DDECal;

// ---------------------------------------------------------------- the solver
struct Vis { unsigned a1, a2; std::vector<std::complex<float>> v; bool operator<(const Vis& o) const { return key() < o.key(); }
  std::vector<float> key() const { std::vector<float> k = {float(a1), float(a2)}; for (auto& x : v) { k.push_back(x.real()); k.push_back(x.imag()); } return k; } };
struct Call { double time; char kind; dk::Sols start; std::vector<std::vector<Vis>> vis; std::vector<double> weights; bool weighted = false; };
static std::vector<Call> calls;
static std::vector<double> set_weights;
static bool set_sub_weights;
static unsigned g_pols, g_bad;             // g_bad: bit per solve that does not converge
static std::vector<std::string> solver_names, constraint_names;
static std::vector<std::array<double, 3>> constraint_pos;
static std::vector<dk::Direction> constraint_places;
static std::vector<double> constraint_freqs;
static size_t init_ants, init_blocks; static std::vector<size_t> init_subs;
static int n_results;                      // results that the constraint gives

static D Sol(size_t k, size_t cb, size_t ant, size_t sub, size_t pol) { return D(1 + 0.05 * pol + 0.02 * k + 0.1 * ant, 0.3 * ant - 0.2 * sub + 0.07 * cb - 0.11 * pol); }

class Watch : public Constraint {
 public:
  void Apply(dp3::ddecal::SolutionSpan&, double) override {}
  void SetWeights(const std::vector<double>& w) override { set_weights = w; }
  void SetSubSolutionWeights(const std::vector<std::vector<double>>&) override { set_sub_weights = true; }
};
class Mock : public SolverBase {
 public:
  size_t NSolutionPolarizations() const override { return g_pols; }
  bool SupportsDdSolutionIntervals() const override { return true; }
  void Initialize(size_t a, const std::vector<size_t>& s, size_t b) override { init_ants = a; init_subs = s; init_blocks = b; SolverBase::Initialize(a, s, b); }
  SolveResult Solve(const dp3::ddecal::FullSolveData& d, dk::Sols& s, double t) override { return Take(d, s, t, 'f', 4); }
  SolveResult Solve(const dp3::ddecal::DuoSolveData& d, dk::Sols& s, double t) override { return Take(d, s, t, 'd', 2); }
  SolveResult Solve(const dp3::ddecal::UniSolveData& d, dk::Sols& s, double t) override { return Take(d, s, t, 's', 1); }
  template <class M> static void Put(std::vector<F>& v, const M& m, int n) { for (int i = 0; i < n; ++i) v.push_back(m.Get(i)); }
  static void Put(std::vector<F>& v, const F& m, int) { v.push_back(m); }
  template <class T> SolveResult Take(const T& d, dk::Sols& s, double t, char kind, int n) {
    Call c; c.time = t; c.kind = kind; c.start = s; c.weights = set_weights; c.weighted = set_sub_weights;
    for (size_t b = 0; b < d.NChannelBlocks(); ++b) {
      c.vis.emplace_back();
      const auto& cb = d.ChannelBlock(b);
      for (size_t i = 0; i < cb.NVisibilities(); ++i) {
        Vis v{cb.Antenna1Index(i), cb.Antenna2Index(i), {}};
        Put(v.v, cb.Visibility(i), n);
        for (size_t dir = 0; dir < cb.NDirections(); ++dir) Put(v.v, cb.ModelVisibility(dir, i), n);
        c.vis.back().push_back(v);
      }
    }
    const size_t k = calls.size();
    calls.push_back(c);
    set_weights.clear(); set_sub_weights = false;
    size_t subs = 0; for (auto x : init_subs) subs += x;
    for (size_t cb = 0; cb < s.size(); ++cb) {
      s[cb].resize(init_ants * subs * g_pols);
      for (size_t a = 0; a < init_ants; ++a) for (size_t u = 0; u < subs; ++u) for (size_t p = 0; p < g_pols; ++p) s[cb][(a * subs + u) * g_pols + p] = Sol(k, cb, a, u, p);
    }
    SolveResult r;
    r.iterations = (g_bad >> k & 1) ? GetMaxIterations() + 1 : (k % 2 ? GetMaxIterations() : 3);
    r.constraint_iterations = k;
    r.results.resize(1);
    for (int i = 0; i < n_results; ++i) r.results[0].push_back(ConstraintResult{{1.0 * k, 2, 3, 4}, {1, -1, 0.5, 0}, "ant", {4}, "r" + std::to_string(i)});
    return r;
  }
};
namespace dp3::ddecal {
std::unique_ptr<SolverBase> CreateSolver(const Settings& s, const std::vector<std::string>& names) {
  solver_names = names;
  auto m = std::make_unique<Mock>();
  m->SetMaxIterations(s.max_iterations);
  m->AddConstraint(std::make_unique<Watch>());
  return m;
}
void InitializeSolverConstraints(SolverBase&, const Settings&, const std::vector<std::array<double, 3>>& pos, const std::vector<std::string>& names, const std::vector<base::Direction>& places, const std::vector<double>& freqs) { constraint_pos = pos; constraint_names = names; constraint_places = places; constraint_freqs = freqs; }
}  // namespace dp3::ddecal

// ------------------------------------------------------------------ the case
struct Config {
  unsigned nt = 2, solint = 1, ndir = 2;
  std::string source = "r";          // r: reused, c: column, p: predicted, i: image; one letter per direction
  bool subtract = false, keep = false, predict = false;
  unsigned pols = 4, layout = 0, nchan = 3, per = 1;
  double minvis = 0, uvmin = 0;
  unsigned flags = 0;                // pattern
  bool prop = false, conv = false, init = false, store = false, flagbad = false, flagdiv = false, ddweights = false;
  unsigned bad = 0; int results = 1;
  std::string use = "full";
  unsigned subs = 1;                 // solutions of the first direction
  unsigned declared = 0;             // slots of the set, if different
  unsigned idg = 0;                  // buffers per image predictor
  bool linear = false;
  unsigned order = 0;
  std::string Text() const {
    return "slots=" + std::to_string(nt) + " solint=" + std::to_string(solint) + " source=" + source + (subtract ? " subtract" : "") + (keep ? " keepmodel" : "") + (predict ? " onlypredict" : "") + " pols=" + std::to_string(pols) + " layout=" + std::to_string(layout) + " nchan=" + std::to_string(nchan) + "/" + std::to_string(per) + " minvis=" + vp::Str(minvis) + " uvmin=" + vp::Str(uvmin) + " flags=" + std::to_string(flags) + (prop ? " propagate" : "") + (conv ? " convergedonly" : "") + (init ? " initial" : "") + (store ? " store" : "") + (flagbad ? " flagunconverged" : "") + (flagdiv ? " flagdivergedonly" : "") + (ddweights ? " modelweights" : "") + " bad=" + std::to_string(bad) + " results=" + std::to_string(results) + " use=" + use + " subs=" + std::to_string(subs) + " declared=" + std::to_string(declared) + " idg=" + std::to_string(idg) + (linear ? " lowrank" : "") + " order=" + std::to_string(order);
  }
};
struct Layout { unsigned nant; std::vector<int> a1, a2; };
static Layout Lay(unsigned l) {
  if (l == 0) return {3, {0, 0, 1}, {1, 2, 2}};
  if (l == 1) return {5, {1, 1, 2, 2}, {2, 4, 4, 2}};       // 0 and 3 are not used, one autocorrelation
  if (l == 2) return {4, {0, 2, 1, 1, 1}, {2, 1, 0, 2, 1}}; // last one not used, some baselines reversed, an autocorrelation
  return {6, {5, 3, 1, 1}, {3, 1, 5, 1}};                   // 0, 2 and 4 are not used
}
static F Data(unsigned t, unsigned bl, unsigned ch, unsigned cr) { return F(10 * t + bl + 0.25f * ch, 1.0f + cr + 0.125f * t); }
static float Weight(unsigned t, unsigned bl, unsigned ch, unsigned cr) { return (1 + t) * (1.0f + 0.5f * bl) * (1 + 0.25f * ch) + 0.5f * cr; }
static bool Flag(unsigned p, unsigned t, unsigned bl, unsigned ch, unsigned cr) {
  switch (p) {
    case 1: return (t * 7 + bl * 3 + ch) % 3 == 0;
    case 2: return ch == 0;
    case 3: return t == 1;
    case 4: return bl == 0 && t != 0;
    case 5: return (t + ch) % 2 == 0;
    case 6: return cr == 1 && bl == 1;      // one correlation only
    case 7: return true;
    case 8: return ch == 1 && t < 2;
  }
  return false;
}
static F Model(const std::string& n, unsigned t, unsigned bl, unsigned ch, unsigned cr) { unsigned h = 0; for (char c : n) h = (h * 7 + c) % 17; return F(1 + h + 0.5f * t - 0.25f * bl, 0.5f * ch + (cr == 1 || cr == 2 ? 0.25f : 2.0f) + 0.125f * h); }

static void Run(const Config& q) {
  if (!vp::CaseF([&] { return q.Text(); })) return;
  dk::Reset(); calls.clear(); set_weights.clear(); set_sub_weights = false; solver_names.clear();
  g_pols = q.pols; g_bad = q.bad; n_results = q.results;
  dk::idg_size = q.idg;
  Order(q.order);
  const Layout lay = Lay(q.layout);
  Shape s; s.nbl = lay.a1.size(); s.nchan = q.nchan; s.ncorr = 4; s.nant = lay.nant; s.a1 = lay.a1; s.a2 = lay.a2; s.ntime = q.declared ? q.declared : q.nt;
  dk::slot_of = [&](double t) { return unsigned(std::lround((t - s.first_time) / s.interval)); };
  dk::model = Model;
  // Directions, in the order in which the step has them.
  std::vector<std::string> names, reuse; std::vector<std::vector<std::string>> patches; std::vector<dk::Direction> places;
  std::string columns, images, sky, reused;
  DPInfo info = Info(s);
  auto join = [](std::string& l, const std::string& x, const char* sep = ",") { l += (l.empty() ? "" : sep) + x; };
  for (char kind : {'c', 'i', 'p', 'r'}) for (unsigned i = 0; i < q.source.size(); ++i) if (q.source[i] == kind) {
    const std::string n = std::string(1, "AbCd"[i]) + std::to_string(i);
    if (kind == 'r') { names.push_back("old." + n); reuse.push_back(names.back()); patches.push_back({n}); info.GetDirections()["old." + n] = dk::Place("old." + n); join(reused, "old." + n); places.push_back(dk::Place(names.back())); continue; }
    names.push_back("dde." + n); places.push_back(dk::Place(names.back()));
    if (kind == 'c') { join(columns, n); patches.push_back({n}); }
    if (kind == 'i') { join(images, n, "+"); patches.push_back({n}); }
    if (kind == 'p') { join(sky, "[" + n + ",other" + n + "]"); patches.push_back({n, "other" + n}); }
  }
  info.GetDirections()["keep.me"] = dk::Place("keep.me");
  const unsigned nd = names.size();
  const unsigned solint = q.solint ? q.solint : s.ntime;
  auto p = Parset({{"dde.h5parm", "out.h5"}, {"dde.solint", std::to_string(q.solint)}, {"dde.nchan", std::to_string(q.per)}, {"dde.maxiter", "7"}, {"dde.mode", q.pols == 1 ? "scalar" : q.pols == 2 ? "diagonal" : "fulljones"}});
  if (!columns.empty()) p.add("dde.modeldatacolumns", "[" + columns + "]");
  if (!images.empty()) { p.add("dde.idg.images", "[im.fits]"); p.add("dde.idg.regions", images); }
  if (!sky.empty()) { p.add("dde.directions", "[" + sky + "]"); p.add("dde.sourcedb", "sky.txt"); }
  if (!reused.empty()) p.add("dde.reusemodel", "[" + reused + "]");
  auto flag = [&](const char* k, bool on) { if (on) p.add(std::string("dde.") + k, "true"); };
  flag("subtract", q.subtract); flag("keepmodel", q.keep); flag("onlypredict", q.predict); flag("propagatesolutions", q.prop); flag("propagateconvergedonly", q.conv); flag("storebuffer", q.store); flag("flagunconverged", q.flagbad); flag("flagdivergedonly", q.flagdiv); flag("model_weighted_constraints", q.ddweights);
  if (q.init) p.add("dde.initialsolutions.h5parm", "first.h5");
  if (q.minvis) p.add("dde.minvisratio", vp::Str(q.minvis));
  if (q.uvmin) p.add("dde.uvmmin", vp::Str(q.uvmin));
  if (q.use != "full") { p.add("dde.datause", q.use); p.add("dde.solveralgorithm", "directioniterative"); }
  if (q.linear) p.add("dde.solveralgorithm", "lowrank");
  if (q.subs > 1) { p.add("dde.solutions_per_direction", "[" + std::to_string(q.subs) + "]"); if (q.use == "full") p.add("dde.solveralgorithm", "directioniterative"); }
  auto step = std::make_shared<DDECal>(p, "dde.");
  auto sink = std::make_shared<Sink>();
  dk::sink_finished = &sink->finished;
  step->setNextStep(sink);
  step->setInfo(info);

  // What is known before the first slot.
  const unsigned nblocks = q.nchan / std::min(q.per ? q.per : q.nchan, q.nchan);
  std::vector<unsigned> first(nblocks + 1); std::vector<double> freqs(nblocks);
  for (unsigned b = 0; b <= nblocks; ++b) first[b] = b * q.nchan / nblocks;
  std::vector<unsigned> block(q.nchan);
  for (unsigned b = 0; b < nblocks; ++b) for (unsigned c = first[b]; c < first[b + 1]; ++c) { block[c] = b; freqs[b] += (s.freq0 + c * s.width) / (first[b + 1] - first[b]); }
  std::vector<int> used(lay.nant, 0), number(lay.nant, -1); std::vector<std::string> used_names;
  for (auto a : lay.a1) used[a] = 1;
  for (auto a : lay.a2) used[a] = 1;
  std::vector<unsigned> used_list;
  for (unsigned a = 0; a < lay.nant; ++a) if (used[a]) { number[a] = used_list.size(); used_list.push_back(a); used_names.push_back("ant" + std::to_string(a)); }
  const unsigned na = used_list.size();
  std::vector<size_t> subs(nd, 1); subs[0] = q.subs;
  const unsigned nsub = nd - 1 + q.subs;
  vp::Check(init_ants == na && init_blocks == nblocks && init_subs == subs, "solver initialised with ", init_ants, " antennas, ", init_blocks, " blocks");
  vp::Check(solver_names == used_names, "the solver is made for ", solver_names.size(), " antennas instead of the ", na, " that are used");
  vp::Check(constraint_names == used_names && constraint_pos.size() == na, "constraint antennas");
  for (unsigned a = 0; a < na; ++a) { const unsigned i = used_list[a]; vp::Check(constraint_pos[a] == std::array<double, 3>{{3826577.0 + 40 * i * i, 461022.0 + 30 * i, 5064892.0 - 7.0 * i}}, "position of antenna ", i); }
  vp::Check(constraint_freqs.size() == nblocks, "frequencies of the constraints");
  for (unsigned b = 0; b < nblocks; ++b) vp::Check(Near(constraint_freqs[b], freqs[b], 1e-12), "frequency of block ", b, ": ", constraint_freqs[b], " != ", freqs[b]);
  auto same_places = [&](const std::vector<dk::Direction>& x) { bool ok = x.size() == nd; for (unsigned d = 0; ok && d < nd; ++d) ok = x[d].ra == places[d].ra && x[d].dec == places[d].dec; return ok; };
  vp::Check(same_places(constraint_places), "directions of the constraints");
  vp::Check(dk::read_directions == nd && dk::read_pols == q.pols, "initial solutions made for ", dk::read_directions, " directions");
  vp::Check(dk::predict_locked, "a predictor has no lock for the measures");
  {
    std::map<std::string, dk::Direction> want;
    want["keep.me"] = dk::Place("keep.me");
    for (unsigned d = 0; d < nd; ++d) if (q.keep) want[names[d]] = places[d];
    const auto& got = step->getInfoOut().GetDirections();
    vp::Check(got.size() == want.size(), "directions passed on: ", got.size(), " instead of ", want.size());
    for (auto& e : want) { auto i = got.find(e.first); vp::Check(i != got.end() && i->second.ra == e.second.ra && i->second.dec == e.second.dec, "direction ", e.first, " passed on"); }
  }
  vp::Check(step->getProvidedFields().Data() == (q.subtract || (q.predict && !q.keep)) || (q.predict && q.subtract && q.keep), "provided fields");

  // Run it.
  std::vector<Kept> in;
  for (unsigned t = 0; t < q.nt; ++t) {
    auto b = Buffer(s, t);
    for (unsigned bl = 0; bl < s.nbl; ++bl) {
      b->GetUvw()(bl, 0) = 60 * (bl + t); b->GetUvw()(bl, 1) = 80 * (bl + t);
      for (unsigned ch = 0; ch < q.nchan; ++ch) for (unsigned cr = 0; cr < 4; ++cr) { b->GetData()(bl, ch, cr) = Data(t, bl, ch, cr); b->GetWeights()(bl, ch, cr) = Weight(t, bl, ch, cr); b->GetFlags()(bl, ch, cr) = Flag(q.flags, t, bl, ch, cr); }
    }
    auto add = [&](const std::string& n) { b->AddData(n); for (unsigned bl = 0; bl < s.nbl; ++bl) for (unsigned ch = 0; ch < q.nchan; ++ch) for (unsigned cr = 0; cr < 4; ++cr) b->GetData(n)(bl, ch, cr) = Model(n, t, bl, ch, cr); };
    for (auto& n : reuse) add(n);
    add("keep.me");
    in.emplace_back(*b);
    step->process(std::move(b));
    vp::Check(sink->finished == 0, "finished early");
    vp::Step(1);
  }
  step->finish();
  vp::Check(sink->finished == 1, "next step finished ", sink->finished, " times");
  vp::Check(!dk::idg_overfull, "an image predictor was filled up before the solve");

  // Solves.
  const unsigned nint = (q.nt + solint - 1) / solint;
  vp::Check(calls.size() == (q.predict ? 0 : nint), calls.size(), " solves for ", nint, " intervals");
  auto flagged = [&](unsigned t, unsigned bl, unsigned ch, unsigned cr) { return Flag(q.flags, t, bl, ch, cr) || (q.uvmin && 100.0 * (bl + t) < q.uvmin); };
  unsigned nread = 0;
  for (unsigned k = 0; k < calls.size(); ++k) {
    const Call& c = calls[k];
    const unsigned t0 = k * solint, t1 = std::min(q.nt, t0 + solint);
    std::vector<char> low(nblocks);
    for (unsigned b = 0; b < nblocks; ++b) {
      unsigned ok = 0, all = 0;
      for (unsigned t = t0; t < t1; ++t) for (unsigned bl = 0; bl < s.nbl; ++bl) for (unsigned ch = first[b]; ch < first[b + 1]; ++ch) for (unsigned cr = 0; cr < 4; ++cr) { ++all; ok += !flagged(t, bl, ch, cr); }
      low[b] = q.minvis > 0 && double(ok) / all < q.minvis;
    }
    // Time: the middle of the slots of the interval.
    double mid = 0;
    for (unsigned t = t0; t < t1; ++t) mid += (s.first_time + t * s.interval) / (t1 - t0);
    vp::Check(Near(c.time, mid, 1e-12), "interval ", k, " solved for time ", c.time, " instead of ", mid);
    // Visibilities.
    vp::Check(c.kind == (q.use == "full" ? 'f' : q.use == "dual" ? 'd' : 's'), "kind of visibilities");
    vp::Check(c.vis.size() == nblocks, "blocks solved");
    for (unsigned b = 0; b < nblocks; ++b) {
      std::vector<Vis> want, got;
      for (unsigned t = t0; t < t1; ++t) for (unsigned bl = 0; bl < s.nbl; ++bl) if (lay.a1[bl] != lay.a2[bl]) for (unsigned ch = first[b]; ch < first[b + 1]; ++ch) {
        bool f = low[b]; for (unsigned cr = 0; cr < 4; ++cr) f |= flagged(t, bl, ch, cr);
        if (f) continue;
        Vis v{unsigned(number[lay.a1[bl]]), unsigned(number[lay.a2[bl]]), {}};
        auto put = [&](auto fn) {
          F x[4]; for (unsigned cr = 0; cr < 4; ++cr) { const float w = Weight(t, bl, ch, cr); x[cr] = fn(cr) * (q.linear ? w : std::sqrt(w)); }
          if (q.use == "full") v.v.insert(v.v.end(), x, x + 4);
          else if (q.use == "dual") { v.v.push_back(x[0]); v.v.push_back(x[3]); }
          else v.v.push_back(0.5f * (x[0] + x[3]));
        };
        put([&](unsigned cr) { return Data(t, bl, ch, cr); });
        for (auto& n : names) put([&](unsigned cr) { return Model(n, t, bl, ch, cr); });
        want.push_back(v);
      }
      for (auto& v : c.vis[b]) { bool zero = true; for (auto& x : v.v) zero &= x == F(); if (!zero) got.push_back(v); }
      std::sort(want.begin(), want.end()); std::sort(got.begin(), got.end());
      vp::Check(got.size() == want.size(), "interval ", k, " block ", b, ": ", got.size(), " visibilities instead of ", want.size());
      for (unsigned i = 0; i < got.size(); ++i) {
        bool ok = got[i].a1 == want[i].a1 && got[i].a2 == want[i].a2 && got[i].v.size() == want[i].v.size();
        for (unsigned j = 0; ok && j < got[i].v.size(); ++j) ok = std::abs(got[i].v[j] - want[i].v[j]) <= 1e-4f * (1 + std::abs(want[i].v[j]));
        vp::Check(ok, "interval ", k, " block ", b, ": visibility of baseline ", want[i].a1, "-", want[i].a2, " differs");
      }
      unsigned cross = 0; for (unsigned bl = 0; bl < s.nbl; ++bl) cross += lay.a1[bl] != lay.a2[bl];
      vp::Check(c.vis[b].size() == cross * solint * (first[b + 1] - first[b]), "interval ", k, " has ", c.vis[b].size(), " visibilities");
    }
    // Weights of the constraints: in proportion to the sums of the weights.
    vp::Check(c.weights.size() == na * nblocks, "constraint weights set: ", c.weights.size());
    vp::Check(c.weighted == q.ddweights, "weights per direction");
    std::vector<double> sum(na * nblocks);
    for (unsigned t = t0; t < t1; ++t) for (unsigned bl = 0; bl < s.nbl; ++bl) for (unsigned ch = 0; ch < q.nchan; ++ch) for (unsigned cr = 0; cr < 4; ++cr) if (!flagged(t, bl, ch, cr) && !low[block[ch]])
      for (int a : {lay.a1[bl], lay.a2[bl]}) sum[number[a] * nblocks + block[ch]] += Weight(t, bl, ch, cr);
    double most = 0, scale = 0;
    for (unsigned i = 0; i < sum.size(); ++i) if (sum[i] > most) { most = sum[i]; scale = c.weights[i] / sum[i]; }
    vp::Check(most == 0 || scale > 0, "interval ", k, ": the antenna with most weight has ", scale);
    for (unsigned i = 0; i < sum.size(); ++i) vp::Check(Near(c.weights[i], scale * sum[i], 1e-5, 1e-12 * scale * most), "interval ", k, ": weight of antenna ", i / nblocks, " block ", i % nblocks, " is ", c.weights[i], " instead of ", scale * sum[i]);
    // Where the solve starts.
    const bool prop = k > 0 && q.prop && !(q.conv && (q.bad >> (k - 1) & 1));
    vp::Check(c.start.size() == nblocks, "starting values of ", c.start.size(), " blocks");
    for (unsigned b = 0; b < nblocks; ++b) {
      vp::Check(c.start[b].size() == na * nsub * q.pols, "interval ", k, ": ", c.start[b].size(), " starting values");
      for (unsigned i = 0; i < c.start[b].size(); ++i) {
        const unsigned pol = i % q.pols, sub = i / q.pols % nsub, a = i / q.pols / nsub;
        const D want = prop ? Sol(k - 1, b, a, sub, pol) : q.init ? dk::Initial(nread, b, i) : q.pols == 4 ? (pol == 0 || pol == 3 ? 1 : 0) : 1;
        vp::Check(c.start[b][i] == want, "interval ", k, " starts at ", c.start[b][i], " instead of ", want);
      }
    }
    if (!prop && q.init) {
      vp::Check(nread < dk::reads.size(), "initial solutions not read");
      const dk::Read& r = dk::reads[nread++];
      vp::Check(Near(r.time, mid, 1e-12), "initial solutions of time ", r.time, " instead of ", mid);
      vp::Check(r.names == used_names && r.freqs == constraint_freqs && r.places == nd, "initial solutions of other antennas, frequencies or directions");
    }
  }
  vp::Check(nread == dk::reads.size(), "initial solutions read too often");

  // What is written.
  if (q.predict) vp::Check(dk::written.writes == 0 && dk::written.file.empty(), "solutions written when only predicting");
  else {
    const dk::Written& w = dk::written;
    vp::Check(w.file == "out.h5" && w.antennas == 1 && w.writes == 1 && w.finished_before == 0, "solutions written ", w.writes, " times");
    vp::Check(w.all_names.size() == lay.nant && w.all_pos.size() == lay.nant, "antennas written");
    const unsigned nsol = (s.ntime + solint - 1) / solint;
    vp::Check(w.solutions.size() == nsol && w.results.size() == nsol, w.solutions.size(), " solutions written");
    for (unsigned k = 0; k < nsol && k < nint; ++k) {
      vp::Check(w.solutions[k].size() == nblocks, "blocks written");
      for (unsigned b = 0; b < nblocks; ++b) {
        vp::Check(w.solutions[k][b].size() == na * nsub * q.pols, "values written");
        for (unsigned i = 0; i < w.solutions[k][b].size(); ++i) vp::Check(w.solutions[k][b][i] == Sol(k, b, i / q.pols / nsub, i / q.pols % nsub, i % q.pols), "interval ", k, ": solution ", i, " written");
      }
      if (q.results == 0) { vp::Check(w.results[k].empty(), "results written without any"); continue; }
      vp::Check(w.results[k].size() == 1 && w.results[k][0].size() == size_t(q.results), "results written: ", w.results[k].size());
      const bool bad = q.bad >> k & 1;
      for (auto& r : w.results[k][0]) {
        std::vector<double> want = bad && q.flagbad ? (q.flagdiv ? std::vector<double>{1, 0, 0.5, 0} : std::vector<double>(4, 0)) : std::vector<double>{1, 1, 0.5, 0};
        vp::Check(r.weights == want, "interval ", k, ": weights of the results");
        vp::Check(r.vals == std::vector<double>{1.0 * k, 2, 3, 4} && r.axes == "ant", "interval ", k, ": values of the results");
      }
    }
    vp::Check(w.start == info.startTime() && Near(w.end, info.lastTime() + 0.5 * s.interval, 1e-9) && w.interval == s.interval && w.slots == solint, "times written");
    vp::Check(w.per_direction == subs && w.used == used_names && w.patches == patches && same_places(w.places), "directions or antennas written");
    vp::Check(w.freqs == info.chanFreqs() && w.block_freqs == constraint_freqs, "frequencies written");
    vp::Check(w.history.find("dde.") != std::string::npos, "history");
  }

  // What is passed on.
  vp::Check(sink->out.size() == q.nt, sink->out.size(), " buffers passed on");
  for (unsigned t = 0; t < q.nt; ++t) {
    DPBuffer& b = *sink->out[t];
    const unsigned k = t / solint;
    Fields provided; if (q.subtract || (q.predict && !q.keep)) provided |= Step::kDataField;
    vp::Check(b.GetTime() == s.first_time + t * s.interval, "buffer ", t, " has time ", b.GetTime());
    in[t].Check(b, provided);
    for (auto& n : names) vp::Check(b.HasData(n) == q.keep, "model ", n, q.keep ? " missing" : " left behind");
    vp::Check(b.HasData("keep.me"), "other data lost");
    for (unsigned bl = 0; bl < s.nbl; ++bl) for (unsigned ch = 0; ch < q.nchan; ++ch) {
      D sum[4] = {}, m[4];
      for (unsigned d = 0; d < nd; ++d) {
        for (unsigned cr = 0; cr < 4; ++cr) m[cr] = D(Model(names[d], t, bl, ch, cr));
        if (!q.predict && (q.keep || q.subtract)) {
          const unsigned a1 = number[lay.a1[bl]], a2 = number[lay.a2[bl]];
          D g[2][4] = {};
          for (int e = 0; e < 2; ++e) for (int i = 0; i < 4; ++i) {
            const unsigned a = e ? a2 : a1;
            g[e][i] = q.pols == 4 ? Sol(k, block[ch], a, d, i) : i == 1 || i == 2 ? D() : Sol(k, block[ch], a, d, q.pols == 2 && i == 3 ? 1 : 0);
          }
          D r[4];
          for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) { r[i * 2 + j] = 0; for (int x = 0; x < 2; ++x) for (int y = 0; y < 2; ++y) r[i * 2 + j] += g[0][i * 2 + x] * m[x * 2 + y] * std::conj(g[1][j * 2 + y]); }
          std::copy(r, r + 4, m);
        }
        for (unsigned cr = 0; cr < 4; ++cr) { sum[cr] += m[cr]; if (q.keep) vp::Check(Near(b.GetData(names[d])(bl, ch, cr), m[cr], 1e-4, 1e-4), "slot ", t, " baseline ", bl, ": model ", names[d], " passed on is ", b.GetData(names[d])(bl, ch, cr), " instead of ", m[cr]); }
      }
      for (unsigned cr = 0; cr < 4; ++cr) {
        const D want = q.predict && !q.keep ? sum[cr] : !q.predict && q.subtract ? D(Data(t, bl, ch, cr)) - sum[cr] : D(Data(t, bl, ch, cr));
        vp::Check(Near(b.GetData()(bl, ch, cr), want, 1e-4, 2e-4), "slot ", t, " baseline ", bl, " channel ", ch, " correlation ", cr, ": ", b.GetData()(bl, ch, cr), " instead of ", want);
        vp::Check(b.GetData("keep.me")(bl, ch, cr) == Model("keep.me", t, bl, ch, cr), "other data changed");
      }
    }
    if (t % solint == 0 && q.store && !q.predict) {
      for (unsigned d = 0; d < nd; ++d) {
        const auto got = b.GetSolution(names[d]);
        vp::Check(got.size() == nblocks, "solutions kept in the buffer");
        for (unsigned cb = 0; cb < nblocks; ++cb) {
          vp::Check(got[cb].size() == na * q.pols, "solutions kept in the buffer: ", got[cb].size());
          for (unsigned i = 0; i < got[cb].size(); ++i) vp::Check(got[cb][i] == Sol(k, cb, i / q.pols, d, i % q.pols), "solution ", i, " kept in the buffer");
        }
      }
    } else if (!q.store) vp::Check(b.GetSolution().empty(), "solutions kept in the buffer");
  }
  vp::Outcome("solves=" + std::to_string(calls.size()) + " in=" + std::to_string(q.nt) + (q.subtract ? " subtract" : "") + (q.keep ? " keep" : "") + (q.predict ? " predict" : ""));
}

int main(int argc, char** argv) {
  vp::Init(argc, argv);
  const bool all = vp::Thorough();
  const std::vector<std::string> kSources = {"r", "c", "p", "rr", "cp", "pr", "prc"};
  unsigned n = 0;
  // Intervals, sources, what is done with the models.
  for (unsigned nt = 1; nt <= (all ? 7u : 5u); ++nt) for (unsigned solint : {0u, 1u, 2u, 3u, 4u}) for (auto& src : kSources) for (unsigned what = 0; what < 6; ++what) for (unsigned pols : {1u, 2u, 4u}) for (unsigned layout = 0; layout < 4; ++layout) {
    if (!all && (n++ % 3)) continue;
    Config q; q.nt = nt; q.solint = solint; q.source = src; q.pols = pols; q.layout = layout; q.order = (nt + what) % 3;
    q.subtract = what == 1 || what == 3; q.keep = what == 2 || what == 3 || what == 5; q.predict = what >= 4;
    q.flags = (nt + solint + layout) % 2; q.store = what == 0; q.nchan = 2 + layout % 2;
    Run(q);
  }
  // Blocks of channels.
  for (unsigned nchan = 1; nchan <= (all ? 9u : 7u); ++nchan) for (unsigned per = 0; per <= nchan + 1; ++per) for (unsigned flags : {0u, 2u, 8u}) for (unsigned what = 0; what < 2; ++what) for (double minvis : {0.0, 0.6}) {
    Config q; q.nchan = nchan; q.per = per; q.flags = flags; q.subtract = q.keep = what; q.minvis = minvis; q.solint = 2; q.nt = 3; q.source = "pr"; q.layout = per % 4; q.pols = 1 + what;
    Run(q);
  }
  // Flags, minimum of visibilities, minimum of baseline lengths.
  for (unsigned flags = 0; flags <= 8; ++flags) for (double minvis : {0.0, 0.2, 0.34, 0.5, 0.51, 0.7, 1.0}) for (double uvmin : {0.0, 50.0, 150.0, 350.0}) for (unsigned nt = 1; nt <= 4; ++nt) for (unsigned solint : {1u, 2u, 3u}) for (unsigned what = 0; what < 3; ++what) {
    if (!all && (n++ % 2)) continue;
    Config q; q.flags = flags; q.minvis = minvis; q.uvmin = uvmin; q.nt = nt; q.solint = solint; q.subtract = what == 1; q.predict = what == 2; q.source = nt % 2 ? "p" : "rc"; q.layout = (flags + nt) % 4; q.per = 1 + flags % 3; q.pols = 2; q.order = solint - 1;
    Run(q);
  }
  // Starting values: every pattern of failures.
  for (unsigned nt : {3u, 5u}) for (unsigned solint : {1u, 2u}) for (unsigned bad = 0; bad < (1u << ((nt + solint - 1) / solint)); ++bad) for (unsigned set = 0; set < 8; ++set) for (unsigned pols : {1u, 2u, 4u}) for (unsigned f = 0; f < 4; ++f) for (int results = 0; results < 3; ++results) {
    if (!all && nt == 5 && results != int(bad % 3)) continue;
    Config q; q.nt = nt; q.solint = solint; q.bad = bad; q.prop = set & 1; q.conv = set & 2; q.init = set & 4; q.pols = pols; q.flagbad = f & 1; q.flagdiv = f & 2; q.results = results; q.source = "r"; q.nchan = 2; q.layout = bad % 4;
    Run(q);
  }
  // Kinds of data, several solutions per direction, weights per direction.
  for (const char* use : {"full", "dual", "single"}) for (unsigned subs : {1u, 2u, 4u}) for (unsigned solint : {1u, 2u, 4u}) for (unsigned nt = 1; nt <= 5; ++nt) for (auto& src : kSources) for (unsigned pols : {1u, 2u}) for (unsigned set = 0; set < 4; ++set) {
    if (solint % subs || (std::string(use) == "single" && pols != 1)) continue;
    Config q; q.use = use; q.subs = subs; q.solint = solint; q.nt = nt; q.source = src; q.pols = pols; q.ddweights = set & 1; q.init = set & 2; q.layout = (nt + set) % 4; q.nchan = 2; q.flags = nt % 3;
    Run(q);
  }
  // Linear weights.
  for (unsigned nt = 1; nt <= 4; ++nt) for (unsigned solint : {1u, 2u, 3u}) for (unsigned layout = 0; layout < 4; ++layout) for (unsigned flags = 0; flags <= 8; ++flags) {
    Config q; q.linear = true; q.nt = nt; q.solint = solint; q.layout = layout; q.flags = flags; q.pols = 2; q.source = "p";
    Run(q);
  }
  // A set that has more slots than are given.
  for (unsigned nt = 1; nt <= 4; ++nt) for (unsigned declared = nt; declared <= 6; ++declared) for (unsigned solint : {0u, 1u, 2u, 3u}) for (unsigned what = 0; what < 6; ++what) {
    Config q; q.nt = nt; q.declared = declared; q.solint = solint; q.subtract = what == 1 || what == 3; q.keep = what == 2 || what == 3 || what == 5; q.predict = what >= 4; q.layout = nt % 4; q.source = "rp"; q.pols = 1; q.results = 0;
    Run(q);
  }
  // Models from images: several intervals at a time.
  for (unsigned nt = 1; nt <= (all ? 9u : 7u); ++nt) for (unsigned solint : {1u, 2u, 3u}) for (unsigned idg : {1u, 2u, 4u, 6u, 12u}) for (const char* src : {"i", "ii", "ri", "ip"}) for (unsigned what = 0; what < 6; ++what) for (unsigned flags : {0u, 1u, 3u}) for (double minvis : {0.0, 0.5}) {
    if (!all && (n++ % 3)) continue;
    Config q; q.nt = nt; q.solint = solint; q.idg = idg; q.source = src; q.subtract = what == 1 || what == 3; q.keep = what == 2 || what == 3 || what == 5; q.predict = what >= 4; q.flags = flags; q.minvis = minvis; q.layout = (nt + idg) % 4; q.pols = 2; q.prop = idg % 4 == 0; q.init = solint == 2; q.bad = nt % 4;
    Run(q);
  }
  return vp::Finish();
}
