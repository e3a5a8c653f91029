// C46: calibration of baseline-dependent averaged data: which rows each solve
// gets, what is done with its result, and what is passed on.
#define DK_BDA
#include "vp.h"
#include "ddecal_kit.h"
#include "steps/BdaDdeCal.h"
using namespace kit;
using dk::D;
using dk::F;
using dp3::base::BdaBuffer;
using dp3::ddecal::Constraint;
using dp3::ddecal::ConstraintResult;
using dp3::ddecal::SolverBase;
using dp3::steps::BdaDdeCal;
using dp3::steps::Step;

struct Vis { unsigned a1, a2; std::vector<F> v; bool operator<(const Vis& o) const { return key() < o.key(); }
  std::vector<float> key() const { std::vector<float> k = {float(a1), float(a2)}; for (auto& x : v) { k.push_back(x.real()); k.push_back(x.imag()); } return k; } };
struct Call { double time; char kind; dk::Sols start; std::vector<std::vector<Vis>> vis; std::vector<double> weights; bool weighted = false; };
static std::vector<Call> calls;
static std::vector<double> set_weights;
static bool set_sub_weights;
static unsigned g_pols, g_bad;
static std::vector<std::string> solver_names, constraint_names;
static std::vector<std::array<double, 3>> constraint_pos;
static std::vector<dk::Direction> constraint_places;
static std::vector<double> constraint_freqs;
static size_t init_ants, init_blocks; static std::vector<size_t> init_subs;
static int n_results;
static D Sol(size_t k, size_t cb, size_t ant, size_t sub, size_t pol) { return D(1 + 0.05 * pol + 0.02 * k + 0.1 * ant, 0.3 * ant - 0.2 * sub + 0.07 * cb - 0.11 * pol); }
class Watch : public Constraint {
 public:
  void Apply(dp3::ddecal::SolutionSpan&, double) override {}
  void SetWeights(const std::vector<double>& w) override { set_weights = w; }
  void SetSubSolutionWeights(const std::vector<std::vector<double>>&) override { set_sub_weights = true; }
};
class Mock : public SolverBase {
 public:
  size_t NSolutionPolarizations() const override { return g_pols; }
  bool SupportsDdSolutionIntervals() const override { return true; }
  void Initialize(size_t a, const std::vector<size_t>& s, size_t b) override { init_ants = a; init_subs = s; init_blocks = b; SolverBase::Initialize(a, s, b); }
  SolveResult Solve(const dp3::ddecal::FullSolveData& d, dk::Sols& s, double t) override { return Take(d, s, t, 'f', 4); }
  SolveResult Solve(const dp3::ddecal::DuoSolveData& d, dk::Sols& s, double t) override { return Take(d, s, t, 'd', 2); }
  SolveResult Solve(const dp3::ddecal::UniSolveData& d, dk::Sols& s, double t) override { return Take(d, s, t, 's', 1); }
  template <class M> static void Put(std::vector<F>& v, const M& m, int n) { for (int i = 0; i < n; ++i) v.push_back(m.Get(i)); }
  static void Put(std::vector<F>& v, const F& m, int) { v.push_back(m); }
  template <class T> SolveResult Take(const T& d, dk::Sols& s, double t, char kind, int n) {
    Call c; c.time = t; c.kind = kind; c.start = s; c.weights = set_weights; c.weighted = set_sub_weights;
    for (size_t b = 0; b < d.NChannelBlocks(); ++b) {
      c.vis.emplace_back();
      const auto& cb = d.ChannelBlock(b);
      for (size_t i = 0; i < cb.NVisibilities(); ++i) {
        Vis v{cb.Antenna1Index(i), cb.Antenna2Index(i), {}};
        Put(v.v, cb.Visibility(i), n);
        for (size_t dir = 0; dir < cb.NDirections(); ++dir) Put(v.v, cb.ModelVisibility(dir, i), n);
        c.vis.back().push_back(v);
      }
    }
    const size_t k = calls.size();
    calls.push_back(c);
    set_weights.clear(); set_sub_weights = false;
    size_t subs = 0; for (auto x : init_subs) subs += x;
    for (size_t cb = 0; cb < s.size(); ++cb) { s[cb].resize(init_ants * subs * g_pols); for (size_t a = 0; a < init_ants; ++a) for (size_t u = 0; u < subs; ++u) for (size_t p = 0; p < g_pols; ++p) s[cb][(a * subs + u) * g_pols + p] = Sol(k, cb, a, u, p); }
    SolveResult r;
    r.iterations = (g_bad >> k & 1) ? GetMaxIterations() + 1 : (k % 2 ? GetMaxIterations() : 3);
    r.constraint_iterations = k;
    r.results.resize(1);
    for (int i = 0; i < n_results; ++i) r.results[0].push_back(ConstraintResult{{1.0 * k, 2, 3, 4}, {1, -1, 0.5, 0}, "ant", {4}, "r" + std::to_string(i)});
    return r;
  }
};
namespace dp3::ddecal {
std::unique_ptr<SolverBase> CreateSolver(const Settings& s, const std::vector<std::string>& names) { solver_names = names; auto m = std::make_unique<Mock>(); m->SetMaxIterations(s.max_iterations); m->AddConstraint(std::make_unique<Watch>()); return m; }
void InitializeSolverConstraints(SolverBase&, const Settings&, const std::vector<std::array<double, 3>>& pos, const std::vector<std::string>& names, const std::vector<base::Direction>& places, const std::vector<double>& freqs) { constraint_pos = pos; constraint_names = names; constraint_places = places; constraint_freqs = freqs; }
}  // namespace dp3::ddecal

class BdaSink : public Step {
 public:
  std::vector<std::unique_ptr<BdaBuffer>> out; int finished = 0;
  Fields getRequiredFields() const override { return {}; }
  Fields getProvidedFields() const override { return {}; }
  bool process(std::unique_ptr<BdaBuffer> b) override { vp::Check(finished == 0, "data after the end"); out.push_back(std::move(b)); return true; }
  void finish() override { ++finished; }
  void show(std::ostream&) const override {}
  bool accepts(MsType t) const override { return t == MsType::kBda; }
};

struct Config {
  unsigned nt = 2, solint = 1;                 // slots, slots per solution
  std::string source = "r"; bool group = false; unsigned delay = 0, per_buffer = 3;
  unsigned avg = 0, chans = 0, per = 0;        // averaging in time and frequency, channels per block
  bool subtract = false, keep = false, predict = false;
  unsigned pols = 2, layout = 0, flags = 0; double uvmin = 0;
  bool prop = false, conv = false, flagbad = false, flagdiv = false, ddweights = false;
  unsigned bad = 0; int results = 1; std::string use = "full"; unsigned subs = 1; bool linear = false; unsigned gone = 99;
  std::string Text() const { return "slots=" + std::to_string(nt) + " solint=" + std::to_string(solint) + " source=" + source + (group ? " group" : "") + " delay=" + std::to_string(delay) + " rows=" + std::to_string(per_buffer) + " avg=" + std::to_string(avg) + " chans=" + std::to_string(chans) + "/" + std::to_string(per) + (subtract ? " subtract" : "") + (keep ? " keep" : "") + (predict ? " onlypredict" : "") + " pols=" + std::to_string(pols) + " layout=" + std::to_string(layout) + " flags=" + std::to_string(flags) + " uvmin=" + vp::Str(uvmin) + (prop ? " propagate" : "") + (conv ? " convergedonly" : "") + (flagbad ? " flagunconverged" : "") + (flagdiv ? " flagdivergedonly" : "") + (ddweights ? " modelweights" : "") + " bad=" + std::to_string(bad) + " results=" + std::to_string(results) + " use=" + use + " subs=" + std::to_string(subs) + (linear ? " lowrank" : "") + " gone=" + std::to_string(gone); }
};
struct Layout { unsigned nant; std::vector<int> a1, a2; };
static Layout Lay(unsigned l) {
  if (l == 0) return {3, {0, 0, 1}, {1, 2, 2}};
  if (l == 1) return {5, {1, 1, 2}, {2, 4, 4}};             // 0 and 3 are not used
  return {6, {5, 3, 1, 1}, {3, 1, 5, 1}};                   // 0, 2 and 4 are not used, an autocorrelation
}
static unsigned Avg(unsigned pattern, unsigned bl) { static const unsigned a[4][4] = {{1, 1, 1, 1}, {1, 2, 2, 1}, {2, 1, 4, 3}, {3, 3, 1, 2}}; return a[pattern][bl]; }
static unsigned Chans(unsigned pattern, unsigned bl) { static const unsigned c[4][4] = {{1, 1, 1, 1}, {4, 4, 4, 4}, {4, 2, 4, 2}, {6, 6, 3, 6}}; return c[pattern][bl]; }
static F Model(const std::string& n, double time, unsigned bl, unsigned ch, unsigned cr) { unsigned h = 0; for (char c : n) h = (h * 7 + c) % 17; return F(1 + h + 0.25f * float(time - 64) - 0.25f * bl, 0.5f * ch + (cr == 1 || cr == 2 ? 0.25f : 2.0f) + 0.125f * h); }
struct Row { double time, interval; unsigned bl, nchan, id; std::vector<F> data; std::vector<float> weights; std::vector<char> flags; double uvw[3]; };
static bool Flag(unsigned p, const Row& r, unsigned i) { switch (p) { case 1: return (r.id * 5 + i / 4) % 3 == 0; case 2: return i == 1 && r.bl == 1; case 3: return r.bl == 0; case 4: return true; } return false; }

static void Run(const Config& q) {
  if (!vp::CaseF([&] { return q.Text(); })) return;
  dk::Reset(); calls.clear(); set_weights.clear(); set_sub_weights = false; solver_names.clear();
  g_pols = q.pols; g_bad = q.bad; n_results = q.results; dk::bda_delay = q.delay; dk::bda_model = Model;
  const double dt = 2, start = 64;
  const Layout lay = Lay(q.layout); const unsigned nbl = lay.a1.size();
  unsigned nchan = 0; for (unsigned b = 0; b < nbl; ++b) nchan = std::max(nchan, Chans(q.chans, b));
  Shape s; s.nbl = nbl; s.nchan = nchan; s.ncorr = 4; s.nant = lay.nant; s.a1 = lay.a1; s.a2 = lay.a2; s.ntime = q.nt; s.first_time = start + dt / 2; s.interval = dt; s.freq0 = 100e6; s.width = 1e6;
  DPInfo info = Info(s);
  std::vector<std::vector<double>> f(nbl), w(nbl); std::vector<unsigned> avg;
  for (unsigned b = 0; b < nbl; ++b) { const unsigned n = Chans(q.chans, b); avg.push_back(Avg(q.avg, b)); for (unsigned c = 0; c < n; ++c) { w[b].push_back(s.width * nchan / n); f[b].push_back(s.freq0 - s.width / 2 + (c + 0.5) * s.width * nchan / n); } }
  const auto freqs_of = f;
  info.update(std::move(avg)); info.setChannels(std::move(f), std::move(w)); info.setIsBDAIntervalFactorInteger(true);
  // The rows, each when it is complete.
  std::vector<Row> rows;
  for (unsigned t = 0; t < q.nt; ++t) for (unsigned b = 0; b < nbl; ++b) {
    const unsigned n = Avg(q.avg, b), in = t % n + 1;
    if (in != n && t + 1 != q.nt) continue;
    if (q.gone < 99 && b == q.gone % 4 && t >= q.gone / 4) continue;    // a baseline that stops early
    Row r; r.interval = in * dt; r.time = start + (t + 1) * dt - r.interval / 2; r.bl = b; r.nchan = Chans(q.chans, b); r.id = rows.size();
    for (unsigned i = 0; i < r.nchan * 4; ++i) { r.data.push_back(F(10 + r.id + 0.25f * i, 1 - 0.5f * i + b)); r.weights.push_back(0.5f + (r.id * 3 + i) % 5 + 0.25f * b); r.flags.push_back(Flag(q.flags, r, i)); }
    r.uvw[0] = 60 * (b + t); r.uvw[1] = 80 * (b + t); r.uvw[2] = 5;
    rows.push_back(r);
  }
  if (rows.empty()) return;
  // Directions, in the order in which the step has them.
  std::vector<std::string> names, reuse; std::vector<std::vector<std::string>> patches; std::vector<dk::Direction> places;
  std::string columns, sky, reused;
  auto join = [](std::string& l, const std::string& x) { l += (l.empty() ? "" : ",") + x; };
  for (char kind : {'c', 'p', 'r'}) for (unsigned i = 0; i < q.source.size(); ++i) if (q.source[i] == kind) {
    const std::string n = std::string(i % 2 ? "b" : "Aa") + std::to_string(i);
    names.push_back((kind == 'r' ? "old." : "dde.") + n); places.push_back(dk::Place(names.back())); patches.push_back({n});
    if (kind == 'r') { reuse.push_back(names.back()); info.GetDirections()[names.back()] = places.back(); join(reused, names.back()); }
    if (kind == 'c') join(columns, n);
    if (kind == 'p') { join(sky, "[" + n + ",other" + n + "]"); patches.back().push_back("other" + n); }
  }
  info.GetDirections()["keep.me"] = dk::Place("keep.me");
  const unsigned nd = names.size();
  auto p = Parset({{"dde.h5parm", "out.h5"}, {"dde.solint", std::to_string(q.solint)}, {"dde.nchan", std::to_string(q.per)}, {"dde.maxiter", "7"}, {"dde.mode", q.pols == 1 ? "scalar" : q.pols == 2 ? "diagonal" : "fulljones"}});
  if (!columns.empty()) p.add("dde.modeldatacolumns", "[" + columns + "]");
  if (!sky.empty()) { p.add("dde.directions", "[" + sky + "]"); p.add("dde.sourcedb", "sky.txt"); }
  if (!reused.empty()) p.add("dde.reusemodel", "[" + reused + "]");
  auto flag = [&](const char* k, bool on) { if (on) p.add(std::string("dde.") + k, "true"); };
  flag("subtract", q.subtract); flag("keepmodel", q.keep); flag("onlypredict", q.predict); flag("propagatesolutions", q.prop); flag("propagateconvergedonly", q.conv); flag("flagunconverged", q.flagbad); flag("flagdivergedonly", q.flagdiv); flag("model_weighted_constraints", q.ddweights); flag("grouppredict", q.group);
  if (q.uvmin) p.add("dde.uvmmin", vp::Str(q.uvmin));
  if (q.use != "full") { p.add("dde.datause", q.use); p.add("dde.solveralgorithm", "directioniterative"); }
  if (q.linear) p.add("dde.solveralgorithm", "lowrank");
  if (q.subs > 1) { p.add("dde.solutions_per_direction", "[" + std::to_string(q.subs) + "]"); if (q.use == "full") p.add("dde.solveralgorithm", "directioniterative"); }
  const unsigned solint = q.solint ? q.solint : q.nt;
  unsigned most = 0; for (unsigned b = 0; b < nbl; ++b) most = std::max(most, Avg(q.avg, b));
  auto step = std::make_shared<BdaDdeCal>(p, "dde.");
  auto sink = std::make_shared<BdaSink>();
  dk::sink_finished = &sink->finished;
  step->setNextStep(sink);
  const std::string refused = vp::Throws([&] { step->setInfo(info); });
  if (!q.predict && most > solint) { vp::Check(!refused.empty(), "rows that are longer than the solution interval are accepted"); vp::Outcome("refused"); return; }
  if (q.subs > 1 && !q.predict && (q.subtract || q.keep) && !refused.empty()) { vp::Outcome("refused"); return; }
  if (!vp::Check(refused.empty(), "refused: ", refused)) return;

  std::vector<int> used(lay.nant, 0), number(lay.nant, -1); std::vector<std::string> used_names; std::vector<unsigned> used_list;
  for (auto a : lay.a1) used[a] = 1;
  for (auto a : lay.a2) used[a] = 1;
  for (unsigned a = 0; a < lay.nant; ++a) if (used[a]) { number[a] = used_list.size(); used_list.push_back(a); used_names.push_back("ant" + std::to_string(a)); }
  const unsigned na = used_list.size(), nblocks = q.per ? std::max(nchan / q.per, 1u) : 1;
  std::vector<size_t> subs(nd, 1); subs[0] = q.subs; const unsigned nsub = nd - 1 + q.subs;
  std::vector<double> begin(nblocks + 1), centre(nblocks);
  for (unsigned b = 0; b <= nblocks; ++b) begin[b] = s.freq0 - s.width / 2 + (b * nchan / nblocks) * s.width;
  for (unsigned b = 0; b < nblocks; ++b) centre[b] = (begin[b] + begin[b + 1]) / 2;
  auto near_all = [](const std::vector<double>& a, const std::vector<double>& b) { bool ok = a.size() == b.size(); for (unsigned i = 0; ok && i < a.size(); ++i) ok = Near(a[i], b[i], 1e-9); return ok; };
  auto same_places = [&](const std::vector<dk::Direction>& x) { bool ok = x.size() == nd; for (unsigned d = 0; ok && d < nd; ++d) ok = x[d].ra == places[d].ra && x[d].dec == places[d].dec; return ok; };
  if (!q.predict) {
    vp::Check(init_ants == na && init_blocks == nblocks && init_subs == subs, "solver initialised with ", init_ants, " antennas, ", init_blocks, " blocks");
    vp::Check(solver_names == used_names, "the solver is made for ", solver_names.size(), " antennas instead of the ", na, " that are used");
    vp::Check(constraint_names == used_names && constraint_pos.size() == na, "constraint antennas");
    for (unsigned a = 0; a < na && a < constraint_pos.size(); ++a) { const unsigned i = used_list[a]; vp::Check(constraint_pos[a] == std::array<double, 3>{{3826577.0 + 40 * i * i, 461022.0 + 30 * i, 5064892.0 - 7.0 * i}}, "position of antenna ", i); }
    vp::Check(near_all(constraint_freqs, centre), "frequencies of the constraints");
    vp::Check(same_places(constraint_places), "directions of the constraints");
  }
  {
    std::map<std::string, dk::Direction> want; want["keep.me"] = dk::Place("keep.me");
    for (unsigned d = 0; d < nd; ++d) if (q.keep) want[names[d]] = places[d];
    const auto& got = step->getInfoOut().GetDirections();
    vp::Check(got.size() == want.size(), "directions passed on: ", got.size(), " instead of ", want.size());
    for (auto& e : want) { auto i = got.find(e.first); vp::Check(i != got.end() && i->second.ra == e.second.ra && i->second.dec == e.second.dec, "direction ", e.first, " passed on"); }
  }
  // Run it.
  const Fields all = Fields(Fields::Single::kData) | Fields(Fields::Single::kFlags) | Fields(Fields::Single::kWeights) | Fields(Fields::Single::kUvw);
  std::vector<std::pair<size_t, size_t>> ranges;
  const std::string wrong = vp::Throws([&] {
    for (size_t given = 0; given < rows.size();) {
      const size_t n = std::min<size_t>(q.per_buffer, rows.size() - given);
      auto b = std::make_unique<BdaBuffer>(n * 24, all);
      for (auto& x : reuse) b->AddData(x);
      b->AddData("keep.me");
      for (size_t i = given; i < given + n; ++i) {
        Row& r = rows[i];
        vp::Check(b->AddRow(r.time, r.interval, r.interval, r.bl, r.nchan, 4, i, r.data.data(), reinterpret_cast<bool*>(r.flags.data()), r.weights.data(), r.uvw), "cannot make the input");
        auto fill = [&](const std::string& x) { for (unsigned k = 0; k < r.nchan * 4; ++k) b->GetData(i - given, x)[k] = Model(x, r.time, r.bl, k / 4, k % 4); };
        for (auto& x : reuse) fill(x);
        fill("keep.me");
      }
      ranges.emplace_back(given, given + n); given += n;
      step->process(std::move(b));
      vp::Check(sink->finished == 0, "finished early");
      vp::Step();
    }
    step->finish();
  });
  if (!vp::Check(wrong.empty(), "processing fails: ", wrong)) return;
  vp::Check(sink->finished == 1, "next step finished ", sink->finished, " times");
  // Solves.
  auto interval_of = [&](const Row& r) { return unsigned(std::floor((r.time - start) / (solint * dt))); };
  unsigned nint = 0; for (auto& r : rows) nint = std::max(nint, interval_of(r) + 1);
  if (!vp::Check(calls.size() == (q.predict ? 0 : nint), calls.size(), " solves for ", nint, " intervals")) return;
  auto flagged = [&](const Row& r, unsigned i) { return r.flags[i] || (q.uvmin && std::hypot(r.uvw[0], r.uvw[1]) < q.uvmin); };
  auto block_of = [&](const Row& r, unsigned ch) { unsigned b = 0; while ((b + 1) * r.nchan / nblocks <= ch) ++b; return b; };
  for (unsigned k = 0; k < calls.size(); ++k) {
    const Call& c = calls[k];
    vp::Check(Near(c.time, start + (k + 0.5) * solint * dt, 1e-12), "interval ", k, " solved for time ", c.time);
    vp::Check(c.kind == (q.use == "full" ? 'f' : q.use == "dual" ? 'd' : 's'), "kind of visibilities");
    if (!vp::Check(c.vis.size() == nblocks, "blocks solved")) return;
    for (unsigned b = 0; b < nblocks; ++b) {
      std::vector<Vis> want, got; unsigned total = 0;
      for (auto& r : rows) if (interval_of(r) == k && lay.a1[r.bl] != lay.a2[r.bl]) for (unsigned ch = 0; ch < r.nchan; ++ch) if (block_of(r, ch) == b) {
        ++total;
        bool bad = false; for (unsigned cr = 0; cr < 4; ++cr) bad |= flagged(r, ch * 4 + cr);
        if (bad) continue;
        Vis v{unsigned(number[lay.a1[r.bl]]), unsigned(number[lay.a2[r.bl]]), {}};
        auto put = [&](auto fn) {
          F x[4]; for (unsigned cr = 0; cr < 4; ++cr) { x[cr] = fn(cr) * std::sqrt(r.weights[ch * 4 + cr]); }
          if (q.use == "full") v.v.insert(v.v.end(), x, x + 4); else if (q.use == "dual") { v.v.push_back(x[0]); v.v.push_back(x[3]); } else v.v.push_back(0.5f * (x[0] + x[3]));
        };
        put([&](unsigned cr) { return r.data[ch * 4 + cr]; });
        for (auto& n : names) put([&](unsigned cr) { return Model(n, r.time, r.bl, ch, cr); });
        want.push_back(v);
      }
      vp::Check(c.vis[b].size() == total, "interval ", k, " block ", b, " has ", c.vis[b].size(), " visibilities instead of ", total);
      for (auto& v : c.vis[b]) { bool zero = true; for (auto& x : v.v) zero &= x == F(); if (!zero) got.push_back(v); }
      std::sort(want.begin(), want.end()); std::sort(got.begin(), got.end());
      if (!vp::Check(got.size() == want.size(), "interval ", k, " block ", b, ": ", got.size(), " visibilities instead of ", want.size())) return;
      if (q.linear) continue;              // the weights of the linear mode: C40
      for (unsigned i = 0; i < got.size(); ++i) {
        bool ok = got[i].a1 == want[i].a1 && got[i].a2 == want[i].a2 && got[i].v.size() == want[i].v.size();
        for (unsigned j = 0; ok && j < got[i].v.size(); ++j) ok = std::abs(got[i].v[j] - want[i].v[j]) <= 1e-4f * (1 + std::abs(want[i].v[j]));
        vp::Check(ok, "interval ", k, " block ", b, ": visibility of baseline ", want[i].a1, "-", want[i].a2, " differs");
      }
    }
    // Weights of the constraints: the mean over the rows of an antenna.
    vp::Check(c.weighted == q.ddweights, "weights per direction");
    if (!vp::Check(c.weights.size() == na * nblocks, "constraint weights set: ", c.weights.size())) return;
    std::vector<double> sum(na * nblocks); std::vector<unsigned> count(na);
    for (auto& r : rows) if (interval_of(r) == k && lay.a1[r.bl] != lay.a2[r.bl]) for (int a : {lay.a1[r.bl], lay.a2[r.bl]}) {
      ++count[number[a]];
      for (unsigned i = 0; i < r.nchan * 4; ++i) if (!flagged(r, i)) sum[number[a] * nblocks + block_of(r, i / 4)] += r.weights[i] / r.nchan;
    }
    double top = 0, scale = 0; const bool plain = q.layout < 2;     // an autocorrelation also counts as a row
    for (unsigned i = 0; i < sum.size(); ++i) { vp::Check(std::isfinite(c.weights[i]) && c.weights[i] >= 0, "interval ", k, ": weight of antenna ", i / nblocks, " is ", c.weights[i]); vp::Check((sum[i] > 0) == (c.weights[i] > 0), "interval ", k, ": weight of antenna ", i / nblocks, " block ", i % nblocks, " is ", c.weights[i]); }
    if (plain) for (unsigned i = 0; i < sum.size(); ++i) if (count[i / nblocks]) { sum[i] /= count[i / nblocks]; if (sum[i] > top) { top = sum[i]; scale = c.weights[i] / sum[i]; } }
    if (plain) for (unsigned i = 0; i < sum.size(); ++i) vp::Check(Near(c.weights[i], scale * sum[i], 1e-5, 1e-9), "interval ", k, ": weight of antenna ", i / nblocks, " block ", i % nblocks, " is ", c.weights[i], " instead of ", scale * sum[i]);
    const bool prop = k > 0 && q.prop && !(q.conv && (q.bad >> (k - 1) & 1));
    vp::Check(c.start.size() == nblocks, "starting values of ", c.start.size(), " blocks");
    for (unsigned b = 0; b < nblocks && b < c.start.size(); ++b) {
      vp::Check(c.start[b].size() == na * nsub * q.pols, "interval ", k, ": ", c.start[b].size(), " starting values");
      for (unsigned i = 0; i < c.start[b].size(); ++i) { const unsigned pol = i % q.pols; const D want = prop ? Sol(k - 1, b, i / q.pols / nsub, i / q.pols % nsub, pol) : q.pols == 4 ? (pol == 0 || pol == 3 ? 1 : 0) : 1; vp::Check(c.start[b][i] == want, "interval ", k, " starts at ", c.start[b][i], " instead of ", want); }
    }
  }
  // What is written.
  if (q.predict) vp::Check(dk::written.writes == 0 && dk::written.file.empty(), "solutions written when only predicting");
  else {
    const dk::Written& o = dk::written;
    vp::Check(o.file == "out.h5" && o.antennas == 1 && o.writes == 1 && o.finished_before == 0, "solutions written ", o.writes, " times");
    vp::Check(o.all_names.size() == lay.nant && o.all_pos.size() == lay.nant, "antennas written");
    if (!vp::Check(o.solutions.size() == nint && o.results.size() == nint, o.solutions.size(), " solutions written")) return;
    for (unsigned k = 0; k < nint; ++k) {
      vp::Check(o.solutions[k].size() == nblocks, "blocks written");
      for (unsigned b = 0; b < o.solutions[k].size(); ++b) { vp::Check(o.solutions[k][b].size() == na * nsub * q.pols, "values written"); for (unsigned i = 0; i < o.solutions[k][b].size(); ++i) vp::Check(o.solutions[k][b][i] == Sol(k, b, i / q.pols / nsub, i / q.pols % nsub, i % q.pols), "interval ", k, ": solution ", i, " written"); }
      if (q.results == 0) { vp::Check(o.results[k].empty(), "results written without any"); continue; }
      if (!vp::Check(o.results[k].size() == 1 && o.results[k][0].size() == size_t(q.results), "results written: ", o.results[k].size())) continue;
      const bool bad = q.bad >> k & 1;
      for (auto& r : o.results[k][0]) { std::vector<double> want = bad && q.flagbad ? (q.flagdiv ? std::vector<double>{1, 0, 0.5, 0} : std::vector<double>(4, 0)) : std::vector<double>{1, 1, 0.5, 0}; vp::Check(r.weights == want && r.vals == std::vector<double>{1.0 * k, 2, 3, 4} && r.axes == "ant", "interval ", k, ": results"); }
    }
    vp::Check(o.start == info.startTime() && Near(o.end, start + q.nt * dt, 1e-9, 1e-6) && o.interval == dt && o.slots == solint, "times written: ", o.slots, " slots per solution until ", o.end);
    vp::Check(o.per_direction == subs && o.used == used_names && o.patches == patches && same_places(o.places), "directions or antennas written");
    vp::Check(near_all(o.block_freqs, centre), "frequencies written");
    vp::Check(o.history.find("dde.") != std::string::npos, "history");
  }
  // What is passed on.
  if (!vp::Check(sink->out.size() == ranges.size(), sink->out.size(), " buffers passed on instead of ", ranges.size())) return;
  for (unsigned n = 0; n < ranges.size(); ++n) {
    BdaBuffer& b = *sink->out[n];
    if (!vp::Check(b.GetRows().size() == ranges[n].second - ranges[n].first, "buffer ", n, " has ", b.GetRows().size(), " rows")) return;
    for (auto& x : names) vp::Check(b.HasData(x) == q.keep, "model ", x, q.keep ? " missing" : " left behind");
    if (!vp::Check(b.HasData("keep.me") && b.HasData(), "other data lost")) return;
    for (unsigned i = 0; i < b.GetRows().size(); ++i) {
      const Row& r = rows[ranges[n].first + i]; const auto& g = b.GetRows()[i];
      if (!vp::Check(g.time == r.time && g.interval == r.interval && g.baseline_nr == r.bl && g.n_channels == r.nchan, "row ", i, " of buffer ", n, " is another one")) return;
      vp::Check(g.uvw[0] == r.uvw[0] && g.uvw[2] == r.uvw[2], "uvw of row ", r.id);
      const unsigned k = interval_of(r);
      for (unsigned ch = 0; ch < r.nchan; ++ch) {
        D sum[4] = {}, m[4]; unsigned cb = 0; while (cb + 1 < nblocks && begin[cb + 1] < freqs_of[r.bl][ch]) ++cb;
        for (unsigned d = 0; d < nd; ++d) {
          for (unsigned cr = 0; cr < 4; ++cr) m[cr] = D(Model(names[d], r.time, r.bl, ch, cr));
          if (!q.predict && (q.keep || q.subtract)) {
            D gain[2][4] = {}, v[4];
            const unsigned n_sub = subs[d]; unsigned first = 0; for (unsigned e = 0; e < d; ++e) first += subs[e];
            const unsigned sub = first + std::min<unsigned>(n_sub - 1, unsigned((r.time - start - k * solint * dt) * n_sub / (solint * dt)));
            for (int e = 0; e < 2; ++e) for (int x = 0; x < 4; ++x) { const unsigned a = number[e ? lay.a2[r.bl] : lay.a1[r.bl]]; gain[e][x] = q.pols == 4 ? Sol(k, cb, a, sub, x) : x == 1 || x == 2 ? D() : Sol(k, cb, a, sub, q.pols == 2 && x == 3 ? 1 : 0); }
            for (int x = 0; x < 2; ++x) for (int y = 0; y < 2; ++y) { v[x * 2 + y] = 0; for (int u = 0; u < 2; ++u) for (int z = 0; z < 2; ++z) v[x * 2 + y] += gain[0][x * 2 + u] * m[u * 2 + z] * std::conj(gain[1][y * 2 + z]); }
            std::copy(v, v + 4, m);
          }
          for (unsigned cr = 0; cr < 4; ++cr) { sum[cr] += m[cr]; if (q.keep && b.HasData(names[d])) vp::Check(Near(b.GetData(i, names[d])[ch * 4 + cr], m[cr], 1e-4, 1e-4), "row ", r.id, " of interval ", k, ": model ", names[d], " passed on is ", b.GetData(i, names[d])[ch * 4 + cr], " instead of ", m[cr]); }
        }
        for (unsigned cr = 0; cr < 4; ++cr) {
          const unsigned x = ch * 4 + cr;
          const D want = q.predict && !q.keep ? sum[cr] : !q.predict && q.subtract ? D(r.data[x]) - sum[cr] : D(r.data[x]);
          vp::Check(Near(b.GetData(i)[x], want, 1e-4, 2e-4), "row ", r.id, " of interval ", k, " channel ", ch, " correlation ", cr, ": ", b.GetData(i)[x], " instead of ", want);
          vp::Check(b.GetWeights(i)[x] == r.weights[x], "weight changed"); vp::Check(b.GetData(i, "keep.me")[x] == Model("keep.me", r.time, r.bl, ch, cr), "other data changed");
          vp::Check(q.uvmin ? b.GetFlags(i)[x] || !r.flags[x] : b.GetFlags(i)[x] == bool(r.flags[x]), "flag changed");
        }
      }
    }
  }
  vp::Outcome("solves=" + std::to_string(calls.size()) + " buffers=" + std::to_string(ranges.size()));
}

int main(int argc, char** argv) {
  vp::Init(argc, argv);
  const bool all = vp::Thorough(); unsigned n = 0;
  const std::vector<std::string> kSources = {"r", "c", "p", "rr", "cp", "pr", "prc"};
  // Histories of rows and buffers.
  for (unsigned nt = 1; nt <= (all ? 9u : 6u); ++nt) for (unsigned solint = 0; solint <= 4; ++solint) for (unsigned avg = 0; avg < 4; ++avg) for (unsigned rows : {1u, 2u, 3u, 5u, 100u}) for (unsigned delay : {0u, 1u, 3u}) for (auto& src : kSources) for (unsigned what = 0; what < 6; ++what) {
    if (!all && n++ % 4) continue;
    Config q; q.nt = nt; q.solint = solint; q.avg = avg; q.per_buffer = rows; q.delay = delay; q.source = src; q.layout = (nt + what + rows) % 3; q.pols = 1 << (nt + what + avg) % 3; q.group = delay % 2;
    q.subtract = what == 1 || what == 3; q.keep = what == 2 || what == 3 || what == 5; q.predict = what >= 4;
    Run(q);
  }
  // Channels and blocks, flags, antennas.
  for (unsigned chans = 0; chans < 4; ++chans) for (unsigned per = 0; per <= 7; ++per) for (unsigned avg = 0; avg < 4; ++avg) for (unsigned layout = 0; layout < 3; ++layout) for (unsigned flags = 0; flags <= 4; ++flags) for (double uvmin : {0.0, 150.0, 250.0}) for (unsigned pols : {1u, 2u, 4u}) for (unsigned what = 0; what < 4; ++what) {
    unsigned least = 9, most = 0; for (unsigned b = 0; b < Lay(layout).a1.size(); ++b) { least = std::min(least, Chans(chans, b)); most = std::max(most, Chans(chans, b)); }
    if (per && most / per > least) continue;           // more blocks than channels on a baseline
    if (!all && n++ % 4) continue;
    Config q; q.nt = 5; q.solint = 4 - per % 2; q.avg = avg; q.chans = chans; q.per = per; q.layout = layout; q.flags = flags; q.uvmin = uvmin; q.pols = pols; q.source = what % 2 ? "p" : "rc"; q.subtract = what & 1; q.keep = what & 2; q.delay = what;
    Run(q);
  }
  // Starting values and failures.
  for (unsigned nt : {3u, 5u}) for (unsigned solint : {1u, 2u}) for (unsigned bad = 0; bad < (1u << ((nt + solint - 1) / solint)); ++bad) for (unsigned set = 0; set < 4; ++set) for (unsigned pols : {1u, 2u, 4u}) for (unsigned f = 0; f < 4; ++f) for (int results = 0; results < 3; ++results) {
    Config q; q.nt = nt; q.solint = solint; q.bad = bad; q.prop = set & 1; q.conv = set & 2; q.pols = pols; q.flagbad = f & 1; q.flagdiv = f & 2; q.results = results; q.layout = bad % 3; q.avg = solint - 1; q.per_buffer = 1 + bad % 4;
    Run(q);
  }
  // Kinds of data, several solutions per direction, baselines that stop early.
  for (const char* use : {"full", "dual", "single"}) for (unsigned subs : {1u, 2u, 4u}) for (unsigned solint : {1u, 2u, 4u}) for (unsigned nt = 1; nt <= 6; ++nt) for (auto& src : kSources) for (unsigned avg : {0u, 1u}) for (unsigned what = 0; what < 4; ++what) {
    if (solint % subs) continue;
    // A direction cannot have more solutions than an interval has rows.
    if (subs > 1 && nt % solint && 3 * (nt % solint) / 2 < subs) continue;
    Config q; q.use = use; q.subs = subs; q.solint = solint; q.nt = nt; q.source = src; q.pols = use[0] == 's' ? 1 : 2; q.avg = avg; q.ddweights = nt % 2; q.layout = (nt + what) % 2; q.subtract = what & 1; q.keep = what & 2;
    Run(q);
  }
  for (unsigned nt = 2; nt <= 6; ++nt) for (unsigned solint = 1; solint <= 4; ++solint) for (unsigned avg = 0; avg < 4; ++avg) for (unsigned gone = 0; gone < 4 * nt; ++gone) for (unsigned rows : {1u, 2u, 5u}) for (unsigned layout = 0; layout < 3; ++layout) for (unsigned what = 0; what < 2; ++what) {
    Config q; q.nt = nt; q.solint = solint; q.avg = avg; q.gone = gone; q.per_buffer = rows; q.layout = layout; q.subtract = what; q.chans = 1; q.per = 2; q.source = "r";
    Run(q);
  }
  // Linear weights.
  for (unsigned nt = 1; nt <= 4; ++nt) for (unsigned layout = 0; layout < 3; ++layout) for (unsigned flags = 0; flags <= 4; ++flags) { Config q; q.nt = nt; q.solint = 2; q.layout = layout; q.flags = flags; q.linear = true; Run(q); }
  return vp::Finish();
}
