// C44: the calibration step with its real solvers: what was put into the data
// is found, written, applied to the models and taken off the data again.
#include "vp.h"
#include "ddecal_kit.h"
using namespace kit;
using dk::D;
using dk::F;
using dp3::steps::DDECal;

struct Config {
  std::string mode = "diagonal", algorithm = "directionsolve", use = "full";
  unsigned ndir = 1, nt = 2, solint = 1, layout = 0, per = 1, nchan = 2, flags = 0, seed = 0;
  bool subtract = true, keep = false, prop = false;
  std::string more;                     // "key=value"
  std::string Text() const { return mode + " " + algorithm + " " + use + " dirs=" + std::to_string(ndir) + " slots=" + std::to_string(nt) + "/" + std::to_string(solint) + " layout=" + std::to_string(layout) + " channels=" + std::to_string(nchan) + "/" + std::to_string(per) + " flags=" + std::to_string(flags) + " seed=" + std::to_string(seed) + (subtract ? " subtract" : "") + (keep ? " keep" : "") + (prop ? " propagate" : "") + (more.empty() ? "" : " " + more); }
};
static std::vector<int> Used(unsigned l) { return l == 0 ? std::vector<int>{0, 1, 2, 3, 4, 5} : l == 1 ? std::vector<int>{1, 2, 4, 5, 7, 8} : std::vector<int>{0, 3, 4, 6, 7, 8}; }
static double Hash(unsigned a, unsigned b = 0, unsigned c = 0, unsigned d = 0, unsigned e = 0) {
  uint64_t x = 0x9e3779b97f4a7c15ull;
  for (unsigned v : {a, b, c, d, e}) { x ^= v + 0x632be59bd9b4e019ull; x *= 0xbf58476d1ce4e5b9ull; x ^= x >> 29; }
  return (x >> 11) * (1.0 / 9007199254740992.0) * 2 - 1;
}
static unsigned g_seed;
static F Model(const std::string& n, unsigned t, unsigned bl, unsigned ch, unsigned cr) { const unsigned d = n.back(); const float off = cr == 1 || cr == 2 ? 0.2f : 1; return F(off * (2 + Hash(d, t, bl, ch, cr * 2)), off * 2 * Hash(d, t, bl, ch, cr * 2 + 1)); }
// The gain of an antenna: a matrix.
static std::array<D, 4> Gain(const std::string& mode, unsigned k, unsigned cb, unsigned dir, unsigned ant) {
  auto one = [&](unsigned p) {
    const double amp = mode.find("phase") != std::string::npos ? 1 : 1 + 0.2 * Hash(g_seed, k, cb, dir * 64 + ant, p), ph = mode.find("amplitude") != std::string::npos ? 0 : 0.4 * Hash(g_seed, k, cb, dir * 64 + ant, p + 8);
    return std::polar(amp, ph);
  };
  if (mode.compare(0, 6, "scalar") == 0) { const D g = one(0); return {g, 0, 0, g}; }
  if (mode.compare(0, 8, "diagonal") == 0) return {one(0), 0, 0, one(1)};
  return {one(0), 0.1 * one(2), 0.1 * one(3), one(1)};
}
static std::array<D, 4> Apply(const std::array<D, 4>& a, const std::array<D, 4>& m, const std::array<D, 4>& b) {
  std::array<D, 4> r{};
  for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) for (int x = 0; x < 2; ++x) for (int y = 0; y < 2; ++y) r[i * 2 + j] += a[i * 2 + x] * m[x * 2 + y] * std::conj(b[j * 2 + y]);
  return r;
}

static void Run(const Config& q) {
  if (!vp::CaseF([&] { return q.Text(); })) return;
  dk::Reset(); g_seed = q.seed;
  const std::vector<int> used = Used(q.layout);
  Shape s; s.nchan = q.nchan; s.ncorr = 4; s.nant = q.layout ? 9 : 6; s.ntime = q.nt;
  for (unsigned i = 0; i < used.size(); ++i) for (unsigned j = i; j < used.size(); ++j) { const bool turn = q.layout == 2 && (i + j) % 3 == 0; s.a1.push_back(turn ? used[j] : used[i]); s.a2.push_back(turn ? used[i] : used[j]); }
  s.nbl = s.a1.size();
  std::vector<unsigned> number(s.nant);
  for (unsigned i = 0; i < used.size(); ++i) number[used[i]] = i;
  dk::slot_of = [&](double t) { return unsigned(std::lround((t - s.first_time) / s.interval)); };
  dk::model = Model;
  std::string sky; std::vector<std::string> names;
  for (unsigned d = 0; d < q.ndir; ++d) { const std::string n(1, "pqr"[d]); sky += (d ? ",[" : "[") + n + "]"; names.push_back("dde." + n); }
  auto p = Parset({{"dde.h5parm", "out.h5"}, {"dde.solint", std::to_string(q.solint)}, {"dde.nchan", std::to_string(q.per)}, {"dde.maxiter", "400"}, {"dde.tolerance", "1e-7"}, {"dde.detectstalling", "false"}, {"dde.stepsize", q.algorithm == "lowrank" ? "1" : "0.5"}, {"dde.mode", q.mode}, {"dde.solveralgorithm", q.algorithm}, {"dde.datause", q.use}, {"dde.directions", "[" + sky + "]"}, {"dde.sourcedb", "sky"}});
  if (q.subtract) p.add("dde.subtract", "true");
  if (q.keep) p.add("dde.keepmodel", "true");
  if (q.prop) p.add("dde.propagatesolutions", "true");
  if (!q.more.empty()) p.add("dde." + q.more.substr(0, q.more.find('=')), q.more.substr(q.more.find('=') + 1));
  auto step = std::make_shared<DDECal>(p, "dde.");
  auto sink = std::make_shared<Sink>();
  step->setNextStep(sink);
  DPInfo info = Info(s);
  step->setInfo(info);
  const unsigned nblocks = q.nchan / q.per;
  auto block = [&](unsigned ch) { for (unsigned b = 0; b < nblocks; ++b) if (ch < (b + 1) * q.nchan / nblocks) return b; return nblocks; };
  auto truth = [&](unsigned t, unsigned ch, unsigned d, int ant) { return Gain(q.mode, t / q.solint, block(ch), d, number[ant]); };
  auto part = [&](unsigned t, unsigned bl, unsigned ch, unsigned d) { std::array<D, 4> m; for (unsigned cr = 0; cr < 4; ++cr) m[cr] = D(Model(names[d], t, bl, ch, cr)); return Apply(truth(t, ch, d, s.a1[bl]), m, truth(t, ch, d, s.a2[bl])); };
  auto flag = [&](unsigned t, unsigned bl, unsigned ch) { return q.flags == 1 ? (t + 2 * bl + ch) % 7 == 0 : q.flags == 2 ? bl == 1 || bl == 8 : false; };
  for (unsigned t = 0; t < q.nt; ++t) {
    auto b = Buffer(s, t);
    for (unsigned bl = 0; bl < s.nbl; ++bl) for (unsigned ch = 0; ch < q.nchan; ++ch) {
      std::array<D, 4> v{};
      for (unsigned d = 0; d < q.ndir; ++d) { const auto x = part(t, bl, ch, d); for (unsigned cr = 0; cr < 4; ++cr) v[cr] += x[cr]; }
      for (unsigned cr = 0; cr < 4; ++cr) { b->GetData()(bl, ch, cr) = flag(t, bl, ch) ? F(1000, 77) : F(v[cr]); b->GetFlags()(bl, ch, cr) = flag(t, bl, ch); b->GetWeights()(bl, ch, cr) = 1 + 0.5f * ((bl + t) % 3); }
    }
    step->process(std::move(b));
    vp::Step(1);
  }
  step->finish();
  vp::Check(sink->out.size() == q.nt && dk::written.writes == 1, "buffers passed on: ", sink->out.size());
  for (unsigned t = 0; t < q.nt; ++t) for (unsigned bl = 0; bl < s.nbl; ++bl) if (s.a1[bl] != s.a2[bl]) for (unsigned ch = 0; ch < q.nchan; ++ch) {
    DPBuffer& b = *sink->out[t];
    for (unsigned cr = 0; cr < 4; ++cr) {
      if (q.use != "full" && (cr == 1 || cr == 2)) continue;
      const D got = b.GetData()(bl, ch, cr);
      if (q.subtract && !flag(t, bl, ch)) vp::Check(std::abs(got) < 0.06, "slot ", t, " antennas ", s.a1[bl], "-", s.a2[bl], " channel ", ch, " correlation ", cr, ": ", got, " is left");
      if (q.keep && q.ndir == 1 && !(q.mode == "fulljones" && flag(t, bl, ch))) vp::Check(Near(b.GetData(names[0])(bl, ch, cr), part(t, bl, ch, 0)[cr], 2e-2, 6e-2), "slot ", t, " antennas ", s.a1[bl], "-", s.a2[bl], ": corrected model ", b.GetData(names[0])(bl, ch, cr), " instead of ", part(t, bl, ch, 0)[cr]);
    }
  }
  // The solutions: the products that are measured are those put in.
  const auto& w = dk::written;
  const unsigned n = w.solutions[0][0].size() / used.size() / q.ndir;
  for (unsigned k = 0; k < w.solutions.size(); ++k) for (unsigned cb = 0; cb < nblocks; ++cb) for (unsigned d = 0; d < q.ndir; ++d) for (unsigned i = 0; i < used.size(); ++i) for (unsigned j = 0; j < i; ++j) {
    auto mat = [&](unsigned a) { const D* x = &w.solutions[k][cb][(a * q.ndir + d) * n]; return n == 1 ? std::array<D, 4>{x[0], 0, 0, x[0]} : n == 2 ? std::array<D, 4>{x[0], 0, 0, x[1]} : std::array<D, 4>{x[0], x[1], x[2], x[3]}; };
    if (q.more.compare(0, 7, "antenna") == 0 && n == 4) continue;
    const std::array<D, 4> one = {1, 0, 0, 1};
    const auto got = Apply(mat(i), one, mat(j)), want = Apply(Gain(q.mode, k, cb, d, i), one, Gain(q.mode, k, cb, d, j));
    for (int c : {0, 3}) vp::Check(Near(got[c], want[c], 5e-2, 5e-2), "interval ", k, " block ", cb, " direction ", d, " antennas ", i, "-", j, ": product of solutions ", got[c], " instead of ", want[c]);
  }
  vp::Outcome(q.mode + " " + q.algorithm);
}

int main(int argc, char** argv) {
  vp::Init(argc, argv);
  const bool all = vp::Thorough();
  unsigned n = 0;
  for (unsigned seed = 0; seed < (all ? 4u : 1u); ++seed) for (const char* mode : {"scalar", "scalarphase", "scalaramplitude", "diagonal", "diagonalphase", "diagonalamplitude", "fulljones"}) for (const char* alg : {"directionsolve", "directioniterative", "hybrid", "lowrank"}) for (const char* use : {"full", "dual", "single"}) for (unsigned ndir : {1u, 2u}) for (unsigned layout = 0; layout < 3; ++layout) for (unsigned solint : {1u, 2u, 3u}) for (unsigned flags = 0; flags < 3; ++flags) for (unsigned what = 0; what < 4; ++what) {
    const std::string m = mode, a = alg, u = use;
    if (u != "full" && (a != "directioniterative" || m == "fulljones")) continue;
    if (u == "single" && m.compare(0, 6, "scalar")) continue;
    if (a == "lowrank" && m.compare(0, 8, "diagonal")) continue;
    if (ndir == 2 && (a == "lowrank" || m == "fulljones" || a == "directioniterative")) continue;
    if (!all && (n++ % 4)) continue;
    Config q; q.mode = m; q.algorithm = a; q.use = u; q.ndir = ndir; q.layout = layout; q.solint = solint; q.nt = 3; q.flags = flags; q.seed = seed; q.nchan = 3; q.per = 1 + (layout + flags) % 3; q.keep = what & 1; q.subtract = !(what & 2) || what == 3; q.prop = (what + flags) % 2;
    Run(q);
  }
  return vp::Finish();
}
