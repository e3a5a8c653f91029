// C45: the solution file holds each solution once, with the time, frequency,
// antenna, direction and polarization that it was solved for.
#include "vp.h"
#include <numeric>
#include "ddecal/SolutionWriter.h"
#include "schaapcommon/h5parm/mini.h"
using dp3::base::CalType;
using dp3::base::Direction;
using dp3::ddecal::ConstraintResult;
using dp3::ddecal::SolutionWriter;
using schaapcommon::h5parm::H5Parm;
using schaapcommon::h5parm::SolTab;
typedef std::complex<double> D;

struct Mode { CalType t; unsigned pols; bool amp, phase; };
static const Mode kModes[] = {{CalType::kScalar, 1, true, true}, {CalType::kScalarAmplitude, 1, true, false}, {CalType::kScalarPhase, 1, false, true}, {CalType::kDiagonal, 2, true, true}, {CalType::kDiagonalAmplitude, 2, true, false}, {CalType::kDiagonalPhase, 2, false, true}, {CalType::kFullJones, 4, true, true}, {CalType::kLeakage, 4, true, true}, {CalType::kLeakageAmplitude, 4, true, false}};
struct Config { Mode mode = kModes[0]; std::vector<size_t> subs = {1}; unsigned solint = 1, nslots = 1, extra = 0, blocks = 1, ants = 1, nchan = 1; double start = 0, dt = 1; int kind = 0; bool weights = true; };
// kind 0: gains; 1: one constraint with one table; 2: a constraint without
// tables and one with two; 3: tables with 2 polarizations; 4: with 4
static unsigned Steps(const Config& q, unsigned& length) {
  unsigned most = 1; bool fits = true;
  for (size_t s : q.subs) most = std::max<unsigned>(most, s);
  for (size_t s : q.subs) if (most % s) fits = false;
  const unsigned k = fits ? most : q.solint;
  length = q.solint / k;
  return k;
}
static double Amp(size_t t, size_t f, size_t a, size_t s, size_t p) { return 1 + t + 0.1 * f + 0.01 * a + 0.001 * s + 0.0001 * p; }
static double Phase(size_t t, size_t f, size_t a, size_t s, size_t p) { return -1.5 + 0.02 * t + 0.09 * f + 0.02 * a + 0.003 * s + 0.0004 * p; }
static double Value(size_t n, size_t t, size_t f, size_t a, size_t s, size_t p) { return 100 * n + Amp(t, f, a, s, p); }
static double Wt(size_t n, size_t t, size_t f, size_t a, size_t s, size_t p) { return 0.001 * (1 + n) + Phase(t, f, a, s, p) * 0.25 + 2; }

static void Run(const Config& q) {
  if (!vp::CaseF([&] { std::string s = "pols=" + std::to_string(q.mode.pols) + (q.mode.amp ? "a" : "") + (q.mode.phase ? "p" : "") + " subs="; for (auto x : q.subs) s += std::to_string(x) + ","; return s + " solint=" + std::to_string(q.solint) + " slots=" + std::to_string(q.nslots) + "+" + std::to_string(q.extra) + " blocks=" + std::to_string(q.blocks) + "/" + std::to_string(q.nchan) + " ants=" + std::to_string(q.ants) + " start=" + vp::Str(q.start) + " dt=" + vp::Str(q.dt) + " kind=" + std::to_string(q.kind) + (q.weights ? " weights" : ""); })) return;
  unsigned length; const unsigned k = Steps(q, length);
  const unsigned nd = q.subs.size(), nsub = std::accumulate(q.subs.begin(), q.subs.end(), size_t{0});
  const unsigned nint = (q.nslots + q.solint - 1) / q.solint + q.extra;
  const bool results = q.kind != 0;
  const unsigned pols = results ? (q.kind == 3 ? 2 : q.kind == 4 ? 4 : 1) : q.mode.pols;
  std::vector<std::vector<std::vector<D>>> sols(nint, std::vector<std::vector<D>>(q.blocks));
  for (unsigned t = 0; t < nint; ++t) for (unsigned f = 0; f < q.blocks; ++f) for (unsigned a = 0; a < q.ants; ++a) for (unsigned s = 0; s < nsub; ++s) for (unsigned p = 0; p < q.mode.pols; ++p) sols[t][f].push_back(std::polar(Amp(t, f, a, s, p), Phase(t, f, a, s, p)));
  std::vector<std::vector<std::vector<ConstraintResult>>> res(nint);
  const unsigned ntab = q.kind == 0 ? 0 : q.kind == 1 ? 1 : 2;
  if (results) for (unsigned t = 0; t < nint; ++t) {
    if (q.kind == 2) res[t].emplace_back();
    res[t].emplace_back();
    for (unsigned n = 0; n < ntab; ++n) {
      ConstraintResult r;
      r.name = n ? "second" : "tec"; r.axes = pols > 1 ? "ant,dir,freq,pol" : "ant,dir,freq"; r.dims = {q.ants, nsub, q.blocks};
      if (pols > 1) r.dims.push_back(pols);
      for (unsigned a = 0; a < q.ants; ++a) for (unsigned s = 0; s < nsub; ++s) for (unsigned f = 0; f < q.blocks; ++f) for (unsigned p = 0; p < pols; ++p) { r.vals.push_back(Value(n, t, f, a, s, p)); if (q.weights) r.weights.push_back(Wt(n, t, f, a, s, p)); }
      res[t].back().push_back(r);
    }
  } else if (q.weights) res.clear();       // no entry at all, instead of an empty entry per interval
  std::vector<std::string> all, used; std::vector<std::array<double, 3>> pos;
  for (unsigned a = 0; a < q.ants + 2; ++a) { all.push_back("st" + std::to_string(a)); pos.push_back({{1.0 * a, 2.0 * a, 3}}); }
  for (unsigned a = 0; a < q.ants; ++a) used.push_back("st" + std::to_string(a + 1));
  std::vector<Direction> places; std::vector<std::vector<std::string>> patches; std::vector<std::string> names;
  for (unsigned d = 0; d < nd; ++d) { places.emplace_back(0.1 * d, 0.2 + 0.01 * d); patches.push_back({"p" + std::to_string(d)}); names.push_back("[p" + std::to_string(d)); if (d == 1) { patches.back().push_back("q"); names.back() += ",q"; } names.back() += "]"; }
  std::vector<double> freqs(q.nchan), centres(q.blocks, 0.0);
  for (unsigned c = 0; c < q.nchan; ++c) freqs[c] = 1e8 + 1e6 * c + 1e4 * c * c;
  for (unsigned b = 0; b < q.blocks; ++b) { const unsigned lo = b * q.nchan / q.blocks, hi = (b + 1) * q.nchan / q.blocks; for (unsigned c = lo; c < hi; ++c) centres[b] += freqs[c] / (hi - lo); }
  H5Parm::Files().clear();
  { H5Parm old("out.h5", true); old.CreateSolTab("phase000", "phase", {{"time", 1}}); old.CreateSolTab("tec000", "tec", {{"time", 1}}); }   // an older file of that name is replaced
  const std::string wrong = vp::Throws([&] {
    SolutionWriter w("out.h5");
    w.AddAntennas(all, pos);
    w.Write(sols, res, q.start, q.start + q.nslots * q.dt, q.dt, q.solint, q.subs, q.mode.t, used, places, patches, freqs, centres, "made by test");
  });
  if (!vp::Check(wrong.empty(), "writing fails: ", wrong)) return;
  const H5Parm::Data& out = *H5Parm::Files().at("out.h5");
  vp::Check(H5Parm::Files().size() == 1, "files");
  vp::Check(out.antennas == all && out.antenna_pos == pos, "antennas of the file");
  bool same = out.sources == names && out.source_dirs.size() == nd;
  for (unsigned d = 0; same && d < nd; ++d) same = out.source_dirs[d].first == places[d].ra && out.source_dirs[d].second == places[d].dec;
  vp::Check(same, "sources of the file");
  // The sub-intervals that start before the end.
  const unsigned ntimes = std::min(nint * k, (q.nslots + length - 1) / length);
  std::set<std::string> want;
  if (results) { want.insert("tec000"); if (ntab == 2) want.insert("second000"); } else { if (q.mode.amp) want.insert("amplitude000"); if (q.mode.phase) want.insert("phase000"); }
  std::set<std::string> got;
  for (auto& [n, t] : out.tabs) got.insert(n);
  if (!vp::Check(got == want, "tables of the file: ", got.size(), " instead of ", want.size())) return;
  for (auto& [n, tab] : out.tabs) {
    vp::Check(tab.GetType() + "000" == n, "type of ", n, " is ", tab.GetType());
    vp::Check(tab.history == "made by test", "history of ", n);
    vp::Check(tab.strings.at("ant") == used, "antennas of ", n);
    vp::Check(tab.strings.at("dir") == names, "directions of ", n);
    const auto& tt = tab.reals.at("time"); const auto& ff = tab.reals.at("freq");
    if (!vp::Check(tt.size() == ntimes, n, " has ", tt.size(), " times instead of ", ntimes)) return;
    for (unsigned t = 0; t < ntimes; ++t) { const double w = q.start + (t + 0.5) * length * q.dt; vp::Check(std::abs(tt[t] - w) <= 2e-6 + 1e-12 * w, "time ", t, " of ", n, ": ", tt[t] - q.start, " != ", w - q.start); }
    if (!vp::Check(ff.size() == q.blocks, "frequencies of ", n)) return;
    for (unsigned b = 0; b < q.blocks; ++b) vp::Check(std::abs(ff[b] - centres[b]) < 1e-3, "frequency ", b, " of ", n, ": ", ff[b]);
    const bool poltab = tab.HasAxis("pol");
    vp::Check(poltab == (pols > 1), "polarization axis of ", n);
    if (pols == 2) vp::Check(tab.strings.at("pol") == std::vector<std::string>{"XX", "YY"}, "polarizations of ", n);
    if (pols == 4) vp::Check(tab.strings.at("pol") == std::vector<std::string>{"XX", "XY", "YX", "YY"}, "polarizations of ", n);
    // Read the table by the names of its axes.
    std::map<std::string, size_t> stride, size; size_t total = 1;
    for (size_t i = tab.GetAxes().size(); i-- > 0;) { const auto& a = tab.GetAxes()[i]; stride[a.name] = total; size[a.name] = a.size; total *= a.size; }
    if (!vp::Check(size["time"] == ntimes && size["freq"] == q.blocks && size["ant"] == q.ants && size["dir"] == nd && tab.GetAxes().size() == (pols > 1 ? 5u : 4u), "axes of ", n)) return;
    if (!vp::Check(tab.values.size() == total, n, " has ", tab.values.size(), " values instead of ", total)) return;
    if (!vp::Check(tab.weights.size() == (results && q.weights ? total : 0u), n, " has ", tab.weights.size(), " weights")) return;
    const size_t which = n == "second000";
    for (unsigned t = 0; t < ntimes; ++t) for (unsigned f = 0; f < q.blocks; ++f) for (unsigned a = 0; a < q.ants; ++a) {
      unsigned first = 0;
      for (unsigned d = 0; d < nd; first += q.subs[d++]) for (unsigned p = 0; p < pols; ++p) {
        const unsigned s = first + (t % k) * q.subs[d] / k;
        const size_t at = t * stride["time"] + f * stride["freq"] + a * stride["ant"] + d * stride["dir"] + (pols > 1 ? p * stride["pol"] : 0);
        const double w = results ? Value(which, t / k, f, a, s, p) : n == "amplitude000" ? Amp(t / k, f, a, s, p) : Phase(t / k, f, a, s, p);
        vp::Check(std::abs(tab.values[at] - w) < 1e-9, n, " at time ", t, " block ", f, " antenna ", a, " direction ", d, " polarization ", p, ": ", tab.values[at], " != ", w);
        if (!tab.weights.empty()) vp::Check(std::abs(tab.weights[at] - Wt(which, t / k, f, a, s, p)) < 1e-9, "weight of ", n, " at time ", t, " block ", f, " antenna ", a, " direction ", d);
      }
    }
  }
  vp::Step(ntimes * nd);
}

static void Refusals() {
  auto write = [](CalType t, const std::vector<std::vector<std::vector<ConstraintResult>>>& res, unsigned n) { H5Parm::Files().clear(); return vp::Throws([&] { SolutionWriter w("o.h5"); w.Write(std::vector<std::vector<std::vector<D>>>(n, {{D(1, 0)}}), res, 0, n, 1, 1, {1}, t, {"a"}, {Direction(0, 0)}, {{"p"}}, {1e8}, {1e8}, ""); }); };
  const ConstraintResult one{{1}, {1}, "ant,dir,freq", {1, 1, 1}, "tec"}, three{{1, 2, 3}, {}, "ant,dir,freq,pol", {1, 1, 1, 3}, "x"};
  for (CalType t : {CalType::kTec, CalType::kTecAndDelay, CalType::kTecAndPhase, CalType::kTecPhaseAndDelay, CalType::kTecScreen, CalType::kRotation, CalType::kRotationAndDiagonal, CalType::kFaradayRotation}) {
    if (!vp::Case("no constraint results, mode=" + dp3::base::ToString(t))) continue;
    vp::Check(!write(t, {}, 2).empty() && !write(t, {{}, {}}, 2).empty(), "a mode that needs a constraint is written without its results");
    vp::Check(write(t, {{{one}}, {{one}}}, 2).empty(), "a mode with results is refused");
  }
  if (vp::Case("results missing for a time")) vp::Check(!write(CalType::kTec, {{{one}}, {}}, 2).empty() && !write(CalType::kTec, {{{one}}, {{one}, {one}}}, 2).empty(), "results that are missing for a time are not noticed");
  if (vp::Case("three polarizations")) vp::Check(!write(CalType::kTec, {{{three}}}, 1).empty(), "three polarizations are accepted");
}

int main(int argc, char** argv) {
  vp::Init(argc, argv);
  Refusals();
  const bool more = vp::Thorough();
  const std::vector<std::vector<size_t>> subs = {{1}, {1, 1, 1}, {2}, {2, 1}, {1, 3}, {4, 2, 1}, {2, 3}, {1, 1, 4}};
  // The axes and values.
  for (const Mode& m : kModes) for (const auto& sub : subs) for (unsigned ants = 1; ants <= (more ? 4u : 3u); ++ants) for (unsigned nchan = 1; nchan <= (more ? 7u : 5u); ++nchan) for (unsigned blocks = 1; blocks <= nchan; ++blocks) for (unsigned nint = 1; nint <= 3; ++nint) for (int kind = 0; kind < 5; ++kind) for (bool weights : {true, false}) {
    if (kind && &m != &kModes[0]) continue;
    if (kind && !weights && sub != std::vector<size_t>{1} && sub != std::vector<size_t>{1, 1, 1}) continue;   // constraints give weights
    Config q; q.mode = m; q.subs = sub; q.ants = ants; q.nchan = nchan; q.blocks = blocks; q.solint = sub == std::vector<size_t>{2, 3} ? 6 : sub == std::vector<size_t>{1, 3} ? 3 : 4; q.nslots = nint * q.solint - (nint + blocks) % 2; q.start = 100; q.dt = 2; q.kind = kind; q.weights = weights;
    Run(q);
  }
  // The times.
  for (const auto& sub : subs) for (unsigned solint : {1u, 2u, 3u, 4u, 6u, 12u}) for (unsigned nslots = 1; nslots <= (more ? 60u : 26u); ++nslots) for (double start : {0.0, 4472025740.0, 5.1e9 + 0.37, 4871282392.90695}) for (double dt : {1.0, 10.0139, 5.00673, 1.00139, 0.7, 1.0 / 3, 0.1}) for (int kind : {0, 2}) for (unsigned extra : {0u, 1u, 3u}) {
    unsigned most = 1; bool fits = true;
    for (auto s : sub) most = std::max<unsigned>(most, s);
    for (auto s : sub) if (most % s) fits = false;
    for (auto s : sub) if (solint % s) fits = false;
    if (sub == std::vector<size_t>{2, 3} ? solint % 6 != 0 : !fits) continue;
    if (!more && extra == 3 && nslots % 3) continue;
    Config q; q.subs = sub; q.solint = solint; q.nslots = nslots; q.start = start; q.dt = dt; q.kind = kind; q.extra = extra;
    Run(q);
  }
  return vp::Finish();
}
