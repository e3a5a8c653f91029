// C45: the starting values read from a solution file are those of the nearest
// direction, at the right antenna, frequency, polarization and time.
#include "vp.h"
#include <numeric>
#include "common/ParameterSet.h"
#include "ddecal/InitialSolutions.h"
#include "ddecal/Settings.h"
#include "schaapcommon/h5parm/mini.h"
using dp3::base::Direction;
using dp3::ddecal::InitialSolutions;
using namespace schaapcommon::h5parm;
typedef std::complex<double> D;
typedef std::complex<float> F;

// The Jones values of a table: by names and values, not by positions.
static F Jones(const std::string& table, const std::string& dir, const std::string& ant, double freq, unsigned pol) {
  unsigned h = 7; for (char c : table + "/" + dir + "/" + ant) h = (h * 31 + c) % 1009;
  return F(1 + 0.001f * (h % 91) + 0.5f * pol, 0.01f * (h % 17) + float((freq - 1e8) / 1e7) - 0.25f * pol);
}
struct Seen { GainType type; JonesParameters::InterpolationType i; JonesParameters::MissingAntennaBehavior m; std::vector<double> times; bool invert, second; size_t n; };
static std::vector<Seen> seen;

int main(int argc, char** argv) {
  vp::Init(argc, argv);
  const bool more = vp::Thorough();
  // tables: 0 default (amplitude and phase), 1 phase, 2 tec, 3 phase and tec; pols of the tables: 0 (no axis), 2, 4
  for (int tables = 0; tables < 4; ++tables) for (unsigned tabpol : {0u, 2u, 4u}) for (unsigned pols : {1u, 2u, 4u}) for (const auto& subs : std::vector<std::vector<size_t>>{{1}, {1, 1}, {2, 1}, {1, 3, 2}}) for (unsigned ants = 1; ants <= (more ? 4u : 3u); ++ants) for (unsigned nf = 1; nf <= (more ? 4u : 2u); ++nf) for (unsigned nsrc = 1; nsrc <= 3; ++nsrc) for (int rule = 0; rule < 6; ++rule) {
    if (tabpol == 4 && tables != 0) continue;
    if (!vp::CaseF([&] { std::string s = "tables=" + std::to_string(tables) + " tabpol=" + std::to_string(tabpol) + " pols=" + std::to_string(pols) + " subs="; for (auto x : subs) s += std::to_string(x) + ","; return s + " ants=" + std::to_string(ants) + " freqs=" + std::to_string(nf) + " sources=" + std::to_string(nsrc) + " rule=" + std::to_string(rule); })) continue;
    H5Parm::Files().clear(); seen.clear();
    H5Parm file("first.h5", true);
    std::vector<std::string> src; std::vector<std::pair<double, double>> at;
    for (unsigned i = 0; i < nsrc; ++i) { src.push_back("s" + std::to_string(i)); at.push_back({0.1 * i, 0.5}); }
    file.AddSources(src, at);
    const std::vector<std::vector<std::string>> names = {{"amplitude000", "phase000"}, {"phase000"}, {"tec000"}, {"phase001", "tec000"}};
    for (const std::string& n : names[tables]) {
      std::vector<AxisInfo> axes = {{"time", 1}, {"freq", 1}, {"ant", 1}, {"dir", nsrc}};
      if (tabpol) axes.push_back({"pol", tabpol});
      // The directions of the table are in another order than those of the file.
      std::vector<std::string> r(src.rbegin(), src.rend());
      file.CreateSolTab(n, n.substr(0, n.size() - 3), axes).SetSources(r);
    }
    JonesParameters::Fill() = [&](const JonesParameters::Request& r, casacore::Cube<casacore::Complex>& out) {
      seen.push_back({r.type, r.interpolation, r.missing, r.times, r.invert, r.second != nullptr, r.n_parm_values});
      const unsigned np = r.type == GainType::kFullJones ? 4 : 2;
      out.resize(np, r.antennas.size(), r.freqs.size() * r.times.size());
      const std::string table = r.first->GetName() + (r.second ? "+" + r.second->GetName() : "");
      for (unsigned f = 0; f < r.freqs.size(); ++f) for (unsigned a = 0; a < r.antennas.size(); ++a) for (unsigned p = 0; p < np; ++p) out(p, a, f) = Jones(table, r.first->GetStringAxis("dir").at(r.direction), r.antennas[a], r.freqs[f], p);
    };
    std::vector<std::string> ant; std::vector<double> freqs; std::vector<Direction> places; std::vector<std::string> nearest;
    for (unsigned a = 0; a < ants; ++a) ant.push_back("a" + std::to_string(a * 2 + 1));
    for (unsigned f = 0; f < nf; ++f) freqs.push_back(1e8 + 3e6 * f * (f + 1));
    for (unsigned d = 0; d < subs.size(); ++d) { const unsigned k = (2 * d + 1) % nsrc; places.emplace_back(0.1 * k + 0.02 - 0.01 * d, 0.51); nearest.push_back(src[k]); }
    dp3::common::ParameterSet p;
    p.add("x.h5parm", "o.h5"); p.add("x.initialsolutions.h5parm", "first.h5");
    if (tables) { std::string l; for (auto& n : names[tables]) l += (l.empty() ? "" : ",") + n; p.add("x.initialsolutions.soltab", "[" + l + "]"); }
    if (rule % 2) p.add("x.initialsolutions.interpolation", "linear"); else if (rule == 2) p.add("x.initialsolutions.interpolation", "nearest");
    if (rule / 2 == 1) p.add("x.initialsolutions.missingantennabehavior", "flag");
    if (rule / 2 == 2) p.add("x.initialsolutions.missingantennabehavior", "unit");
    dp3::ddecal::Settings settings(p, "x.");
    settings.sub_solutions_per_direction = subs;
    InitialSolutions init(p, "x.");
    vp::Check(!init.Empty(), "the starting values are taken to be absent");
    init.Initialize(subs.size(), pols);
    std::vector<std::vector<D>> sols(nf, std::vector<D>(3, D(-9, -9)));
    const std::string wrong = vp::Throws([&] { init.Read(settings, sols, ant, freqs, places, 1234.5); });
    if (!vp::Check(wrong.empty(), "reading fails: ", wrong)) continue;
    const bool full = tables == 0 && tabpol == 4;
    const unsigned np = full ? 4 : 2, nsub = std::accumulate(subs.begin(), subs.end(), size_t{0});
    if (!vp::Check(seen.size() == subs.size() * (full ? 1 : names[tables].size()), "number of reads: ", seen.size())) continue;
    for (auto& s : seen) {
      vp::Check(s.times == std::vector<double>{1234.5}, "time of the starting values");
      vp::Check(!s.invert, "starting values are inverted");
      vp::Check((s.i == JonesParameters::InterpolationType::LINEAR) == (rule % 2 == 1), "interpolation");
      vp::Check(s.m == (rule / 2 == 0 ? JonesParameters::MissingAntennaBehavior::kError : rule / 2 == 1 ? JonesParameters::MissingAntennaBehavior::kFlag : JonesParameters::MissingAntennaBehavior::kUnit), "missing antennas");
      vp::Check(s.second == full, "second table");
      if (full) vp::Check(s.type == GainType::kFullJones, "kind of gain");
      if (s.type == GainType::kTec) vp::Check(s.n == (tabpol ? tabpol : 1), "values per tec: ", s.n);
    }
    for (unsigned f = 0; f < nf; ++f) {
      if (!vp::Check(sols[f].size() == ants * nsub * pols, "number of values: ", sols[f].size())) continue;
      for (unsigned a = 0; a < ants; ++a) for (unsigned d = 0, s = 0; d < subs.size(); ++d) for (unsigned k = 0; k < subs[d]; ++k, ++s) for (unsigned pol = 0; pol < pols; ++pol) {
        // Which element of the 2x2 matrix, and where that is in the table.
        const unsigned element = pols == 4 ? pol : pols == 2 ? 3 * pol : 0;
        F want(1, 0);
        if (np == 2 && (element == 1 || element == 2)) want = 0;
        else {
          const unsigned i = np == 4 ? element : element / 3;
          if (full) want = Jones("amplitude000+phase000", nearest[d], ant[a], freqs[f], i);
          else for (auto& n : names[tables]) want *= Jones(n, nearest[d], ant[a], freqs[f], i);
        }
        const D got = sols[f][(a * nsub + s) * pols + pol];
        vp::Check(std::abs(got - D(want)) < 1e-5, "starting value at block ", f, " antenna ", a, " direction ", d, " solution ", k, " polarization ", pol, ": ", got, " != ", D(want));
      }
    }
  }
  for (int k = 0; k < 5; ++k) if (vp::Case("refusals " + std::to_string(k))) {
    H5Parm::Files().clear();
    H5Parm file("first.h5", true);
    file.CreateSolTab("phase000", "phase", {{"time", 1}, {"dir", 1}}).SetSources({"s"});
    dp3::common::ParameterSet p;
    if (k < 4) p.add("x.initialsolutions.h5parm", k == 1 ? "other.h5" : "first.h5");
    p.add("x.initialsolutions.soltab", k == 2 ? "[phase000,tec000]" : "[phase000]");
    if (k == 0) p.add("x.initialsolutions.interpolation", "cubic");
    if (k == 3) p.add("x.initialsolutions.missingantennabehavior", "guess");
    bool empty = false;
    const std::string wrong = vp::Throws([&] { InitialSolutions i(p, "x."); empty = i.Empty(); });
    if (k < 4) vp::Check(!wrong.empty(), "accepted"); else vp::Check(wrong.empty() && empty, "no file");
  }
  return vp::Finish();
}
