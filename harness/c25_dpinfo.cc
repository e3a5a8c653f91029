// C25: the observation information under every sequence of updates, against a
// plain record of what it describes.
#include "vp.h"
#include <algorithm>
#include <numeric>
#include <optional>
#include "base/DPInfo.h"
using dp3::base::DPInfo;
typedef std::vector<double> VD;
typedef std::vector<int> VI;
typedef std::vector<unsigned> VU;

struct Layout { std::vector<std::string> names; VD diam; std::vector<std::array<double, 3>> pos; VI a1, a2; };
struct Model {
  double first = 0, last = 0, interval = 1; unsigned n_times = 1;
  unsigned n_chan, start = 0, chan_avg = 1; VU time_avg{1};
  std::vector<VD> freq{{}}, width{{}}, res{{}}, bw{{}}; double total = 0; std::optional<double> ref; int spw = 0;
  Layout ant; bool changed = false;
};
static const Layout kLayouts[] = {
    {{"A", "B", "C", "D"}, {1, 2, 3, 4}, {{{0, 0, 0}}, {{3, 4, 0}}, {{0, 0, 7}}, {{-1, 2, 2}}}, {0, 0, 0, 1, 1, 3}, {0, 1, 3, 1, 3, 3}},
    {{"P", "Q", "R"}, {5, 6, 7}, {{{1, 0, 0}}, {{1, 2, 0}}, {{4, 2, 4}}}, {2, 0, 2}, {0, 1, 2}},
    {{"S", "T", "U", "V", "W"}, {5, 6, 7, 8, 9}, {{{1, 0, 0}}, {{1, 2, 0}}, {{4, 2, 4}}, {{9, 9, 9}}, {{8, 7, 6}}}, {4, 4, 1, 1, 4, 1}, {1, 4, 4, 1, 1, 1}}};

static bool Near(double a, double b) { return std::fabs(a - b) <= 1e-9 * std::max({1.0, std::fabs(a), std::fabs(b)}); }
static bool Near(const VD& a, const VD& b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); ++i) if (!Near(a[i], b[i])) return false;
  return true;
}
static double Sum(const VD& v) { return std::accumulate(v.begin(), v.end(), 0.0); }
static std::vector<casacore::MPosition> Positions(const Layout& l) {
  std::vector<casacore::MPosition> r;
  for (auto& p : l.pos) r.emplace_back(casacore::MVPosition(p[0], p[1], p[2]), casacore::MPosition::ITRF);
  return r;
}

struct Op { std::string name; std::function<void(DPInfo&)> real; std::function<std::string(Model&)> model; };

static std::vector<Op> Ops() {
  std::vector<Op> ops;
  for (auto t : std::vector<std::array<double, 3>>{{100, 100, 4}, {100, 116, 4}, {10, 10 + 9 * 0.25, 0.25}, {0, 6.9, 2}, {5, 4, 1}, {5, 6, 0}, {4.9e9 + 5, 4.9e9 + 5 + 6 * 10.01, 10.01}})
    ops.push_back({"times(" + vp::Str(t[0]) + "," + vp::Str(t[1]) + "," + vp::Str(t[2]) + ")", [=](DPInfo& i) { i.setTimes(t[0], t[1], t[2]); },
      [=](Model& m) -> std::string {
        if (t[1] < t[0] || t[2] <= 0) return "!exception";
        m.first = t[0]; m.last = t[1]; m.interval = t[2]; m.n_times = std::floor((t[1] - t[0]) / t[2] + 0.5) + 1;
        return "";
      }});
  for (unsigned c : {1u, 2u, 3u, 8u}) for (unsigned t : {1u, 2u, 3u})
    ops.push_back({"average(" + std::to_string(c) + "," + std::to_string(t) + ")", nullptr, nullptr});
  for (size_t k = 0; k < 12; ++k) {
    Op& o = ops[ops.size() - 12 + k];
    const unsigned c = std::array<unsigned, 4>{1, 2, 3, 8}[k / 3], t = 1 + k % 3;
    o.real = [=](DPInfo& i) { const unsigned n = i.nchan(); const unsigned r = i.update(c, t); if (r != std::min(c, n)) throw std::string("factor returned " + std::to_string(r)); };
    o.model = [=](Model& m) -> std::string {
      if (m.freq.size() != 1) return "!exception";
      const unsigned ca = std::min(c, m.n_chan), ta = std::min(t, m.n_times);
      if (m.n_chan % ca) return "!exception";
      const double begin = m.first - m.interval / 2;
      m.chan_avg *= ca; m.n_chan /= ca; m.time_avg[0] *= ta;
      m.n_times = (m.n_times + ta - 1) / ta; m.interval *= ta;
      m.first = begin + m.interval / 2; m.last = m.first + (m.n_times - 1) * m.interval;
      VD f, w, r, b;
      for (unsigned i = 0; i < m.n_chan; ++i) {
        f.push_back((m.freq[0][i * ca] + m.freq[0][i * ca + ca - 1]) / 2);
        double sw = 0, sr = 0, sb = 0;
        for (unsigned j = i * ca; j < (i + 1) * ca; ++j) { sw += m.width[0][j]; sr += m.res[0][j]; sb += m.bw[0][j]; }
        w.push_back(sw); r.push_back(sr); b.push_back(sb);
      }
      m.freq = {f}; m.width = {w}; m.res = {r}; m.bw = {b}; m.total = Sum(b);
      return "";
    };
  }
  ops.push_back({"bdatimes", [](DPInfo& i) { i.update(VU{3, 1, 4}); }, [](Model& m) -> std::string { m.time_avg = {3, 1, 4}; return ""; }});
  for (auto p : std::vector<std::pair<unsigned, unsigned>>{{0, 1}, {0, 4}, {1, 2}, {2, 3}, {0, 6}, {3, 4}, {7, 1}})
    ops.push_back({"channels(" + std::to_string(p.first) + "," + std::to_string(p.second) + ")", [=](DPInfo& i) { i.SelectChannels(p.first, p.second); },
      [=](Model& m) -> std::string {
        if (p.first == 0 && p.second == m.n_chan) return "";
        if (m.freq.size() != 1 || p.first + p.second > m.n_chan) return "!exception";
        for (auto* v : {&m.freq[0], &m.width[0], &m.res[0], &m.bw[0]}) *v = VD(v->begin() + p.first, v->begin() + p.first + p.second);
        m.start += p.first; m.n_chan = p.second; m.total = Sum(m.bw[0]);
        return "";
      }});
  // Baselines: even positions, the last, reversed order, all but the first.
  for (int k = 0; k < 4; ++k) {
    auto sel = [k](unsigned n) {
      VU s;
      for (unsigned i = 0; i < n; ++i) if (k == 0 ? i % 2 == 0 : k == 1 ? i + 1 == n : k == 2 ? true : (i > 0 || n == 1)) s.push_back(i);
      if (k == 2) std::reverse(s.begin(), s.end());
      return s;
    };
    ops.push_back({"baselines" + std::to_string(k), [=](DPInfo& i) { i.SelectBaselines(sel(i.nbaselines())); },
      [=](Model& m) -> std::string {
        VI a, b;
        for (unsigned i : sel(m.ant.a1.size())) { a.push_back(m.ant.a1[i]); b.push_back(m.ant.a2[i]); }
        m.ant.a1 = a; m.ant.a2 = b;
        return "";
      }});
  }
  ops.push_back({"removeunused", [](DPInfo& i) { i.RemoveUnusedAntennas(); },
    [](Model& m) -> std::string {
      Layout l; VI map(m.ant.names.size(), -1);
      for (size_t a = 0; a < m.ant.names.size(); ++a)
        if (std::count(m.ant.a1.begin(), m.ant.a1.end(), int(a)) + std::count(m.ant.a2.begin(), m.ant.a2.end(), int(a))) {
          map[a] = l.names.size();
          l.names.push_back(m.ant.names[a]); l.diam.push_back(m.ant.diam[a]); l.pos.push_back(m.ant.pos[a]);
        }
      if (l.names.size() != m.ant.names.size()) m.changed = true;
      for (int a : m.ant.a1) l.a1.push_back(map[a]);
      for (int a : m.ant.a2) l.a2.push_back(map[a]);
      m.ant = l;
      return "";
    }});
  for (int k = 0; k < 3; ++k)
    ops.push_back({"antennas" + std::to_string(k), [k](DPInfo& i) { const Layout& l = kLayouts[k]; i.setAntennas(l.names, l.diam, Positions(l), l.a1, l.a2); },
      [k](Model& m) -> std::string { m.ant = kLayouts[k]; return ""; }});
  ops.push_back({"antennasbad", [](DPInfo& i) { const Layout& l = kLayouts[0]; i.setAntennas(l.names, VD{1}, Positions(l), l.a1, l.a2); }, [](Model&) -> std::string { return "!exception"; }});
  ops.push_back({"antennasbad2", [](DPInfo& i) { const Layout& l = kLayouts[0]; i.setAntennas(l.names, l.diam, Positions(l), l.a1, VI{1}); }, [](Model&) -> std::string { return "!exception"; }});
  // Frequency layouts.
  struct F { const char* n; VD f, w, r, b; double ref; bool ok; };
  for (const F& f : std::vector<F>{{"six", {10, 20, 30, 40, 50, 60}, {10, 10, 10, 10, 10, 10}, {}, {}, 0, true},
                                   {"irregular", {1e6, 2e6, 3e6, 4.002e6}, {1e6, 1e6, 1e6, 1e6}, {1, 2, 3, 4}, {9, 8, 7, 6}, 0, true},
                                   {"widths", {1e6, 2e6, 3e6}, {1e6, 1e6, 1.002e6}, {}, {9, 8, 7}, 55, true},
                                   {"nearly", {1e6, 2e6 + 400, 3e6 - 100}, {1e6, 1e6 + 900, 1e6}, {}, {}, 0, true},
                                   {"one", {7}, {2}, {3}, {}, 0, true},
                                   {"badwidth", {1, 2}, {1}, {}, {}, 0, false}, {"badres", {1, 2}, {1, 1}, {1}, {}, 0, false}, {"badbw", {1, 2}, {1, 1}, {}, {1, 2, 3}, 0, false}})
    ops.push_back({std::string("freqs-") + f.n, [f](DPInfo& i) { i.setChannels(VD(f.f), VD(f.w), VD(f.r), VD(f.b), f.ref, f.f.size()); },
      [f](Model& m) -> std::string {
        if (!f.ok) return "!exception";
        m.freq = {f.f}; m.width = {f.w}; m.res = {f.r.empty() ? f.w : f.r}; m.bw = {f.b.empty() ? f.w : f.b};
        const size_t n = f.f.size(); m.n_chan = n; m.total = Sum(m.bw[0]);
        m.ref = f.ref ? f.ref : n % 2 ? f.f[n / 2] : (f.f[n / 2] + f.f[n / 2 - 1]) / 2; m.spw = n;
        return "";
      }});
  // A layout per baseline: wide for even baselines, and an unequal total.
  for (int k = 0; k < 3; ++k) {
    auto make = [k](size_t nb, std::vector<VD>& f, std::vector<VD>& w) {
      for (size_t i = 0; i < nb; ++i) {
        if (i % 2 == 0 && k != 2) { f.push_back({10}); w.push_back({20}); } else { f.push_back({5, 15}); w.push_back({10, k == 1 ? 11.0 : 10.0}); }
      }
    };
    ops.push_back({"bdafreqs" + std::to_string(k), [=](DPInfo& i) { std::vector<VD> f, w; make(i.nbaselines(), f, w); i.setChannels(std::move(f), std::move(w)); },
      [=](Model& m) -> std::string {
        std::vector<VD> f, w; make(m.ant.a1.size(), f, w);
        for (auto& v : w) if (Sum(v) != Sum(w[0])) return "!exception";
        m.freq = f; m.width = m.res = m.bw = w; m.total = Sum(w[0]); m.spw = 0;
        m.n_chan = 0; for (auto& v : f) m.n_chan = std::max<unsigned>(m.n_chan, v.size());
        m.ref = 10;
        return "";
      }});
  }
  ops.push_back({"bdafreqsbad", [](DPInfo& i) { i.setChannels(std::vector<VD>(i.nbaselines() + 1, VD{1}), std::vector<VD>(i.nbaselines() + 1, VD{1})); }, [](Model&) -> std::string { return "!exception"; }});
  ops.push_back({"clear", [](DPInfo& i) { i.clearMetaChanged(); }, [](Model& m) -> std::string { m.changed = false; return ""; }});
  return ops;
}

static bool Regular(const Model& m) {
  for (size_t b = 1; b < m.freq.size(); ++b)
    for (auto* v : {&m.freq, &m.width, &m.res, &m.bw}) {
      if ((*v)[b].size() != (*v)[0].size()) return false;
      for (size_t i = 0; i < (*v)[0].size(); ++i) if (std::fabs((*v)[b][i] - (*v)[0][i]) > 1) return false;
    }
  const VD& f = m.freq[0];
  for (size_t i = 1; i < f.size(); ++i) if (std::fabs(f[i] - f[i - 1] - (f[1] - f[0])) >= 1e3 || std::fabs(m.width[0][i] - m.width[0][0]) >= 1e3) return false;
  return true;
}

static std::string Compare(const DPInfo& i, const Model& m) {
#define T(c, what) if (!(c)) return what
  T(Near(i.firstTime(), m.first) && Near(i.lastTime(), m.last) && Near(i.timeInterval(), m.interval) && Near(i.startTime(), m.first - m.interval / 2), "times are " + vp::Str(i.firstTime()) + ".." + vp::Str(i.lastTime()) + " by " + vp::Str(i.timeInterval()) + ", not " + vp::Str(m.first) + ".." + vp::Str(m.last) + " by " + vp::Str(m.interval));
  T(i.ntime() == m.n_times, "number of times is " + std::to_string(i.ntime()) + ", not " + std::to_string(m.n_times));
  T(i.nchan() == m.n_chan, "number of channels is " + std::to_string(i.nchan()) + ", not " + std::to_string(m.n_chan));
  T(i.startchan() == m.start && i.origNChan() == 6, "first channel is " + std::to_string(i.startchan()) + ", not " + std::to_string(m.start));
  T(i.nchanAvg() == m.chan_avg, "channel averaging factor"); T(i.ntimeAvgs() == m.time_avg && i.ntimeAvg() == m.time_avg[0], "time averaging factors");
  T(i.BdaChanFreqs().size() == m.freq.size() && i.BdaChanWidths().size() == m.freq.size(), "number of frequency lists");
  for (size_t b = 0; b < m.freq.size(); ++b) T(Near(i.chanFreqs(b), m.freq[b]) && Near(i.chanWidths(b), m.width[b]) && Near(i.resolutions(b), m.res[b]) && Near(i.effectiveBW(b), m.bw[b]), "frequencies, widths, resolutions or bandwidths of list " + std::to_string(b));
  T(Near(i.totalBW(), m.total), "total bandwidth is " + vp::Str(i.totalBW()) + ", not " + vp::Str(m.total));
  if (m.ref) T(Near(i.refFreq(), *m.ref), "reference frequency is " + vp::Str(i.refFreq()) + ", not " + vp::Str(*m.ref));
  T(i.spectralWindow() == m.spw, "spectral window"); T(i.hasBDAChannels() == (m.freq.size() == m.ant.a1.size()), "hasBDAChannels");
  T(i.channelsAreRegular() == Regular(m), "channelsAreRegular");
  const size_t na = m.ant.names.size();
  T(i.nantenna() == na && i.antennaNames() == m.ant.names && i.antennaDiam() == m.ant.diam && i.antennaPos().size() == na, "antennas");
  for (size_t a = 0; a < na; ++a) for (int c = 0; c < 3; ++c) T(i.antennaPos()[a].getValue().getValue()[c] == m.ant.pos[a][c], "position of antenna " + std::to_string(a));
  T(i.getAnt1() == m.ant.a1 && i.getAnt2() == m.ant.a2 && i.nbaselines() == m.ant.a1.size(), "baselines");
  VI used, map(na, -1), autoc; std::vector<std::string> names; VD len;
  for (size_t a = 0; a < na; ++a)
    if (std::count(m.ant.a1.begin(), m.ant.a1.end(), int(a)) + std::count(m.ant.a2.begin(), m.ant.a2.end(), int(a))) { map[a] = used.size(); used.push_back(a); names.push_back(m.ant.names[a]); }
  T(i.antennaUsed() == used, "used antennas"); T(i.antennaMap() == map, "antenna map"); T(i.GetUsedAntennaNames() == names, "names of used antennas");
  T(i.metaChanged() == m.changed, "changed mark");
  if (!used.empty()) autoc.assign(used.back() + 1, -1);
  for (size_t b = 0; b < m.ant.a1.size(); ++b) {
    const auto &p = m.ant.pos[m.ant.a1[b]], &q = m.ant.pos[m.ant.a2[b]];
    len.push_back(std::sqrt((p[0] - q[0]) * (p[0] - q[0]) + (p[1] - q[1]) * (p[1] - q[1]) + (p[2] - q[2]) * (p[2] - q[2])));
    if (m.ant.a1[b] == m.ant.a2[b]) autoc[m.ant.a1[b]] = b;
  }
  if (!m.ant.a1.empty()) {
    VI got = i.getAutoCorrIndex();
    while (got.size() > autoc.size() && got.back() == -1) got.pop_back();  // trailing "none" is optional
    T(got == autoc, "autocorrelation indices"); T(Near(i.getBaselineLengths(), len), "baseline lengths");
  }
#undef T
  return "";
}

int main(int argc, char** argv) {
  vp::Init(argc, argv);
  const std::vector<Op> ops = Ops();
  const int depth = vp::Thorough() ? 4 : 3;
  // Two ways to look: after every operation on the same object (filling its
  // caches), or once at the end on a copy of a copy.
  for (int d = 0; d <= depth; ++d) {
    std::vector<size_t> at(d, 0);
    for (;;) {
      for (int look = 0; look < 2; ++look) {
        if (!vp::CaseF([&] { std::string k = look ? "each" : "end"; for (size_t o : at) k += "; " + ops[o].name; return k; })) continue;
        DPInfo info(2, 6, "LBA");
        Model m; m.n_chan = 6;
        const Layout& l = kLayouts[0];
        info.setAntennas(l.names, l.diam, Positions(l), l.a1, l.a2); m.ant = l;
        info.setChannels({1, 2, 3, 4, 5, 6}, {1, 1, 1, 1, 1, 1}, {2, 2, 2, 2, 2, 2}, {1, 2, 3, 4, 5, 6}, 0, 6);
        m.freq = {{1, 2, 3, 4, 5, 6}}; m.width = {VD(6, 1.0)}; m.res = {VD(6, 2.0)}; m.bw = {{1, 2, 3, 4, 5, 6}}; m.total = 21; m.ref = 3.5; m.spw = 6;
        std::string bad;
        for (size_t k = 0; k < at.size() && bad.empty(); ++k) {
          const Op& o = ops[at[k]];
          // Selecting baselines is for data with one frequency list.
          if (m.freq.size() != 1 && o.name.rfind("baselines", 0) == 0) break;
          if (m.freq.size() != 1 && o.name.rfind("antennas", 0) == 0) break;
          const std::string want = o.model(m);
          std::string got;
          try { o.real(info); } catch (std::exception&) { got = "!exception"; } catch (std::string& s) { got = s; }
          vp::Step();
          if (got != want) bad = o.name + " gave '" + got + "' instead of '" + want + "'";
          else if (look) { bad = Compare(info, m); if (!bad.empty()) bad = "after " + o.name + ": " + bad; }
        }
        if (bad.empty() && !look) {
          DPInfo copy(info), other;
          other = copy;
          bad = Compare(other, m);
          if (bad.empty()) bad = Compare(info, m);
        }
        vp::Check(bad.empty(), bad);
        vp::Trace();
        vp::Outcome(vp::Str(m.n_chan) + "/" + vp::Str(m.n_times) + "/" + vp::Str(m.first) + "/" + vp::Str(m.total) + "/" + vp::Str(m.ant.a1.size()) + "/" + vp::Str(m.ant.names.size()));
      }
      int p = d - 1;
      while (p >= 0 && ++at[p] == ops.size()) at[p--] = 0;
      if (p < 0) break;
    }
  }
  return vp::Finish();
}
