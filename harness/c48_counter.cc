// C48: what the counter shows are the counts of the flags it has seen.
#include <unistd.h>
#include <fstream>
#include <set>
#include <sstream>
#include "vp.h"
#include "step_kit.h"
#include "base/FlagCounter.h"
#include "steps/Counter.h"
using namespace kit;
using dp3::base::FlagCounter;
using dp3::steps::Counter;

struct Layout { const char* name; unsigned nant; std::vector<int> a1, a2; };

static long Percent(long c, long n) { return (200 * c + n) / (2 * n); }
static std::vector<std::string> Lines(const std::string& s) {
  std::vector<std::string> l; std::istringstream in(s);
  for (std::string x; std::getline(in, x);) l.push_back(x);
  return l;
}
static std::vector<long> Numbers(const std::string& s) {
  std::vector<long> n;
  for (size_t i = 0; i < s.size(); ++i) if (isdigit(s[i])) { n.push_back(strtol(s.c_str() + i, nullptr, 10)); while (i < s.size() && isdigit(s[i])) ++i; }
  return n;
}

struct Model {
  const Layout& l; unsigned nchan, slots;
  std::vector<long> bl, ch;
  long Total() const { long n = 0; for (long x : ch) n += x; return n; }
  // Flagged and all points of an antenna or a pair.
  std::pair<long, long> Of(int a, int b) const {
    long c = 0, n = 0;
    for (size_t i = 0; i < l.a1.size(); ++i) {
      const bool use = b < 0 ? l.a1[i] == a || l.a2[i] == a : (l.a1[i] == a && l.a2[i] == b) || (l.a1[i] == b && l.a2[i] == a);
      if (use) { c += bl[i]; n += long(nchan) * slots; }
    }
    return {c, n};
  }
  bool Has(int a, int b) const { for (size_t i = 0; i < l.a1.size(); ++i) if ((l.a1[i] == a && (b < 0 || l.a2[i] == b)) || (l.a2[i] == a && (b < 0 || l.a1[i] == b))) return true; return false; }
};

static void CheckNotes(const std::vector<std::string>& lines, const char* what, double warn, const std::vector<std::pair<int, std::pair<long, long>>>& all, const std::function<std::string(int)>& id) {
  size_t at = 0;
  std::vector<std::string> notes;
  for (auto& x : lines) if (x.find("NOTE") != std::string::npos && x.find(what) != std::string::npos) notes.push_back(x);
  for (auto& [i, cn] : all) {
    const double p = 100.0 * cn.first / std::max(cn.second, 1l);
    if (warn <= 0 || p < warn) continue;
    if (!vp::Check(at < notes.size(), "no note about ", id(i))) return;
    const std::string& n = notes[at++];
    const size_t pos = n.find(id(i));
    vp::Check(pos != std::string::npos && (pos + id(i).size() == n.size() || !isdigit(n[pos + id(i).size()])), "note ", vp::Str(n), " is not about ", id(i));
    const size_t pc = n.find('%');
    const std::vector<long> num = Numbers(n.substr(0, pc));
    vp::Check(pc != std::string::npos && num.size() == 2 && num[0] * 10 + num[1] == long(10 * p + 0.5), "note ", vp::Str(n), " for ", p, "%");
    vp::Check(n.find('%', pc + 1) == std::string::npos && n.compare(pc + 1, 4, " of ") == 0, "a note gives more than the percentage: ", vp::Str(n));
    vp::Step();
  }
  vp::Check(at == notes.size(), "a note too many: ", vp::Str(notes.empty() ? "" : notes.back()));
}

static void CheckText(const Model& m, const std::string& text, double warn, bool fully) {
  const std::vector<std::string> lines = Lines(text);
  // The table of the antenna pairs: blocks of some antennas, 5 characters each.
  std::vector<int> used;
  for (unsigned a = 0; a < m.l.nant; ++a) if (m.Has(a, -1)) used.push_back(a);
  size_t i = 0, done = 0;
  std::vector<std::pair<int, int>> full;
  for (; i < lines.size() && done < used.size(); ++i) {
    if (lines[i].compare(0, 4, " ant") != 0) continue;
    std::vector<int> cols; for (long x : Numbers(lines[i].substr(4))) cols.push_back(x);
    for (size_t k = 0; k < cols.size(); ++k) if (!vp::Check(done + k < used.size() && cols[k] == used[done + k], "column of antenna ", cols[k], " at place ", done + k)) return;
    if (!vp::Check(!cols.empty(), "no columns")) return;
    for (int r : used) {
      if (!vp::Check(++i < lines.size(), "no line for antenna ", r)) return;
      const std::string& s = lines[i];
      if (!vp::Check(atoi(s.c_str()) == r, "line ", vp::Str(s), " instead of that of antenna ", r)) return;
      for (size_t k = 0; k < cols.size(); ++k) {
        const std::string cell = s.size() > 5 + 5 * k ? s.substr(5 + 5 * k, 5) : "";
        const std::vector<long> v = Numbers(cell);
        const bool has = m.Has(r, cols[k]);
        vp::Step();
        if (!has) { vp::Check(v.empty() && cell.find('%') == std::string::npos, "a percentage for ", r, "-", cols[k], ", which is no baseline"); continue; }
        const auto [c, n] = m.Of(r, cols[k]);
        const long want = Percent(c, std::max(n, 1l));
        vp::Check(v.size() == 1 && v[0] == want && cell.back() == '%' && cell.find('-') == std::string::npos, "baseline ", r, "-", cols[k], " shows ", vp::Str(cell), " instead of ", want, "%");
        if (r <= cols[k] && n && c == n) full.emplace_back(r, cols[k]);
      }
    }
    if (!vp::Check(++i < lines.size() && lines[i].compare(0, 5, "TOTAL") == 0, "no totals")) return;
    const std::vector<long> tot = Numbers(lines[i]);
    if (!vp::Check(tot.size() == cols.size(), tot.size(), " totals")) return;
    for (size_t k = 0; k < cols.size(); ++k) {
      const auto [c, n] = m.Of(cols[k], -1);
      vp::Check(tot[k] == Percent(c, std::max(n, 1l)) && lines[i].find('-') == std::string::npos, "antenna ", cols[k], " shows ", tot[k], "% instead of ", Percent(c, std::max(n, 1l)));
    }
    done += cols.size();
  }
  vp::Check(done == used.size(), "the table has ", done, " of ", used.size(), " antennas");
  std::vector<std::pair<int, std::pair<long, long>>> ants, chans;
  for (int a : used) ants.emplace_back(a, m.Of(a, -1));
  const long npoint = long(m.l.a1.size()) * m.slots;
  for (unsigned c = 0; c < m.nchan && npoint; ++c) chans.push_back({int(c), {m.ch[c], npoint}});
  CheckNotes(lines, "for station", warn, ants, [](int a) { return "station " + std::to_string(a) + " (ant" + std::to_string(a) + ")"; });
  CheckNotes(lines, "for channel", warn, chans, [](int c) { return "channel " + std::to_string(c); });
  // Baselines without unflagged points.
  const size_t f = text.find("Fully flagged");
  vp::Check((f != std::string::npos) == fully, "fully flagged baselines are ", fully ? "not " : "", "shown");
  if (f != std::string::npos) {
    const std::string s = text.substr(f, text.find('\n', f) - f);
    const std::vector<long> v = Numbers(s);
    std::multiset<std::pair<int, int>> got, want(full.begin(), full.end());
    for (size_t k = 0; k + 1 < v.size(); k += 2) got.emplace(v[k], v[k + 1]);
    vp::Check(v.size() % 2 == 0 && got == want, "fully flagged: ", vp::Str(s), " with ", full.size(), " such baselines");
  }
  // The channels.
  const size_t p = text.find("per channel:");
  if (!vp::Check(p != std::string::npos, "no channels")) return;
  if (!npoint) return;
  const std::vector<std::string> cl = Lines(text.substr(p));
  unsigned ch = 0;
  for (size_t k = 1; k < cl.size() && ch < m.nchan; ++k) {
    const size_t colon = cl[k].find(':');
    if (colon == std::string::npos || cl[k].compare(0, 5, "Total") == 0) continue;
    const std::vector<long> range = Numbers(cl[k].substr(0, colon)), v = Numbers(cl[k].substr(colon));
    if (!vp::Check(range.size() == 2 && range[0] == ch && range[1] == long(ch + v.size()) - 1 && !v.empty() && range[1] < m.nchan, "range of channels ", vp::Str(cl[k]))) return;
    for (long x : v) { vp::Check(x == Percent(m.ch[ch], npoint), "channel ", ch, " shows ", x, "% instead of ", Percent(m.ch[ch], npoint)); ++ch; vp::Step(); }
  }
  vp::Check(ch == m.nchan, ch, " channels shown");
  const size_t t = text.find("Total flagged:");
  if (!vp::Check(t != std::string::npos, "no total")) return;
  const std::vector<long> v = Numbers(text.substr(t, text.find('\n', t) - t));
  const long all = npoint * m.nchan, permil = long(100000.0 * m.Total() / all + 0.5);
  vp::Check(v.size() == 4 && v[0] == permil / 1000 && v[1] == permil % 1000 && v[2] == m.Total() && v[3] == all, "total: ", vp::Str(text.substr(t, text.find('\n', t) - t)), " for ", m.Total(), " of ", all);
  const size_t dot = text.find('.', t);
  vp::Check(dot != std::string::npos && isdigit(text[dot + 3]) && text[dot + 4] == '%', "total without three decimals");
}

static void CheckJson(const Model& m, const std::string& s) {
  for (unsigned a = 0; a < m.l.nant; ++a) {
    const std::string k = "'ant" + std::to_string(a) + "': ";
    const size_t p = s.find(k);
    if (!vp::Check(p != std::string::npos, "the file has no station ", a)) continue;
    const auto [c, n] = m.Of(a, -1);
    const double want = n ? double(c) / n : 0;
    char* end; const char* from = s.c_str() + p + k.size();
    const double got = strtod(from, &end);
    vp::Check(end > from && std::abs(got - want) < 1e-5 && (*end == ',' || *end == '}'), "station ", a, " has fraction ", got, " instead of ", want);
  }
  vp::Check(std::count(s.begin(), s.end(), ':') == long(m.l.nant) + 1 && s.compare(0, 27, "{\"flagged_fraction_dict\": \"") == 0 && s.size() > 4 && s.compare(s.size() - 3, 3, "}\"}") == 0, "the file is ", vp::Str(s));
}

int main(int argc, char** argv) {
  vp::Init(argc, argv);
  const bool th = vp::Thorough();
  std::vector<Layout> layouts{{"one", 2, {0}, {1}}, {"auto", 1, {0}, {0}}, {"two+auto", 2, {0, 0, 1}, {0, 1, 1}}, {"reversed", 3, {1, 2, 0}, {0, 1, 2}},
                              {"gap", 5, {1, 1, 3}, {3, 4, 4}}, {"last unused", 4, {0, 2}, {2, 0}}, {"none", 2, {}, {}}};
  for (int n : {10, 15, 16, 31}) {
    Layout l{"chain", unsigned(n + 2), {}, {}};
    for (int a = 1; a <= n; ++a) { l.a1.push_back(a); l.a2.push_back(a % 3 == 0 ? a : a == n ? 1 : a + 1); }
    layouts.push_back(l);
  }
  const double kWarn[] = {0, 25, 50, 100};
  for (size_t li = 0; li < layouts.size(); ++li) for (unsigned nchan : {1u, 2u, 10u, 11u, 21u}) for (unsigned ncorr : {1u, 2u, 4u}) for (unsigned slots : {0u, 1u, 2u, 3u}) {
    const Layout& l = layouts[li];
    const unsigned nbl = l.a1.size(), points = nbl * nchan * slots;
    // All patterns of few points, else some of every density.
    const bool all = points <= (th ? 12u : 8u);
    const uint64_t patterns = all ? 1ull << points : th ? 60 : 14;
    for (uint64_t q = 0; q < patterns; ++q) for (int w = 0; w < 4; ++w) {
      if (!th && (w + q + ncorr) % 2 && points > 4) continue;
      if (!vp::CaseF([&] { return std::string(l.name) + std::to_string(nbl) + " nchan=" + std::to_string(nchan) + " ncorr=" + std::to_string(ncorr) + " slots=" + std::to_string(slots) + " pattern=" + std::to_string(q) + " warn=" + std::to_string(int(kWarn[w])); })) continue;
      Shape s{nbl, nchan, ncorr, l.nant};
      s.a1 = l.a1; s.a2 = l.a2; s.ntime = std::max(1u, slots);
      DPInfo info = Info(s);
      if (nbl == 0) { std::vector<double> d(2, 70); info.setAntennas(info.antennaNames(), d, info.antennaPos(), {}, {}); }
      const bool fully = w % 2, json = (q + w) % 3 != 0;
      char file[] = "c48_XXXXXX"; const int fd = mkstemp(file); if (fd >= 0) close(fd);
      auto step = std::make_shared<Counter>(Parset({{"c.warnperc", vp::Str(kWarn[w])}, {"c.showfullyflagged", fully ? "true" : "false"}, {"c.savetojson", json ? "true" : "false"}, {"c.jsonfilename", file}}), "c.");
      auto sink = std::make_shared<Sink>();
      step->setNextStep(sink);
      step->setInfo(info);
      Model m{l, nchan, slots, std::vector<long>(nbl), std::vector<long>(nchan)};
      FlagCounter direct, parts[2];
      direct.init(info); parts[0].init(info); parts[1].init(info);
      std::vector<long> corr(ncorr);
      unsigned at = 0;
      for (unsigned t = 0; t < slots; ++t) {
        auto b = Buffer(s, t);
        for (unsigned i = 0; i < nbl; ++i) for (unsigned c = 0; c < nchan; ++c, ++at) {
          const bool on = all ? q >> at & 1 : q == 0 ? true : q == 1 ? i % 2 : q == 2 ? false : (at * 2654435761u >> 8) % 13 < q;
          for (unsigned k = 0; k < ncorr; ++k) {
            const bool f = k ? (on + k + at) % 3 == 0 : on;
            b->GetFlags()(i, c, k) = f;
            if (f) { direct.incrCorrelation(k); parts[at % 2].incrCorrelation(k); ++corr[k]; }
          }
          if (on) { ++m.bl[i]; ++m.ch[c]; parts[at % 2].incrBaseline(i); parts[at % 2].incrChannel(c); }
        }
        step->process(std::move(b));
        vp::Step();
      }
      step->finish();
      vp::Check(sink->out.size() == slots && sink->finished == 1, sink->out.size(), " slots passed on");
      std::ostringstream o; step->showCounts(o);
      CheckText(m, o.str(), kWarn[w], fully);
      if (json) { std::ifstream in(file); std::ostringstream c; c << in.rdbuf(); CheckJson(m, c.str()); vp::Check(o.str().find(file) != std::string::npos, "the file is not named"); }
      else { std::ifstream in(file); vp::Check(in.peek() == EOF, "a file is written"); }
      unlink(file);
      // Counts that are added up, and the correlations.
      direct.add(parts[0]); direct.add(parts[1]);
      for (unsigned i = 0; i < nbl; ++i) vp::Check(direct.baselineCounts()[i] == m.bl[i], "sum of baseline ", i);
      for (unsigned c = 0; c < nchan; ++c) vp::Check(direct.channelCounts()[c] == m.ch[c], "sum of channel ", c);
      std::ostringstream oc; direct.showCorrelation(oc, slots);
      std::vector<long> v = Numbers(oc.str());
      const long n = std::max(1l, long(points));
      std::vector<long> want; for (long x : corr) want.push_back(2 * x); want.push_back(n); for (long x : corr) want.push_back(Percent(2 * x, n));
      vp::Check(v == want, "correlations: ", vp::Str(oc.str()));
      direct.init(info);
      for (long x : direct.correlationCounts()) vp::Check(x == 0, "counts are not cleared");
      vp::Outcome(std::to_string(m.Total() == 0) + std::to_string(all && m.Total() == long(points)) + (o.str().find("NOTE") != std::string::npos ? "n" : "") + std::to_string(li));
      vp::Trace();
    }
  }
  return vp::Finish();
}
