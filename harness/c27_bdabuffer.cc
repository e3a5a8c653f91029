// C27: buffers of baseline-dependently averaged rows under every sequence of
// additions, copies, moves, removals and clears, for all enabled fields.
#include "vp.h"
#include <array>
#include <map>
#include <memory>
#include "base/BdaBuffer.h"
using dp3::base::BdaBuffer;
using dp3::common::Fields;
typedef std::complex<float> C;

struct MRow { double time, interval, exposure; size_t bl, nc, np; unsigned nr; bool uvw; };
struct Model {
  size_t cap = 0;
  std::map<std::string, std::vector<C>> data;
  bool has_flags = false, has_weights = false;
  std::vector<char> flags; std::vector<float> weights;
  std::vector<MRow> rows;
  size_t used() const { size_t n = 0; for (auto& r : rows) n += r.nc * r.np; return n; }
};
struct Pair { std::unique_ptr<BdaBuffer> b; Model m; };

static Fields MakeFields(int f) {
  Fields r;
  if (f & 1) r |= Fields(Fields::Single::kData);
  if (f & 2) r |= Fields(Fields::Single::kFlags);
  if (f & 4) r |= Fields(Fields::Single::kWeights);
  return r;
}
static const double kUvw[3] = {1.5, -2.5, 3.25};

static std::string Compare(BdaBuffer& b, const Model& m) {
  const BdaBuffer& c = b;
  if (b.GetNumberOfElements() != m.used() || b.GetRemainingCapacity() != m.cap - m.used()) return "number of elements is " + std::to_string(b.GetNumberOfElements()) + " with " + std::to_string(b.GetRemainingCapacity()) + " left, not " + std::to_string(m.used()) + " of " + std::to_string(m.cap);
  std::vector<std::string> names;
  for (auto& d : m.data) names.push_back(d.first);
  if (b.GetDataNames() != names) return "names of visibilities";
  for (auto n : {"", "x", "y"}) if (b.HasData(n) != (m.data.count(n) > 0)) return std::string("HasData(") + n + ")";
  if (c.GetRows().size() != m.rows.size()) return "number of rows";
  for (auto n : {"", "x", "y"}) {
    auto it = m.data.find(n);
    const bool there = it != m.data.end() && m.used() > 0;
    if ((b.GetData(n) != nullptr) != there || c.GetData(n) != b.GetData(n)) return std::string("pointer to visibilities '") + n + "'";
    if (there) for (size_t i = 0; i < m.used(); ++i) if (c.GetData(n)[i] != it->second[i]) return std::string("value of visibilities '") + n + "'";
  }
  if ((b.GetFlags() != nullptr) != (m.has_flags && m.used() > 0) || c.GetFlags() != b.GetFlags()) return "pointer to flags";
  if ((b.GetWeights() != nullptr) != (m.has_weights && m.used() > 0) || c.GetWeights() != b.GetWeights()) return "pointer to weights";
  size_t off = 0;
  for (size_t r = 0; r < m.rows.size(); ++r) {
    const MRow& w = m.rows[r]; const BdaBuffer::Row& g = c.GetRows()[r];
    if (g.time != w.time || g.interval != w.interval || g.exposure != w.exposure || g.row_nr != w.nr || g.baseline_nr != w.bl || g.n_channels != w.nc || g.n_correlations != w.np || g.GetDataSize() != w.nc * w.np) return "description of row " + std::to_string(r);
    for (int i = 0; i < 3; ++i) if (w.uvw ? g.uvw[i] != kUvw[i] : !std::isnan(g.uvw[i])) return "uvw of row " + std::to_string(r);
    for (size_t i = 0; i < w.nc * w.np; ++i) {
      for (auto& d : m.data) if (b.GetData(r, d.first)[i] != d.second[off + i] || c.GetData(r, d.first)[i] != d.second[off + i]) return "visibilities '" + d.first + "' of row " + std::to_string(r);
      if (m.has_flags && (b.GetFlags(r)[i] != bool(m.flags[off + i]) || c.GetFlags(r)[i] != bool(m.flags[off + i]))) return "flags of row " + std::to_string(r);
      if (m.has_weights && (b.GetWeights(r)[i] != m.weights[off + i] || c.GetWeights(r)[i] != m.weights[off + i])) return "weights of row " + std::to_string(r);
    }
    off += w.nc * w.np;
  }
  return "";
}

struct RowSpec { const char* n; double dt, interval; size_t nc, np; int given; };  // given: bits data flags weights uvw
static const RowSpec kRows[] = {{"same", 0, 1, 2, 2, 15}, {"next", 1, 1, 1, 2, 0}, {"long", 0.5, 2, 3, 1, 5}, {"early", -1, 1, 1, 1, 15}, {"touch", -2.5, 2, 1, 1, 10}, {"big", 0, 1, 4, 2, 15}, {"nothing", 0, 1, 0, 2, 15}};

int main(int argc, char** argv) {
  vp::Init(argc, argv);
  struct Op { std::string name; std::function<std::string(std::array<Pair, 2>&)> run; };
  std::vector<Op> ops;
  for (int a = 0; a < 2; ++a) {
    const int o = 1 - a;
    const std::string A = a ? "b." : "a.";
    for (const RowSpec& rs : kRows) {
      if (a && rs.given != 15) continue;
      ops.push_back({A + "AddRow(" + rs.n + ")", [=](std::array<Pair, 2>& s) -> std::string {
        BdaBuffer& b = *s[a].b; Model& m = s[a].m;
        const double last = m.rows.empty() ? 100 : m.rows.back().time;
        const double time = last + rs.dt;
        const size_t n = rs.nc * rs.np, k = m.rows.size();
        std::vector<C> d(n); std::vector<float> w(n); std::unique_ptr<bool[]> f(new bool[n + 1]);
        for (size_t i = 0; i < n; ++i) { d[i] = C(10 * k + i + 1, a + 1); w[i] = 0.5 + k + i; f[i] = (k + i) % 3 == 1; }
        std::string want, got;
        bool added = false;
        if (!m.rows.empty() && time + rs.interval / 2 < m.rows.back().time - m.rows.back().interval / 2 + 2e-6) want = "!exception";
        else if (m.used() + n > m.cap) want = "false";
        else { want = "true"; added = true; }
        try { got = b.AddRow(time, rs.interval, rs.interval / 2, 7 + k, rs.nc, rs.np, 30 + k, rs.given & 1 ? d.data() : nullptr, rs.given & 2 ? f.get() : nullptr, rs.given & 4 ? w.data() : nullptr, rs.given & 8 ? kUvw : nullptr) ? "true" : "false"; }
        catch (std::invalid_argument&) { got = "!exception"; }
        if (got != want) return "result " + got + " instead of " + want;
        if (added) {
          for (auto& v : m.data) for (size_t i = 0; i < n; ++i) v.second.push_back(v.first.empty() && (rs.given & 1) ? d[i] : C(0));
          if (m.has_flags) for (size_t i = 0; i < n; ++i) m.flags.push_back((rs.given & 2) && f[i]);
          if (m.has_weights) for (size_t i = 0; i < n; ++i) m.weights.push_back(rs.given & 4 ? w[i] : 0);
          m.rows.push_back({time, rs.interval, rs.interval / 2, 7 + k, rs.nc, rs.np, unsigned(30 + k), bool(rs.given & 8)});
        }
        return "";
      }});
    }
    for (std::string n : {"", "x"}) {
      ops.push_back({A + "AddData(" + n + ")", [=](std::array<Pair, 2>& s) -> std::string {
        BdaBuffer& b = *s[a].b; Model& m = s[a].m;
        const bool had = m.data.count(n);
        b.AddData(n);
        if (!had) {  // the values are not initialised: fill them
          auto& v = m.data[n];
          for (size_t i = 0; i < m.used(); ++i) v.push_back(C(500 + i, n.size()));
          if (m.used()) { if (!b.GetData(n)) return "no visibilities after AddData"; std::copy(v.begin(), v.end(), b.GetData(n)); }
        }
        return "";
      }});
      ops.push_back({A + "RemoveData(" + n + ")", [=](std::array<Pair, 2>& s) -> std::string { s[a].b->RemoveData(n); s[a].m.data.erase(n); return ""; }});
    }
    for (int from = 0; from < 2; ++from)
      for (auto p : std::vector<std::pair<std::string, std::string>>{{"", "x"}, {"x", ""}, {"x", "x"}, {"", "y"}, {"", ""}}) {
        if (a && from == a) continue;
        ops.push_back({A + "MoveData(" + (from ? "b" : "a") + "," + p.first + "," + p.second + ")", [=](std::array<Pair, 2>& s) -> std::string {
          Model &m = s[a].m, &q = s[from].m;
          if (!q.data.count(p.first) || q.used() != m.used()) return "skip";
          s[a].b->MoveData(*s[from].b, p.first, p.second);
          if (!(a == from && p.first == p.second)) { auto v = q.data[p.first]; q.data.erase(p.first); m.data[p.second] = v; }
          return "";
        }});
      }
    ops.push_back({A + "Clear", [=](std::array<Pair, 2>& s) -> std::string { s[a].b->Clear(); Model& m = s[a].m; for (auto& d : m.data) d.second.clear(); m.flags.clear(); m.weights.clear(); m.rows.clear(); return ""; }});
    for (int f : {0, 1, 2, 5, 7})
      ops.push_back({A + "=copy(" + (o ? "b" : "a") + "," + std::to_string(f) + ")", [=](std::array<Pair, 2>& s) -> std::string {
        const Model q = s[o].m;
        if (f != 7 && a == 0) return "skip";
        s[a].b = std::make_unique<BdaBuffer>(*s[o].b, MakeFields(f));
        Model& m = s[a].m;
        m = q; m.cap = q.used();
        const size_t n = q.used();
        if (!(f & 1)) m.data.clear();
        else if (!m.data.count("")) { auto& v = m.data[""]; for (size_t i = 0; i < n; ++i) v.push_back(C(900 + i, 0)); if (n) { if (!s[a].b->GetData()) return "no main visibilities in the copy"; std::copy(v.begin(), v.end(), s[a].b->GetData()); } }
        m.has_flags = f & 2; m.has_weights = f & 4;
        if (!m.has_flags) m.flags.clear();
        else if (!q.has_flags) { m.flags.assign(n, 1); if (n) { if (!s[a].b->GetFlags()) return "no flags in the copy"; std::fill_n(s[a].b->GetFlags(), n, true); } }
        if (!m.has_weights) m.weights.clear();
        else if (!q.has_weights) { m.weights.assign(n, 4); if (n) { if (!s[a].b->GetWeights()) return "no weights in the copy"; std::fill_n(s[a].b->GetWeights(), n, 4.0f); } }
        return "";
      }});
    if (!a) ops.push_back({A + "change", [=](std::array<Pair, 2>& s) -> std::string {
      BdaBuffer& b = *s[a].b; Model& m = s[a].m;
      for (size_t i = 0; i < m.used(); ++i) {
        if (m.has_flags) { m.flags[i] = i % 2; b.GetFlags()[i] = i % 2; }
        if (m.has_weights) { m.weights[i] = 70 + i; b.GetWeights()[i] = 70 + i; }
        for (auto& d : m.data) { d.second[i] = C(800 + i, d.first.size()); b.GetData(d.first)[i] = C(800 + i, d.first.size()); }
      }
      return "";
    }});
  }
  const int depth = vp::Thorough() ? 4 : 3;
  // Start: a with two rows (or empty), b with a copy's shape; all fields.
  for (int f = 0; f < 8; ++f)
    for (int start = 0; start < 2; ++start)
      for (int d = 0; d <= depth; ++d) {
        std::vector<size_t> at(d, 0);
        for (;;) {
          if (vp::CaseF([&] { std::string k = "fields=" + std::to_string(f) + (start ? " rows" : " empty"); for (size_t o : at) k += "; " + ops[o].name; return k; })) {
            std::array<Pair, 2> s;
            for (int a = 0; a < 2; ++a) {
              s[a].b = std::make_unique<BdaBuffer>(a ? 16 : 12, MakeFields(a ? 7 : f));
              Model& m = s[a].m; const int g = a ? 7 : f;
              m.cap = a ? 16 : 12; if (g & 1) m.data[""]; m.has_flags = g & 2; m.has_weights = g & 4;
            }
            std::string bad;
            if (start) for (size_t i = 0; i < 2; ++i) for (auto& o : ops) if (o.name == (i ? "a.AddRow(next)" : "a.AddRow(same)") || (!i && o.name == "b.AddRow(same)")) { bad = o.run(s); if (!bad.empty()) break; }
            for (size_t i = 0; i < at.size() && bad.empty(); ++i) {
              bad = ops[at[i]].run(s);
              vp::Step();
            }
            if (bad == "skip") { bad = ""; vp::Count("histories cut at an inapplicable operation"); }
            for (int a = 0; a < 2 && bad.empty(); ++a) { bad = Compare(*s[a].b, s[a].m); if (!bad.empty()) bad = std::string("buffer ") + (a ? "b: " : "a: ") + bad; }
            if (bad.empty()) {
              // Equality of the descriptions.
              bool same = s[0].m.rows.size() == s[1].m.rows.size();
              for (size_t i = 0; same && i < s[0].m.rows.size(); ++i) {
                const MRow &x = s[0].m.rows[i], &y = s[1].m.rows[i];
                same = std::fabs(x.time - y.time) < 1e-6 && x.interval == y.interval && x.exposure == y.exposure && x.bl == y.bl && x.nc == y.nc && x.np == y.np && x.nr == y.nr && x.uvw == y.uvw;
              }
              if (s[0].b->IsMetadataEqual(*s[1].b) != same || s[1].b->IsMetadataEqual(*s[0].b) != same) bad = "IsMetadataEqual is wrong";
            }
            vp::Check(bad.empty(), bad);
            vp::Trace();
            vp::Outcome(vp::Str(s[0].m.used()) + "/" + vp::Str(s[1].m.used()) + "/" + vp::Str(s[0].m.data.size()) + "/" + vp::Str(s[1].m.data.size()) + "/" + vp::Str(s[0].m.rows.size()) + vp::Str(s[1].m.has_flags));
          }
          int p = d - 1;
          while (p >= 0 && ++at[p] == ops.size()) at[p--] = 0;
          if (p < 0) break;
        }
      }
  // Time comparisons: a tolerance of 2e-6.
  if (vp::Case("time comparisons")) {
    const double tol = BdaBuffer::kTimeTolerance;
    for (double t : {0.0, 1.0, 100.25})
      for (double k : {-2.0, -1.5, -0.5, 0.0, 0.5, 1.5, 2.0}) {
        const double u = t + k * tol;
        vp::Check(BdaBuffer::TimeIsLess(u, t) == (k < -1), "TimeIsLess");
        vp::Check(BdaBuffer::TimeIsLessEqual(u, t) == (k < 1), "TimeIsLessEqual");
        vp::Check(BdaBuffer::TimeIsGreaterEqual(u, t) == (k > -1), "TimeIsGreaterEqual");
        vp::Check(BdaBuffer::TimeIsEqual(u, t) == (std::fabs(k) < 1), "TimeIsEqual");
        vp::Step(4);
      }
    vp::Trace();
  }
  return vp::Finish();
}
