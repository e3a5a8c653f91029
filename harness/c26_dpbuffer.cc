// C26: visibility buffers of one time slot under every sequence of copies,
// moves, additions, removals and changes, on two buffers.
#include "vp.h"
#include <map>
#include <xtensor/containers/xtensor.hpp>
#include "base/DPBuffer.h"
using dp3::base::DPBuffer;
using dp3::common::Fields;
typedef std::vector<int> VI;

// Contents are filled from a number, so one number (-1: empty) describes them.
struct Model {
  double time = 0, exposure = 0;
  int data = -1, flags = -1, weights = -1, uvw = -1, rows = -1;
  std::map<std::string, int> extra;
  std::map<std::string, int> sol;
  bool alive = true;
};
static const size_t B = 2, C = 3, P = 2;
static std::complex<float> D(int s, size_t i) { return {float(s * 100 + int(i)), float(-s - int(i))}; }
static void FillData(DPBuffer::DataType& d, int s) { d.resize({B, C, P}); for (size_t i = 0; i < B * C * P; ++i) d.data()[i] = D(s, i); }
static std::vector<std::vector<std::complex<double>>> Sol(int s, size_t ndir) {
  std::vector<std::vector<std::complex<double>>> v(2);
  for (size_t c = 0; c < 2; ++c) for (size_t i = 0; i < 3 * ndir * 2; ++i) v[c].emplace_back(s * 1000 + c * 100 + i, -double(i));
  return v;
}

static bool SameData(const DPBuffer::DataType& d, int s) {
  if (s < 0) return d.size() == 0;
  if (d.shape(0) != B || d.shape(1) != C || d.shape(2) != P) return false;
  if (s >= 100000) return true;  // shape only
  for (size_t i = 0; i < B * C * P; ++i) if (d.data()[i] != D(s, i)) return false;
  return true;
}

static std::string Compare(const DPBuffer& b, const Model& m) {
  if (b.GetTime() != m.time || b.GetExposure() != m.exposure) return "time or exposure";
  if (!SameData(b.GetData(), m.data)) return "main visibilities";
  std::vector<std::string> names{""};
  for (auto& e : m.extra) {
    names.push_back(e.first);
    if (!b.HasData(e.first)) return "visibilities " + e.first + " are missing";
    if (!SameData(b.GetData(e.first), e.second)) return "visibilities " + e.first;
  }
  if (b.GetDataNames() != names) return "names of visibilities";
  for (auto n : {"x", "y", "z"}) {
    if (b.HasData(n) != (m.extra.count(n) > 0)) return std::string("HasData ") + n;
    if (!m.extra.count(n) && vp::Throws([&] { b.GetData(n); }) == "") return std::string("absent visibilities are returned: ") + n;
  }
  if (m.flags < 0) { if (b.GetFlags().size()) return "flags not empty"; }
  else { if (b.GetFlags().size() != B * C * P) return "flags shape"; for (size_t i = 0; i < B * C * P; ++i) if (b.GetFlags().data()[i] != bool((m.flags >> (i % 5)) & 1)) return "flags"; }
  if (m.weights < 0) { if (b.GetWeights().size()) return "weights not empty"; }
  else { if (b.GetWeights().size() != B * C * P) return "weights shape"; for (size_t i = 0; i < B * C * P; ++i) if (b.GetWeights().data()[i] != float(m.weights + int(i))) return "weights"; }
  if (m.uvw < 0) { if (b.GetUvw().size()) return "uvw not empty"; }
  else { if (b.GetUvw().size() != B * 3) return "uvw shape"; for (size_t i = 0; i < B * 3; ++i) if (b.GetUvw().data()[i] != m.uvw * 10.0 + i) return "uvw"; }
  if (m.rows < 0) { if (b.GetRowNumbers().size()) return "row numbers not empty"; }
  else { if (b.GetRowNumbers().size() != B) return "row numbers shape"; for (size_t i = 0; i < B; ++i) if (b.GetRowNumbers()[i] != m.rows + i) return "row numbers"; }
  std::vector<std::string> dirs;
  for (auto& s : m.sol) dirs.push_back(s.first);
  if (b.GetSolutionDirectionNames() != dirs) return "solution directions";
  for (auto& s : m.sol) {
    // The value holds seed, direction index and number of directions.
    const int seed = s.second / 100, dir = (s.second / 10) % 10, ndir = s.second % 10;
    const auto want = Sol(seed, ndir);
    const auto got = b.GetSolution(s.first);
    if (got.size() != 2) return "solution shape";
    for (size_t c = 0; c < 2; ++c) {
      if (got[c].size() != 6) return "solution shape";
      for (size_t a = 0; a < 3; ++a) for (size_t p = 0; p < 2; ++p)
        if (got[c][a * 2 + p] != want[c][(a * ndir + dir) * 2 + p]) return "solution of " + s.first;
    }
    if (b.GetSolution().at(s.first).shape(0) != 2) return "solution shape";
  }
  if (vp::Throws([&] { b.GetSolution("nodir"); }) == "") return "solution of an absent direction is returned";
  return "";
}

typedef std::array<DPBuffer, 2> Real;
typedef std::array<Model, 2> Mod;
struct Op { std::string name; std::function<bool(const Mod&)> pre; std::function<void(Real&)> real; std::function<void(Mod&)> model; };

static std::vector<Op> Ops() {
  std::vector<Op> ops;
  auto yes = [](const Mod&) { return true; };
  for (int a = 0; a < 2; ++a) {
    const int o = 1 - a;
    const std::string A = a ? "b" : "a", O = o ? "b" : "a";
    ops.push_back({A + ".fill", yes, [=](Real& r) {
        DPBuffer& b = r[a];
        FillData(b.GetData(), 3 + a);
        b.GetFlags().resize({B, C, P}); b.GetWeights().resize({B, C, P}); b.GetUvw().resize({B, 3});
        for (size_t i = 0; i < B * C * P; ++i) { b.GetFlags().data()[i] = (((9 + a) >> (i % 5)) & 1); b.GetWeights().data()[i] = 5 + a + int(i); }
        for (size_t i = 0; i < B * 3; ++i) b.GetUvw().data()[i] = (7 + a) * 10.0 + i;
        b.SetTime(11 + a); b.SetExposure(0.5 + a);
        casacore::Vector<dp3::common::rownr_t> rows(B); for (size_t i = 0; i < B; ++i) rows[i] = 40 + a + i;
        b.SetRowNumbers(rows);
      }, [=](Mod& m) { Model& b = m[a]; b.data = 3 + a; b.flags = 9 + a; b.weights = 5 + a; b.uvw = 7 + a; b.time = 11 + a; b.exposure = 0.5 + a; b.rows = 40 + a; }});
    // Change values in place: must not be seen through another buffer.
    ops.push_back({A + ".change", [=](const Mod& m) { return m[a].data >= 0 && m[a].flags >= 0 && m[a].weights >= 0 && m[a].uvw >= 0; }, [=](Real& r) {
        DPBuffer& b = r[a];
        for (size_t i = 0; i < B * C * P; ++i) { b.GetData().data()[i] = D(77, i); b.GetFlags().data()[i] = ((21 >> (i % 5)) & 1); b.GetWeights().data()[i] = 60 + int(i); }
        for (size_t i = 0; i < B * 3; ++i) b.GetUvw().data()[i] = 90 * 10.0 + i;
        b.SetTime(99);
      }, [=](Mod& m) { Model& b = m[a]; b.data = 77; b.flags = 21; b.weights = 60; b.uvw = 90; b.time = 99; }});
    ops.push_back({A + "=" + O, yes, [=](Real& r) { r[a] = r[o]; }, [=](Mod& m) { m[a] = m[o]; }});
    ops.push_back({A + "=copyof(" + O + ")", yes, [=](Real& r) { DPBuffer t(r[o]); r[a] = std::move(t); }, [=](Mod& m) { m[a] = m[o]; }});
    ops.push_back({A + "=" + A, yes, [=](Real& r) { DPBuffer& x = r[a]; r[a] = x; r[a] = std::move(x); r[a].Copy(x, Fields(Fields::Single::kData), true); }, [](Mod&) {}});
    // After a move the source is only assigned to.
    ops.push_back({A + "=move(" + O + ")", yes, [=](Real& r) { r[a] = std::move(r[o]); r[o] = DPBuffer(1, 2); }, [=](Mod& m) { m[a] = m[o]; m[o] = Model(); m[o].time = 1; m[o].exposure = 2; }});
    ops.push_back({A + "=movedfrom(" + O + ")", yes, [=](Real& r) { DPBuffer t(std::move(r[o])); r[o] = DPBuffer(); r[a] = t; t.SetTime(5); if (t.GetData().size()) t.GetData().fill(1); }, [=](Mod& m) { m[a] = m[o]; m[o] = Model(); }});
    for (int f = 0; f < 8; ++f) {
      Fields fields;
      if (f & 1) fields |= Fields(Fields::Single::kData);
      if (f & 2) fields |= Fields(Fields::Single::kFlags);
      if (f & 4) fields |= Fields(Fields::Single::kWeights) | Fields(Fields::Single::kUvw);
      auto apply = [=](Model& t, const Model& s) { t.time = s.time; t.exposure = s.exposure; t.rows = s.rows; t.sol = s.sol; if (f & 1) t.data = s.data; if (f & 2) t.flags = s.flags; if (f & 4) { t.weights = s.weights; t.uvw = s.uvw; } };
      ops.push_back({A + ".Copy(" + O + "," + std::to_string(f) + ")", yes, [=](Real& r) { r[a].Copy(r[o], fields, f == 3 || f == 4); },
        [=](Mod& m) { apply(m[a], m[o]); if (f == 3 || f == 4) m[a].extra = m[o].extra; }});
      if (f == 0 || f == 7 || f == 5)
        ops.push_back({A + "=DPBuffer(" + O + "," + std::to_string(f) + ")", yes, [=](Real& r) { DPBuffer t(r[o], fields); r[a] = t; }, [=](Mod& m) { Model t; apply(t, m[o]); m[a] = t; }});
    }
    for (std::string n : {"x", "y"}) {
      ops.push_back({A + ".AddData(" + n + ")", [=](const Mod& m) { return !m[a].extra.count(n); }, [=](Real& r) { r[a].AddData(n); }, [=](Mod& m) { m[a].extra[n] = m[a].data < 0 ? -1 : 100000; }});
      ops.push_back({A + ".set(" + n + ")", [=](const Mod& m) { return m[a].extra.count(n) > 0; }, [=](Real& r) { FillData(r[a].GetData(n), n == "x" ? 50 : 51); }, [=](Mod& m) { m[a].extra[n] = n == "x" ? 50 : 51; }});
      ops.push_back({A + ".RemoveData(" + n + ")", yes, [=](Real& r) { r[a].RemoveData(n); }, [=](Mod& m) { m[a].extra.erase(n); }});
      for (int s = 0; s < 2; ++s) for (std::string from : {"", "x", "y"}) {
        const std::string S = s ? "b" : "a";
        auto has = [=](const Mod& m) { return from.empty() || m[s].extra.count(from) > 0; };
        if (!(s == a && from == n)) {
          ops.push_back({A + ".CopyData(" + S + "," + from + "," + n + ")", has, [=](Real& r) { r[a].CopyData(r[s], from, n); }, [=](Mod& m) { m[a].extra[n] = from.empty() ? m[s].data : m[s].extra[from]; }});
          ops.push_back({A + ".MoveData(" + S + "," + from + "," + n + ")", has, [=](Real& r) { r[a].MoveData(r[s], from, n); if (from.empty()) { DPBuffer::DataType d; r[s].GetData() = d; } },
            [=](Mod& m) { const int v = from.empty() ? m[s].data : m[s].extra[from]; if (from.empty()) m[s].data = -1; else m[s].extra.erase(from); m[a].extra[n] = v; }});
        }
      }
    }
    ops.push_back({A + ".RemoveData()", yes, [=](Real& r) { r[a].RemoveData(); }, [=](Mod& m) { m[a].extra.clear(); }});
    ops.push_back({A + ".TakeData", yes, [=](Real& r) { DPBuffer::DataType d = r[a].TakeData(); d.resize({1, 1, 1}); d.fill(9); }, [=](Mod& m) { m[a].data = -1; }});
    ops.push_back({A + ".data=" + O + ".TakeData", yes, [=](Real& r) { r[a].GetData() = r[o].TakeData(); r[a].GetWeights() = r[o].TakeWeights(); }, [=](Mod& m) { m[a].data = m[o].data; m[o].data = -1; m[a].weights = m[o].weights; m[o].weights = -1; }});
    for (int k = 0; k < 2; ++k)
      ops.push_back({A + ".SetSolution" + std::to_string(k), yes, [=](Real& r) { std::vector<std::string> d{"d0"}; if (k) d = {"d2", "d1", "d0"}; r[a].SetSolution(Sol(a + 2 * k, d.size()), 3, 2, d); },
        [=](Mod& m) { if (k) { m[a].sol["d2"] = (a + 2) * 100 + 3; m[a].sol["d1"] = (a + 2) * 100 + 13; m[a].sol["d0"] = (a + 2) * 100 + 23; } else m[a].sol["d0"] = a * 100 + 1; }});
    ops.push_back({A + ".SetSolution(" + O + ")", yes, [=](Real& r) { r[a].SetSolution(r[o].GetSolution()); }, [=](Mod& m) { m[a].sol = m[o].sol; }});
  }
  return ops;
}

int main(int argc, char** argv) {
  vp::Init(argc, argv);
  const std::vector<Op> ops = Ops();
  const int depth = vp::Thorough() ? 4 : 3;
  // Histories start from filled buffers (a with extra data) or empty ones.
  std::vector<std::vector<size_t>> starts{{}};
  {
    std::vector<size_t> s;
    for (const char* n : {"a.fill", "b.fill", "a.CopyData(a,,x)", "a.set(x)", "b.SetSolution1"})
      for (size_t i = 0; i < ops.size(); ++i) if (ops[i].name == n) s.push_back(i);
    starts.push_back(s);
  }
  for (auto& start : starts)
    for (int d = 0; d <= depth - (start.empty() ? 1 : 0); ++d) {
      std::vector<size_t> at(d, 0);
      for (;;) {
        // Leave out the histories with an operation that does not apply.
        int p = d - 1;
        {
          Mod m;
          for (size_t o : start) ops[o].model(m);
          int k = 0;
          while (k < d && ops[at[k]].pre(m)) ops[at[k++]].model(m);
          if (k < d) { for (int j = k + 1; j < d; ++j) at[j] = 0; p = k; }
          if (k < d) { while (p >= 0 && ++at[p] == ops.size()) at[p--] = 0; if (p < 0) break; continue; }
        }
        if (vp::CaseF([&] { std::string k = start.empty() ? "empty" : "filled"; for (size_t o : at) k += "; " + ops[o].name; return k; })) {
          Real r; Mod m;
          std::string bad;
          std::vector<size_t> seq = start;
          seq.insert(seq.end(), at.begin(), at.end());
          // Prefixes are histories of their own: compare at the end.
          for (size_t i = 0; i < seq.size(); ++i) {
            const size_t o = seq[i];
            ops[o].real(r); ops[o].model(m);
            vp::Step();
            if (i + 1 < seq.size()) continue;
            for (int b = 0; b < 2 && bad.empty(); ++b) { bad = Compare(r[b], m[b]); if (!bad.empty()) bad = "after " + ops[o].name + ", buffer " + (b ? "b: " : "a: ") + bad; }
            if (!bad.empty()) break;
          }
          vp::Check(bad.empty(), bad);
          vp::Trace();
          vp::Outcome(vp::Str(m[0].data) + "/" + vp::Str(m[1].data) + "/" + vp::Str(m[0].extra.size()) + "/" + vp::Str(m[1].extra.size()) + "/" + vp::Str(m[0].sol.size()) + "/" + vp::Str(m[0].weights) + "/" + vp::Str(m[1].time));
        }
        while (p >= 0 && ++at[p] == ops.size()) at[p--] = 0;
        if (p < 0) break;
      }
    }
  return vp::Finish();
}
