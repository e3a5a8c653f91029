// C49: new stations are the sums of the baselines of their parts.
#include <map>
#include <set>
#include "vp.h"
#include "step_kit.h"
#include "base/UVWCalculator.h"
#include "steps/StationAdder.h"
using namespace kit;
using dp3::steps::StationAdder;
typedef std::complex<double> D;

namespace dp3::base {
static size_t made_stations = 0;
UVWCalculator::UVWCalculator(const casacore::MDirection&, const casacore::MPosition&, const std::vector<casacore::MPosition>& s) { made_stations = s.size(); }
std::array<double, 3> UVWCalculator::getUVW(unsigned int a, unsigned int b, double t) { return {{double(a) * 7 - double(b) * 3 + std::fmod(t, 16), double(b) * 5 - 6, double(a) * 2 - double(b) + 1}}; }
}  // namespace dp3::base

struct Layout { const char* name; std::vector<int> a1, a2; };
struct New { const char* text; std::vector<std::pair<std::string, std::vector<int>>> parts; bool bad; };
// Names: a0 a1 b0 b1 (and c for the fifth).
static const char* kNames[] = {"a0", "a1", "b0", "b1", "c"};
struct Setup { unsigned nchan, ncorr, minpoints; bool autocorr, sumauto, average, weights; };

struct Row { int a1, a2; std::vector<D> v; std::vector<double> w; std::vector<char> f; std::array<double, 3> uvw; };

static bool Close(double a, double b) { return std::abs(a - b) <= 2e-4 * (1 + std::abs(a) + std::abs(b)); }

// The rows of the new baselines, from the definition: every baseline between a
// part and another station counts, seen from the other station.
static std::vector<Row> Expected(std::vector<Row> rows, const New& n, unsigned nold, const Setup& s, double time, bool hermitian) {
  const size_t np = s.nchan * s.ncorr, first = rows.size();
  int id = nold;
  for (auto& [name, parts] : n.parts) {
    if (parts.empty()) continue;
    const std::set<int> in(parts.begin(), parts.end());
    std::map<int, std::vector<std::pair<size_t, bool>>> from;   // other station: row, turned round
    for (size_t i = 0; i < rows.size(); ++i) {
      const bool h1 = in.count(rows[i].a1), h2 = in.count(rows[i].a2);
      if (h1 && h2) { if (s.autocorr && s.sumauto == (rows[i].a1 == rows[i].a2)) from[id].emplace_back(i, false); }
      else if (h1) from[rows[i].a2].emplace_back(i, true);
      else if (h2) from[rows[i].a1].emplace_back(i, false);
    }
    for (auto& [other, list] : from) {
      Row r; r.a1 = other; r.a2 = id; r.v.resize(np); r.w.resize(np); r.f.resize(np);
      std::array<double, 3> uvw{}; double uw = 0;
      for (size_t k = 0; k < np; ++k) {
        D good = 0, all = 0; double wg = 0, wa = 0; unsigned count = 0;
        for (auto& [i, turned] : list) {
          const unsigned corr = k % s.ncorr;
          const size_t kk = turned && hermitian && s.ncorr == 4 && (corr == 1 || corr == 2) ? k + (corr == 1 ? 1 : -1) : k;
          const double w = s.weights ? rows[i].w[kk] : 1;
          const D x = w * (turned ? std::conj(rows[i].v[kk]) : rows[i].v[kk]);
          all += x; wa += w;
          if (rows[i].f[kk]) continue;
          good += x; wg += w; ++count; uw += w;
          for (int u = 0; u < 3; ++u) uvw[u] += (turned ? -1 : 1) * w * rows[i].uvw[u];
        }
        r.f[k] = wg == 0 || count < s.minpoints;
        r.w[k] = r.f[k] ? wa : wg;
        r.v[k] = r.f[k] ? all : good;
        if (s.average) r.v[k] /= r.w[k];
      }
      if (s.average && uw != 0) for (int u = 0; u < 3; ++u) r.uvw[u] = uvw[u] / uw;
      else r.uvw = dp3::base::UVWCalculator(casacore::MDirection(), casacore::MPosition(), {}).getUVW(other, id, time);
      rows.push_back(r);
    }
    ++id;
  }
  rows.erase(rows.begin(), rows.begin() + first);
  return rows;
}

static void Run(const Layout& l, const New& n, const Setup& q, unsigned nant, unsigned mask, int weights, bool hermitian) {
  const unsigned nbl = l.a1.size();
  if (!vp::CaseF([&] { return std::string(hermitian ? "turned " : "") + l.name + " " + n.text + " nchan=" + std::to_string(q.nchan) + " ncorr=" + std::to_string(q.ncorr) + " minpoints=" + std::to_string(q.minpoints) + " autocorr=" + std::to_string(q.autocorr) + " sumauto=" + std::to_string(q.sumauto) + " average=" + std::to_string(q.average) + " useweights=" + std::to_string(q.weights) + " flags=" + std::to_string(mask) + " weights=" + std::to_string(weights); })) return;
  Shape s{nbl, q.nchan, q.ncorr, nant};
  s.a1 = l.a1; s.a2 = l.a2; s.names.assign(kNames, kNames + nant);
  const DPInfo info = Info(s);
  auto b = [](bool x) { return std::string(x ? "true" : "false"); };
  auto step = std::make_shared<StationAdder>(Parset({{"s.stations", n.text}, {"s.minpoints", std::to_string(q.minpoints)}, {"s.autocorr", b(q.autocorr)}, {"s.sumauto", b(q.sumauto)}, {"s.average", b(q.average)}, {"s.useweights", b(q.weights)}}), "s.");
  auto sink = std::make_shared<Sink>();
  step->setNextStep(sink);
  const std::string err = vp::Throws([&] { step->setInfo(info); });
  vp::Outcome(n.bad ? "refused" : "accepted");
  if (!vp::Check(err.empty() != n.bad, n.bad ? "not refused" : "refused: ", err) || n.bad) { vp::Trace(); return; }
  const DPInfo& out = step->getInfoOut();
  // The new stations.
  unsigned id = nant;
  for (auto& [name, parts] : n.parts) {
    if (parts.empty()) continue;
    if (!vp::Check(id < out.antennaNames().size() && out.antennaNames()[id] == name, "new station ", id, " is not ", name)) return;
    std::array<double, 3> mid{}; double far = 0;
    auto pos = [&](const DPInfo& i, int a) { return i.antennaPos()[a].getValue().getValue(); };
    for (int p : parts) for (int k = 0; k < 3; ++k) mid[k] += pos(info, p)[k] / parts.size();
    for (int p : parts) far = std::max(far, std::hypot(pos(info, p)[0] - mid[0], pos(info, p)[1] - mid[1], pos(info, p)[2] - mid[2]) + info.antennaDiam()[p] / 2);
    for (int k = 0; k < 3; ++k) vp::Check(std::abs(pos(out, id)[k] - mid[k]) < 1e-6, "position of ", name);
    vp::Check(std::abs(out.antennaDiam()[id] - 2 * far) < 1e-6, "diameter of ", name, " is ", out.antennaDiam()[id], " instead of ", 2 * far);
    ++id;
  }
  vp::Check(out.antennaNames().size() == id && out.antennaDiam().size() == id && out.antennaPos().size() == id && dp3::base::made_stations == id, "number of stations");
  vp::Check(out.metaChanged(), "changed metadata are not announced");
  for (unsigned t = 0; t < 2; ++t) {
    auto buf = Buffer(s, t);
    std::vector<Row> rows;
    for (unsigned i = 0; i < nbl; ++i) {
      Row r{l.a1[i], l.a2[i], {}, {}, {}, {}};
      for (unsigned k = 0; k < q.nchan * q.ncorr; ++k) {
        const std::complex<float> v(1 + i * 1.5f + k * 0.25f + t, -2 + float((i * 7 + k * 3 + t) % 11));
        const float w = weights == 0 ? 1 : weights == 1 ? 0.5f + (i + k + t) % 4 : (i + k + t) % 3;
        const bool f = mask >> ((i + t + (k / q.ncorr ? 1 : 0)) % nbl) & 1;
        buf->GetData().data()[(i * q.nchan * q.ncorr) + k] = v;
        buf->GetWeights().data()[(i * q.nchan * q.ncorr) + k] = w;
        buf->GetFlags().data()[(i * q.nchan * q.ncorr) + k] = f;
        r.v.push_back(v); r.w.push_back(w); r.f.push_back(f);
      }
      for (int u = 0; u < 3; ++u) { r.uvw[u] = 10.0 * i + 3 * u - 7 * t; buf->GetUvw()(i, u) = r.uvw[u]; }
      rows.push_back(r);
    }
    const double time = buf->GetTime();
    const std::vector<Row> want = Expected(rows, n, nant, q, time, hermitian);
    step->process(std::move(buf));
    vp::Step();
    if (!vp::Check(sink->out.size() == t + 1, "slot not passed on")) return;
    DPBuffer& o = *sink->out.back();
    const size_t n_out = nbl + want.size(), np = q.nchan * q.ncorr;
    if (!vp::Check(out.nbaselines() == n_out && o.GetData().shape(0) == n_out && o.GetFlags().shape(0) == n_out && o.GetWeights().shape(0) == n_out && o.GetUvw().shape(0) == n_out, out.nbaselines(), " baselines instead of ", n_out)) return;
    vp::Check(o.GetTime() == time, "time changed");
    std::set<std::pair<int, int>> seen;
    size_t flagged = 0;
    for (auto& x : want) flagged += std::count(x.f.begin(), x.f.end(), 1);
    vp::Outcome(std::to_string(want.size()) + " new, " + (flagged == 0 ? "no" : flagged == want.size() * q.nchan * q.ncorr ? "all" : "some") + " flags");
    for (size_t i = 0; i < n_out; ++i) {
      const int a1 = out.getAnt1()[i], a2 = out.getAnt2()[i];
      const Row* r = i < nbl ? &rows[i] : nullptr;
      if (!r) {
        for (auto& x : want) if (x.a1 == a1 && x.a2 == a2) r = &x;
        if (!vp::Check(r && seen.emplace(a1, a2).second, "new baseline ", a1, "-", a2, " is not expected")) return;
      } else if (!vp::Check(a1 == r->a1 && a2 == r->a2, "baseline ", i, " changed")) return;
      for (size_t k = 0; k < np; ++k) {
        const std::complex<float> v = o.GetData().data()[i * np + k];
        const bool f = o.GetFlags().data()[i * np + k];
        const double w = o.GetWeights().data()[i * np + k];
        vp::Check(f == bool(r->f[k]), "baseline ", a1, "-", a2, " point ", k, f ? " is flagged" : " is not flagged");
        vp::Check(Close(w, r->w[k]), "baseline ", a1, "-", a2, " point ", k, " has weight ", w, " instead of ", r->w[k]);
        if (r->w[k] == 0 && i >= nbl && q.average) continue;   // no data
        if (std::isnan(r->v[k].real())) continue;
        vp::Check(Close(v.real(), r->v[k].real()) && Close(v.imag(), r->v[k].imag()), "baseline ", a1, "-", a2, " point ", k, " is (", v.real(), ",", v.imag(), ") instead of (", r->v[k].real(), ",", r->v[k].imag(), ")");
      }
      for (int u = 0; u < 3; ++u) vp::Check(Close(o.GetUvw()(i, u), r->uvw[u]), "baseline ", a1, "-", a2, " has uvw ", o.GetUvw()(i, u), " instead of ", r->uvw[u]);
    }
  }
  step->finish();
  vp::Check(sink->finished == 1, "not finished");
  vp::Trace();
}

int main(int argc, char** argv) {
  vp::Init(argc, argv);
  const bool th = vp::Thorough();
  const std::vector<Layout> layouts{
      {"all", {0, 0, 0, 0, 1, 1, 1, 2, 2, 3}, {0, 1, 2, 3, 1, 2, 3, 2, 3, 3}},
      {"cross", {0, 0, 0, 1, 1, 2}, {1, 2, 3, 2, 3, 3}},
      {"turned", {1, 2, 3, 2, 3, 3}, {0, 0, 0, 1, 1, 2}},
      {"mixed", {2, 0, 3, 1, 2, 0, 1}, {0, 1, 1, 1, 3, 3, 2}},
      {"some", {0, 3, 2}, {2, 0, 2}},
      {"five", {0, 4, 1, 4, 2, 3, 3}, {4, 1, 2, 4, 4, 4, 0}}};
  const std::vector<New> news{
      {"{n:[a0,a1]}", {{"n", {0, 1}}}, false},
      {"{n:[b1,a0]}", {{"n", {0, 3}}}, false},
      {"{n:'a*'}", {{"n", {0, 1}}}, false},
      {"{n:['*','!b*','!c']}", {{"n", {0, 1}}}, false},
      {"{n:['*0','^a0','a1']}", {{"n", {1, 2}}}, false},
      {"{n:[b0]}", {{"n", {2}}}, false},
      {"{n:[a0..1]}", {{"n", {0, 1}}}, false},
      {"{n:['?[01]']}", {{"n", {0, 1, 2, 3}}}, false},
      {"{m:[a0,a1],n:[b0,b1]}", {{"m", {0, 1}}, {"n", {2, 3}}}, false},
      {"{n:[b0,b1],m:[a0]}", {{"m", {0}}, {"n", {2, 3}}}, false},
      {"{m:[zz],n:[a1,b1]}", {{"m", {}}, {"n", {1, 3}}}, false},
      {"{m:[a0,b0],n:['a*']}", {}, true},
      {"{a1:[a0,b0]}", {}, true},
      {"{n:['!a0']}", {{"n", {}}}, false}};
  for (auto& l : layouts) for (auto& n : news) for (unsigned ncorr : {1u, 2u, 4u}) for (unsigned nchan : {1u, 2u}) for (unsigned minpoints : {0u, 1u, 2u, 3u})
    for (int bits = 0; bits < 16; ++bits) for (int weights = 0; weights < 3; ++weights) {
      const unsigned nbl = l.a1.size();
      if (n.bad && (bits || weights || minpoints)) continue;
      if (!th && !n.bad && (bits + weights + minpoints + ncorr + nchan) % 7) continue;
      const Setup q{nchan, ncorr, minpoints, bool(bits & 1), bool(bits & 2), bool(bits & 4), bool(bits & 8)};
      const unsigned all = 1u << nbl;
      // Every set of flagged baselines of the first three layouts of stations.
      const bool every = nbl <= (th ? 7u : 6u) && ncorr == 1;
      for (unsigned mask = 0; mask < all; mask += every ? 1 : std::max(1u, all / 5)) Run(l, n, q, std::string(l.name) == "five" ? 5 : 4, mask, weights, false);
    }
  // A baseline that is turned round has its cross-hand correlations exchanged.
  for (size_t i : {1, 3}) Run(layouts[i], news[0], {1, 4, 1, false, true, true, true}, 4, 0, 0, true);
  return vp::Finish();
}
