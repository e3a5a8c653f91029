// C50: exactly the baselines of outlying antennas and stations are flagged.
#include <algorithm>
#include <set>
#include "vp.h"
#include "step_kit.h"
#include "common/baseline_indices.h"
#include "steps/AntennaFlagger.h"
using namespace kit;
using dp3::steps::AntennaFlagger;
namespace dc = dp3::common;

static bool close_call;
// The outliers of a list: more than sigma standard deviations from the median,
// where values found are replaced by the median, until none is found.
static std::vector<bool> Outliers(std::vector<double> v, double sigma, int rounds) {
  std::vector<bool> f(v.size());
  std::vector<double> good;
  for (size_t i = 0; i < v.size(); ++i) if (!(f[i] = !std::isfinite(v[i]))) good.push_back(v[i]);
  if (good.empty()) return f;
  std::sort(good.begin(), good.end());
  const size_t n = good.size();
  const double median = n % 2 ? good[n / 2] : (good[n / 2 - 1] + good[n / 2]) / 2;
  for (size_t i = 0; i < v.size(); ++i) if (f[i]) v[i] = median;
  for (int r = 0; r < rounds; ++r) {
    double mean = 0, var = 0;
    for (double x : v) mean += x / v.size();
    for (double x : v) var += (x - mean) * (x - mean) / v.size();
    const double limit = sigma * std::sqrt(var);
    bool any = false;
    for (size_t i = 0; i < v.size(); ++i) {
      if (f[i]) continue;
      const double d = std::abs(v[i] - median);
      if (v.size() > 1 && std::abs(d - limit) < 1e-3 * (std::abs(median) + limit) && d > 0) close_call = true;
      if (d > limit && d > 0) { f[i] = true; v[i] = median; any = true; }
    }
    if (!any) break;
  }
  return f;
}
static double Median(std::vector<double> v) {
  std::sort(v.begin(), v.end());
  const size_t n = v.size();
  return n % 2 ? v[n / 2] : (v[n / 2 - 1] + v[n / 2]) / 2;
}

struct Setup { unsigned nst, per, nchan, ncorr; bool row_major; double s1, s2; int r1, r2; };

// stat[kind][part][corr][antenna]
static std::vector<bool> Expected(const Setup& q, const std::vector<std::complex<float>>& data, const std::vector<int>& a1, const std::vector<int>& a2) {
  const unsigned na = q.nst * q.per;
  std::vector<double> stat[2][2][4];
  for (auto& k : stat) for (auto& p : k) for (auto& c : p) c.assign(na, 0);
  for (size_t b = 0; b < a1.size(); ++b) for (unsigned c = 0; c < q.ncorr; ++c) {
    double s[2][2];
    for (int part = 0; part < 2; ++part) {
      double mean = 0, var = 0, sq = 0;
      auto x = [&](unsigned ch) -> double { const auto& v = data[(b * q.nchan + ch) * q.ncorr + c]; return part ? v.imag() : v.real(); };
      for (unsigned ch = 0; ch < q.nchan; ++ch) { mean += x(ch) / q.nchan; sq += x(ch) * x(ch); }
      for (unsigned ch = 0; ch < q.nchan; ++ch) var += (x(ch) - mean) * (x(ch) - mean) / q.nchan;
      s[0][part] = std::sqrt(var); s[1][part] = sq;
    }
    for (int k = 0; k < 2; ++k) if (!std::isnan(s[k][0]) && !std::isnan(s[k][1])) for (int part = 0; part < 2; ++part) {
      stat[k][part][c][a1[b]] += s[k][part] / q.per;
      if (a1[b] != a2[b]) stat[k][part][c][a2[b]] += s[k][part] / q.per;
    }
  }
  std::vector<bool> bad(na);
  // Antennas within their station, by both statistics.
  for (unsigned st = 0; st < q.nst; ++st) {
    std::vector<bool> both(q.per, true);
    for (int k = 0; k < 2; ++k) {
      std::vector<bool> any(q.per);
      for (unsigned c = 0; c < q.ncorr; ++c) for (int part = 0; part < 2; ++part) {
        std::vector<double> v;
        for (unsigned a = 0; a < q.per; ++a) {
          const std::complex<double> z = std::log(1.0 + std::complex<double>(stat[k][0][c][st * q.per + a], stat[k][1][c][st * q.per + a]));
          v.push_back(part ? z.imag() : z.real());
        }
        const auto o = Outliers(v, q.s1, q.r1);
        for (unsigned a = 0; a < q.per; ++a) any[a] = any[a] || o[a];
      }
      for (unsigned a = 0; a < q.per; ++a) both[a] = both[a] && any[a];
    }
    for (unsigned a = 0; a < q.per; ++a) if (both[a]) bad[st * q.per + a] = true;
  }
  // Stations among each other, by both statistics in XX and YY.
  std::vector<bool> every(q.nst, true);
  for (unsigned c = 0; c < q.ncorr; c += 3) {
    if (c == 3 && q.ncorr != 4) break;
    for (int k = 0; k < 2; ++k) {
      std::vector<bool> any(q.nst);
      for (int part = 0; part < 2; ++part) {
        const double scale = Median(stat[k][part][c]);
        std::vector<double> v;
        for (unsigned st = 0; st < q.nst; ++st) v.push_back(Median({stat[k][part][c].begin() + st * q.per, stat[k][part][c].begin() + (st + 1) * q.per}) / scale);
        if (scale < 1e-6) close_call = true;
        const auto o = Outliers(v, q.s2, q.r2);
        for (unsigned st = 0; st < q.nst; ++st) any[st] = any[st] || o[st];
      }
      for (unsigned st = 0; st < q.nst; ++st) every[st] = every[st] && any[st];
    }
  }
  for (unsigned a = 0; a < na; ++a) if (every[a / q.per]) bad[a] = true;
  return bad;
}

static void Run(const Setup& q, unsigned loud, unsigned quiet, unsigned broken, int before, unsigned noise) {
  const unsigned na = q.nst * q.per;
  if (!vp::CaseF([&] { return "stations=" + std::to_string(q.nst) + "x" + std::to_string(q.per) + " nchan=" + std::to_string(q.nchan) + " ncorr=" + std::to_string(q.ncorr) + " order=" + std::to_string(q.row_major) + " sigma=" + vp::Str(q.s1) + "," + vp::Str(q.s2) + " rounds=" + std::to_string(q.r1) + "," + std::to_string(q.r2) + " loud=" + std::to_string(loud) + " quiet=" + std::to_string(quiet) + " broken=" + std::to_string(broken) + " before=" + std::to_string(before) + " noise=" + std::to_string(noise); })) return;
  Shape s{na * (na + 1) / 2, q.nchan, q.ncorr, na};
  for (unsigned i = 0; i < na; ++i) for (unsigned j = 0; j < na; ++j) {
    if (q.row_major ? j >= i : j <= i) { s.a1.push_back(q.row_major ? i : j); s.a2.push_back(q.row_major ? j : i); }
    if (i == 0) s.names.push_back((q.per > 1 ? "A12_" : "CS") + std::to_string(j));
  }
  auto step = std::make_shared<AntennaFlagger>(Parset({{"a.antenna_flagging_sigma", vp::Str(q.s1)}, {"a.antenna_flagging_max_iterations", std::to_string(q.r1)}, {"a.station_flagging_sigma", vp::Str(q.s2)}, {"a.station_flagging_max_iterations", std::to_string(q.r2)}}), "a.");
  auto sink = std::make_shared<Sink>();
  step->setNextStep(sink);
  const std::string err = vp::Throws([&] { step->setInfo(Info(s)); });
  if (!vp::Check(err.empty(), "refused: ", err)) return;
  for (unsigned t = 0; t < 2; ++t) {
    auto b = Buffer(s, t);
    std::vector<bool> old;
    for (unsigned i = 0; i < s.nbl; ++i) for (unsigned k = 0; k < q.nchan * q.ncorr; ++k) {
      auto in = [&](unsigned m) { return int(m >> (s.a1[i] % 30) & 1) + int(m >> (s.a2[i] % 30) & 1); };
      // In the second slot the antennas are good.
      const double f = t ? 1 : std::pow(8.0, in(loud)) * std::pow(0.05, in(quiet));
      const uint32_t h = ((i * 131 + k * 31 + noise * 7919 + t * 977) * 2654435761u) >> 7;
      std::complex<float> v(f * (1 + h % 97 / 40.0), f * (0.5 + h / 97 % 89 / 35.0));
      if (!t && in(broken)) v = {NAN, NAN};
      b->GetData().data()[i * q.nchan * q.ncorr + k] = v;
      const bool fl = before == 1 && (i + k) % 5 == 0;
      b->GetFlags().data()[i * q.nchan * q.ncorr + k] = fl; old.push_back(fl);
    }
    const std::vector<std::complex<float>> data(b->GetData().data(), b->GetData().data() + b->GetData().size());
    if (before == 2) b->GetFlags().resize({0, 0, 0});
    close_call = false;
    const std::vector<bool> bad = Expected(q, data, s.a1, s.a2);
    step->process(std::move(b));
    vp::Step();
    if (!vp::Check(sink->out.size() == t + 1, "slot not passed on")) return;
    DPBuffer& o = *sink->out.back();
    vp::Check(o.GetData().size() == data.size() && memcmp(o.GetData().data(), data.data(), data.size() * sizeof data[0]) == 0, "data changed");
    if (!vp::Check(o.GetFlags().shape(0) == s.nbl && o.GetFlags().shape(1) == q.nchan && o.GetFlags().shape(2) == q.ncorr, "shape of the flags")) return;
    vp::Count(close_call ? "close calls left out" : "slots compared", 1);
    vp::Outcome(std::to_string(std::count(bad.begin(), bad.end(), true)) + " of " + std::to_string(na));
    for (unsigned i = 0; i < s.nbl; ++i) for (unsigned k = 0; k < q.nchan * q.ncorr; ++k) {
      const bool f = o.GetFlags().data()[i * q.nchan * q.ncorr + k], was = old[i * q.nchan * q.ncorr + k];
      if (!vp::Check(f || !was, "a flag was cleared")) return;
      if (close_call) continue;
      const bool want = was || bad[s.a1[i]] || bad[s.a2[i]];
      if (!vp::Check(f == want, "slot ", t, " baseline ", s.a1[i], "-", s.a2[i], " point ", k, f ? " is flagged" : " is not flagged")) return;
    }
  }
  step->finish();
  vp::Check(sink->finished == 1, "not finished");
  vp::Trace();
}

int main(int argc, char** argv) {
  vp::Init(argc, argv);
  const bool th = vp::Thorough();
  // Numbers of baselines.
  for (size_t n = 1; n <= (th ? 600u : 150u); ++n) for (auto order : {dc::BaselineOrder::kColumnMajor, dc::BaselineOrder::kRowMajor}) {
    if (!vp::CaseF([&] { return "numbers n=" + std::to_string(n) + " order=" + std::to_string(order == dc::BaselineOrder::kRowMajor); })) continue;
    const bool row = order == dc::BaselineOrder::kRowMajor;
    size_t index = 0;
    for (size_t i = 0; i < n; ++i) for (size_t j = row ? i : 0; j < (row ? n : i + 1); ++j, ++index) {
      const size_t a = row ? i : j, b = row ? j : i;
      const auto p = dc::ComputeBaseline(index, n, order);
      vp::Step();
      if (!vp::Check(p.first == a && p.second == b, "baseline ", index, " is ", p.first, "-", p.second, " instead of ", a, "-", b)) break;
      if (!vp::Check(dc::ComputeBaselineIndex(a, b, n, order) == index && dc::ComputeBaselineIndex(b, a, n, order) == index, "number of ", a, "-", b)) break;
    }
    vp::Check(dc::ComputeNBaselines(n) == index, "number of baselines");
    for (size_t a = 0; a < n; ++a) {
      const std::vector<size_t> l = dc::ComputeBaselineList(a, n, order);
      if (!vp::Check(l.size() == n, "list of ", a)) break;
      for (size_t i = 0; i < n; ++i) vp::Check(l[i] == dc::ComputeBaselineIndex(a, i, n, order), "list of ", a);
    }
    vp::Trace();
  }
  // What is refused.
  for (int kind = 0; kind < 5; ++kind) {
    if (!vp::CaseF([&] { return "setup " + std::to_string(kind); })) continue;
    Shape s{6, 2, 1, 3};
    s.a1 = {0, 0, 1, 0, 1, 2}; s.a2 = {0, 1, 1, 2, 2, 2};
    if (kind == 1) { s.a1.pop_back(); s.a2.pop_back(); s.nbl = 5; }
    if (kind == 2) { std::swap(s.a1[1], s.a2[1]); }
    if (kind == 3) { std::swap(s.a1[2], s.a1[3]); std::swap(s.a2[2], s.a2[3]); std::swap(s.a1[0], s.a1[5]); std::swap(s.a2[0], s.a2[5]); }
    if (kind == 4) s.names = {"A12_0", "A12_1", "A12_2"};
    AntennaFlagger step(Parset({}), "a.");
    step.setNextStep(std::make_shared<Sink>());
    const std::string e = vp::Throws([&] { step.setInfo(Info(s)); });
    vp::Check(e.empty() == (kind == 0), "setup ", kind, e.empty() ? " is accepted" : " is refused: ", e);
    vp::Trace();
  }
  for (unsigned nst : {3u, 4u, 5u, 6u, 8u}) for (unsigned ncorr : {1u, 2u, 4u}) for (unsigned nchan : {2u, 3u, 8u}) for (bool row : {false, true}) for (double sigma : {1.0, 1.5, 2.0, 2.5}) for (int rounds : {0, 1, 2, 5}) {
    const unsigned sets = nst <= (th ? 6u : 5u) ? 1u << nst : 20;
    for (unsigned m = 0; m < sets; ++m) for (int kind = 0; kind < 4; ++kind) {
      const unsigned x = nst + ncorr + nchan + row + int(sigma * 2) + rounds + m + kind;
      if (!th && x % 3) continue;
      const unsigned mask = nst <= 5 ? m : m * 13 % (1u << nst);
      const Setup q{nst, 1, nchan, ncorr, row, 3, sigma, 5, rounds};
      Run(q, kind == 0 ? mask : kind == 3 ? mask & 5 : 0, kind == 1 ? mask : kind == 3 ? mask & 2 : 0, kind == 2 ? mask : 0, (m + kind + rounds) % 3, x % 4);
    }
  }
  // Antennas of AARTFAAC stations.
  for (unsigned nst : {1u, 2u}) for (bool row : {false, true}) for (double sigma : {2.0, 3.0, 4.0}) for (int rounds : {0, 1, 5}) for (unsigned m : {0u, 1u, 0x21u, 0x800u, 0x20000001u}) for (int kind = 0; kind < 2; ++kind) {
    if (!th && (nst == 2 && (m + rounds + row) % 2)) continue;
    Run(Setup{nst, 48, 2, nst == 1 && row ? 4u : 1u, row, sigma, 2.5, rounds, 5}, kind ? 0 : m, kind ? m : 0, 0, rounds % 3, m % 3);
  }
  return vp::Finish();
}
