// C10: upsampling of direction-dependent interval solutions, all small shapes.
#include "vp.h"
#include <numeric>
#include "ddecal/SolutionResampler.h"
using dp3::ddecal::SolutionResampler;
using dp3::ddecal::ConstraintResult;
typedef std::complex<double> C;

static void Check(const std::vector<size_t>& n_sol, size_t interval, size_t n_ant, size_t n_pol, size_t n_time, size_t n_cb) {
  const size_t n_dir = n_sol.size();
  const size_t sum = std::accumulate(n_sol.begin(), n_sol.end(), size_t(0));
  std::vector<size_t> first(n_dir, 0);
  for (size_t d = 1; d < n_dir; ++d) first[d] = first[d - 1] + n_sol[d - 1];
  const SolutionResampler rs(n_sol, n_ant, interval);
  const size_t sub = rs.GetNrSubSteps();
  vp::Step();
  // Any common multiple within the interval can represent all directions.
  for (size_t n : n_sol) if (!vp::Check(sub >= n && sub % n == 0, "number of substeps " + vp::Str(sub) + " cannot hold " + vp::Str(n) + " solutions")) return;
  if (!vp::Check(sub <= interval && interval % sub == 0, "number of substeps " + vp::Str(sub) + " does not divide the interval")) return;
  // Gains: every value is a unique label.
  std::vector<std::vector<std::vector<C>>> in(n_time, std::vector<std::vector<C>>(n_cb, std::vector<C>(n_ant * sum * n_pol)));
  double label = 1;
  for (auto& t : in) for (auto& c : t) for (auto& v : c) { v = C(label, -label / 4); ++label; }
  const auto copy = in;
  const auto out = rs.Upsample(in, n_pol);
  vp::Step();
  vp::Check(in == copy, "the input was changed");
  if (!vp::Check(out.size() == n_time * sub, "output has " + vp::Str(out.size()) + " time slots")) return;
  for (size_t t = 0; t < out.size(); ++t) {
    if (!vp::Check(out[t].size() == n_cb, "wrong number of channel blocks")) return;
    for (size_t c = 0; c < n_cb; ++c) {
      if (!vp::Check(out[t][c].size() == n_ant * n_dir * n_pol, "wrong number of values")) return;
      for (size_t a = 0; a < n_ant; ++a) for (size_t d = 0; d < n_dir; ++d) for (size_t p = 0; p < n_pol; ++p) {
        // The solution interval of direction d that covers substep t%sub.
        const size_t s = (t % sub) * n_sol[d] / sub;
        const size_t idx = (a * sum + first[d] + s) * n_pol + p;
        const C want = in[t / sub][c][idx];
        const C got = out[t][c][(a * n_dir + d) * n_pol + p];
        const auto map = rs.MapResampledToOriginal(t, a, d, p, n_pol);
        vp::Step();
        auto where = [&] { return " at time " + vp::Str(t) + " channel block " + vp::Str(c) + " antenna " + vp::Str(a) + " direction " + vp::Str(d) + " pol " + vp::Str(p); };
        if (got != want) { vp::Fail("wrong solution" + where()); return; }
        if (map.first != t / sub || map.second != idx) { vp::Fail("mapped to " + vp::Str(map.first) + "," + vp::Str(map.second) + where()); return; }
      }
    }
  }
  vp::Trace();
  vp::Outcome(vp::Str(sub) + "/" + vp::Str(out.size()) + "/" + vp::Str(sum));
}

static void CheckConstraints(const std::vector<size_t>& n_sol, size_t interval, size_t n_ant, std::vector<size_t> rest, size_t n_time, size_t n_con, size_t n_types) {
  const size_t n_dir = n_sol.size();
  const size_t sum = std::accumulate(n_sol.begin(), n_sol.end(), size_t(0));
  std::vector<size_t> first(n_dir, 0);
  for (size_t d = 1; d < n_dir; ++d) first[d] = first[d - 1] + n_sol[d - 1];
  const SolutionResampler rs(n_sol, n_ant, interval);
  const size_t sub = rs.GetNrSubSteps();
  size_t residual = 1;
  for (size_t r : rest) residual *= r;
  std::vector<std::vector<std::vector<ConstraintResult>>> in(n_time);
  double label = 1;
  for (size_t t = 0; t < n_time; ++t) {
    in[t].resize(n_con);
    for (size_t c = 0; c < n_con; ++c) {
      in[t][c].resize(n_types);
      for (size_t y = 0; y < n_types; ++y) {
        ConstraintResult& r = in[t][c][y];
        r.axes = rest.empty() ? "ant,dir" : rest.size() == 1 ? "ant,dir,freq" : "ant,dir,freq,pol";
        r.name = "result" + vp::Str(c) + "_" + vp::Str(y);
        r.dims = {n_ant, sum};
        r.dims.insert(r.dims.end(), rest.begin(), rest.end());
        for (size_t i = 0; i < n_ant * sum * residual; ++i) { r.vals.push_back(label); r.weights.push_back(-label); ++label; }
      }
    }
  }
  const auto out = rs.Upsample(in);
  vp::Step();
  if (!vp::Check(out.size() == n_time * sub, "output has " + vp::Str(out.size()) + " time slots")) return;
  for (size_t t = 0; t < out.size(); ++t) {
    if (!vp::Check(out[t].size() == n_con, "wrong number of constraints")) return;
    for (size_t c = 0; c < n_con; ++c) {
      if (!vp::Check(out[t][c].size() == n_types, "wrong number of result types")) return;
      for (size_t y = 0; y < n_types; ++y) {
        const ConstraintResult& src = in[t / sub][c][y];
        const ConstraintResult& r = out[t][c][y];
        std::vector<size_t> dims = {n_ant, n_dir};
        dims.insert(dims.end(), rest.begin(), rest.end());
        if (!vp::Check(r.axes == src.axes && r.name == src.name && r.dims == dims, "axes, name or dimensions changed") ||
            !vp::Check(r.vals.size() == n_ant * n_dir * residual && r.weights.size() == r.vals.size(), "wrong number of values")) return;
        for (size_t a = 0; a < n_ant; ++a) for (size_t d = 0; d < n_dir; ++d) for (size_t f = 0; f < residual; ++f) {
          const size_t s = (t % sub) * n_sol[d] / sub;
          const size_t i = (a * sum + first[d] + s) * residual + f, o = (a * n_dir + d) * residual + f;
          if (r.vals[o] != src.vals[i] || r.weights[o] != src.weights[i]) {
            vp::Fail("wrong value or weight at time " + vp::Str(t) + " antenna " + vp::Str(a) + " direction " + vp::Str(d) + " element " + vp::Str(f));
            return;
          }
        }
      }
    }
  }
  vp::Trace();
  vp::Outcome("c" + vp::Str(sub) + "/" + vp::Str(out.size()) + "/" + vp::Str(residual));
}

int main(int argc, char** argv) {
  vp::Init(argc, argv);
  const size_t max_dir = vp::Thorough() ? 5 : 4;
  for (size_t interval : {1, 2, 3, 4, 6, 12, 15, 30}) {
    std::vector<size_t> div;
    for (size_t i = 1; i <= interval; ++i) if (interval % i == 0) div.push_back(i);
    for (size_t n_dir = 1; n_dir <= max_dir; ++n_dir) {
      std::vector<size_t> idx(n_dir, 0);
      while (true) {
        std::vector<size_t> n_sol;
        for (size_t i : idx) n_sol.push_back(div[i]);
        auto key = [&] { std::string k = "interval=" + vp::Str(interval) + " solutions="; for (size_t s : n_sol) k += vp::Str(s) + ","; return k; };
        for (size_t n_ant : {1, 3}) for (size_t n_pol : {1, 2, 4}) for (size_t n_time : {1, 2}) for (size_t n_cb : {1, 2}) {
          if (n_dir >= 3 && (n_pol == 4 || n_cb == 2) && !vp::Thorough()) continue;
          if (vp::CaseF([&] { return "gains " + key() + " ant=" + vp::Str(n_ant) + " pol=" + vp::Str(n_pol) + " time=" + vp::Str(n_time) + " cb=" + vp::Str(n_cb); }))
            Check(n_sol, interval, n_ant, n_pol, n_time, n_cb);
        }
        const std::vector<std::vector<size_t>> rests = {{}, {1}, {3}, {2, 2}};
        for (size_t n_ant : {1, 3}) for (size_t r = 0; r < rests.size(); ++r) for (size_t n_time : {1, 2}) for (size_t n_con : {1, 2}) for (size_t n_types : {1, 2}) {
          if (n_dir >= 3 && n_con != n_types && !vp::Thorough()) continue;
          if (vp::CaseF([&] { return "results " + key() + " ant=" + vp::Str(n_ant) + " rest=" + vp::Str(r) + " time=" + vp::Str(n_time) + " con=" + vp::Str(n_con) + " types=" + vp::Str(n_types); }))
            CheckConstraints(n_sol, interval, n_ant, rests[r], n_time, n_con, n_types);
        }
        size_t p = 0;
        while (p < n_dir && ++idx[p] == div.size()) idx[p++] = 0;
        if (p == n_dir) break;
      }
    }
  }
  for (size_t nt : {0}) if (vp::Case("results, no intervals")) {
    const SolutionResampler rs({1, 2}, 3, 2);
    vp::Check(rs.Upsample(std::vector<std::vector<std::vector<ConstraintResult>>>()).empty(), "output is not empty");
    vp::Step();
  }
  return vp::Finish();
}
