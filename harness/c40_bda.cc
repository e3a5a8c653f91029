// C40, baseline-dependent averaged data: solution intervals of rows.
#include <array>
#include "vp.h"
#include "step_kit.h"
#include "ddecal/gain_solvers/BdaSolverBuffer.h"
#include "ddecal/gain_solvers/SolveData.h"
using namespace kit;
using dp3::ddecal::BdaSolverBuffer;
using dp3::ddecal::SolveData;
typedef std::complex<float> F;
typedef std::complex<double> D;
typedef aocommon::MC2x2F Full;
typedef aocommon::MC2x2FDiag Duo;

// Rows of a few baselines, each averaging its own number of slots and
// channels, in the order in which averaging completes them.
struct Setup {
  std::array<unsigned, 3> factor = {1, 1, 1};
  unsigned channels = 0;           // index in kChannels
  unsigned slots = 4, interval = 2, per_buffer = 1, late = 0;
  std::vector<size_t> sols = {1};
  unsigned blocks = 1;
  bool keep = true, weights = false;
  int pattern = 0, pols = 1, type = 0, misorder = -1;
  std::string Text() const {
    std::ostringstream o;
    o << "factors=" << factor[0] << factor[1] << factor[2] << " channels=" << channels << " slots=" << slots << " interval=" << interval << " buffer=" << per_buffer << " late=" << late << " solutions=";
    for (size_t s : sols) o << s << ",";
    o << " blocks=" << blocks << (keep ? " keep" : "") << (weights ? " weights" : "") << " pattern=" << pattern << " pols=" << pols << " type=" << type << " misorder=" << misorder;
    return o.str();
  }
};
static const int kA1[3] = {0, 2, 1}, kA2[3] = {1, 0, 1};   // the last one is an autocorrelation
static const std::array<unsigned, 3> kChannels[] = {{1, 1, 1}, {2, 2, 2}, {4, 2, 1}, {3, 4, 2}, {2, 4, 4}, {5, 3, 4}};
static const double kStart = 1024, kStep = 2;

struct Rec {
  double time, interval; unsigned bl, nchan, id;
  std::vector<F> data, flagged_zero; std::vector<std::vector<F>> model; std::vector<bool> flags; std::vector<float> weights;
  bool Bad(unsigned ch) const {
    bool bad = false;
    auto finite = [](F f) { return std::isfinite(f.real()) && std::isfinite(f.imag()); };
    for (unsigned p = 0; p < 4; ++p) { bad |= flags[ch * 4 + p] || !finite(data[ch * 4 + p]); for (auto& m : model) bad |= !finite(m[ch * 4 + p]); }
    return bad;
  }
};
static bool Bad(int pattern, unsigned id, unsigned i) {
  switch (pattern) {
    case 1: return i == 3;
    case 2: return (id * 3 + i) % 11 == 0;
    case 3: return id % 2;
    case 4: return true;
    default: return false;
  }
}
template <class M> struct As;
template <> struct As<Full> { static constexpr int n = 4; static D Get(const Full& m, int i) { return D(m.Get(i)); } static D Of(const D* a, int i) { return a[i]; } };
template <> struct As<Duo> { static constexpr int n = 2; static D Get(const Duo& m, int i) { return D(m.Get(i)); } static D Of(const D* a, int i) { return a[3 * i]; } };
template <> struct As<F> { static constexpr int n = 1; static D Get(const F& m, int) { return D(m); } static D Of(const D* a, int) { return (a[0] + a[3]) / 2.0; } };
static bool Close(D a, D b) { return std::abs(a - b) <= 1e-5 * (std::abs(b) + 1e-3); }

template <class M>
static void CheckSolveData(const Setup& q, const BdaSolverBuffer& sb, const std::vector<const Rec*>& rows, int interval) {
  const unsigned dirs = q.sols.size();
  const std::vector<int> a1(kA1, kA1 + 3), a2(kA2, kA2 + 3);
  const SolveData<M> sd(sb, q.blocks, 3, q.sols, a1, a2, q.weights);
  vp::Step();
  std::vector<uint32_t> nsol, start; uint32_t total = 0;
  for (size_t n : q.sols) { nsol.push_back(std::min<size_t>(n, rows.size())); start.push_back(total); total += nsol.back(); }
  for (unsigned cb = 0; cb < q.blocks; ++cb) {
    const auto& d = sd.ChannelBlock(cb);
    struct E { unsigned a1, a2; std::vector<uint32_t> sol; std::vector<std::array<D, 4>> v; bool used = false; };
    std::vector<E> want;
    for (const Rec* r : rows) {
      if (kA1[r->bl] == kA2[r->bl]) continue;
      for (unsigned c = cb * r->nchan / q.blocks; c < (cb + 1) * r->nchan / q.blocks; ++c) {
        E e; e.a1 = kA1[r->bl]; e.a2 = kA2[r->bl];
        for (unsigned k = 0; k <= dirs; ++k) {
          std::array<D, 4> v;
          for (unsigned p = 0; p < 4; ++p) v[p] = r->Bad(c) ? D() : D(k ? r->model[k - 1][c * 4 + p] : r->data[c * 4 + p]) * std::sqrt(double(r->weights[c * 4 + p]));
          e.v.push_back(v);
          if (k) {
            const double mid = r->time - (kStart + interval * q.interval * kStep);
            e.sol.push_back(start[k - 1] + std::min<uint32_t>(nsol[k - 1] - 1, std::floor(mid * nsol[k - 1] / (q.interval * kStep))));
          }
        }
        want.push_back(std::move(e));
      }
    }
    vp::Check(d.NVisibilities() == want.size(), "interval ", interval, ", channel block ", cb, ": ", d.NVisibilities(), " visibilities instead of ", want.size());
    if (d.NVisibilities() != want.size()) return;
    std::vector<size_t> per_antenna(3);
    for (size_t i = 0; i < want.size(); ++i) {
      size_t k = 0;
      for (; k < want.size(); ++k) {
        E& e = want[(i + k) % want.size()];
        if (e.used || e.a1 != d.Antenna1Index(i) || e.a2 != d.Antenna2Index(i)) continue;
        bool same = true;
        for (unsigned r = 0; r < dirs; ++r) same &= e.sol[r] == d.SolutionIndex(r, i);
        for (int p = 0; same && p < As<M>::n; ++p) {
          same &= Close(As<M>::Get(d.Visibility(i), p), As<M>::Of(e.v[0].data(), p));
          for (unsigned r = 0; r < dirs; ++r) same &= Close(As<M>::Get(d.ModelVisibility(r, i), p), As<M>::Of(e.v[r + 1].data(), p));
        }
        if (same) break;
      }
      if (k == want.size()) { vp::Check(false, "interval ", interval, ", channel block ", cb, ": visibility ", i, " (antennas ", d.Antenna1Index(i), ", ", d.Antenna2Index(i), ", first solution ", d.SolutionIndex(0, i), ") is none of the rows"); return; }
      E& e = want[(i + k) % want.size()];
      e.used = true;
      ++per_antenna[e.a1]; ++per_antenna[e.a2];
    }
    for (unsigned a = 0; a < 3; ++a) vp::Check(d.NAntennaVisibilities(a) == per_antenna[a], "visibilities of antenna ", a);
    for (unsigned r = 0; r < dirs; ++r) vp::Check(d.NSolutionsForDirection(r) == nsol[r], "solutions of direction ", r);
  }
}

static D Sol(unsigned cb, unsigned ant, unsigned dir, unsigned p) { return D(1 + cb + ant * 0.25 - dir * 0.5 + p * 0.125, 0.5 * cb - ant + dir * 0.75 - p); }

static void Run(const Setup& q) {
  if (!vp::CaseF([&] { return q.Text(); })) return;
  const unsigned dirs = q.sols.size();
  std::vector<std::string> names;
  for (unsigned d = 0; d < dirs; ++d) names.push_back("d" + std::to_string(d));
  // The rows, each when it is complete; the late baseline starts later.
  std::vector<Rec> recs;
  for (unsigned t = 0; t < q.slots; ++t) for (unsigned b = 0; b < 3; ++b) {
    const unsigned first = b == 0 ? q.late : 0;
    if (t < first) continue;
    const unsigned in_row = (t - first) % q.factor[b] + 1;
    if (in_row != q.factor[b] && t + 1 != q.slots) continue;
    Rec r;
    r.interval = in_row * kStep;
    r.time = kStart + (t + 1) * kStep - r.interval / 2;
    r.bl = b; r.nchan = kChannels[q.channels][b]; r.id = recs.size();
    const unsigned n = r.nchan * 4;
    for (unsigned i = 0; i < n; ++i) {
      r.data.push_back(F(1 + r.id * 16 + i * 0.5f, b * 3.0f - i));
      r.weights.push_back(0.5f + (r.id + i * 3) % 5);
      r.flags.push_back(Bad(q.pattern, r.id, i));
    }
    if (q.pattern == 2 && r.id % 4 == 1) r.data[n - 1] = F(NAN, 0);
    for (unsigned d = 0; d < dirs; ++d) {
      std::vector<F> m;
      for (unsigned i = 0; i < n; ++i) m.push_back(F(2.0f * d + r.id - i * 0.25f, 1 + d - (r.id + i) % 7));
      if (q.pattern == 2 && r.id % 5 == d) m[0] = F(1, -INFINITY);
      r.model.push_back(m);
    }
    recs.push_back(std::move(r));
  }
  if (q.misorder >= 0) {
    // Swap a row with a later one of the same baseline.
    std::vector<size_t> own;
    for (size_t i = 0; i < recs.size(); ++i) if (recs[i].bl == 1) own.push_back(i);
    const size_t i = q.misorder % own.size(), j = q.misorder / own.size();
    if (j >= own.size() || i >= j) return;
    std::swap(recs[own[i]], recs[own[j]]);
  }
  for (size_t i = 0; i < recs.size(); ++i) recs[i].id = i;
  BdaSolverBuffer sb(kStart, q.interval * kStep, 3);
  vp::Check(sb.GetCurrentInterval() == 0 && sb.BufferCount() == 0 && sb.GetIntervalRows().empty() && sb.IntervalDuration() == q.interval * kStep, "not empty at the start");
  auto interval_of = [&](const Rec& r) { return int(std::floor((r.time - kStart) / (q.interval * kStep))); };
  size_t given = 0, done = 0, n_buffers = 0, returned = 0; int current = 0;
  std::vector<std::pair<size_t, size_t>> ranges;
  std::vector<double> begin_freq;
  std::vector<std::vector<double>> freqs(3);
  for (unsigned b = 0; b < 3; ++b) for (unsigned c = 0; c < kChannels[q.channels][b]; ++c) freqs[b].push_back(100 + (c + 0.5) * 60 / kChannels[q.channels][b] + 0.37);
  for (unsigned cb = 0; cb <= q.blocks; ++cb) begin_freq.push_back(100 + cb * 60.0 / q.blocks);
  std::vector<std::vector<D>> sol(q.blocks);
  for (unsigned cb = 0; cb < q.blocks; ++cb) for (unsigned a = 0; a < 3; ++a) for (unsigned d = 0; d < dirs; ++d) for (int p = 0; p < q.pols; ++p) sol[cb].push_back(Sol(cb, a, d, p));
  bool finished = false;
  const bool apply = q.keep;

  auto solve = [&] {
    vp::Check(sb.GetCurrentInterval() == current, "the current interval is ", sb.GetCurrentInterval(), " instead of ", current);
    vp::Check(sb.CurrentIntervalStart() == kStart + current * q.interval * kStep, "the interval starts at ", sb.CurrentIntervalStart());
    std::vector<const Rec*> rows;
    for (size_t i = 0; i < given; ++i) if (interval_of(recs[i]) == current) rows.push_back(&recs[i]);
    const auto& got = sb.GetIntervalRows();
    vp::Check(got.size() == rows.size(), "interval ", current, " has ", got.size(), " rows instead of ", rows.size());
    if (got.size() != rows.size()) return false;
    for (size_t i = 0; i < rows.size(); ++i) {
      const Rec& r = *rows[i];
      vp::Check(got[i].time == r.time && got[i].baseline_nr == r.bl && got[i].n_channels == r.nchan && got[i].n_correlations == 4, "row ", i, " of interval ", current, " is another one");
      if (got[i].n_channels != r.nchan) return false;
      vp::Check(got[i].unweighted_model_data.size() == (q.keep ? dirs : 0) && got[i].weighted_model_data.size() == dirs, "number of model data");
      for (unsigned k = 0; k < r.nchan * 4; ++k) {
        vp::Check(std::memcmp(&got[i].unweighted_data[k], &r.data[k], sizeof(F)) == 0, "the unweighted data of row ", i, " changed");
        vp::Check(got[i].flags[k] == r.flags[k] && got[i].weights[k] == r.weights[k], "flags or weights of row ", i, " changed");
      }
    }
    if (q.type == 0) CheckSolveData<Full>(q, sb, rows, current);
    else if (q.type == 1) CheckSolveData<Duo>(q, sb, rows, current);
    else CheckSolveData<F>(q, sb, rows, current);
    if (apply) {
      sb.ApplySolutions(sol, begin_freq, q.pols, std::vector<int>(kA1, kA1 + 3), std::vector<int>(kA2, kA2 + 3), freqs);
      vp::Step();
    }
    sb.AdvanceInterval();
    vp::Step();
    ++current;
    return true;
  };
  auto drain = [&] {
    auto out = sb.GetDone();
    for (auto& b : out) {
      if (returned >= ranges.size()) { vp::Check(false, "more buffers came back than went in"); return; }
      const auto [from, to] = ranges[returned++];
      vp::Check(b && b->GetRows().size() == to - from, "the buffers come back in another order");
      if (!b || b->GetRows().size() != to - from) return;
      for (size_t i = from; i < to; ++i) {
        const Rec& r = recs[i];
        vp::Check(interval_of(r) < current, "row ", i, " came back before it was solved");
        vp::Check(b->GetRows()[i - from].time == r.time && b->GetRows()[i - from].baseline_nr == r.bl, "the rows come back in another order");
        for (unsigned k = 0; k < r.nchan * 4; ++k) vp::Check(std::memcmp(b->GetData(i - from) + k, &r.data[k], sizeof(F)) == 0 && b->GetFlags(i - from)[k] == r.flags[k] && b->GetWeights(i - from)[k] == r.weights[k], "row ", i, " came back changed");
        for (unsigned d = 0; d < dirs; ++d) {
          vp::Check(b->HasData(names[d]) == q.keep, "model data kept or lost");
          if (!q.keep || !b->HasData(names[d])) continue;
          for (unsigned c = 0; c < r.nchan; ++c) {
            // The channel block in which the centre of the channel lies.
            const unsigned cb = std::upper_bound(begin_freq.begin(), begin_freq.end(), freqs[r.bl][c]) - begin_freq.begin() - 1;
            const F* m = &r.model[d][c * 4];
            auto s = [&](unsigned a, unsigned p) { return sol[cb][(a * dirs + d) * q.pols + p]; };
            const unsigned a = kA1[r.bl], z = kA2[r.bl];
            D want[4];
            for (unsigned i2 = 0; i2 < 2; ++i2) for (unsigned j = 0; j < 2; ++j) {
              D v = 0;
              if (q.pols == 1) v = s(a, 0) * D(m[i2 * 2 + j]) * std::conj(s(z, 0));
              if (q.pols == 2) v = s(a, i2) * D(m[i2 * 2 + j]) * std::conj(s(z, j));
              if (q.pols == 4) for (unsigned x = 0; x < 2; ++x) for (unsigned y = 0; y < 2; ++y) v += s(a, i2 * 2 + x) * D(m[x * 2 + y]) * std::conj(s(z, j * 2 + y));
              want[i2 * 2 + j] = v;
            }
            bool finite = true;
            for (unsigned p = 0; p < 4; ++p) finite &= std::isfinite(want[p].real()) && std::isfinite(want[p].imag());
            if (!finite) continue;
            for (unsigned p = 0; p < 4; ++p) {
              const D g(b->GetData(i - from, names[d])[c * 4 + p]);
              vp::Check(std::abs(g - want[p]) <= 1e-4 * (1 + std::abs(want[p])), "row ", i, " channel ", c, " correlation ", p, ": the model with the solutions is ", vp::Str(g.real()), ",", vp::Str(g.imag()), " instead of ", vp::Str(want[p].real()), ",", vp::Str(want[p].imag()));
            }
          }
        }
      }
      ++done;
    }
  };
  bool failed = false;
  const std::string err = vp::Throws([&] {
    while (given < recs.size() || n_buffers == 0) {
      const size_t n = std::min<size_t>(q.per_buffer, recs.size() - given);
      auto b = std::make_unique<BdaBuffer>(std::max<size_t>(1, n * 20), Fields(Fields::Single::kData) | Fields(Fields::Single::kFlags) | Fields(Fields::Single::kWeights));
      for (auto& name : names) b->AddData(name);
      for (size_t i = given; i < given + n; ++i) {
        const Rec& r = recs[i];
        std::vector<char> flags(r.flags.begin(), r.flags.end());
        vp::Check(b->AddRow(r.time, r.interval, r.interval, r.bl, r.nchan, 4, i, r.data.data(), reinterpret_cast<bool*>(flags.data()), r.weights.data(), nullptr), "cannot make the input");
        for (unsigned d = 0; d < dirs; ++d) std::copy(r.model[d].begin(), r.model[d].end(), b->GetData(i - given, names[d]));
      }
      ranges.emplace_back(given, given + n);
      given += n;
      sb.AppendAndWeight(std::move(b), names, q.keep);
      vp::Step();
      ++n_buffers;
      // Complete when each baseline has a row that starts after the interval.
      while (true) {
        bool complete = true;
        for (unsigned bl = 0; bl < 3; ++bl) {
          bool later = false;
          for (size_t i = 0; i < given; ++i) later |= recs[i].bl == bl && recs[i].time - recs[i].interval / 2 >= kStart + (current + 1) * q.interval * kStep;
          complete &= later;
        }
        if (q.misorder >= 0) complete = sb.IntervalIsComplete();
        vp::Check(sb.IntervalIsComplete() == complete, "after buffer ", n_buffers, " interval ", current, complete ? " is not complete" : " is already complete");
        if (!sb.IntervalIsComplete()) break;
        if (current > 40) { vp::Check(false, "intervals without end"); failed = true; return; }
        if (!solve()) { failed = true; return; }
      }
      drain();
    }
    // The end of the input.
    while (sb.BufferCount() > 0 && current < 40) if (!solve()) { failed = true; return; }
    drain();
    finished = true;
  });
  vp::Trace();
  if (failed) return;
  if (q.misorder >= 0) {
    // Refused, or handled as any other input.
    vp::Check(finished || !err.empty(), "neither refused nor handled");
    if (finished) vp::Check(returned == ranges.size(), "rows in another order got lost");
    vp::Outcome(finished ? "handled" : "refused");
    return;
  }
  vp::Check(err.empty(), "refused: ", err);
  vp::Check(returned == ranges.size() && sb.BufferCount() == 0, ranges.size() - returned, " buffers did not come back");
  vp::Outcome(std::to_string(returned) + "/" + std::to_string(current));
}

int main(int argc, char** argv) {
  vp::Init(argc, argv);
  const bool th = vp::Thorough();
  Setup q;
  const std::vector<std::vector<size_t>> solutions = {{1}, {2}, {1, 1}, {1, 2}, {3, 1}};
  unsigned k = 0;
  const unsigned max_slots = th ? 8 : 6;
  for (q.interval = 1; q.interval <= 4; ++q.interval)
    for (q.factor[0] = 1; q.factor[0] <= q.interval; ++q.factor[0]) for (q.factor[1] = 1; q.factor[1] <= q.interval; ++q.factor[1]) for (q.factor[2] = 1; q.factor[2] <= q.interval; ++q.factor[2])
      for (q.slots = 1; q.slots <= max_slots; ++q.slots) for (q.per_buffer = 1; q.per_buffer <= 5; ++q.per_buffer) for (q.late = 0; q.late < 3; ++q.late)
        for (auto& sols : solutions) {
          q.sols = sols;
          ++k;
          for (unsigned v = 0; v < (th ? 12u : 3u); ++v) {
            const unsigned h = k * 7 + v * 5;
            q.channels = (k + v) % 6;
            unsigned most = 9;
            for (unsigned n : kChannels[q.channels]) most = std::min(most, n);
            q.blocks = 1 + (h / 3) % 3;
            q.keep = h % 2; q.weights = (h / 2) % 2; q.pattern = h % 5; q.type = h % 3;
            q.pols = (h / 5) % 3 == 0 ? 1 : (h / 5) % 3 == 1 ? 2 : 4;
            Run(q);
          }
        }
  // Rows in the wrong order within a baseline.
  q = Setup();
  for (q.interval = 1; q.interval <= 3; ++q.interval) for (q.factor[0] = 1; q.factor[0] <= q.interval; ++q.factor[0]) for (q.slots = 2; q.slots <= 6; ++q.slots) for (q.per_buffer = 1; q.per_buffer <= 7; ++q.per_buffer) for (q.misorder = 0; q.misorder < 36; ++q.misorder) Run(q);
  return vp::Finish();
}
