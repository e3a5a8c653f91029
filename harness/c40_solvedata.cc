// C40: from time slots to the data that the solvers work on.
#include <array>
#include "vp.h"
#include "step_kit.h"
#include "ddecal/gain_solvers/SolveData.h"
#include "ddecal/gain_solvers/SolverTools.h"
using namespace kit;
using dp3::ddecal::SolveData;
typedef std::complex<float> F;
typedef std::complex<double> D;
typedef aocommon::MC2x2F Full;
typedef aocommon::MC2x2FDiag Duo;

enum Kind { kFlag, kNan, kInf, kModelNan, kModelInf, kNoWeight, kNKinds };
struct Bad { unsigned t, bl, ch, corr; int kind; };
struct Setup {
  unsigned slots = 2, nchan = 2, blocks = 1, dirs = 1, bls = 0, order = 0;
  std::vector<size_t> sols = {1};
  bool keep = false, linear = false;
  int type = 0, pattern = 0;
  std::vector<Bad> bad;
  std::string Text() const {
    std::ostringstream o;
    o << "type=" << type << " slots=" << slots << " nchan=" << nchan << " blocks=" << blocks << " baselines=" << bls << " solutions=";
    for (size_t s : sols) o << s << ",";
    o << (keep ? " keep" : "") << (linear ? " linear" : "") << " order=" << order << " pattern=" << pattern;
    for (auto& b : bad) o << " " << b.t << "." << b.bl << "." << b.ch << "." << b.corr << (b.kind == kFlag ? "flag" : b.kind == kNan ? "nan" : b.kind == kInf ? "inf" : b.kind == kModelNan ? "modelnan" : b.kind == kModelInf ? "modelinf" : "noweight");
    return o.str();
  }
};
static const std::vector<std::pair<std::vector<int>, std::vector<int>>> kBaselines = {
  {{0, 0, 1}, {1, 2, 2}},
  {{0, 0, 0, 1, 1, 2}, {0, 1, 2, 1, 2, 2}},
  {{2, 1, 1, 2}, {0, 1, 0, 1}},
  {{3, 0}, {3, 0}},
  {{1, 1, 3}, {3, 1, 0}},
};
static F Vis(unsigned t, unsigned b, unsigned c, unsigned p) { return F(1 + t * 64 + b * 8 + c + p * 0.25f, -2.5f + t * 3 - b + c * 16 + p * p); }
static F Model(unsigned d, unsigned t, unsigned b, unsigned c, unsigned p) { return F(0.5f + d * 3 - t * 5 + b + c * 7 + p, 4.0f - d * 11 + t + b * 2 - c + p * 0.5f); }
static float Wgt(unsigned t, unsigned b, unsigned c, unsigned p) { return 0.25f + (t * 7 + b * 3 + c * 5 + p * 2) % 9; }
static bool Pattern(int pattern, unsigned t, unsigned b, unsigned c, unsigned p) {
  switch (pattern) {
    case 1: return true;
    case 2: return (t * 5 + b * 3 + c + p) % 7 == 0;
    case 3: return b == 0;
    case 4: return c == 0 && p == 3;
    case 5: return t % 2;
    default: return false;
  }
}

struct Expected { unsigned a1, a2; std::vector<uint32_t> sol; std::array<D, 4> data; std::vector<std::array<D, 4>> model; std::array<float, 4> weight; bool bad, used = false; };
template <class M> struct As;
template <> struct As<Full> { static constexpr int n = 4; static D Get(const Full& m, int i) { return D(m.Get(i)); } static D Of(const std::array<D, 4>& a, int i) { return a[i]; } };
template <> struct As<Duo> { static constexpr int n = 2; static D Get(const Duo& m, int i) { return D(m.Get(i)); } static D Of(const std::array<D, 4>& a, int i) { return a[3 * i]; } };
template <> struct As<F> { static constexpr int n = 1; static D Get(const F& m, int) { return D(m); } static D Of(const std::array<D, 4>& a, int) { return (a[0] + a[3]) / 2.0; } };
static bool Close(D a, D b) { return std::abs(a - b) <= 1e-5 * (std::abs(b) + 1e-3); }  // NaN compares false

template <class M>
static void Run(const Setup& q) {
  if (!vp::CaseF([&] { return q.Text(); })) return;
  Order(q.order); Threads(1 + q.order);
  const auto& a1 = kBaselines[q.bls].first; const auto& a2 = kBaselines[q.bls].second;
  const unsigned nbl = a1.size(), nant = 4;
  Shape s{nbl, q.nchan, 4, nant};
  std::vector<std::string> names;
  for (unsigned d = 0; d < q.dirs; ++d) names.push_back("dir" + std::to_string(d));
  std::vector<std::unique_ptr<DPBuffer>> in;
  for (unsigned t = 0; t < q.slots; ++t) {
    auto b = Buffer(s, t);
    for (auto& n : names) b->AddData(n);
    b->AddData("other");
    for (unsigned i = 0; i < nbl; ++i) for (unsigned c = 0; c < q.nchan; ++c) for (unsigned p = 0; p < 4; ++p) {
      b->GetData()(i, c, p) = Vis(t, i, c, p);
      b->GetData("other")(i, c, p) = F(NAN, NAN);
      for (unsigned d = 0; d < q.dirs; ++d) b->GetData(names[d])(i, c, p) = Model(d, t, i, c, p);
      b->GetWeights()(i, c, p) = Wgt(t, i, c, p);
      b->GetFlags()(i, c, p) = Pattern(q.pattern, t, i, c, p);
    }
    for (auto& x : q.bad) if (x.t == t) {
      if (x.kind == kFlag) b->GetFlags()(x.bl, x.ch, x.corr) = true;
      if (x.kind == kNan) b->GetData()(x.bl, x.ch, x.corr) = F(1, NAN);
      if (x.kind == kInf) b->GetData()(x.bl, x.ch, x.corr) = F(-INFINITY, 2);
      if (x.kind == kModelNan) b->GetData(names[0])(x.bl, x.ch, x.corr) = F(NAN, 1);
      if (x.kind == kModelInf) b->GetData(names.back())(x.bl, x.ch, x.corr) = F(1, INFINITY);
      if (x.kind == kNoWeight) b->GetWeights()(x.bl, x.ch, x.corr) = 0;
    }
    in.push_back(std::move(b));
  }
  // What should come out.
  std::vector<std::vector<Expected>> want(q.blocks);
  std::vector<uint32_t> nsol, start; uint32_t total = 0;
  for (size_t n : q.sols) { nsol.push_back(std::min<size_t>(n, q.slots)); start.push_back(total); total += nsol.back(); }
  std::vector<unsigned> first_channel;
  for (unsigned cb = 0; cb <= q.blocks; ++cb) first_channel.push_back(cb * q.nchan / q.blocks);
  for (unsigned t = 0; t < q.slots; ++t) for (unsigned b = 0; b < nbl; ++b) {
    if (a1[b] == a2[b]) continue;
    for (unsigned cb = 0; cb < q.blocks; ++cb) for (unsigned c = first_channel[cb]; c < first_channel[cb + 1]; ++c) {
      Expected e;
      e.a1 = a1[b]; e.a2 = a2[b]; e.bad = false;
      const DPBuffer& in_b = *in[t];
      auto finite = [](F f) { return std::isfinite(f.real()) && std::isfinite(f.imag()); };
      for (unsigned p = 0; p < 4; ++p) {
        e.bad |= in_b.GetFlags()(b, c, p) || !finite(in_b.GetData()(b, c, p));
        for (auto& n : names) e.bad |= !finite(in_b.GetData(n)(b, c, p));
        e.weight[p] = in_b.GetWeights()(b, c, p);
      }
      e.model.resize(q.dirs);
      for (unsigned p = 0; p < 4; ++p) {
        const double w = q.linear ? e.weight[p] : std::sqrt(double(e.weight[p]));
        e.data[p] = e.bad ? D() : D(in_b.GetData()(b, c, p)) * w;
        for (unsigned d = 0; d < q.dirs; ++d) e.model[d][p] = e.bad ? D() : D(in_b.GetData(names[d])(b, c, p)) * w;
      }
      for (unsigned d = 0; d < q.dirs; ++d) e.sol.push_back(start[d] + t * nsol[d] / q.slots);
      want[cb].push_back(std::move(e));
    }
  }
  std::vector<std::unique_ptr<DPBuffer>> copy;
  for (auto& b : in) copy.push_back(std::make_unique<DPBuffer>(*b));
  std::vector<DPBuffer> weighted(q.slots + (q.order == 1));
  dp3::ddecal::AssignAndWeight(copy, names, weighted, q.keep, q.linear);
  vp::Step();
  // The input stays as it was, for the steps that follow.
  for (unsigned t = 0; t < q.slots; ++t) {
    Kept(*in[t]).Check(*copy[t], Fields());
    for (auto& n : names) {
      vp::Check(copy[t]->HasData(n) == q.keep, "the model data of direction ", n, q.keep ? " are gone" : " are kept");
      if (q.keep && copy[t]->HasData(n)) vp::Check(std::memcmp(copy[t]->GetData(n).data(), in[t]->GetData(n).data(), in[t]->GetData(n).size() * sizeof(F)) == 0, "the model data of the input changed");
    }
    vp::Check(copy[t]->HasData("other"), "unrelated data are gone");
  }
  weighted.resize(q.slots);
  const SolveData<M> sd(std::move(weighted), names, q.blocks, nant, q.sols, a1, a2);
  vp::Step(); vp::Trace();
  vp::Check(sd.NChannelBlocks() == q.blocks, "number of channel blocks ", sd.NChannelBlocks());
  std::vector<std::vector<double>> strength(total, std::vector<double>(nant * q.blocks, 0));
  size_t zeros = 0, seen = 0;
  for (unsigned cb = 0; cb < q.blocks; ++cb) {
    const auto& d = sd.ChannelBlock(cb);
    auto& w = want[cb];
    vp::Check(d.NDirections() == q.dirs, "number of directions ", d.NDirections());
    vp::Check(d.NVisibilities() == w.size(), "channel block ", cb, " has ", d.NVisibilities(), " visibilities instead of ", w.size());
    if (d.NVisibilities() != w.size()) return;
    vp::Check(d.NSubSolutions() == total, "number of solutions ", d.NSubSolutions(), " instead of ", total);
    std::vector<size_t> per_antenna(nant), per_solution(total);
    for (size_t i = 0; i < w.size(); ++i) {
      // The order does not matter: find one that was not seen yet.
      size_t k = 0;
      for (; k < w.size(); ++k) {
        Expected& e = w[(i + k) % w.size()];
        if (e.used || e.a1 != d.Antenna1Index(i) || e.a2 != d.Antenna2Index(i)) continue;
        bool same = true;
        for (unsigned r = 0; r < q.dirs; ++r) same &= e.sol[r] == d.SolutionIndex(r, i);
        for (int p = 0; same && p < As<M>::n; ++p) {
          same &= Close(As<M>::Get(d.Visibility(i), p), As<M>::Of(e.data, p));
          for (unsigned r = 0; r < q.dirs; ++r) same &= Close(As<M>::Get(d.ModelVisibility(r, i), p), As<M>::Of(e.model[r], p));
        }
        if (same && q.linear && !e.bad) for (unsigned p = 0; p < 4; ++p) same &= (&d.Weight(i))[p] == e.weight[p];
        if (same) break;
      }
      if (k == w.size()) {
        std::ostringstream o;
        o << "visibility " << i << " of channel block " << cb << " (antennas " << d.Antenna1Index(i) << ", " << d.Antenna2Index(i) << ", solutions";
        for (unsigned r = 0; r < q.dirs; ++r) o << " " << d.SolutionIndex(r, i);
        o << ", value " << As<M>::Get(d.Visibility(i), 0) << ") is none of the input";
        vp::Fail(o.str());
        return;
      }
      Expected& e = w[(i + k) % w.size()];
      e.used = true; ++seen; zeros += e.bad;
      ++per_antenna[e.a1]; ++per_antenna[e.a2];
      for (unsigned r = 0; r < q.dirs; ++r) {
        ++per_solution[e.sol[r]];
        double n = 0;
        for (int p = 0; p < As<M>::n; ++p) n += std::abs(As<M>::Of(e.model[r], p));
        strength[e.sol[r]][e.a1 * q.blocks + cb] += n;
        strength[e.sol[r]][e.a2 * q.blocks + cb] += n;
      }
    }
    for (unsigned a = 0; a < nant; ++a) vp::Check(d.NAntennaVisibilities(a) == per_antenna[a], "antenna ", a, " is said to have ", d.NAntennaVisibilities(a), " visibilities instead of ", per_antenna[a]);
    for (unsigned r = 0; r < q.dirs; ++r) {
      vp::Check(d.NSolutionsForDirection(r) == nsol[r], "direction ", r, " is said to have ", d.NSolutionsForDirection(r), " solutions instead of ", nsol[r]);
      for (uint32_t k = 0; k < nsol[r]; ++k) vp::Check(d.NSolutionVisibilities(r, start[r] + k) == per_solution[start[r] + k], "solution ", start[r] + k, " is said to have ", d.NSolutionVisibilities(r, start[r] + k), " visibilities instead of ", per_solution[start[r] + k]);
    }
  }
  const auto weights = sd.GetSolutionWeights();
  vp::Check(weights.size() == total, "weights for ", weights.size(), " solutions instead of ", total);
  for (size_t k = 0; k < std::min<size_t>(total, weights.size()); ++k) {
    vp::Check(weights[k].size() == strength[k].size(), "number of weights ", weights[k].size());
    for (size_t i = 0; i < std::min(weights[k].size(), strength[k].size()); ++i)
      vp::Check(Near(weights[k][i], strength[k][i], 1e-4, 1e-4), "weight of solution ", k, " for antenna ", i / q.blocks, ", block ", i % q.blocks, ": ", weights[k][i], " instead of ", strength[k][i]);
  }
  vp::Outcome(std::to_string(seen) + "/" + std::to_string(zeros) + "/" + std::to_string(total));
}
static void RunT(Setup q) {
  if (q.type == 0) Run<Full>(q);
  else if (q.type == 1) Run<Duo>(q);
  else Run<F>(q);
}

int main(int argc, char** argv) {
  vp::Init(argc, argv);
  const bool th = vp::Thorough();
  const unsigned max_slots = th ? 6 : 4, max_chan = th ? 6 : 4;
  const std::vector<std::vector<size_t>> solutions = {{1}, {2}, {3}, {1, 1}, {2, 1}, {1, 3}, {2, 4}, {4, 2}, {1, 2, 1}, {3, 1, 2}};
  Setup q;
  // All shapes, with patterns of flags.
  for (q.type = 0; q.type < 3; ++q.type) for (q.slots = 1; q.slots <= max_slots; ++q.slots) for (q.nchan = 1; q.nchan <= max_chan; ++q.nchan) for (q.blocks = 1; q.blocks <= q.nchan; ++q.blocks)
    for (q.bls = 0; q.bls < kBaselines.size(); ++q.bls) for (auto& sols : solutions) for (int kl = 0; kl < 4; ++kl) for (q.pattern = 0; q.pattern < 6; ++q.pattern) {
      q.sols = sols; q.dirs = sols.size(); q.keep = kl & 1; q.linear = kl & 2;
      q.order = (q.slots + q.nchan + q.pattern) % 3;
      if (!th && (q.pattern + q.bls + q.slots + q.nchan + kl + sols.size()) % 3) continue;
      RunT(q);
    }
  // Single bad values and pairs of them.
  q = Setup();
  for (q.type = 0; q.type < 3; ++q.type) for (int kl = 0; kl < 4; ++kl) {
    q.keep = kl & 1; q.linear = kl & 2; q.slots = 2; q.nchan = 2; q.blocks = 2; q.dirs = 2; q.sols = {2, 1}; q.bls = 4;
    std::vector<Bad> all;
    for (unsigned t = 0; t < q.slots; ++t) for (unsigned b = 0; b < 3; ++b) for (unsigned c = 0; c < q.nchan; ++c) for (unsigned p = 0; p < 4; ++p) for (int k = 0; k < kNKinds; ++k) all.push_back({t, b, c, p, k});
    for (size_t i = 0; i < all.size(); ++i) {
      q.bad = {all[i]}; q.order = i % 3; RunT(q);
      if (!th && kl != 2 && kl != 1) continue;
      for (size_t j = 0; j < i; ++j) { if (!th && (i + j) % 11) continue; q.bad = {all[i], all[j]}; RunT(q); }
    }
  }
  return vp::Finish();
}
