// C39: interpolation of flagged visibilities.
#include "vp.h"
#include "step_kit.h"
#include "steps/Interpolate.h"
using namespace kit;
using dp3::steps::Interpolate;
typedef std::complex<float> F;
typedef std::complex<double> D;

struct Setup {
  unsigned window = 3; bool dflt = false;
  unsigned slots = 3, nchan = 3, nbl = 1, ncorr = 1;
  uint64_t flags = 0;       // bit per sample (slot, baseline, channel, correlation), repeated
  unsigned values = 0;      // 0 distinct, 1 with non-finite unflagged, 2 non-finite where flagged
  unsigned order = 0, threads = 1;
  std::string Text() const {
    return "window=" + std::to_string(window) + (dflt ? " (default)" : "") + " slots=" + std::to_string(slots) + " nchan=" + std::to_string(nchan) + " nbl=" + std::to_string(nbl) + " ncorr=" + std::to_string(ncorr) + " flags=" + std::to_string(flags) + " values=" + std::to_string(values) + " order=" + std::to_string(order) + " threads=" + std::to_string(threads);
  }
};
static const float kNan = std::numeric_limits<float>::quiet_NaN(), kInf = std::numeric_limits<float>::infinity();

static std::unique_ptr<DPBuffer> Slot(const Setup& q, const Shape& s, unsigned t) {
  auto b = Buffer(s, t);
  const size_t n = b->GetData().size();
  for (size_t i = 0; i < n; ++i) {
    const uint64_t k = t * n + i;
    const bool flag = (q.flags >> (k % 64 < 63 ? k % 61 : 5)) & 1;
    b->GetFlags().data()[i] = flag;
    F v(1 + 3 * k % 17, -2.0f + k % 5 + 0.5f * t);
    if (q.values == 1 && k % 5 == 2) v = k % 2 ? F(kNan, 1) : F(1, kInf);
    if (q.values == 2 && flag) v = F(kNan, -kInf);
    b->GetData().data()[i] = v;
    b->GetWeights().data()[i] = 0.5f + k % 3;
  }
  for (unsigned i = 0; i < b->GetUvw().size(); ++i) b->GetUvw().data()[i] = 10 * t + i;
  return b;
}

static void Run(const Setup& q) {
  if (!vp::CaseF([&] { return q.Text(); })) return;
  Order(q.order); Threads(q.threads);
  Shape s; s.nbl = q.nbl; s.nchan = q.nchan; s.ncorr = q.ncorr; s.nant = 3; s.ntime = std::max(1u, q.slots);
  const DPInfo in = Info(s);
  std::vector<std::pair<std::string, std::string>> kv;
  if (!q.dflt) kv.push_back({"i.windowsize", std::to_string(q.window)});
  Interpolate step(Parset(kv), "i.");
  auto sink = std::make_shared<Sink>();
  step.setNextStep(sink);
  step.setInfo(in);
  std::vector<std::unique_ptr<DPBuffer>> ref;
  for (unsigned t = 0; t < q.slots; ++t) {
    ref.push_back(Slot(q, s, t));
    step.process(Slot(q, s, t));
    vp::Step();
    vp::Check(sink->finished == 0, "finished early");
    // A slot leaves when no later slot needs it any more, not later.
    const size_t due = t + 1 >= q.window ? t + 2 - q.window : 0;
    vp::Check(sink->out.size() == due, "after slot ", t, " ", sink->out.size(), " slots passed on instead of ", due);
  }
  step.finish();
  vp::Step(); vp::Trace();
  vp::Check(sink->finished == 1 && !sink->after_finish, "next step finished ", sink->finished, " times");
  vp::Check(sink->out.size() == q.slots, sink->out.size(), " slots instead of ", q.slots);
  if (sink->out.size() != q.slots) return;
  const int half = q.window / 2;
  size_t left = 0, filled = 0;
  for (int t = 0; t < int(q.slots); ++t) {
    const DPBuffer& b = *sink->out[t];
    const DPBuffer& r = *ref[t];
    Kept(r).Check(b, dp3::common::Fields(dp3::common::Fields::Single::kData) | dp3::common::Fields(dp3::common::Fields::Single::kFlags));
    for (int bl = 0; bl < int(q.nbl); ++bl) for (int c = 0; c < int(q.nchan); ++c) for (int p = 0; p < int(q.ncorr); ++p) {
      const F got = b.GetData()(bl, c, p);
      const bool flag = b.GetFlags()(bl, c, p);
      D sum = 0; double w = 0; bool finite = true;
      double biggest = 0;
      if (!r.GetFlags()(bl, c, p)) {
        sum = D(r.GetData()(bl, c, p)); w = 1;
        finite = std::isfinite(sum.real()) && std::isfinite(sum.imag());
        if (finite) { vp::Check(!flag && got == r.GetData()(bl, c, p), "slot ", t, " channel ", c, ": an unflagged value changed"); continue; }
      } else {
        for (int u = std::max(0, t - half); u <= std::min(int(q.slots) - 1, t + half); ++u)
          for (int d = std::max(0, c - half); d <= std::min(int(q.nchan) - 1, c + half); ++d) {
            if (ref[u]->GetFlags()(bl, d, p)) continue;
            const double k = std::exp(-0.5 * ((u - t) * (u - t) + (d - c) * (d - c)));
            const D v(ref[u]->GetData()(bl, d, p));
            if (!std::isfinite(v.real()) || !std::isfinite(v.imag())) finite = false;
            sum += k * v; w += k; biggest = std::max(biggest, std::abs(v));
          }
        // Kernel values that single precision does not have.
        if (w > 0 && w < 1e-36) { vp::Count("windows with weights below single precision"); continue; }
      }
      if (w == 0 || !finite) {
        ++left;
        vp::Check(flag && got == F(0, 0), "slot ", t, " baseline ", bl, " channel ", c, " correlation ", p, ": nothing to interpolate from, but value ", got, " flag ", flag);
      } else {
        ++filled;
        vp::Check(!flag && Near(got, sum / w, 1e-5, 1e-5 * biggest), "slot ", t, " baseline ", bl, " channel ", c, " correlation ", p, ": value ", got, " flag ", flag, " instead of ", sum / w);
      }
    }
  }
  vp::Outcome(left * 1000 + filled);
}

int main(int argc, char** argv) {
  vp::Init(argc, argv);
  const bool th = vp::Thorough();
  for (unsigned w : {0u, 2u, 4u, 16u})
    if (vp::Case("refused window " + std::to_string(w))) { vp::Check(!vp::Throws([&] { Interpolate(Parset({{"i.windowsize", std::to_string(w)}}), "i."); }).empty(), "even window accepted"); vp::Outcome(2); }
  long nr = 0;
  // All patterns of flags of small cubes.
  for (unsigned slots = 0; slots <= 6; ++slots) for (unsigned nchan = 1; nchan <= 6; ++nchan) {
    const unsigned n = slots * nchan;
    if (n > (th ? 15u : 12u)) continue;
    for (unsigned w : {1u, 3u, 5u, 7u}) for (uint64_t f = 0; f < 1ull << n; ++f) {
      Setup q; q.window = w; q.slots = slots; q.nchan = nchan; q.flags = f;
      ++nr;
      q.values = nr % 3; q.order = nr % 2; q.threads = 1 + nr % 3;
      Run(q);
    }
  }
  // Several baselines and correlations, longer series and the default window;
  // patterns with holes of all sizes.
  std::vector<uint64_t> pat{0, ~0ull, 1, 1ull << 60, 0x5555555555555555ull, 0xaaaaaaaaaaaaaaaaull, 0x3333333333333333ull, 0xff00ff00ff00ull, 0x0123456789abcdefull, 0xfedcba9876543210ull, 0xfffffffffffffull, 0xfffffffffull << 20, 0x7ffffffffffffeffull};
  for (int i = 0; i < 60; i += th ? 1 : 5) { pat.push_back(1ull << i); pat.push_back(~(1ull << i)); pat.push_back((1ull << i) - 1); }
  for (unsigned slots : {1u, 2u, 4u, 7u, 16u, 19u}) for (unsigned nchan : {1u, 2u, 5u, 17u}) for (unsigned nbl : {1u, 2u, 3u}) for (unsigned ncorr : {1u, 2u, 4u})
    for (unsigned w : {1u, 3u, 5u, 9u, 15u, 27u}) for (uint64_t f : pat) {
      ++nr;
      if (!th && nr % 7) continue;
      Setup q; q.window = w; q.dflt = w == 15 && nr % 2; q.slots = slots; q.nchan = nchan; q.nbl = nbl; q.ncorr = ncorr; q.flags = f;
      q.values = nr % 3; q.order = nr % 2; q.threads = 1 + nr % 4;
      Run(q);
    }
  return vp::Finish();
}
