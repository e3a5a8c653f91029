// C38: upsampling in time.
#include "vp.h"
#include "step_kit.h"
#include "base/UVWCalculator.h"
#include "steps/Upsample.h"
using namespace kit;
using dp3::steps::Upsample;
typedef std::complex<float> F;

// Stand-in for the calculator (needs the ephemerides of casacore): records
// what it is made for and gives coordinates depending on antennas and time.
namespace {
struct Made { casacore::MDirection dir; std::vector<casacore::MPosition> pos; casacore::MPosition array; };
std::vector<Made> made;
std::array<double, 3> Calc(unsigned a, unsigned b, double t) { return {{a * 7.0 - b * 3.0 + t, b * 5.0 - 6 - t, a * 2.0 - b + 0.5 * t}}; }
}  // namespace
namespace dp3::base {
UVWCalculator::UVWCalculator(const casacore::MDirection& d, const casacore::MPosition& a, const std::vector<casacore::MPosition>& s) { made.push_back({d, s, a}); }
std::array<double, 3> UVWCalculator::getUVW(unsigned int a, unsigned int b, double t) { return Calc(a, b, t); }
}  // namespace dp3::base

struct Setup {
  unsigned n = 2, uvw = 0;           // 0 copy, 1 recompute, 2 recompute without input uvw
  std::vector<unsigned> gap;         // between consecutive slots, in output intervals
  unsigned slots = 0, flags = 0;     // flags: base 3 digit per slot: none, some, all
  unsigned nbl = 2, nchan = 2, ncorr = 2;
  double interval = 2, first = 100, jitter = 0;
  bool extra = false, parset = true;
  std::string Text() const {
    std::string g;
    for (auto x : gap) g += std::to_string(x) + ",";
    return "n=" + std::to_string(n) + " slots=" + std::to_string(slots) + " gaps=" + g + " flags=" + std::to_string(flags) + " uvw=" + std::to_string(uvw) + " shape=" + std::to_string(nbl) + "x" + std::to_string(nchan) + "x" + std::to_string(ncorr) + " interval=" + vp::Str(interval) + " first=" + vp::Str(first) + " jitter=" + vp::Str(jitter) + (extra ? " extra" : "") + (parset ? "" : " direct");
  }
};

static std::unique_ptr<DPBuffer> Slot(const Setup& q, const Shape& s, unsigned t, double time) {
  auto b = Buffer(s, t);
  b->SetTime(time);
  b->SetExposure(q.interval * (0.5 + 0.125 * t));
  unsigned kind = q.flags;
  for (unsigned i = 0; i < t; ++i) kind /= 3;
  kind %= 3;
  for (unsigned i = 0; i < b->GetData().size(); ++i) {
    b->GetData().data()[i] = F(1 + i + 100 * t, -3.0f * i + t);
    b->GetWeights().data()[i] = 0.25f * (1 + i) + t;
    b->GetFlags().data()[i] = kind == 2 || (kind == 1 && i + 1 < b->GetData().size());
  }
  for (unsigned i = 0; i < b->GetUvw().size(); ++i) b->GetUvw().data()[i] = 10 * t + i;
  if (q.uvw == 2) b->GetUvw().resize({0, 0});
  if (q.extra) {
    b->AddData("model");
    for (unsigned i = 0; i < b->GetData("model").size(); ++i) b->GetData("model").data()[i] = F(-1.0f * i, t);
  }
  return b;
}

static void Run(const Setup& q) {
  if (!vp::CaseF([&] { return q.Text(); })) return;
  Shape s; s.nbl = q.nbl; s.nchan = q.nchan; s.ncorr = q.ncorr; s.nant = 3;
  s.interval = q.interval; s.first_time = q.first;
  const double unit = q.interval / q.n;
  std::vector<double> pos;  // in units
  double at = 0;
  for (unsigned t = 0; t < q.slots; ++t) { if (t) at += q.gap[t - 1]; pos.push_back(at); }
  s.ntime = q.slots ? unsigned(pos.back() / q.n + 1.5) : 1;
  DPInfo in = Info(s);
  if (q.slots) in.setTimes(q.first, q.first + (s.ntime - 1) * q.interval, q.interval);
  made.clear();
  std::unique_ptr<Upsample> up;
  if (q.parset) {
    std::vector<std::pair<std::string, std::string>> kv{{"u.timestep", std::to_string(q.n)}};
    if (q.uvw) kv.push_back({"u.updateuvw", "true"}); else if (q.flags % 2) kv.push_back({"u.updateuvw", "F"});
    up = std::make_unique<Upsample>(Parset(kv), "u.");
  } else {
    up = std::make_unique<Upsample>("u", q.n, q.uvw > 0);
  }
  auto sink = std::make_shared<Sink>();
  up->setNextStep(sink);
  up->setInfo(in);
  const DPInfo& info = up->getInfoOut();
  vp::Check(Near(info.timeInterval(), unit, 1e-12, 0), "time interval in the metadata: ", info.timeInterval());
  vp::Check(info.ntime() == s.ntime * q.n, "number of time slots in the metadata: ", info.ntime(), " for ", s.ntime, " slots");
  vp::Check(Near(info.startTime(), in.startTime(), 0, 1e-6 * unit + 2e-16 * q.first), "start time in the metadata: ", info.startTime(), " before: ", in.startTime());
  vp::Check(Near(info.firstTime(), in.startTime() + 0.5 * unit, 0, 1e-6 * unit + 4e-16 * q.first), "first time in the metadata: ", info.firstTime());
  vp::Check(Near(info.lastTime(), in.lastTime() + 0.5 * q.interval - 0.5 * unit, 0, 1e-6 * unit + 4e-16 * q.first), "last time in the metadata: ", info.lastTime());
  vp::Check(info.metaChanged(), "metadata not marked as changed");
  vp::Check(info.nchan() == in.nchan() && info.ncorr() == in.ncorr() && info.nbaselines() == in.nbaselines() && info.chanFreqs() == in.chanFreqs(), "shape in the metadata changed");
  vp::Check(made.size() == (q.uvw ? 1u : 0u), "calculators made: ", made.size());
  if (q.uvw) vp::Check(made[0].pos.size() == 3 && made[0].dir.getAngle().getValue()[1] == in.phaseCenter().getAngle().getValue()[1] && made[0].pos[2].getValue()(1) == in.antennaPos()[2].getValue()(1), "calculator made for other positions or phase centre");

  // What must come out: per output time the slot it comes from.
  struct Out { unsigned slot, sub; };
  std::vector<Out> expect;
  auto all_flagged = [&](unsigned t) { unsigned k = q.flags; for (unsigned i = 0; i < t; ++i) k /= 3; return k % 3 == 2; };
  for (unsigned t = 0; t < q.slots; ++t) {
    for (unsigned i = 0; i < q.n; ++i) {
      const double u = pos[t] + i;
      if (t && u < pos[t - 1] + q.n && all_flagged(t)) continue;        // the earlier slot has it
      if (t + 1 < q.slots && u >= pos[t + 1] && !all_flagged(t + 1)) continue;  // the later slot has it
      expect.push_back({t, i});
    }
  }
  std::vector<std::unique_ptr<DPBuffer>> ref;
  std::vector<double> times;
  size_t seen = 0;
  for (unsigned t = 0; t < q.slots; ++t) {
    const double time = q.first + pos[t] * unit + (t % 2 ? q.jitter : -q.jitter) * unit;
    times.push_back(time);
    ref.push_back(Slot(q, s, t, time));
    up->process(Slot(q, s, t, time));
    vp::Check(sink->finished == 0, "finished early");
    vp::Check(sink->out.size() >= seen, "output lost");
    seen = sink->out.size();
    // Output stays at most one slot behind.
    size_t due = 0;
    for (auto& e : expect) due += e.slot < t;
    vp::Check(sink->out.size() == due, "after slot ", t, " ", sink->out.size(), " slots passed on instead of ", due);
  }
  up->finish();
  vp::Check(sink->finished == 1 && !sink->after_finish, "next step finished ", sink->finished, " times");
  vp::Check(sink->out.size() == expect.size(), sink->out.size(), " slots instead of ", expect.size());
  double last = -1e300;
  for (size_t k = 0; k < expect.size(); ++k) {
    const DPBuffer& b = *sink->out[k];
    const unsigned t = expect[k].slot;
    const DPBuffer& r = *ref[t];
    const double want = times[t] - 0.5 * q.interval + (expect[k].sub + 0.5) * unit;
    vp::Check(Near(b.GetTime(), want, 0, 1e-6 * unit + 4e-16 * q.first), "output ", k, " has time ", b.GetTime(), " instead of ", want);
    vp::Check(b.GetTime() > last, "output times not increasing at ", k);
    last = b.GetTime();
    vp::Check(Near(b.GetExposure(), r.GetExposure() / q.n, 1e-12, 0), "output ", k, " has exposure ", b.GetExposure());
    vp::Check(b.GetData() == r.GetData() && b.GetFlags() == r.GetFlags() && b.GetWeights() == r.GetWeights(), "output ", k, " does not have the data, flags and weights of slot ", t);
    vp::Check(b.HasData("model") == q.extra && (!q.extra || b.GetData("model") == r.GetData("model")), "output ", k, " has other extra data");
    if (q.uvw) {
      vp::Check(b.GetUvw().size() == q.nbl * 3, "output ", k, " has ", b.GetUvw().size(), " uvw values");
      for (unsigned bl = 0; bl < q.nbl; ++bl) {
        const auto c = Calc(in.getAnt1()[bl], in.getAnt2()[bl], b.GetTime());
        for (int i = 0; i < 3; ++i) vp::Check(b.GetUvw()(bl, i) == c[i], "output ", k, " baseline ", bl, " has uvw of another time or baseline");
      }
    } else {
      vp::Check(b.GetUvw() == r.GetUvw(), "output ", k, " has other uvw");
    }
  }
  vp::Step(q.slots + 1);
  vp::Trace();
  vp::Outcome(expect.size());
}

static void Refused(unsigned n, bool parset) {
  if (!vp::CaseF([&] { return "refused n=" + std::to_string(n) + (parset ? " parset" : ""); })) return;
  vp::Check("" != vp::Throws([&] { if (parset) Upsample(Parset({{"u.timestep", std::to_string(n)}}), "u."); else Upsample("u", n, false); }), "timestep ", n, " accepted");
  vp::Outcome(1);
}

int main(int argc, char** argv) {
  vp::Init(argc, argv);
  const bool th = vp::Thorough();
  for (unsigned n : {0u, 1u}) for (bool p : {false, true}) Refused(n, p);
  {
    if (vp::Case("no timestep")) { vp::Check("" != vp::Throws([] { Upsample(Parset({}), "u."); }), "no timestep accepted"); vp::Outcome(1); }
  }
  const unsigned max_slots = th ? 6 : 5;
  long nr = 0;
  for (unsigned n = 2; n <= (th ? 7u : 5u); ++n) {
    std::vector<unsigned> gaps;
    for (unsigned g = 1; g <= n + 1; ++g) gaps.push_back(g);
    gaps.push_back(2 * n);
    for (unsigned slots = 0; slots <= max_slots; ++slots) {
      if (n > 4 && slots + 1 > max_slots) continue;
      const unsigned ng = slots ? slots - 1 : 0;
      std::vector<unsigned> idx(ng, 0);
      for (;;) {
        Setup q; q.n = n; q.slots = slots;
        for (unsigned i : idx) q.gap.push_back(gaps[i]);
        bool ok = true;
        for (unsigned i = 1; i < ng; ++i) ok &= q.gap[i] + q.gap[i - 1] >= n;  // at most two slots overlap
        if (ok) {
          unsigned pw = 1;
          for (unsigned i = 0; i < slots; ++i) pw *= 3;
          // Up to four slots all patterns of flags, else those of two kinds.
          for (unsigned f = 0; f < pw; ++f) {
            if (slots > 3) {
              bool one = false;
              unsigned some = 0;
              for (unsigned k = f, i = 0; i < slots; ++i, k /= 3) { one |= k % 3 == 1; some += k % 3 == 1; }
              if (one && (some > 1 || !th) ) continue;
            }
            q.flags = f;
            ++nr;
            q.uvw = nr % 3;
            q.extra = nr % 5 == 0;
            q.parset = nr % 7 != 0;
            const int sh = nr % 4;
            q.nbl = sh == 3 ? 1 : 2 + sh; q.nchan = sh == 3 ? 1 : 3 - sh; q.ncorr = sh == 3 ? 1 : sh == 2 ? 4 : 2;
            if (sh == 0) q.nchan = 3;
            q.interval = nr % 11 == 0 ? 2.01327 : nr % 11 == 1 ? 1 : 2;
            q.first = nr % 13 < 3 ? 5020763030.74 : 100;
            q.jitter = nr % 6 == 0 ? 0.15 : 0;
            Run(q);
          }
        }
        unsigned i = 0;
        while (i < ng && ++idx[i] == gaps.size()) idx[i++] = 0;
        if (i == ng) break;
      }
    }
  }
  return vp::Finish();
}
