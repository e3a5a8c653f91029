// C28: averaging in time and frequency: all flag patterns of small blocks,
// averaging factors, minimum-point settings and numbers of time slots.
#include "vp.h"
#include "step_kit.h"
#include "steps/Averager.h"
using namespace kit;
using dp3::steps::Averager;
typedef std::complex<double> Z;

struct Setup { unsigned nchan, ntime, ca, ta; };

static float Weight(int kind, unsigned i) { return kind == 0 ? 1.0f : kind == 1 ? 0.25f * (1 + i * 7 % 5) : (i % 3 == 1 ? 0.0f : 0.5f * (1 + i % 4)); }
static std::complex<float> Value(unsigned i) { return {float(int(i * 37 % 101) - 50), float(int(i * 53 % 97) - 48)}; }

static void Run(const Setup& u, uint64_t flags, int wk, unsigned minpoints, double minperc, bool by_resolution, int order) {
  Shape s{2, u.nchan, 2};
  s.ntime = u.ntime;
  std::shared_ptr<Step> avg;
  if (by_resolution) {
    // Target resolutions, within rounding of the factor.
    const double off[] = {0, 0.4, -0.4};
    avg = std::make_shared<Averager>(Parset({{"a.freqresolution", vp::Str((u.ca + off[order]) * 1000) + "kHz"}, {"a.timeresolution", vp::Str((u.ta + off[order]) * s.interval)}, {"a.freqstep", "7"}, {"a.timestep", "9"}, {"a.minpoints", std::to_string(minpoints)}, {"a.minperc", vp::Str(minperc)}}), "a.");
  } else if (minpoints <= 1 && minperc == 0 && order == 1) {
    avg = std::make_shared<Averager>("avg", u.ca, u.ta);
  } else {
    avg = std::make_shared<Averager>(Parset({{"a.freqstep", std::to_string(u.ca)}, {"a.timestep", std::to_string(u.ta)}, {"a.minpoints", std::to_string(minpoints)}, {"a.minperc", vp::Str(minperc)}}), "a.");
  }
  auto sink = std::make_shared<Sink>();
  avg->setNextStep(sink);
  const unsigned ca = std::min(u.ca, u.nchan), ta = std::min(u.ta, u.ntime);
  std::string err = vp::Throws([&] { avg->setInfo(Info(s)); });
  if (u.nchan % ca) { vp::Check(!err.empty(), "a factor that does not divide the channels is accepted"); return; }
  if (!vp::Check(err.empty(), "the averager refuses its settings")) return;
  const DPInfo& out = avg->getInfoOut();
  vp::Check(out.nchan() == u.nchan / ca && out.ntime() == (u.ntime + ta - 1) / ta && out.timeInterval() == s.interval * ta && out.metaChanged(), "information of the output");
  auto flag = [&](unsigned t, unsigned b, unsigned c, unsigned p) { const unsigned k = (t * u.nchan + c + b) % (u.nchan * u.ntime); return bool((flags >> k) & 1) != (p == 1 && b == 1); };
  auto idx = [&](unsigned t, unsigned b, unsigned c, unsigned p) { return ((t * 2 + b) * u.nchan + c) * 2 + p; };
  for (unsigned t = 0; t < u.ntime; ++t) {
    auto buf = Buffer(s, t);
    for (unsigned b = 0; b < 2; ++b) {
      for (unsigned c = 0; c < u.nchan; ++c) for (unsigned p = 0; p < 2; ++p) {
        buf->GetData()(b, c, p) = Value(idx(t, b, c, p));
        buf->GetWeights()(b, c, p) = Weight(wk, idx(t, b, c, p));
        buf->GetFlags()(b, c, p) = flag(t, b, c, p);
      }
      for (unsigned i = 0; i < 3; ++i) buf->GetUvw()(b, i) = 100.0 * t * (i + 1) + 7 * b;
    }
    avg->process(std::move(buf));
    vp::Step();
    vp::Check(sink->out.size() == ((ca == 1 && ta == 1) ? t + 1 : (t + 1) / ta), "a time slot comes too early or too late");
  }
  avg->finish();
  if (!vp::Check(sink->finished == 1 && !sink->after_finish, "finish is not passed on once, after the data")) return;
  if (!vp::Check(sink->out.size() == out.ntime(), "number of time slots out is " + std::to_string(sink->out.size()))) return;
  const bool none = u.ca == 1 && u.ta == 1;   // passes everything through
  for (unsigned to = 0; to < out.ntime(); ++to) {
    const DPBuffer& r = *sink->out[to];
    const unsigned t0 = to * ta, t1 = std::min(t0 + ta, u.ntime), n = t1 - t0;
    vp::Check(Near(r.GetTime(), s.first_time + s.interval * (t0 + (ta - 1) / 2.0), 1e-12), "time of slot " + std::to_string(to) + " is " + vp::Str(r.GetTime()));
    vp::Check(Near(r.GetExposure(), s.interval * ta), "exposure");
    if (!vp::Check(r.GetData().shape(0) == 2 && r.GetData().shape(1) == u.nchan / ca && r.GetData().shape(2) == 2 && r.GetFlags().size() == r.GetData().size() && r.GetWeights().size() == r.GetData().size(), "shape of the output")) return;
    for (unsigned b = 0; b < 2; ++b) {
      for (unsigned i = 0; i < 3; ++i) {
        double sum = 0;
        for (unsigned t = t0; t < t1; ++t) sum += 100.0 * t * (i + 1) + 7 * b;
        vp::Check(Near(r.GetUvw()(b, i), sum / n), "uvw is not the mean");
      }
      for (unsigned co = 0; co < u.nchan / ca; ++co) for (unsigned p = 0; p < 2; ++p) {
        Z sd = 0, sa = 0; double w = 0, wa = 0; unsigned good = 0;
        for (unsigned t = t0; t < t1; ++t) for (unsigned c = co * ca; c < (co + 1) * ca; ++c) {
          const double x = Weight(wk, idx(t, b, c, p)); const Z v(Value(idx(t, b, c, p)));
          wa += x; sa += x * v;
          if (!flag(t, b, c, p)) { w += x; sd += x * v; ++good; }
        }
        Z want; double weight; bool f;
        if (none) { want = Z(Value(idx(t0, b, co, p))); weight = wa; f = flag(t0, b, co, p); }
        else if (w == 0 || good < minpoints || good < n * ca * minperc / 100 - 1e-6) { f = true; want = wa ? sa / wa : 0; weight = wa; }
        else { f = false; want = sd / w; weight = w; }
        const std::string at = " at slot " + std::to_string(to) + " baseline " + std::to_string(b) + " channel " + std::to_string(co) + " correlation " + std::to_string(p);
        vp::Check(bool(r.GetFlags()(b, co, p)) == f, "flag is " + std::to_string(r.GetFlags()(b, co, p)) + at);
        vp::Check(Near(r.GetWeights()(b, co, p), weight), "weight is " + vp::Str(r.GetWeights()(b, co, p)) + " instead of " + vp::Str(weight) + at);
        vp::Check(Near(r.GetData()(b, co, p), want, 1e-4, 1e-4), "value is " + vp::Str(r.GetData()(b, co, p)) + " instead of " + vp::Str(want) + at);
        vp::Outcome(vp::Hash(&want, sizeof want, f));
      }
    }
  }
  vp::Trace();
}

int main(int argc, char** argv) {
  vp::Init(argc, argv);
  const bool th = vp::Thorough();
  const unsigned limit = th ? 12 : 8;
  for (unsigned nchan = 1; nchan <= 8; ++nchan) for (unsigned ntime = 1; ntime <= 6; ++ntime) {
    if (nchan * ntime > 24) continue;
    for (unsigned ca = 1; ca <= 9; ++ca) for (unsigned ta = 1; ta <= 7; ++ta) {
      if (ca > nchan + 1 || ta > ntime + 1) continue;
      const unsigned cells = nchan * ntime;
      // All flag patterns of small blocks; single and pair patterns of larger.
      std::vector<uint64_t> pats;
      if (cells <= limit && nchan % std::min(ca, nchan) == 0) for (uint64_t f = 0; f < (1ull << cells); ++f) pats.push_back(f);
      else { pats = {0, (1ull << cells) - 1, 0x5555555555ull & ((1ull << cells) - 1)}; for (unsigned i = 0; i < cells; ++i) { pats.push_back(1ull << i); pats.push_back(((1ull << cells) - 1) ^ (1ull << i)); } }
      for (uint64_t f : pats)
        for (int wk = 0; wk < 3; ++wk)
          for (int m = 0; m < 6; ++m) {
            static const unsigned mp[] = {1, 0, 2, 1, 4, 3};
            static const double pc[] = {0, 0, 0, 50, 25, 100};
            if (m && (f % 3 != unsigned(m) % 3) && !th) continue;
            if (!vp::CaseF([&] { return std::to_string(nchan) + "ch x" + std::to_string(ntime) + "t avg " + std::to_string(ca) + "x" + std::to_string(ta) + " flags " + vp::Str(f) + " w" + std::to_string(wk) + " min" + std::to_string(m); })) continue;
            const int order = int(f + wk + m) % 3;
            Order(order);
            Threads(1 + order * 2);
            Run({nchan, ntime, ca, ta}, f, wk, mp[m], pc[m], (f + m) % 4 == 3, order);
          }
    }
  }
  // Frequency resolutions are numbers with an optional unit.
  struct F { const char* t; double hz; };
  for (const F& f : {F{"1000", 1000}, {"1 kHz", 1e3}, {"1.5MHz", 1.5e6}, {"2 GHz ", 2e9}, {"7Hz  ", 7}, {"0", 0}, {"x", -1}, {"3 parsec", -1}, {"", -1}})
    if (vp::Case(std::string("resolution ") + vp::Show(f.t))) {
      double got = -2;
      const std::string e = vp::Throws([&] { got = Averager::getFreqHz(f.t); });
      vp::Check(f.hz < 0 ? !e.empty() : e.empty() && Near(got, f.hz), "frequency is " + vp::Str(got));
      vp::Step(); vp::Trace();
    }
  return vp::Finish();
}
