// C34 (2): the clipper flags where the predicted amplitude exceeds the limit.
#include "vp.h"
#include "step_kit.h"
#include "base/DP3.h"
#include "steps/Clipper.h"
#include "steps/MsReader.h"
using namespace kit;
using dp3::steps::Clipper;
using dp3::steps::OnePredict;
typedef std::complex<float> F;

std::pair<unsigned int, unsigned int> dp3::steps::MsReader::ParseChannelSelection(const std::string& a, const std::string& b, unsigned int n) {
  const unsigned start = atoi(a.c_str()), count = atoi(b.c_str());
  return {start, count ? std::min(count, n - start) : n - start};
}
Fields dp3::base::GetChainRequiredFields(std::shared_ptr<Step> first) {
  std::vector<Step*> all;
  for (auto s = first; s; s = s->getNextStep()) all.push_back(s.get());
  Fields f;
  for (size_t i = all.size(); i-- > 0;) f.UpdateRequirements(all[i]->getRequiredFields(), all[i]->getProvidedFields());
  return f;
}
// A prediction with known values instead of the sky model: the amplitude
// depends on time, stations, frequency and correlation.
static float limit; static int pattern; static int predictions; static double first_time;
static std::vector<double> seen_freq; static std::string trouble;
static float Amp(unsigned slot, int a, int b, unsigned chan, unsigned p) {
  const unsigned k = slot * 41 + a * 17 + b * 29 + chan * 13 + p * 7 + pattern * 31;
  switch (pattern % 4) {
    case 0: return limit * ((k * 2654435761u >> 24) % 5) / 3;
    case 1: return limit * (k % 11 == 0 ? 1.5f : 1.0f);  // exactly the limit is not beyond it
    case 2: return k % 5 == 1 ? std::numeric_limits<float>::quiet_NaN() : limit * (k % 7 == 3 ? 2 : 0.25f);
    default: return limit * ((a + b + slot + p) % 3 == 2 ? 1.0001f : 0.9999f);
  }
}
namespace dp3::steps {
OnePredict::OnePredict(const common::ParameterSet&, const std::string&, const std::vector<std::string>&) {}
OnePredict::~OnePredict() = default;
void OnePredict::updateInfo(const base::DPInfo& i) { Step::updateInfo(i); seen_freq = i.chanFreqs(); }
bool OnePredict::process(std::unique_ptr<base::DPBuffer> b) {
  ++predictions;
  const base::DPInfo& i = getInfoOut();
  const unsigned slot = (b->GetTime() - first_time) / 2 + 0.5;
  if (b->GetUvw().shape(0) != i.nbaselines()) trouble = "uvw of the wrong size given to the prediction";
  else for (unsigned k = 0; k < i.nbaselines(); ++k) if (b->GetUvw()(k, 0) != 1000 * slot + 10 * i.getAnt1()[k] + i.getAnt2()[k]) trouble = "uvw of another baseline given to the prediction";
  b->GetData().resize({i.nbaselines(), i.nchan(), i.ncorr()});
  for (unsigned k = 0; k < i.nbaselines(); ++k) for (unsigned c = 0; c < i.nchan(); ++c) for (unsigned p = 0; p < i.ncorr(); ++p) {
    const float v = Amp(slot, i.getAnt1()[k], i.getAnt2()[k], unsigned((i.chanFreqs()[c] - 100e6) / 1e6 + 0.5), p);
    b->GetData()(k, c, p) = (k + c) % 3 == 0 ? F(v, 0) : (k + c) % 3 == 1 ? F(0, -v) : F(-v, 0);
  }
  getNextStep()->process(std::move(b));
  return true;
}
void OnePredict::finish() { getNextStep()->finish(); }
void OnePredict::show(std::ostream&) const {}
void OnePredict::showTimings(std::ostream&, double) const {}
base::Direction OnePredict::GetFirstDirection() const { return {}; }
}  // namespace dp3::steps

struct Setup {
  int timestep = 5, freqstep = 1, sel = 0, pat = 0, rows = 0, lim = 0; bool all = true;
  unsigned nchan = 4, ncorr = 4, ntime = 4;
  std::string Text() const { return "timestep=" + std::to_string(timestep) + " freqstep=" + std::to_string(freqstep) + " selection=" + std::to_string(sel) + " pattern=" + std::to_string(pat) + " rows=" + std::to_string(rows) + " limit=" + std::to_string(lim) + (all ? " all" : " single") + " nchan=" + std::to_string(nchan) + " ncorr=" + std::to_string(ncorr) + " ntime=" + std::to_string(ntime); }
};
static const char* kSel[][2] = {{"", ""}, {"baseline", "[ant0]"}, {"baseline", "[[ant1,ant2]]"}, {"corrtype", "cross"}, {"corrtype", "auto"}, {"blrange", "[0,1e9]"}, {"baseline", "[ant2]"}};

static void Run(const Setup& q) {
  if (!vp::CaseF([&] { return q.Text(); })) return;
  Shape s{0, q.nchan, q.ncorr, 3};
  AllBaselines(3, true, s.a1, s.a2);
  s.nbl = s.a1.size(); s.ntime = q.ntime;
  DPInfo info = Info(s);
  if (q.lim == 1) { DPInfo hba(q.ncorr, q.nchan, "HBA_DUAL"); std::vector<double> f = info.chanFreqs(), w = info.chanWidths(); hba.setChannels(std::move(f), std::move(w)); hba.setTimes(s.first_time, s.first_time + (q.ntime - 1) * 2, 2); hba.setAntennas(info.antennaNames(), info.antennaDiam(), info.antennaPos(), s.a1, s.a2); info = hba; }
  limit = q.lim == 0 ? 50 : q.lim == 1 ? 5 : 2.5; pattern = q.pat; first_time = s.first_time; predictions = 0; trouble.clear();
  std::vector<std::pair<std::string, std::string>> kv{{"c.freqstep", std::to_string(q.freqstep)}};
  if (q.timestep != 5) kv.emplace_back("c.timestep", std::to_string(q.timestep));
  if (q.lim == 2) kv.emplace_back("c.amplmax", "2.5");
  if (!q.all) kv.emplace_back("c.flagallcorrelations", "false");
  if (q.sel) kv.emplace_back(std::string("c.") + kSel[q.sel][0], kSel[q.sel][1]);
  auto step = std::make_shared<Clipper>(Parset(kv), "c.");
  auto sink = std::make_shared<Sink>();
  step->setNextStep(sink);
  const std::string err = vp::Throws([&] { step->setInfo(info); });
  if (!vp::Check(err.empty(), "refused: " + err)) return;
  const Fields req = step->getRequiredFields();
  vp::Check(req.Flags() && req.Uvw(), "flags and uvw are not among the required fields");
  vp::Check(seen_freq.size() == (q.nchan + q.freqstep - 1) / q.freqstep, "number of predicted channels is wrong");
  for (size_t c = 0; c < seen_freq.size() && c * q.freqstep < q.nchan; ++c) vp::Check(seen_freq[c] == info.chanFreqs()[c * q.freqstep], "predicted channels are wrong");
  vp::Check(step->getInfoOut().nchan() == q.nchan && step->getInfoOut().nbaselines() == s.nbl, "metadata changed");
  auto selected = [&](int a, int b) { switch (q.sel) { case 1: return a == 0 || b == 0; case 2: return a == 1 && b == 2; case 3: return a != b; case 4: return a == b; case 6: return a == 2 || b == 2; default: return true; } };
  for (unsigned t = 0; t < q.ntime; ++t) {
    auto b = Buffer(s, t);
    for (unsigned i = 0; i < s.nbl; ++i) {
      b->GetUvw()(i, 0) = 1000 * t + 10 * s.a1[i] + s.a2[i];
      for (unsigned c = 0; c < q.nchan; ++c) for (unsigned p = 0; p < q.ncorr; ++p) { b->GetFlags()(i, c, p) = (i + 2 * c + 3 * p + t) % 6 == 0; b->GetData()(i, c, p) = F(i + 1, c + 10 * p); b->GetWeights()(i, c, p) = 1 + i + c; }
    }
    // Row numbers as from a measurement set, with a missing slot, none at all.
    if (q.rows == 0 || (q.rows == 1 && t % 2)) { casacore::Vector<dp3::common::rownr_t> r(s.nbl); for (unsigned i = 0; i < s.nbl; ++i) r[i] = t * s.nbl + i; b->SetRowNumbers(r); }
    const DPBuffer in(*b);
    const bool strip = t % 2 == 0;
    if (strip) Strip(*b, req);
    step->process(std::move(b));
    vp::Step();
    if (!vp::Check(sink->out.size() == t + 1, "time slot not passed on")) return;
    if (!vp::Check(trouble.empty(), trouble)) return;
    const DPBuffer& o = *sink->out.back();
    if (!strip) Kept(in).Check(o, step->getProvidedFields());
    vp::Check(o.GetTime() == in.GetTime() && o.GetExposure() == in.GetExposure(), "time or exposure changed");
    if (!vp::Check(o.GetFlags().shape(0) == s.nbl && o.GetFlags().shape(1) == q.nchan && o.GetFlags().shape(2) == q.ncorr, "shape of the flags changed")) return;
    const unsigned slot = t / q.timestep * q.timestep;
    unsigned long h = 0;
    for (unsigned i = 0; i < s.nbl; ++i) for (unsigned c = 0; c < q.nchan; ++c) for (unsigned p = 0; p < q.ncorr; ++p) {
      bool hit = false;
      if (selected(s.a1[i], s.a2[i])) for (unsigned x = 0; x < q.ncorr; ++x) if (q.all || x == p) hit |= Amp(slot, s.a1[i], s.a2[i], c / q.freqstep * q.freqstep, x) > limit;
      const bool f = o.GetFlags()(i, c, p);
      h = h * 3 + f;
      if (!vp::Check(f == (hit || in.GetFlags()(i, c, p)), "time slot " + std::to_string(t) + " baseline " + std::to_string(i) + " channel " + std::to_string(c) + " correlation " + std::to_string(p) + ": " + (f ? "flagged" : "not flagged") + ", the predicted amplitude is " + (hit ? "too high" : "fine"))) return;
    }
    vp::Outcome(std::to_string(h));
  }
  vp::Check(predictions == int((q.ntime + q.timestep - 1) / q.timestep), "number of predictions is wrong");
  step->finish();
  vp::Check(sink->finished == 1 && !sink->after_finish, "finish is not passed on once at the end");
  vp::Trace();
}

int main(int argc, char** argv) {
  vp::Init(argc, argv);
  const bool th = vp::Thorough();
  for (int ts : {1, 2, 3, 5}) for (int fs : {1, 2, 3, 4, 7}) for (int sel = 0; sel < 7; ++sel) for (int all = 0; all < 2; ++all) for (int pat = 0; pat < (th ? 12 : 4); ++pat) for (int lim = 0; lim < 3; ++lim) for (unsigned nchan : {1u, 4u, 5u}) {
    Setup q; q.timestep = ts; q.freqstep = fs; q.sel = sel; q.all = all; q.pat = pat; q.lim = lim; q.nchan = nchan;
    q.rows = (ts + fs + sel + pat) % 3; q.ncorr = (pat + lim) % 3 == 0 ? 4 : (pat + lim) % 3; q.ntime = 1 + (ts + nchan + pat + all) % 7;
    Run(q);
    if (th) for (q.rows = 0; q.rows < 3; ++q.rows) for (q.ntime = 1; q.ntime < 12; q.ntime += 2) Run(q);
  }
  return vp::Finish();
}
