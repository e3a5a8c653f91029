// C47 (1): the steps with parallel loops, under every schedule.
#include "par_kit.h"
#include "step_kit.h"
#include "steps/Averager.h"
#include "steps/Interpolate.h"
#include "steps/MadFlagger.h"
#include "steps/PhaseShift.h"
using namespace kit;
typedef std::complex<float> F;

static std::unique_ptr<DPBuffer> Slot(const Shape& s, unsigned t, int pattern) {
  auto b = Buffer(s, t);
  for (size_t i = 0; i < b->GetData().size(); ++i) {
    const unsigned k = t * b->GetData().size() + i;
    b->GetData().data()[i] = F(1 + (k * 2654435761u >> 20) % 11 + (k % 7 == 3 ? 60 : 0), -3.0f + k % 5 + 0.25f * t);
    b->GetWeights().data()[i] = 0.5f + k % 3;
    b->GetFlags().data()[i] = pattern == 1 ? k % 3 == 1 : pattern == 2 ? (k / s.ncorr) % 4 == 2 : false;
  }
  for (size_t i = 0; i < b->GetUvw().size(); ++i) b->GetUvw().data()[i] = 100.0 * t + 37 * i;
  return b;
}
static par::Out Outputs(const Sink& sink) {
  par::Out o;
  o.push_back(sink.out.size());
  for (auto& b : sink.out) {
    o.push_back(b->GetTime()); o.push_back(b->GetExposure());
    for (auto& x : b->GetData()) { o.push_back(x.real()); o.push_back(x.imag()); }
    for (bool x : b->GetFlags()) o.push_back(x);
    for (float x : b->GetWeights()) o.push_back(x);
    for (double x : b->GetUvw()) o.push_back(x);
  }
  return o;
}
static void Run(const std::string& name, unsigned nbl, unsigned nchan, unsigned ncorr, unsigned slots, int pattern, size_t threads, int way, int preemptions, unsigned branches,
                const std::function<std::shared_ptr<Step>()>& make) {
  if (!vp::CaseF([&] { return name + " nbl=" + std::to_string(nbl) + " nchan=" + std::to_string(nchan) + " ncorr=" + std::to_string(ncorr) + " slots=" + std::to_string(slots) + " flags=" + std::to_string(pattern) + " threads=" + std::to_string(threads) + " way=" + std::to_string(way); })) return;
  Shape s{nbl, nchan, ncorr, 3};
  s.ntime = slots;
  const DPInfo info = Info(s);
  par::AllSchedules([&]() -> std::function<par::Out()> {
    auto step = make();
    auto sink = std::make_shared<Sink>();
    step->setNextStep(sink);
    step->setInfo(info);
    auto in = std::make_shared<std::vector<std::unique_ptr<DPBuffer>>>();
    for (unsigned t = 0; t < slots; ++t) in->push_back(Slot(s, t, pattern));
    return [step, sink, in] {
      for (auto& b : *in) step->process(std::move(b));
      step->finish();
      return Outputs(*sink);
    };
  }, 0, threads, way, false, preemptions, branches);
  vp::Trace();
}

int main(int argc, char** argv) {
  vp::Init(argc, argv);
  const bool th = vp::Thorough();
  for (unsigned nbl : {1u, 3u, 6u}) for (unsigned nchan : {1u, 2u, 4u}) for (unsigned ncorr : {1u, 4u}) for (unsigned slots : {1u, 2u, 5u}) for (int pattern = 0; pattern < 3; ++pattern)
    for (size_t threads : {2, 3, 4}) for (int way = 0; way < 3; ++way) {
      if (!th && (nbl + nchan + ncorr + slots + pattern + threads + way) % 3) continue;
      const unsigned few = threads == 2 ? slots : std::min(slots, threads == 3 ? 3u : 2u);
      for (unsigned ta : {1u, 2u, 3u}) for (unsigned ca : {1u, 2u}) if (nchan % ca == 0 && ta * ca > 1)
        Run("averager " + std::to_string(ca) + "x" + std::to_string(ta), nbl, nchan, ncorr, few, pattern, threads, way, 2, th ? 12 : 6, [=] { return std::make_shared<dp3::steps::Averager>(Parset({{"a.freqstep", std::to_string(ca)}, {"a.timestep", std::to_string(ta)}}), "a."); });
      Run("phaseshift", nbl, nchan, ncorr, few, pattern, threads, way, 2, th ? 12 : 6, [=] { return std::make_shared<dp3::steps::PhaseShift>(Parset({{"p.phasecenter", "[0.35,0.7]"}}), "p."); });
      for (unsigned tw : {1u, 3u}) for (unsigned fw : {1u, 3u})
        Run("madflagger " + std::to_string(fw) + "x" + std::to_string(tw), nbl, nchan, ncorr, few, pattern, threads, way, 2, th ? 12 : 6, [=] { return std::make_shared<dp3::steps::MadFlagger>(Parset({{"m.timewindow", std::to_string(tw)}, {"m.freqwindow", std::to_string(fw)}, {"m.threshold", "1"}}), "m."); });
    }
  // Interpolation hands samples to its threads one by one.
  for (unsigned nbl : {1u, 2u}) for (unsigned nchan : {1u, 2u, 3u}) for (unsigned slots : {1u, 2u, 3u}) for (int pattern = 0; pattern < 3; ++pattern) for (size_t threads : {2, 3}) for (unsigned window : {1u, 3u}) {
    if (nbl * nchan * slots > (th ? 9 : 6)) continue;
    Run("interpolate " + std::to_string(window), nbl, nchan, 1, slots, pattern, threads, 0, 1, th ? 12 : 8, [=] { return std::make_shared<dp3::steps::Interpolate>(Parset({{"i.windowsize", std::to_string(window)}}), "i."); });
  }
  return vp::Finish();
}
