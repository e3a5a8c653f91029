// Helpers to run a processing step on made-up time slots and collect what it
// passes on.
#ifndef STEP_KIT_H_
#define STEP_KIT_H_
#include <cstring>
#include <memory>
#include <string>
#include <vector>
#include <schaapcommon/threading/threadpool.h>
#include "base/BdaBuffer.h"
#include "base/DPBuffer.h"
#include "base/DPInfo.h"
#include "common/ParameterSet.h"
#include "steps/Step.h"

namespace kit {
using dp3::base::BdaBuffer;
using dp3::base::DPBuffer;
using dp3::base::DPInfo;
using dp3::common::Fields;
using dp3::steps::Step;

class Sink : public Step {
 public:
  Fields getRequiredFields() const override { return {}; }
  Fields getProvidedFields() const override { return {}; }
  bool process(std::unique_ptr<DPBuffer> b) override { after_finish |= finished > 0; out.push_back(std::move(b)); return true; }
  bool process(std::unique_ptr<BdaBuffer> b) override { after_finish |= finished > 0; bda.push_back(std::move(b)); return true; }
  void finish() override { ++finished; }
  void show(std::ostream&) const override {}
  bool accepts(MsType) const override { return true; }
  std::vector<std::unique_ptr<DPBuffer>> out;
  std::vector<std::unique_ptr<BdaBuffer>> bda;
  int finished = 0;
  bool after_finish = false;
};

inline dp3::common::ParameterSet Parset(const std::vector<std::pair<std::string, std::string>>& kv) {
  dp3::common::ParameterSet p;
  for (auto& e : kv) p.add(e.first, e.second);
  return p;
}

// Antenna pairs of n antennas: autocorrelations first in each group.
inline void AllBaselines(int n, bool autos, std::vector<int>& a1, std::vector<int>& a2) {
  for (int i = 0; i < n; ++i) for (int j = autos ? i : i + 1; j < n; ++j) { a1.push_back(i); a2.push_back(j); }
}

struct Shape {
  unsigned nbl, nchan, ncorr;
  unsigned nant = 2;
  double interval = 2, first_time = 100;
  unsigned ntime = 4;
  std::vector<int> a1, a2;              // overrides
  std::vector<std::string> names;
  std::vector<std::array<double, 3>> pos;
  double freq0 = 100e6, width = 1e6;
};

inline DPInfo Info(const Shape& s) {
  DPInfo info(s.ncorr, s.nchan, "LBA_INNER");
  info.setTimes(s.first_time, s.first_time + (s.ntime - 1) * s.interval, s.interval);
  std::vector<int> a1 = s.a1, a2 = s.a2;
  if (a1.empty()) {
    std::vector<int> b1, b2;
    AllBaselines(s.nant, true, b1, b2);
    for (unsigned i = 0; i < s.nbl; ++i) { a1.push_back(b1[i % b1.size()]); a2.push_back(b2[i % b2.size()]); }
  }
  std::vector<std::string> names = s.names;
  std::vector<double> diam; std::vector<casacore::MPosition> pos;
  for (unsigned i = 0; i < s.nant; ++i) {
    if (i >= names.size()) names.push_back("ant" + std::to_string(i));
    diam.push_back(70);
    const std::array<double, 3> p = i < s.pos.size() ? s.pos[i] : std::array<double, 3>{{3826577.0 + 40 * i * i, 461022.0 + 30 * i, 5064892.0 - 7.0 * i}};
    pos.emplace_back(casacore::MVPosition(p[0], p[1], p[2]), casacore::MPosition::ITRF);
  }
  info.setAntennas(names, diam, pos, a1, a2);
  std::vector<double> f, w;
  for (unsigned i = 0; i < s.nchan; ++i) { f.push_back(s.freq0 + i * s.width); w.push_back(s.width); }
  if (s.nchan) info.setChannels(std::move(f), std::move(w));
  const casacore::MDirection dir(casacore::MVDirection(0.3, 0.8), casacore::MDirection::J2000);
  info.setArrayInformation(casacore::MPosition(casacore::MVPosition(3826577, 461022, 5064892), casacore::MPosition::ITRF), dir, dir, dir);
  return info;
}

inline std::unique_ptr<DPBuffer> Buffer(const Shape& s, unsigned t) {
  auto b = std::make_unique<DPBuffer>(s.first_time + t * s.interval, s.interval);
  b->GetData().resize({s.nbl, s.nchan, s.ncorr});
  b->GetFlags().resize({s.nbl, s.nchan, s.ncorr});
  b->GetWeights().resize({s.nbl, s.nchan, s.ncorr});
  b->GetUvw().resize({s.nbl, 3});
  b->GetData().fill(std::complex<float>());
  b->GetFlags().fill(false);
  b->GetWeights().fill(1.0f);
  b->GetUvw().fill(0.0);
  return b;
}

// A copy of a buffer's contents, to check that a step changes nothing but the
// fields it provides.
struct Kept {
  std::vector<std::complex<float>> data; std::vector<bool> flags; std::vector<float> weights; std::vector<double> uvw; double time, exposure;
  explicit Kept(const DPBuffer& b) : data(b.GetData().begin(), b.GetData().end()), flags(b.GetFlags().begin(), b.GetFlags().end()), weights(b.GetWeights().begin(), b.GetWeights().end()), uvw(b.GetUvw().begin(), b.GetUvw().end()), time(b.GetTime()), exposure(b.GetExposure()) {}
  void Check(const DPBuffer& b, const Fields& provided) const {
    const Kept o(b);
    vp::Check(provided.Data() || (o.data.size() == data.size() && std::memcmp(o.data.data(), data.data(), data.size() * sizeof(data[0])) == 0), "visibilities changed by a step that does not provide them");
    vp::Check(provided.Flags() || o.flags == flags, "flags changed by a step that does not provide them");
    vp::Check(provided.Weights() || o.weights == weights, "weights changed by a step that does not provide them");
    vp::Check(provided.Uvw() || o.uvw == uvw, "uvw changed by a step that does not provide them");
    vp::Check(o.time == time && o.exposure == exposure, "time or exposure changed");
  }
};
// The same buffer without the fields that are not required.
inline void Strip(DPBuffer& b, const Fields& required) {
  if (!required.Data()) b.GetData().resize({0, 0, 0});
  if (!required.Flags()) b.GetFlags().resize({0, 0, 0});
  if (!required.Weights()) b.GetWeights().resize({0, 0, 0});
  if (!required.Uvw()) b.GetUvw().resize({0, 0});
}

inline void Order(int o) { schaapcommon::ThreadPool::GetInstance().vp_order = o; }
inline void Threads(unsigned n) { schaapcommon::ThreadPool::GetInstance().SetNThreads(n); }
inline bool Near(double a, double b, double rel = 1e-5, double abs = 1e-6) { return std::fabs(a - b) <= abs + rel * std::max(std::fabs(a), std::fabs(b)); }
template <class T> bool Near(const std::complex<T>& a, const std::complex<double>& b, double rel = 1e-5, double abs = 1e-6) { return std::abs(std::complex<double>(a) - b) <= abs + rel * std::abs(b); }
}  // namespace kit
#endif
