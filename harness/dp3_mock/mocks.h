// Stand-ins for the processing steps, used to look at the chain that
// base/DP3.cc builds from a parameter set and at how it runs it. Each notes
// how it was made and what happens to it.
#ifndef VP_DP3_MOCKS_H_
#define VP_DP3_MOCKS_H_
#include <memory>
#include <ostream>
#include <string>
#include <vector>
#include "base/BdaBuffer.h"
#include "base/DPBuffer.h"
#include "base/DPInfo.h"
#include "common/ParameterSet.h"
#include "steps/InputStep.h"
#include "steps/OutputStep.h"
#include "steps/Step.h"

namespace mock {
using MsType = dp3::steps::Step::MsType;
struct Made {
  std::string cls, prefix, name;   // class, parset prefix, data set name
  int input = -1;                  // 0 regular, 1 BDA, -1 not told
  int history = -1;
  dp3::steps::Step* step = nullptr;
};
inline std::vector<Made> made;
inline std::vector<std::string> events;
inline int throw_at = -1;          // slot number at which a 'bad' step throws
inline dp3::common::Fields Bits(int v) {
  using F = dp3::common::Fields;
  F f;
  if (v & 1) f |= F(F::Single::kData);
  if (v & 2) f |= F(F::Single::kFlags);
  if (v & 4) f |= F(F::Single::kWeights);
  if (v & 8) f |= F(F::Single::kUvw);
  return f;
}
inline int Bits(const dp3::common::Fields& f) { return f.Data() * 1 + f.Flags() * 2 + f.Weights() * 4 + f.Uvw() * 8; }

// Accept / output: 0 regular, 1 BDA, 2 as told on construction, 3 both.
template <class Base>
class Node : public Base {
 public:
  Node(const std::string& cls, const dp3::common::ParameterSet* parset, const std::string& prefix, int in, int out, int told, const std::string& name = "", int history = -1)
      : cls_(cls), prefix_(prefix), in_(in), out_(out), told_(told) {
    if (parset) {
      req_ = parset->getInt(prefix + "req", 0);
      prov_ = parset->getInt(prefix + "prov", 0);
      bad_ = parset->getBool(prefix + "bad", false);
      n_ = parset->getInt(prefix + "count", 0);
    }
    made.push_back({cls, prefix, name, told, history, this});
  }
  dp3::common::Fields getRequiredFields() const override { return Bits(req_); }
  dp3::common::Fields getProvidedFields() const override { return Bits(prov_); }
  void updateInfo(const dp3::base::DPInfo& i) override { events.push_back("info " + prefix_); Base::updateInfo(i); }
  bool process(std::unique_ptr<dp3::base::DPBuffer> b) override {
    events.push_back("slot " + prefix_);
    ++seen_;
    if (bad_ && seen_ - 1 == throw_at) throw std::runtime_error("bad slot");
    const bool bda = out_ == 1 || (out_ == 2 && told_ == 1);
    if (bda) this->getNextStep()->process(std::make_unique<dp3::base::BdaBuffer>(1, dp3::common::Fields()));
    else this->getNextStep()->process(std::move(b));
    return false;
  }
  bool process(std::unique_ptr<dp3::base::BdaBuffer> b) override {
    events.push_back("bda " + prefix_);
    const bool bda = out_ == 1 || (out_ == 2 && told_ == 1);
    if (bda) this->getNextStep()->process(std::move(b));
    else this->getNextStep()->process(std::make_unique<dp3::base::DPBuffer>());
    return false;
  }
  void finish() override { events.push_back("finish " + prefix_); if (this->getNextStep()) this->getNextStep()->finish(); }
  void show(std::ostream& os) const override { events.push_back("show " + prefix_); os << "shown " << prefix_ << "\n"; }
  void showCounts(std::ostream& os) const override { events.push_back("counts " + prefix_); os << "counts " << prefix_ << "\n"; }
  void showTimings(std::ostream& os, double) const override { events.push_back("timings " + prefix_); os << "timings " << prefix_ << "\n"; }
  bool accepts(MsType t) const override {
    const int v = t == MsType::kBda;
    return in_ == 3 || (in_ == 2 ? v == told_ : v == in_);
  }
  MsType outputs() const override { return (out_ == 2 ? told_ : out_) == 1 ? MsType::kBda : MsType::kRegular; }
  std::string cls_, prefix_;
  int in_, out_, told_, req_ = 0, prov_ = 0, n_ = 0, seen_ = 0;
  bool bad_ = false;
};
}  // namespace mock

namespace dp3::steps {
#define VP_STEP(C) \
  class C : public mock::Node<Step> { public: C(const common::ParameterSet& p, const std::string& x) : Node(#C, &p, x, 0, 0, -1) {} };
#define VP_STEP_IO(C, I, O) \
  class C : public mock::Node<Step> { public: C(const common::ParameterSet& p, const std::string& x) : Node(#C, &p, x, I, O, -1) {} };
#define VP_STEP_TYPED(C) \
  class C : public mock::Node<Step> { public: C(const common::ParameterSet& p, const std::string& x, MsType t) : Node(#C, &p, x, 2, 2, t == MsType::kBda) {} };
VP_STEP(AOFlaggerStep) VP_STEP(Averager) VP_STEP_IO(BdaAverager, 0, 1) VP_STEP(MadFlagger) VP_STEP(PreFlagger)
VP_STEP(AntennaFlagger) VP_STEP_TYPED(UVWFlagger) VP_STEP(ImageStep) VP_STEP(Clipper) VP_STEP_TYPED(Combine)
VP_STEP_TYPED(MsColumnReader) VP_STEP(Counter) VP_STEP(PhaseShift) VP_STEP(Demixer) VP_STEP(ApplyBeam) VP_STEP(StationAdder)
VP_STEP_TYPED(ScaleData) VP_STEP(SetBeam) VP_STEP(Filter) VP_STEP(ApplyCal) VP_STEP(NullStokes) VP_STEP_TYPED(Predict)
VP_STEP(WGridderPredict) VP_STEP(IDGPredict) VP_STEP(IDGImager) VP_STEP(Upsample) VP_STEP(Interpolate)
VP_STEP_IO(BdaGroupPredict, 1, 1) VP_STEP(SagecalPredict) VP_STEP(H5ParmPredict) VP_STEP(GainCal) VP_STEP(DDECal)
VP_STEP_IO(BdaDdeCal, 1, 1) VP_STEP(DynSpec) VP_STEP(FlagTransfer) VP_STEP(Transfer)
class BdaExpander : public mock::Node<Step> { public: BdaExpander(const std::string& x) : Node("BdaExpander", nullptr, x, 1, 0, -1) {} };
class WSCleanWriter : public mock::Node<OutputStep> { public: WSCleanWriter(const common::ParameterSet& p, const std::string& x) : Node("WSCleanWriter", &p, x, 0, 0, -1) {} };
// Like the real ones, writers provide nothing; what they need is all fields
// (writer) or what they write (updater).
class MSWriter : public mock::Node<OutputStep> { public: MSWriter(const std::string& n, const common::ParameterSet& p, const std::string& x) : Node("MSWriter", &p, x, 0, 0, -1, n) {}
  common::Fields getRequiredFields() const override { return mock::Bits(15); } common::Fields getProvidedFields() const override { return {}; } };
class MSUpdater : public mock::Node<OutputStep> { public: MSUpdater(const std::string& n, const common::ParameterSet& p, const std::string& x, bool h) : Node("MSUpdater", &p, x, 0, 0, -1, n, h) {}
  common::Fields getRequiredFields() const override { return GetFieldsToWrite(); } common::Fields getProvidedFields() const override { return {}; } };
class MSBDAWriter : public mock::Node<OutputStep> { public: MSBDAWriter(const std::string& n, const common::ParameterSet& p, const std::string& x) : Node("MSBDAWriter", &p, x, 1, 1, -1, n) {}
  common::Fields getRequiredFields() const override { return mock::Bits(15); } common::Fields getProvidedFields() const override { return {}; } };

class MockReader : public mock::Node<InputStep> {
 public:
  MockReader(const std::string& cls, const common::ParameterSet& p, const std::string& x) : Node(cls, &p, x, 3, p.getBool(x + "bda", false) ? 1 : 0, -1), ms_(p.getString(p.isDefined("msin.name") ? "msin.name" : "msin", "")) {}
  common::Fields getRequiredFields() const override { return {}; }
  common::Fields getProvidedFields() const override { return getFieldsToRead(); }
  std::string msName() const override { return ms_; }
  void updateInfo(const base::DPInfo&) override {
    mock::events.push_back("info " + prefix_);
    GetWritableInfoOut() = base::DPInfo();
    GetWritableInfoOut().setTimes(100, 100 + 2 * (n_ > 0 ? n_ - 1 : 0), 2);
  }
  bool process(std::unique_ptr<base::DPBuffer> b) override {
    if (!b) throw std::runtime_error("no buffer given to the reader");
    mock::events.push_back("read");
    if (seen_ == n_) return false;
    ++seen_;
    if (bad_ && seen_ - 1 == mock::throw_at) throw std::runtime_error("bad slot");
    if (out_ == 1) getNextStep()->process(std::make_unique<base::BdaBuffer>(1, common::Fields()));
    else getNextStep()->process(std::move(b));
    return true;
  }
  std::string ms_;
};
class AartfaacReader : public MockReader { public: AartfaacReader(const common::ParameterSet& p, const std::string& x) : MockReader("AartfaacReader", p, x) {} };
class SVPInput : public MockReader { public: SVPInput(const common::ParameterSet& p, const std::string& x) : MockReader("SVPInput", p, x) {} };
}  // namespace dp3::steps

namespace dp3::pythondp3 {
class PyStep : public mock::Node<dp3::steps::Step> {
 public:
  PyStep(const common::ParameterSet& p, const std::string& x) : Node("PyStep", &p, x, 0, 0, -1) {}
  static std::shared_ptr<PyStep> create_instance(const common::ParameterSet& p, const std::string& x) { return std::make_shared<PyStep>(p, x); }
};
}  // namespace dp3::pythondp3
#endif
