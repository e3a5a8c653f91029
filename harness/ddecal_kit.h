// Stand-ins for what the calibration step uses but cannot be built here: the
// steps that predict or read models, the H5Parm reader and writer, the
// calculator of coordinates. They make recognisable values and record what
// they are asked for.
#ifndef DDECAL_KIT_H_
#define DDECAL_KIT_H_
#include <map>
#include <mutex>
#include "step_kit.h"
#include "base/DP3.h"
#include "base/UVWCalculator.h"
#include "ddecal/InitialSolutions.h"
#include "ddecal/Settings.h"
#include "ddecal/SolutionWriter.h"
#include "ddecal/SolverFactory.h"
#include "sky_model/SkyModelFunctions.h"
#include "steps/DDECal.h"
#include "steps/IDGPredict.h"
#include "steps/MsColumnReader.h"
#include "steps/Predict.h"
#ifdef DK_BDA
#include <deque>
#include "base/BdaBuffer.h"
#include "steps/BdaGroupPredict.h"
#endif

namespace dk {
using kit::DPBuffer;
using kit::DPInfo;
typedef std::complex<float> F;
typedef std::complex<double> D;
typedef std::vector<std::vector<D>> Sols;
using dp3::base::Direction;
using dp3::ddecal::ConstraintResult;

// The model of a direction: set by the harness.
inline std::function<F(const std::string& direction, unsigned slot, unsigned bl, unsigned ch, unsigned cr)> model;
inline std::function<unsigned(double time)> slot_of;
inline Direction Place(const std::string& name) { unsigned h = 0; for (char c : name) h = h * 31 + c; return Direction(0.001 * (h % 997), 0.0007 * (h % 1009)); }

struct Named { std::string name; DPInfo info; std::vector<std::unique_ptr<DPBuffer>> held; size_t size = 0; };
inline std::map<const void*, Named> steps;
inline std::mutex guard;
inline size_t idg_size = 0;                 // buffers that the image predictor offers
inline bool idg_overfull = false;
inline bool predict_locked = true;          // every predictor got the mutex

inline void Fill(const std::string& name, DPBuffer& b, const DPInfo& i) {
  const unsigned t = slot_of(b.GetTime());
  b.GetData().resize({i.nbaselines(), i.nchan(), i.ncorr()});
  for (unsigned bl = 0; bl < i.nbaselines(); ++bl) for (unsigned ch = 0; ch < i.nchan(); ++ch) for (unsigned cr = 0; cr < i.ncorr(); ++cr) b.GetData()(bl, ch, cr) = model(name, t, bl, ch, cr);
}

#ifdef DK_BDA
// Baseline-dependent averaged data: a model step gives its buffers back later.
inline std::map<const void*, std::deque<std::unique_ptr<dp3::base::BdaBuffer>>> bda_held;
inline unsigned bda_delay = 0;
inline std::function<F(const std::string& direction, double time, unsigned bl, unsigned ch, unsigned cr)> bda_model;
inline void BdaGive(const void* me, dp3::steps::Step& next, size_t leave) {
  std::string name; std::deque<std::unique_ptr<dp3::base::BdaBuffer>>* q; { std::lock_guard<std::mutex> l(guard); q = &bda_held[me]; name = steps[me].name; }
  while (q->size() > leave) {
    auto b = std::move(q->front()); q->pop_front();
    b->AddData();
    for (size_t r = 0; r < b->GetRows().size(); ++r) { const auto& row = b->GetRows()[r]; F* d = b->GetData(r); for (unsigned i = 0; i < row.n_channels * row.n_correlations; ++i) d[i] = bda_model(name, row.time, row.baseline_nr, i / row.n_correlations, i % row.n_correlations); }
    next.process(std::move(b));
  }
}
inline bool BdaTake(const void* me, dp3::steps::Step& next, std::unique_ptr<dp3::base::BdaBuffer> b) {
  size_t delay; { std::lock_guard<std::mutex> l(guard); auto& q = bda_held[me]; q.push_back(std::move(b)); delay = steps[me].name.size() % 2 ? bda_delay : bda_delay / 2; }
  BdaGive(me, next, delay);
  return true;
}
#define DK_TAKE dk::BdaTake(this, *getNextStep(), std::move(b))
#define DK_GIVE dk::BdaGive(this, *getNextStep(), 0)
#else
#define DK_TAKE false
#define DK_GIVE
#endif

// What is asked of the solution writer.
struct Written {
  std::string file;
  std::vector<std::string> all_names; std::vector<std::array<double, 3>> all_pos;
  int antennas = 0, writes = 0;
  std::vector<Sols> solutions;
  std::vector<std::vector<std::vector<ConstraintResult>>> results;
  double start = 0, end = 0, interval = 0; size_t slots = 0;
  std::vector<size_t> per_direction; dp3::base::CalType mode = dp3::base::CalType::kScalar;
  std::vector<std::string> used; std::vector<Direction> places; std::vector<std::vector<std::string>> patches;
  std::vector<double> freqs, block_freqs; std::string history;
  int finished_before = 0;
};
inline Written written;
inline const int* sink_finished = nullptr;

// Reads of initial solutions.
struct Read { double time; std::vector<std::string> names; std::vector<double> freqs; size_t places; };
inline std::vector<Read> reads;
inline size_t read_directions = 0, read_pols = 0;
inline D Initial(size_t nth, size_t cb, size_t i) { return D(2 + 0.1 * nth + 0.01 * cb, 0.003 * i); }

inline void Reset() {
#ifdef DK_BDA
  bda_held.clear(); bda_delay = 0;
#endif
  steps.clear(); idg_size = 0; idg_overfull = false; predict_locked = true; written = Written(); reads.clear(); read_directions = read_pols = 0; sink_finished = nullptr; }
}  // namespace dk

namespace dp3::base {
UVWCalculator::UVWCalculator(const casacore::MDirection&, const casacore::MPosition&, const std::vector<casacore::MPosition>&) {}
std::array<double, 3> UVWCalculator::getUVW(unsigned int, unsigned int, double) { return {{0, 0, 0}}; }
std::shared_ptr<steps::Step> MakeStepsFromParset(const common::ParameterSet&, const std::string&, const std::string&, const std::string&, bool, steps::Step::MsType) { return {}; }
common::Fields GetChainRequiredFields(std::shared_ptr<steps::Step> s) { return s->getRequiredFields(); }
}  // namespace dp3::base
namespace dp3::sky_model {
std::vector<std::vector<std::string>> MakeDirectionList(const std::vector<std::string>& packed, const std::string&) {
  std::vector<std::vector<std::string>> r;
  for (auto& s : packed) r.push_back(common::ParameterValue(s).getStringVector());
  return r;
}
}  // namespace dp3::sky_model
#ifndef DK_REAL_FILES      // the real reader and writer of solutions
namespace dp3::ddecal {
SolutionWriter::SolutionWriter(const std::string& filename) : h5parm_(filename, true) { dk::written.file = filename; }
void SolutionWriter::AddAntennas(const std::vector<std::string>& n, const std::vector<std::array<double, 3>>& p) { dk::written.all_names = n; dk::written.all_pos = p; ++dk::written.antennas; }
void SolutionWriter::Write(const std::vector<std::vector<std::vector<std::complex<double>>>>& solutions, const std::vector<std::vector<std::vector<ConstraintResult>>>& results, double start, double end, double dt, size_t n, const std::vector<size_t>& per_direction, base::CalType mode, const std::vector<std::string>& used, const std::vector<base::Direction>& places, const std::vector<std::vector<std::string>>& patches, const std::vector<double>& freqs, const std::vector<double>& block_freqs, const std::string& history) {
  dk::Written& w = dk::written;
  ++w.writes; w.solutions = solutions; w.results = results; w.start = start; w.end = end; w.interval = dt; w.slots = n; w.per_direction = per_direction; w.mode = mode; w.used = used; w.places = places; w.patches = patches; w.freqs = freqs; w.block_freqs = block_freqs; w.history = history;
  if (dk::sink_finished) w.finished_before = *dk::sink_finished;
}
InitialSolutions::InitialSolutions(const common::ParameterSet& p, const std::string& prefix) { initial_solutions_h5_parm_name_ = p.getString(prefix + "initialsolutions.h5parm", ""); }
void InitialSolutions::Initialize(size_t d, size_t p) { dk::read_directions = d; dk::read_pols = p; }
void InitialSolutions::Read(const Settings& settings, std::vector<std::vector<std::complex<double>>>& out, const std::vector<std::string>& names, const std::vector<double>& freqs, const std::vector<base::Direction>& places, double time) {
  dk::reads.push_back({time, names, freqs, places.size()});
  for (size_t cb = 0; cb < out.size(); ++cb) {
    out[cb].resize(settings.GetNSolutions() * names.size() * dk::read_pols);
    for (size_t i = 0; i < out[cb].size(); ++i) out[cb][i] = dk::Initial(dk::reads.size() - 1, cb, i);
  }
}
void InitialSolutions::Show(std::ostream&) const {}
}  // namespace dp3::ddecal
#endif
namespace dp3::steps {
MsColumnReader::MsColumnReader(const common::ParameterSet&, const std::string& prefix, MsType t, const std::string& column) : name_(prefix), column_name_(column), input_ms_type_(t) { dk::steps[this].name = prefix + column; }
bool MsColumnReader::process(std::unique_ptr<base::DPBuffer> b) { dk::Fill(dk::steps[this].name, *b, dk::steps[this].info); getNextStep()->process(std::move(b)); return false; }
bool MsColumnReader::process(std::unique_ptr<base::BdaBuffer> b) { return DK_TAKE; }
void MsColumnReader::updateInfo(const base::DPInfo& i) { Step::updateInfo(i); dk::steps[this].info = i; }
void MsColumnReader::finish() { DK_GIVE; getNextStep()->finish(); }
void MsColumnReader::show(std::ostream&) const {}
void MsColumnReader::showTimings(std::ostream&, double) const {}
base::Direction MsColumnReader::GetFirstDirection() const { return dk::Place(dk::steps[this].name); }

Predict::Predict(const common::ParameterSet&, const std::string&, MsType t) : ms_type_(t) {}
Predict::Predict(const common::ParameterSet& p, const std::string& prefix, const std::vector<std::string>& patterns, MsType t) : ms_type_(t) { dk::steps[this].name = prefix + patterns.front(); use_fast_predict_ = p.getBool(prefix + "usefastpredict", false); }
bool Predict::process(std::unique_ptr<base::DPBuffer> b) {
  dk::Named* me; { std::lock_guard<std::mutex> l(dk::guard); me = &dk::steps[this]; if (me->size == 0) dk::predict_locked = false; }
  dk::Fill(me->name, *b, me->info); getNextStep()->process(std::move(b)); return false;
}
bool Predict::process(std::unique_ptr<base::BdaBuffer> b) { return DK_TAKE; }
void Predict::finish() { DK_GIVE; getNextStep()->finish(); }
void Predict::show(std::ostream&) const {}
void Predict::setNextStep(std::shared_ptr<Step> s) { Step::setNextStep(s); }
base::Direction Predict::GetFirstDirection() const { return dk::Place(dk::steps[this].name); }
void Predict::SetOperation(const std::string&) {}
void Predict::updateInfo(const base::DPInfo& i) { Step::updateInfo(i); dk::steps[this].info = i; }
void Predict::SetThreadData(std::mutex* m) { dk::steps[this].size = m ? 1 : 0; }
void Predict::SetNumThreads(size_t) {}

#ifdef DK_BDA
class BdaGroupPredict::BaselineGroup {};
BdaGroupPredict::BdaGroupPredict(const common::ParameterSet& p, const std::string& prefix, const std::vector<std::string>& patterns) : parset_(p) { dk::steps[this].name = prefix + patterns.front(); }
BdaGroupPredict::~BdaGroupPredict() = default;
common::Fields BdaGroupPredict::getRequiredFields() const { return {}; }
bool BdaGroupPredict::process(std::unique_ptr<base::BdaBuffer> b) { return DK_TAKE; }
void BdaGroupPredict::finish() { DK_GIVE; getNextStep()->finish(); }
void BdaGroupPredict::updateInfo(const base::DPInfo& i) { Step::updateInfo(i); }
void BdaGroupPredict::show(std::ostream&) const {}
void BdaGroupPredict::showTimings(std::ostream&, double) const {}
base::Direction BdaGroupPredict::GetFirstDirection() const { return dk::Place(dk::steps[this].name); }
#endif

IDGPredict::IDGPredict(const common::ParameterSet&, const std::string& prefix, const std::vector<aocommon::FitsReader>&, std::vector<schaapcommon::facets::Facet>&& f, const std::string&) { dk::steps[this].name = prefix + f.front().DirectionLabel(); dk::steps[this].size = dk::idg_size; }
IDGPredict::IDGPredict(const common::ParameterSet&, const std::string&) {}
void IDGPredict::updateInfo(const base::DPInfo& i) { Step::updateInfo(i); dk::steps[this].info = i; }
bool IDGPredict::process(std::unique_ptr<base::DPBuffer> b) {
  dk::Named* me; { std::lock_guard<std::mutex> l(dk::guard); me = &dk::steps[this]; }
  me->held.push_back(std::move(b));
  if (me->held.size() == me->size) { dk::idg_overfull = true; flush(); }
  return false;
}
void IDGPredict::flush() { dk::Named& me = dk::steps[this]; for (auto& b : me.held) { dk::Fill(me.name, *b, me.info); getNextStep()->process(std::move(b)); } me.held.clear(); }
void IDGPredict::finish() { getNextStep()->finish(); }
void IDGPredict::show(std::ostream&) const {}
void IDGPredict::showTimings(std::ostream&, double) const {}
bool IDGPredict::IsStarted() const { return true; }
base::Direction IDGPredict::GetFirstDirection() const { return dk::Place(dk::steps[this].name); }
void IDGPredict::SetBufferSize(size_t n) { dk::steps[this].size = n; }
size_t IDGPredict::GetBufferSize() const { return dk::steps[this].size; }
std::vector<aocommon::FitsReader> IDGPredict::GetReaders(const std::vector<std::string>& f) { std::vector<aocommon::FitsReader> r; for (auto& x : f) r.emplace_back(x); return r; }
std::vector<schaapcommon::facets::Facet> IDGPredict::GetFacets(const std::string& regions, const aocommon::FitsReader&) {
  std::vector<schaapcommon::facets::Facet> r; std::string cur;
  for (char c : regions + "+") if (c == '+') { r.emplace_back(cur); cur.clear(); } else cur += c;
  return r;
}
}  // namespace dp3::steps
#endif
