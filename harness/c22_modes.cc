// C22: calibration modes and receiver modes.
#include <climits>
#include "vp.h"
#include "base/CalType.h"
#include "base/RcuMode.h"
using namespace dp3::base;
int main(int argc, char** argv) {
  vp::Init(argc, argv);
  // Documented names of each mode (docs/schemas/DDECal.yml, GainCal.yml and the
  // compatibility names) and number of correlations of its solutions.
  struct Row { CalType t; std::vector<std::string> names; size_t pol; };
  const std::vector<Row> rows = {
      {CalType::kScalar, {"scalar", "scalarcomplexgain", "scalarcomplex"}, 1}, {CalType::kScalarAmplitude, {"scalaramplitude"}, 1}, {CalType::kScalarPhase, {"scalarphase"}, 1},
      {CalType::kDiagonal, {"diagonal", "complexgain"}, 2}, {CalType::kDiagonalAmplitude, {"diagonalamplitude", "amplitudeonly"}, 2}, {CalType::kDiagonalPhase, {"diagonalphase", "phaseonly"}, 2},
      {CalType::kFullJones, {"fulljones"}, 4}, {CalType::kTec, {"tec"}, 1}, {CalType::kTecAndDelay, {"tec+delay"}, 1}, {CalType::kTecAndPhase, {"tec+phase", "tecandphase"}, 1},
      {CalType::kTecPhaseAndDelay, {"tec+phase+delay"}, 1}, {CalType::kTecScreen, {"tecscreen"}, 1}, {CalType::kRotationAndDiagonal, {"rotation+diagonal"}, 4}, {CalType::kRotation, {"rotation"}, 4},
      {CalType::kFaradayRotation, {"faradayrotation"}, 4}, {CalType::kLeakage, {"leakage"}, 4}, {CalType::kLeakageAmplitude, {"leakageamplitude"}, 4}};
  std::set<std::string> all;
  for (auto& r : rows) for (auto& n : r.names) all.insert(n);
  for (auto& r : rows) {
    if (!vp::CaseF([&] { return "mode " + r.names[0]; })) continue;
    for (auto& n : r.names) { CalType got = CalType::kTecScreen; vp::Check(vp::Throws([&] { got = StringToCalType(n); }).empty() && got == r.t, "name " + n + " is not accepted or gives another mode"); vp::Step(); }
    const std::string printed = ToString(r.t);
    vp::Check(all.count(printed), "the mode is printed as '" + printed + "', which is not a mode name");
    CalType back = CalType::kTecScreen;
    vp::Check(vp::Throws([&] { back = StringToCalType(printed); }).empty() && back == r.t, "the printed name '" + printed + "' does not give the mode");
    vp::Check(GetNPolarizations(r.t) == r.pol, "number of correlations is " + vp::Str(GetNPolarizations(r.t)));
    vp::Step(3); vp::Trace(); vp::Outcome(printed);
  }
  // Every single edit of every name is not a name, unless it is in the list.
  std::string alphabet = "abcdefghijklmnopqrstuvwxyz+ _A-";
  auto expect = [&](const std::string& s) {
    if (!vp::CaseF([&] { return "name " + vp::Show(s); })) return;
    const bool known = all.count(s);
    vp::Check(vp::Throws([&] { StringToCalType(s); }) == (known ? "" : "!exception"), known ? "a mode name is refused" : "an unknown name is accepted");
    vp::Step(); vp::Trace(); vp::Outcome(known ? "known" : "unknown");
  };
  std::set<std::string> seen;
  for (auto& n : all) for (size_t i = 0; i <= n.size(); ++i) {
    if (i < n.size()) { seen.insert(n.substr(0, i) + n.substr(i + 1)); std::string u = n; u[i] = toupper(u[i]); seen.insert(u); seen.insert(n.substr(0, i)); seen.insert(n.substr(i)); }
    for (char c : alphabet) { seen.insert(n.substr(0, i) + c + n.substr(i)); if (i < n.size()) { std::string u = n; u[i] = c; seen.insert(u); } }
  }
  for (auto& a : all) for (auto& b : all) { seen.insert(a + "+" + b); seen.insert(a + b); }
  for (auto& s : seen) expect(s);
  for (int v = -3; v <= 300; ++v) {
    if (!vp::CaseF([&] { return "invalid mode " + vp::Str(v); })) continue;
    bool valid = false;
    for (auto& r : rows) valid = valid || int(r.t) == v;
    if (!valid) vp::Check(vp::Throws([&] { ToString(CalType(v)); }) == "!exception", "a mode that does not exist has a name");
    vp::Step(); vp::Trace(); vp::Outcome(vp::Str(valid));
  }
  // Receiver modes: the published table.
  struct Rcu { const char* name; const char* type; double mid, lo, hi, clock; int zone; };
  const Rcu rcu[] = {{"unused", "?", 0, 0, 0, 0, 0}, {"LBA_OUTER 10-90 MHz", "LBA", 50, 10, 90, 200, 1}, {"LBA_OUTER 30-90 MHz", "LBA", 60, 30, 90, 200, 1}, {"LBA_INNER 10-90 MHz", "LBA", 50, 10, 90, 200, 1},
                     {"LBA_INNER 30-90 MHz", "LBA", 60, 30, 90, 200, 1}, {"HBA 110-190 MHz", "HBA", 150, 110, 190, 200, 2}, {"HBA 170-230 MHz", "HBA", 200, 170, 230, 160, 3}, {"HBA 210-270 MHz", "HBA", 240, 210, 270, 200, 3}};
  std::vector<int> numbers;
  for (int i = -1000; i <= 2000; ++i) numbers.push_back(i);
  for (int k = 8; k < 32; ++k) for (int d = -8; d <= 8; ++d) { const long v = (1l << k) + d; if (v <= INT_MAX) numbers.push_back(int(v)); if (-v >= INT_MIN) numbers.push_back(int(-v)); }
  for (int n : numbers) {
    if (!vp::CaseF([&] { return "receiver mode " + vp::Str(n); })) continue;
    RcuMode m;
    const std::string err = vp::Throws([&] { m = RcuMode::FromNumber(n); });
    vp::Step(); vp::Trace();
    if (n < 0 || n > 7) { vp::Check(err == "!exception", "a receiver mode that does not exist is accepted"); vp::Outcome("none"); continue; }
    const Rcu& r = rcu[n];
    if (!vp::Check(err.empty() && int(m.mode) == n && m == RcuMode::Mode(n) && !(m == RcuMode::Mode((n + 1) % 8)), "number does not give the mode")) continue;
    vp::Check(m.ToString() == r.name, "printed as " + m.ToString());
    vp::Check(m.AntennaType() == r.type, "antenna type " + m.AntennaType());
    double bw = -1, mid = -1, off = -1;
    const std::string e1 = vp::Throws([&] { bw = m.Bandwidth(); }), e2 = vp::Throws([&] { mid = m.CentralFrequency(); }), e3 = vp::Throws([&] { off = m.FrequencyOffset(); });
    if (n == 0) vp::Check(!e1.empty() && !e2.empty() && !e3.empty(), "an unused receiver has a frequency");
    else {
      vp::Check(bw == r.clock * 1e6 / 1024, "bandwidth of a subband is " + vp::Str(bw));
      vp::Check(mid == (r.lo + r.hi) / 2, "central frequency is " + vp::Str(mid));
      vp::Check(off == (r.zone - 1) * r.clock * 1e6 / 2, "frequency offset is " + vp::Str(off));
    }
    vp::Step(5); vp::Outcome(m.ToString());
  }
  return vp::Finish();
}
