// Stand-in for schaapcommon's H5Parm library (HDF5 is not installed): keeps
// solution tables in memory, by file name.
#ifndef VP_H5PARM_MINI_H
#define VP_H5PARM_MINI_H
#include <algorithm>
#include <array>
#include <complex>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>
#include <xtensor/mini.hpp>
#include <casacore/mini.h>
using hsize_t = unsigned long long;
namespace H5 { class FileIException : public std::runtime_error { public: using std::runtime_error::runtime_error; std::string getCDetailMsg() const { return what(); } }; class Exception : public std::runtime_error { using std::runtime_error::runtime_error; }; }
namespace schaapcommon::h5parm {
struct AxisInfo { std::string name; unsigned int size; };
enum class GainType { kDiagonalComplex, kScalarComplex, kFullJones, kTec, kClock, kDelay, kRotationAngle, kRotationMeasure, kDiagonalPhase, kScalarPhase, kDiagonalAmplitude, kScalarAmplitude, kFullJonesRealImaginary, kDiagonalRealImaginary };
class SolTab {
 public:
  SolTab() = default;
  SolTab(std::string name, std::string type, std::vector<AxisInfo> axes) : name_(std::move(name)), type_(std::move(type)), axes_(std::move(axes)) {}
  const std::string& GetName() const { return name_; }
  std::string GetType() const { return type_; }
  void SetType(const std::string& t) { type_ = t; }
  const std::vector<AxisInfo>& GetAxes() const { return axes_; }
  size_t NumAxes() const { return axes_.size(); }
  bool HasAxis(const std::string& n) const { for (const auto& a : axes_) if (a.name == n) return true; return false; }
  AxisInfo GetAxis(const std::string& n) const { for (const auto& a : axes_) if (a.name == n) return a; throw std::runtime_error("Axis " + n + " does not exist in " + name_); }
  AxisInfo GetAxis(size_t i) const { return axes_.at(i); }
  size_t GetAxisIndex(const std::string& n) const { for (size_t i = 0; i < axes_.size(); ++i) if (axes_[i].name == n) return i; throw std::runtime_error("Axis " + n + " does not exist in " + name_); }
  hsize_t GetDirIndex(const std::string& n) const { const auto& v = strings.at("dir"); for (size_t i = 0; i < v.size(); ++i) if (v[i] == n) return i; throw std::runtime_error("SolTab has no direction " + n + " in axis dir"); }
  void SetAntennas(const std::vector<std::string>& v) { set("ant", v.size()); strings["ant"] = v; }
  void SetSources(const std::vector<std::string>& v) { set("dir", v.size()); strings["dir"] = v; }
  void SetPolarizations(const std::vector<std::string>& v) { set("pol", v.size()); strings["pol"] = v; }
  void SetFreqs(const std::vector<double>& v) { set("freq", v.size()); reals["freq"] = v; }
  void SetTimes(const std::vector<double>& v) { set("time", v.size()); reals["time"] = v; }
  void SetAxisMeta(const std::string& n, const std::vector<double>& v) { set(n, v.size()); reals[n] = v; }
  void SetAxisMeta(const std::string& n, size_t, const std::vector<std::string>& v) { set(n, v.size()); strings[n] = v; }
  std::vector<std::string> GetStringAxis(const std::string& n) const { return strings.at(n); }
  std::vector<double> GetRealAxis(const std::string& n) const { return reals.at(n); }
  void SetValues(const std::vector<double>& v, const std::vector<double>& w, const std::string& h) { size_t n = 1; for (const auto& a : axes_) n *= a.size; if (v.size() != n || (!w.empty() && w.size() != n)) throw std::runtime_error("SolTab " + name_ + ": wrong number of values"); values = v; weights = w; history = h; }
  void SetComplexValues(const std::vector<std::complex<double>>& v, const std::vector<double>& w, bool amp, const std::string& h) { std::vector<double> r; r.reserve(v.size()); for (const auto& c : v) r.push_back(amp ? std::abs(c) : std::arg(c)); SetValues(r, w, h); }
  void SetComplexValues(const std::vector<std::complex<float>>& v, const std::vector<float>& w, bool amp, const std::string& h) { std::vector<std::complex<double>> d(v.begin(), v.end()); SetComplexValues(d, std::vector<double>(w.begin(), w.end()), amp, h); }
  std::map<std::string, std::vector<std::string>> strings;
  std::map<std::string, std::vector<double>> reals;
  std::vector<double> values, weights;
  std::string history;
 private:
  void set(const std::string& n, size_t k) { if (GetAxis(n).size != k) throw std::runtime_error("SolTab " + name_ + ": axis " + n + " has the wrong size"); }
  std::string name_, type_;
  std::vector<AxisInfo> axes_;
};
class H5Parm {
 public:
  struct Data { std::string sol_set; std::map<std::string, SolTab> tabs; std::vector<std::string> sources; std::vector<std::pair<double, double>> source_dirs; std::vector<std::string> antennas; std::vector<std::array<double, 3>> antenna_pos; };
  static std::map<std::string, std::shared_ptr<Data>>& Files() { static std::map<std::string, std::shared_ptr<Data>> f; return f; }
  H5Parm(const std::string& file, bool force_new = false, bool force_new_sol_set = false, const std::string& sol_set = "") {
    auto& p = Files()[file];
    if (force_new || !p) p = std::make_shared<Data>();
    data = p;
    data->sol_set = sol_set.empty() ? "sol000" : sol_set;
  }
  // Opens an existing file; the requested tables must exist.
  H5Parm(const std::string& file, const std::vector<std::string>& tables, const std::string& sol_set = "") {
    const auto i = Files().find(file);
    if (i == Files().end()) throw std::runtime_error("Can't open " + file);
    data = i->second;
    for (const std::string& t : tables) GetSolTab(t);
    if (!sol_set.empty()) data->sol_set = sol_set;
  }
  std::string GetSolSetName() const { return data->sol_set; }
  void AddSources(const std::vector<std::string>& n, const std::vector<std::pair<double, double>>& d) { data->sources = n; data->source_dirs = d; }
  void AddAntennas(const std::vector<std::string>& n, const std::vector<std::array<double, 3>>& p) { data->antennas = n; data->antenna_pos = p; }
  SolTab& CreateSolTab(const std::string& n, const std::string& t, const std::vector<AxisInfo>& a) { if (data->tabs.count(n)) throw std::runtime_error("SolTab " + n + " exists"); return data->tabs.emplace(n, SolTab(n, t, a)).first->second; }
  SolTab& GetSolTab(const std::string& n) { const auto i = data->tabs.find(n); if (i == data->tabs.end()) throw std::runtime_error("SolTab " + n + " does not exist"); return i->second; }
  bool HasSolTab(const std::string& n) const { return data->tabs.count(n); }
  size_t NumSolTabs() const { return data->tabs.size(); }
  std::vector<std::string> GetSolTabNames() const { std::vector<std::string> r; for (const auto& [k, v] : data->tabs) r.push_back(k); return r; }
  std::vector<std::string> GetDirectionNames() const { return data->sources; }
  std::string GetNearestSource(double ra, double dec) const {
    size_t best = 0; double most = -2.0;
    for (size_t i = 0; i < data->source_dirs.size(); ++i) { const auto [r, d] = data->source_dirs[i]; const double c = std::sin(dec) * std::sin(d) + std::cos(dec) * std::cos(d) * std::cos(ra - r); if (c > most) { most = c; best = i; } }
    return data->sources.at(best);
  }
  std::shared_ptr<Data> data;
};
class JonesParameters {
 public:
  enum class InterpolationType { NEAREST, LINEAR };
  enum class MissingAntennaBehavior { kError, kFlag, kUnit };
  // A harness sets Fill() to provide the parameters (polarization x antenna x
  // frequency) for the arguments; without it they are not available.
  struct Request { std::vector<double> freqs, times; std::vector<std::string> antennas; GainType type; InterpolationType interpolation; hsize_t direction; SolTab *first, *second; bool invert; size_t n_parm_values; MissingAntennaBehavior missing; };
  static std::function<void(const Request&, casacore::Cube<casacore::Complex>&)>& Fill() { static std::function<void(const Request&, casacore::Cube<casacore::Complex>&)> f; return f; }
  JonesParameters(const std::vector<double>& freqs, const std::vector<double>& times, const std::vector<std::string>& antennas, GainType type, InterpolationType interpolation, hsize_t direction, SolTab* first, SolTab* second = nullptr, bool invert = false, size_t n_parm_values = 0, MissingAntennaBehavior missing = MissingAntennaBehavior::kError) {
    if (!Fill()) throw std::runtime_error("Jones parameters are not available");
    Fill()(Request{freqs, times, antennas, type, interpolation, direction, first, second, invert, n_parm_values, missing}, parms_);
  }
  const casacore::Cube<casacore::Complex>& GetParms() const { return parms_; }
  static MissingAntennaBehavior StringToMissingAntennaBehavior(const std::string& s) { if (s == "error") return MissingAntennaBehavior::kError; if (s == "flag") return MissingAntennaBehavior::kFlag; if (s == "unit") return MissingAntennaBehavior::kUnit; throw std::runtime_error("invalid missing antenna behaviour " + s); }
  static std::string MissingAntennaBehaviorToString(MissingAntennaBehavior m) { return m == MissingAntennaBehavior::kError ? "error" : m == MissingAntennaBehavior::kFlag ? "flag" : "unit"; }
  static GainType H5ParmTypeStringToGainType(const std::string& t) { if (t == "tec") return GainType::kTec; if (t == "clock") return GainType::kClock; if (t == "phase") return GainType::kDiagonalPhase; if (t == "amplitude") return GainType::kDiagonalAmplitude; if (t == "rotationangle") return GainType::kRotationAngle; if (t == "rotationmeasure") return GainType::kRotationMeasure; throw std::runtime_error("Unknown solution type " + t); }
  static std::string GainTypeToHumanReadableString(GainType) { return "gain"; }
  static size_t GetNParms(GainType) { return 1; }
 private:
  casacore::Cube<casacore::Complex> parms_;
};
}  // namespace schaapcommon::h5parm
#endif
