// Stand-in: DP3 only passes these types around where no beam is applied.
#ifndef VP_EVERYBEAM_MINI_H
#define VP_EVERYBEAM_MINI_H
#include <array>
#include <cassert>
#include <cctype>
#include <complex>
#include <memory>
#include <mutex>
#include <stdexcept>
#include <string>
#include <vector>
#include <aocommon/matrix2x2.h>
#include <aocommon/matrix2x2diag.h>
namespace everybeam {
using vector3r_t = std::array<double, 3>;
using real_t = double;
using vector2r_t = std::array<double, 2>;
using matrix22c_t = std::array<std::array<std::complex<double>, 2>, 2>;
enum class BeamMode { kNone, kFull, kArrayFactor, kElement };
inline std::string ToString(BeamMode m) { switch (m) { case BeamMode::kNone: return "None"; case BeamMode::kFull: return "Full"; case BeamMode::kArrayFactor: return "ArrayFactor"; default: return "Element"; } }
inline BeamMode ParseBeamMode(const std::string& s) {
  std::string l(s);
  for (char& c : l) c = std::tolower(static_cast<unsigned char>(c));
  if (l == "none") return BeamMode::kNone;
  if (l == "full" || l == "default") return BeamMode::kFull;
  if (l == "array_factor" || l == "arrayfactor") return BeamMode::kArrayFactor;
  if (l == "element") return BeamMode::kElement;
  throw std::runtime_error("Invalid beam mode");
}
enum class ElementResponseModel { kDefault, kHamaker, kLOBES, kOSKARDipole, kOSKARSphericalWave, kSkaMidAnalytical, kAartfaacInner, kAartfaacOuter, kLwa };
inline ElementResponseModel ElementResponseModelFromString(const std::string&) { return ElementResponseModel::kDefault; }
enum class BeamNormalisationMode { kNone, kPreApplied, kFull, kAmplitude, kPreAppliedOrFull };
struct Options { ElementResponseModel element_response_model = ElementResponseModel::kDefault; BeamNormalisationMode beam_normalisation_mode = BeamNormalisationMode::kNone; bool use_channel_frequency = true; std::string data_column_name, coeff_path; };
struct ATermSettings { std::vector<std::string> filePrefix; size_t padding = 0, trimmedImageWidth = 0, trimmedImageHeight = 0; };
class Station { public: vector3r_t GetPosition() const { return {}; } const std::string& GetName() const { static std::string s; return s; } };
namespace pointresponse { class PointResponse { public: virtual ~PointResponse() = default; virtual void UpdateTime(double) {} void SetUpdateInterval(double) {} virtual aocommon::MC2x2 Response(BeamMode, size_t, double, const vector3r_t&, std::mutex*) { throw std::runtime_error("no beam"); } template <class... A> aocommon::MC2x2 Response(A&&...) { throw std::runtime_error("no beam"); } template <class... A> void ResponseAllStations(A&&...) { throw std::runtime_error("no beam"); } template <class... A> aocommon::MC2x2 UnnormalisedResponse(A&&...) { throw std::runtime_error("no beam"); } }; }
namespace telescope {
class Telescope { public: virtual ~Telescope() = default; std::unique_ptr<pointresponse::PointResponse> GetPointResponse(double) const { throw std::runtime_error("no beam"); } size_t GetNrStations() const { return 0; } bool IsHomogeneous() const { return true; } void SetTime(double) {} const Options& GetOptions() const { static Options o; return o; } };
struct dummy_ {};
class PhasedArray : public Telescope { public: const Station& GetStation(size_t) const { static Station s; return s; } };
class Dish : public Telescope {};
class MWA : public Telescope {};
}
template <class... A> std::unique_ptr<telescope::Telescope> Load(A&&...) { throw std::runtime_error("no beam"); }
template <class... A> bool ReadTileBeamDirection(A&&...) { return false; }
namespace aterms { class ATermBase { public: virtual ~ATermBase() = default; }; class ATermConfig : public ATermBase {}; class ParsetProvider { public: virtual ~ParsetProvider() = default; virtual std::string GetString(const std::string&) const = 0; virtual std::string GetStringOr(const std::string&, const std::string&) const = 0; virtual std::vector<std::string> GetStringList(const std::string&) const = 0; virtual double GetDouble(const std::string&, double) const = 0; virtual bool GetBool(const std::string&, bool) const = 0; virtual double GetDoubleOr(const std::string&, double) const { return 0; } virtual bool GetBoolOr(const std::string&, bool) const { return false; } }; }
}  // namespace everybeam
#endif
