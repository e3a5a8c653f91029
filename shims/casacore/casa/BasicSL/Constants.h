// Stand-in for casacore's constants (casacore is not installed here).
#ifndef VP_SHIM_CASACORE_CONSTANTS_H_
#define VP_SHIM_CASACORE_CONSTANTS_H_
namespace casacore {
namespace C {
constexpr double c = 2.99792458e8;
constexpr double pi = 3.141592653589793238462643383279502884;
constexpr double _2pi = 2.0 * pi;
constexpr double pi_2 = pi / 2.0;
constexpr double pi_4 = pi / 4.0;
constexpr double circle = _2pi;
constexpr double degree = pi / 180.0;
constexpr double arcsec = degree / 3600.0;
constexpr double day = 86400.0;
constexpr double hour = 3600.0;
constexpr double minute = 60.0;
constexpr double e = 2.718281828459045235360287471352662498;
}  // namespace C
}  // namespace casacore
#endif
