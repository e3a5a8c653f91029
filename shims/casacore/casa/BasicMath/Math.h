// Stand-in for casacore's floating-point comparison helpers (not installed).
#ifndef SHIM_CASA_MATH_H_
#define SHIM_CASA_MATH_H_
#include <cmath>
#include <complex>
#include <limits>
namespace casacore {
template <typename T>
inline bool NearImpl(T a, T b, double tol) {
  if (tol <= 0) return a == b;
  if (a == b) return true;
  if (a == 0) return std::fabs(b) <= (1 + tol) * std::numeric_limits<T>::min();
  if (b == 0) return std::fabs(a) <= (1 + tol) * std::numeric_limits<T>::min();
  if ((a > 0) != (b > 0)) return false;
  return std::fabs(a - b) <= tol * std::fmax(std::fabs(a), std::fabs(b));
}
inline bool near(double a, double b, double tol = 1e-13) { return NearImpl<double>(a, b, tol); }
inline bool near(float a, float b, double tol = 1e-5) { return NearImpl<float>(a, b, tol); }
template <typename T>
inline bool NearAbsImpl(T a, T b, double tol) { return std::fabs(b - a) <= tol; }
inline bool nearAbs(double a, double b, double tol = 1e-13) { return NearAbsImpl<double>(a, b, tol); }
inline bool nearAbs(float a, float b, double tol = 1e-5) { return NearAbsImpl<float>(a, b, tol); }
inline bool near(std::complex<double> a, std::complex<double> b, double tol = 1e-13) { return a == b || std::abs(a - b) <= tol * std::max(std::abs(a), std::abs(b)); }
inline bool near(std::complex<float> a, std::complex<float> b, double tol = 1e-5) { return a == b || std::abs(a - b) <= tol * std::max(std::abs(a), std::abs(b)); }
inline bool isNaN(double v) { return std::isnan(v); }
inline bool isInf(double v) { return std::isinf(v); }
inline bool isFinite(double v) { return std::isfinite(v); }
template <typename T> inline T square(T v) { return v * v; }
}  // namespace casacore
#endif
