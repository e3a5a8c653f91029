// Stand-in for aocommon's 2x2 complex matrices: plain element-wise arithmetic.
#ifndef VP_AOCOMMON_MATRIX2X2_H
#define VP_AOCOMMON_MATRIX2X2_H
#include <cmath>
#include <complex>
#include <cstddef>
#include <limits>
#include <ostream>
namespace aocommon {
template <class T> class MC2x2DiagBase;
template <class T> class MC2x2Base {
 public:
  using C = std::complex<T>;
  using value_type = C;
  MC2x2Base() : v_{} {}
  MC2x2Base(C a, C b, C c, C d) : v_{a, b, c, d} {}
  template <class U> explicit MC2x2Base(const std::complex<U>* p) : v_{C(p[0]), C(p[1]), C(p[2]), C(p[3])} {}
  template <class U> explicit MC2x2Base(const MC2x2Base<U>& o) : v_{C(o.Get(0)), C(o.Get(1)), C(o.Get(2)), C(o.Get(3))} {}
  template <class U> explicit MC2x2Base(const MC2x2DiagBase<U>& o) : v_{C(o.Get(0)), C(0), C(0), C(o.Get(1))} {}
  static MC2x2Base Zero() { return MC2x2Base(0, 0, 0, 0); }
  static MC2x2Base Unity() { return MC2x2Base(1, 0, 0, 1); }
  static MC2x2Base NaN() { const T n = std::numeric_limits<T>::quiet_NaN(); return MC2x2Base(C(n, n), C(n, n), C(n, n), C(n, n)); }
  C Get(size_t i) const { return v_[i]; }
  void Set(size_t i, C c) { v_[i] = c; }
  C operator[](size_t i) const { return v_[i]; }
  C IndexValue(size_t i) const { return v_[i]; }
  C* Data() { return v_; }
  const C* Data() const { return v_; }
  template <class U> void AssignTo(std::complex<U>* p) const { for (int i = 0; i < 4; ++i) p[i] = std::complex<U>(v_[i]); }
  MC2x2Base Multiply(const MC2x2Base& o) const { return *this * o; }
  MC2x2Base MultiplyHerm(const MC2x2Base& o) const { return *this * o.HermTranspose(); }
  MC2x2Base HermThenMultiply(const MC2x2Base& o) const { return HermTranspose() * o; }
  MC2x2Base HermTranspose() const { return {std::conj(v_[0]), std::conj(v_[2]), std::conj(v_[1]), std::conj(v_[3])}; }
  MC2x2Base Transpose() const { return {v_[0], v_[2], v_[1], v_[3]}; }
  MC2x2Base Conjugate() const { return {std::conj(v_[0]), std::conj(v_[1]), std::conj(v_[2]), std::conj(v_[3])}; }
  C Determinant() const { return v_[0] * v_[3] - v_[1] * v_[2]; }
  bool Invert() {
    const C d = Determinant();
    if (d == C(0)) return false;
    const C i = C(1) / d;
    *this = MC2x2Base(v_[3] * i, -v_[1] * i, -v_[2] * i, v_[0] * i);
    return true;
  }
  MC2x2Base& operator+=(const MC2x2Base& o) { for (int i = 0; i < 4; ++i) v_[i] += o.v_[i]; return *this; }
  MC2x2Base& operator-=(const MC2x2Base& o) { for (int i = 0; i < 4; ++i) v_[i] -= o.v_[i]; return *this; }
  MC2x2Base& operator*=(const MC2x2Base& o) { return *this = *this * o; }
  MC2x2Base& operator*=(C f) { for (auto& x : v_) x *= f; return *this; }
  MC2x2Base& operator/=(C f) { for (auto& x : v_) x /= f; return *this; }
  friend MC2x2Base operator+(MC2x2Base a, const MC2x2Base& b) { return a += b; }
  friend MC2x2Base operator-(MC2x2Base a, const MC2x2Base& b) { return a -= b; }
  friend MC2x2Base operator*(const MC2x2Base& a, const MC2x2Base& b) {
    return {a.v_[0] * b.v_[0] + a.v_[1] * b.v_[2], a.v_[0] * b.v_[1] + a.v_[1] * b.v_[3], a.v_[2] * b.v_[0] + a.v_[3] * b.v_[2], a.v_[2] * b.v_[1] + a.v_[3] * b.v_[3]};
  }
  friend MC2x2Base operator*(MC2x2Base a, C f) { return a *= f; }
  friend MC2x2Base operator*(C f, MC2x2Base a) { return a *= f; }
  friend MC2x2Base operator*(MC2x2Base a, T f) { return a *= C(f); }
  friend MC2x2Base operator*(T f, MC2x2Base a) { return a *= C(f); }
  friend MC2x2Base operator/(MC2x2Base a, T f) { return a /= C(f); }
  friend MC2x2Base operator/(MC2x2Base a, C f) { return a /= f; }
  friend bool operator==(const MC2x2Base& a, const MC2x2Base& b) { for (int i = 0; i < 4; ++i) if (a.v_[i] != b.v_[i]) return false; return true; }
 private:
  C v_[4];
};
template <class T> class MC2x2DiagBase {
 public:
  using C = std::complex<T>;
  using value_type = C;
  MC2x2DiagBase() : v_{} {}
  MC2x2DiagBase(C a, C b) : v_{a, b} {}
  template <class U> explicit MC2x2DiagBase(const std::complex<U>* p) : v_{C(p[0]), C(p[1])} {}
  template <class U> explicit MC2x2DiagBase(const MC2x2DiagBase<U>& o) : v_{C(o.Get(0)), C(o.Get(1))} {}
  static MC2x2DiagBase Zero() { return {0, 0}; }
  static MC2x2DiagBase Unity() { return {1, 1}; }
  static MC2x2DiagBase NaN() { const T n = std::numeric_limits<T>::quiet_NaN(); return {C(n, n), C(n, n)}; }
  C Get(size_t i) const { return v_[i]; }
  void Set(size_t i, C c) { v_[i] = c; }
  C operator[](size_t i) const { return v_[i]; }
  C* Data() { return v_; }
  const C* Data() const { return v_; }
  template <class U> void AssignTo(std::complex<U>* p) const { p[0] = std::complex<U>(v_[0]); p[1] = std::complex<U>(v_[1]); }
  MC2x2DiagBase HermTranspose() const { return {std::conj(v_[0]), std::conj(v_[1])}; }
  MC2x2DiagBase Conjugate() const { return HermTranspose(); }
  bool Invert() { if (v_[0] == C(0) || v_[1] == C(0)) return false; v_[0] = C(1) / v_[0]; v_[1] = C(1) / v_[1]; return true; }
  MC2x2DiagBase& operator+=(const MC2x2DiagBase& o) { v_[0] += o.v_[0]; v_[1] += o.v_[1]; return *this; }
  MC2x2DiagBase& operator-=(const MC2x2DiagBase& o) { v_[0] -= o.v_[0]; v_[1] -= o.v_[1]; return *this; }
  MC2x2DiagBase& operator*=(C f) { v_[0] *= f; v_[1] *= f; return *this; }
  friend MC2x2DiagBase operator+(MC2x2DiagBase a, const MC2x2DiagBase& b) { return a += b; }
  friend MC2x2DiagBase operator-(MC2x2DiagBase a, const MC2x2DiagBase& b) { return a -= b; }
  friend MC2x2DiagBase operator*(const MC2x2DiagBase& a, const MC2x2DiagBase& b) { return {a.v_[0] * b.v_[0], a.v_[1] * b.v_[1]}; }
  friend MC2x2DiagBase operator*(MC2x2DiagBase a, C f) { return a *= f; }
  friend MC2x2DiagBase operator*(MC2x2DiagBase a, T f) { return a *= C(f); }
  friend MC2x2DiagBase operator/(MC2x2DiagBase a, T f) { return a *= C(T(1) / f); }
  friend MC2x2Base<T> operator*(const MC2x2DiagBase& a, const MC2x2Base<T>& b) { return {a.v_[0] * b.Get(0), a.v_[0] * b.Get(1), a.v_[1] * b.Get(2), a.v_[1] * b.Get(3)}; }
  friend MC2x2Base<T> operator*(const MC2x2Base<T>& a, const MC2x2DiagBase& b) { return {a.Get(0) * b.v_[0], a.Get(1) * b.v_[1], a.Get(2) * b.v_[0], a.Get(3) * b.v_[1]}; }
  friend bool operator==(const MC2x2DiagBase& a, const MC2x2DiagBase& b) { return a.v_[0] == b.v_[0] && a.v_[1] == b.v_[1]; }
 private:
  C v_[2];
};
template <class T> MC2x2Base<T> HermTranspose(const MC2x2Base<T>& m) { return m.HermTranspose(); }
template <class T> MC2x2DiagBase<T> HermTranspose(const MC2x2DiagBase<T>& m) { return m.HermTranspose(); }
template <class T> MC2x2DiagBase<T> Diagonal(const MC2x2Base<T>& m) { return {m.Get(0), m.Get(3)}; }
template <class T> MC2x2DiagBase<T> Diagonal(const MC2x2DiagBase<T>& m) { return m; }
template <class T> std::complex<T> Trace(const MC2x2Base<T>& m) { return m.Get(0) + m.Get(3); }
template <class T> std::complex<T> Trace(const MC2x2DiagBase<T>& m) { return m.Get(0) + m.Get(1); }
template <class T> T Norm(const MC2x2Base<T>& m) { return std::norm(m.Get(0)) + std::norm(m.Get(1)) + std::norm(m.Get(2)) + std::norm(m.Get(3)); }
template <class T> T Norm(const MC2x2DiagBase<T>& m) { return std::norm(m.Get(0)) + std::norm(m.Get(1)); }
template <class T> std::ostream& operator<<(std::ostream& o, const MC2x2Base<T>& m) { return o << '{' << m.Get(0) << m.Get(1) << m.Get(2) << m.Get(3) << '}'; }
template <class T> std::ostream& operator<<(std::ostream& o, const MC2x2DiagBase<T>& m) { return o << '{' << m.Get(0) << m.Get(1) << '}'; }
using MC2x2 = MC2x2Base<double>;
using MC2x2F = MC2x2Base<float>;
using MC2x2Diag = MC2x2DiagBase<double>;
using MC2x2FDiag = MC2x2DiagBase<float>;
class Matrix2x2 {
 public:
  template <class T> static bool IsFinite(const std::complex<T>* m) {
    for (int i = 0; i < 4; ++i) if (!std::isfinite(m[i].real()) || !std::isfinite(m[i].imag())) return false;
    return true;
  }
  template <class T> static void ATimesB(std::complex<T>* d, const std::complex<T>* a, const std::complex<T>* b) { (MC2x2Base<T>(a) * MC2x2Base<T>(b)).AssignTo(d); }
  template <class T> static void ATimesHermB(std::complex<T>* d, const std::complex<T>* a, const std::complex<T>* b) { MC2x2Base<T>(a).MultiplyHerm(MC2x2Base<T>(b)).AssignTo(d); }
  template <class T> static bool Invert(std::complex<T>* m) { MC2x2Base<T> x(m); const bool ok = x.Invert(); x.AssignTo(m); return ok; }
  template <class T> static void Assign(std::complex<T>* d, const std::complex<T>* s) { for (int i = 0; i < 4; ++i) d[i] = s[i]; }
};
}  // namespace aocommon
#endif
