// Stand-in for the part of xsimd that DP3 uses: fixed-size batches as arrays
// (the sizes of AVX2), with the alignment of aligned loads and stores checked.
#ifndef VP_XSIMD_HPP
#define VP_XSIMD_HPP
#include <array>
#include <cmath>
#include <complex>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <limits>
namespace xsimd {
template <class T, std::size_t N> struct batch_bool_n { std::array<bool, N> v; };
template <class T> struct batch_size { static constexpr std::size_t value = 32 / sizeof(T); };
template <class T> struct batch_size<std::complex<T>> { static constexpr std::size_t value = 32 / sizeof(T); };
struct broadcasted { double v; };
template <class T> class batch {
 public:
  static constexpr std::size_t size = batch_size<T>::value;
  using value_type = T; using batch_bool_type = batch_bool_n<T, size>;
  batch() = default;
  batch(T x) { v.fill(x); }
  batch(broadcasted b) { v.fill(T(b.v)); }
  static batch load_unaligned(const T* p) { batch r; for (std::size_t i = 0; i < size; ++i) r.v[i] = p[i]; return r; }
  static batch load_aligned(const T* p) { chk(p); return load_unaligned(p); }
  static batch broadcast(T x) { return batch(x); }
  void store_unaligned(T* p) const { for (std::size_t i = 0; i < size; ++i) p[i] = v[i]; }
  void store_aligned(T* p) const { chk(p); store_unaligned(p); }
  T get(std::size_t i) const { return v.at(i); }
  std::array<T, size> v;
#define VP_OP(o) friend batch operator o(const batch& a, const batch& b) { batch r; for (std::size_t i = 0; i < size; ++i) r.v[i] = a.v[i] o b.v[i]; return r; } batch& operator o##=(const batch& b) { return *this = *this o b; }
  VP_OP(+) VP_OP(-) VP_OP(*) VP_OP(/)
#undef VP_OP
  batch operator-() const { batch r; for (std::size_t i = 0; i < size; ++i) r.v[i] = -v[i]; return r; }
#define VP_CMP(o) friend batch_bool_type operator o(const batch& a, const batch& b) { batch_bool_type r; for (std::size_t i = 0; i < size; ++i) r.v[i] = a.v[i] o b.v[i]; return r; }
  VP_CMP(<) VP_CMP(>) VP_CMP(<=) VP_CMP(>=)
#undef VP_CMP
 private:
  static void chk(const void* p) { if (reinterpret_cast<std::uintptr_t>(p) % 16) { std::fprintf(stderr, "mini xsimd: unaligned access\n"); std::abort(); } }
};
template <class T> batch<T> operator*(double a, const batch<T>& b) { return batch<T>(T(a)) * b; }
template <class T> auto lt(const batch<T>& a, const batch<T>& b) { return a < b; }
template <class T> auto gt(const batch<T>& a, const batch<T>& b) { return a > b; }
template <class T> auto le(const batch<T>& a, const batch<T>& b) { return a <= b; }
template <class T> auto ge(const batch<T>& a, const batch<T>& b) { return a >= b; }
inline broadcasted broadcast(double x) { return {x}; }
template <class T, std::size_t N> batch<T> select(const batch_bool_n<T, N>& c, const batch<T>& a, const batch<T>& b) { batch<T> r; for (std::size_t i = 0; i < N; ++i) r.v[i] = c.v[i] ? a.v[i] : b.v[i]; return r; }
template <class T> batch<T> arg(const batch<std::complex<T>>& a) { batch<T> r; for (std::size_t i = 0; i < r.size; ++i) r.v[i] = std::arg(a.v[i]); return r; }
template <class T> batch<T> abs(const batch<std::complex<T>>& a) { batch<T> r; for (std::size_t i = 0; i < r.size; ++i) r.v[i] = std::abs(a.v[i]); return r; }
template <class T> batch<std::complex<T>> polar(const batch<T>& r, const batch<T>& p) { batch<std::complex<T>> o; for (std::size_t i = 0; i < r.size; ++i) o.v[i] = std::polar(T(1), p.v[i]) * r.v[i]; return o; }
template <class T> batch<T> sqrt(const batch<T>& a) { batch<T> r; for (std::size_t i = 0; i < r.size; ++i) r.v[i] = std::sqrt(a.v[i]); return r; }
template <class I, class G> struct batch_constant { static constexpr I get(I i, I n) { return G::get(i, n); } };
template <class I, class G> constexpr batch_constant<I, G> make_batch_constant() { return {}; }
template <class T, class I, class G> batch<T> swizzle(const batch<T>& a, batch_constant<I, G>) { batch<T> r; for (std::size_t i = 0; i < r.size; ++i) r.v[i] = a.v.at(G::get(i, r.size)); return r; }
}  // namespace xsimd
#endif
