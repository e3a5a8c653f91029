// A small stand-in for the part of xtensor that DP3 uses (xtensor itself is not
// installed here).  Expressions are evaluated at once; containers, adaptors and
// views have the real reference/value semantics.  All element accesses are
// bounds checked, and memory that xtensor leaves uninitialised is filled with
// conspicuous values, so that using it shows.
#ifndef VP_MINI_XTENSOR_HPP
#define VP_MINI_XTENSOR_HPP
#include <algorithm>
#include <array>
#include <cassert>
#include <cmath>
#include <complex>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <initializer_list>
#include <iterator>
#include <limits>
#include <memory>
#include <numeric>
#include <ostream>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>

namespace xt {

enum class layout_type { dynamic = 0, any = 0xff, row_major = 1, column_major = 2 };
#define XTENSOR_DEFAULT_LAYOUT ::xt::layout_type::row_major

[[noreturn]] inline void mini_abort(const char* what) {
  std::fprintf(stderr, "mini xtensor: %s\n", what);
  std::fflush(stderr);
  std::abort();
}
inline void mini_require(bool ok, const char* what) {
  if (__builtin_expect(!ok, 0)) mini_abort(what);
}

// ------------------------------------------------------------------ traits
template <class T> struct is_complex_t : std::false_type {};
template <class T> struct is_complex_t<std::complex<T>> : std::true_type {};
template <class T> struct real_of { using type = T; };
template <class T> struct real_of<std::complex<T>> { using type = T; };
template <class T> using real_of_t = typename real_of<std::remove_cv_t<T>>::type;
template <class A, class B> struct promote2 {
  using R = decltype(std::declval<real_of_t<A>>() + std::declval<real_of_t<B>>());
  using type = std::conditional_t<is_complex_t<A>::value || is_complex_t<B>::value, std::complex<R>, R>;
};
template <class A, class B> using promote_t = typename promote2<std::remove_cv_t<A>, std::remove_cv_t<B>>::type;
template <class To, class From> inline To conv(const From& f) {
  if constexpr (is_complex_t<To>::value) {
    using R = real_of_t<To>;
    if constexpr (is_complex_t<From>::value) return To(R(f.real()), R(f.imag()));
    else return To(R(f));
  } else {
    return static_cast<To>(f);
  }
}

struct xexpression_tag {};
template <class E> constexpr bool is_expr_v = std::is_base_of_v<xexpression_tag, std::decay_t<E>>;
template <class E> concept Expr = is_expr_v<E>;
template <class S> struct is_matrix_like { static constexpr bool value = false; };
template <class S> concept Scalar = !is_expr_v<S> && (std::is_arithmetic_v<std::decay_t<S>> || is_complex_t<std::decay_t<S>>::value);

// ------------------------------------------------------------------ storage
template <class T> inline void mini_poison(T* p, size_t n) {
  if constexpr (std::is_same_v<T, bool>) {
    for (size_t i = 0; i < n; ++i) p[i] = (i % 2) == 0;
  } else if constexpr (std::is_floating_point_v<T>) {
    for (size_t i = 0; i < n; ++i) p[i] = T(-7.7e29);
  } else if constexpr (std::is_integral_v<T>) {
    for (size_t i = 0; i < n; ++i) p[i] = T(0x6b6b6b6b);
  } else if constexpr (is_complex_t<T>::value) {
    // Not trivially default constructible: xtensor constructs these elements,
    // so that they are zero (AntennaFlagger depends on that).
    for (size_t i = 0; i < n; ++i) p[i] = T();
  }
}

template <class T, class A = std::allocator<T>> class uvector {
 public:
  using value_type = T;
  using size_type = size_t;
  using iterator = T*;
  using const_iterator = const T*;
  uvector() = default;
  explicit uvector(size_t n) { alloc(n); }
  uvector(size_t n, const T& v) { alloc(n); std::fill(begin(), end(), v); }
  uvector(std::initializer_list<T> l) { alloc(l.size()); std::copy(l.begin(), l.end(), begin()); }
  template <class It, class = typename std::iterator_traits<It>::iterator_category> uvector(It b, It e) { alloc(std::distance(b, e)); std::copy(b, e, begin()); }
  uvector(const uvector& o) { alloc(o.size_); std::copy(o.begin(), o.end(), begin()); }
  uvector(uvector&& o) noexcept : data_(std::move(o.data_)), size_(o.size_) { o.size_ = 0; }
  uvector& operator=(const uvector& o) {
    if (this != &o) { if (size_ != o.size_) alloc(o.size_); std::copy(o.begin(), o.end(), begin()); }
    return *this;
  }
  uvector& operator=(uvector&& o) noexcept { std::swap(data_, o.data_); std::swap(size_, o.size_); return *this; }
  void resize(size_t n) { if (n != size_) alloc(n); }
  size_t size() const { return size_; }
  bool empty() const { return size_ == 0; }
  T* data() { return data_.get(); }
  const T* data() const { return data_.get(); }
  T* begin() { return data(); }
  T* end() { return data() + size_; }
  const T* begin() const { return data(); }
  const T* end() const { return data() + size_; }
  T& operator[](size_t i) { mini_require(i < size_, "storage index out of range"); return data_[i]; }
  const T& operator[](size_t i) const { mini_require(i < size_, "storage index out of range"); return data_[i]; }

 private:
  void alloc(size_t n) {
    data_.reset(n ? new T[n] : nullptr);
    size_ = n;
    mini_poison(data_.get(), n);
  }
  std::unique_ptr<T[]> data_;
  size_t size_ = 0;
};

// ------------------------------------------------------------------ slices
struct xall_tag {};
struct xnewaxis_tag {};
struct xrange { std::ptrdiff_t begin, end, step; bool open_begin, open_end; };
struct xkeep { std::vector<size_t> idx; };
struct xnone {};
namespace placeholders { inline constexpr xnone _{}; using xtuph = xnone; }
struct xall_or_newaxis {};
inline xnewaxis_tag newaxis() { return {}; }
template <class A, class B> inline xrange range(A a, B b) {
  xrange r{0, 0, 1, false, false};
  if constexpr (std::is_same_v<A, xnone>) r.open_begin = true; else r.begin = static_cast<std::ptrdiff_t>(a);
  if constexpr (std::is_same_v<B, xnone>) r.open_end = true; else r.end = static_cast<std::ptrdiff_t>(b);
  return r;
}
template <class A, class B, class C> inline xrange range(A a, B b, C c) { xrange r = range(a, b); r.step = static_cast<std::ptrdiff_t>(c); return r; }
template <class C> requires(!std::is_integral_v<std::decay_t<C>>) inline xkeep keep(const C& c) {
  xkeep k;
  for (const auto& v : c) k.idx.push_back(static_cast<size_t>(v));
  return k;
}
template <class... I> requires(sizeof...(I) > 0 && (std::is_integral_v<I> && ...)) inline xkeep keep(I... i) { return xkeep{{static_cast<size_t>(i)...}}; }

template <class S> constexpr bool is_int_slice = std::is_integral_v<std::decay_t<S>> || std::is_enum_v<std::decay_t<S>>;
template <class S> constexpr bool is_newaxis_slice = std::is_same_v<std::decay_t<S>, xnewaxis_tag>;

// ------------------------------------------------------------------ helpers
template <size_t N> inline size_t total(const std::array<size_t, N>& s) {
  size_t n = 1;
  for (size_t i = 0; i < N; ++i) n *= s[i];
  return n;
}
template <size_t N> inline bool next_index(std::array<size_t, N>& idx, const std::array<size_t, N>& shape) {
  for (size_t d = N; d-- > 0;) {
    if (++idx[d] < shape[d]) return true;
    idx[d] = 0;
  }
  return false;
}
template <size_t N, class F> inline void for_each_index(const std::array<size_t, N>& shape, F&& f) {
  if (total(shape) == 0) return;
  std::array<size_t, N> idx{};
  do { f(idx); } while (next_index(idx, shape));
}
template <size_t N, class S> inline std::array<size_t, N> to_shape(const S& s) {
  std::array<size_t, N> r{};
  size_t k = 0;
  for (const auto& v : s) { mini_require(k < N, "shape has too many dimensions"); r[k++] = static_cast<size_t>(v); }
  mini_require(k == N, "shape has too few dimensions");
  return r;
}
template <class I, size_t K> inline std::array<I, K> shape(const I (&s)[K]) { std::array<I, K> r; for (size_t i = 0; i < K; ++i) r[i] = s[i]; return r; }

template <class S, size_t N, layout_type L> class xtensor_container;
template <class T, size_t N, layout_type L = layout_type::row_major, class A = std::allocator<T>>
using xtensor = xtensor_container<uvector<T, A>, N, L>;
template <class T, size_t N> class xview;
template <class T> class xarray;

struct mini_dim {
  size_t size = 0;
  std::ptrdiff_t stride = 0;
  std::shared_ptr<const std::vector<size_t>> keep;
  std::ptrdiff_t offset(size_t i) const { return keep ? static_cast<std::ptrdiff_t>((*keep)[i]) * stride : static_cast<std::ptrdiff_t>(i) * stride; }
};

// Iterator over elements in row-major order.
template <class X, class Ref> class xiter {
 public:
  using iterator_category = std::random_access_iterator_tag;
  using value_type = std::remove_cv_t<std::remove_reference_t<Ref>>;
  using difference_type = std::ptrdiff_t;
  using pointer = std::remove_reference_t<Ref>*;
  using reference = Ref;
  xiter() = default;
  xiter(X x, size_t pos) : x_(std::make_shared<X>(std::move(x))), pos_(pos) {}
  reference operator*() const { return x_->flat_(pos_); }
  pointer operator->() const { return &x_->flat_(pos_); }
  reference operator[](difference_type n) const { return x_->flat_(pos_ + n); }
  xiter& operator++() { ++pos_; return *this; }
  xiter operator++(int) { xiter r = *this; ++pos_; return r; }
  xiter& operator--() { --pos_; return *this; }
  xiter operator--(int) { xiter r = *this; --pos_; return r; }
  xiter& operator+=(difference_type n) { pos_ += n; return *this; }
  xiter& operator-=(difference_type n) { pos_ -= n; return *this; }
  xiter operator+(difference_type n) const { xiter r = *this; r.pos_ += n; return r; }
  xiter operator-(difference_type n) const { xiter r = *this; r.pos_ -= n; return r; }
  difference_type operator-(const xiter& o) const { return difference_type(pos_) - difference_type(o.pos_); }
  auto operator<=>(const xiter& o) const { return pos_ <=> o.pos_; }
  bool operator==(const xiter& o) const { return pos_ == o.pos_; }
  friend xiter operator+(difference_type n, const xiter& i) { return i + n; }

 private:
  std::shared_ptr<X> x_;
  size_t pos_ = 0;
};

// Base of everything with elements in memory.
template <class D, class T, size_t N> class xmem : public xexpression_tag {
 public:
  using value_type = std::remove_cv_t<T>;
  using shape_type = std::array<size_t, N>;
  using inner_shape_type = shape_type;
  using size_type = size_t;
  static constexpr size_t rank = N;

  size_t dimension() const { return N; }
  template <class... I> requires((is_int_slice<I> && ...)) T& operator()(I... i) { return *pos(i...); }
  template <class... I> requires((is_int_slice<I> && ...)) const value_type& operator()(I... i) const { return *pos(i...); }
  template <class... I> requires((is_int_slice<I> && ...)) T& at(I... i) { return *pos(i...); }
  template <class... I> requires((is_int_slice<I> && ...)) const value_type& at(I... i) const { return *pos(i...); }
  // A single index is an offset in the last dimension; xtensor does not check
  // whether it stays within that dimension.
  T& operator[](size_t i) { return *lin(i); }
  const value_type& operator[](size_t i) const { return *lin(i); }
  template <class I, size_t K> T& operator[](const std::array<I, K>& i) { return elem(to_shape<N>(i)); }
  template <class I, size_t K> const value_type& operator[](const std::array<I, K>& i) const { return elem(to_shape<N>(i)); }
  T& operator[](std::initializer_list<size_t> i) { return elem(to_shape<N>(i)); }
  const value_type& operator[](std::initializer_list<size_t> i) const { return elem(to_shape<N>(i)); }
  template <class It> T& element(It b, It e) { return elem(to_shape<N>(std::vector<size_t>(b, e))); }

  T& elem(const std::array<size_t, N>& idx) { return *const_cast<T*>(self().ptr_(idx)); }
  const value_type& elem(const std::array<size_t, N>& idx) const { return *self().ptr_(idx); }

  template <class V> void fill(const V& v) { for_each_index(self().shape(), [&, this](const auto& i) { this->elem(i) = conv<value_type>(v); }); }
  T& flat(size_t i) { return self().flat_(i); }
  const value_type& flat(size_t i) const { return const_cast<D&>(self()).flat_(i); }
  template <class S> D& operator+=(const S& s) { return inplace(s, [](auto a, auto b) { return a + b; }); }
  template <class S> D& operator-=(const S& s) { return inplace(s, [](auto a, auto b) { return a - b; }); }
  template <class S> D& operator*=(const S& s) { return inplace(s, [](auto a, auto b) { return a * b; }); }
  template <class S> D& operator/=(const S& s) { return inplace(s, [](auto a, auto b) { return a / b; }); }
  template <class S> D& operator|=(const S& s) { return inplace_raw(s, [](auto a, auto b) { return a | b; }); }
  template <class S> D& operator&=(const S& s) { return inplace_raw(s, [](auto a, auto b) { return a & b; }); }
  template <class S> D& operator^=(const S& s) { return inplace_raw(s, [](auto a, auto b) { return a ^ b; }); }

  // Element of an expression that is broadcast to more dimensions.
  template <size_t M> const value_type& bcast(const std::array<size_t, M>& idx) const {
    static_assert(M >= N, "cannot broadcast to fewer dimensions");
    std::array<size_t, N> i{};
    const auto& s = self().shape();
    for (size_t d = 0; d < N; ++d) i[d] = s[d] == 1 ? 0 : idx[d + M - N];
    return elem(i);
  }
  const D& self() const { return static_cast<const D&>(*this); }
  D& self() { return static_cast<D&>(*this); }

 protected:
  T* lin(size_t i) const {
    if constexpr (N < 2 || requires { self().mini_linear_(i); }) {
      if constexpr (N > 1) return const_cast<T*>(self().mini_linear_(i));
    }
    return pos(i);
  }
  template <class... I> T* pos(I... i) const {
    static_assert(sizeof...(I) <= N || N == 0, "too many indices");
    std::array<size_t, N> idx{};
    if constexpr (N > 0) {
      const std::array<size_t, sizeof...(I)> given{static_cast<size_t>(i)...};
      for (size_t d = 0; d < sizeof...(I); ++d) idx[N - sizeof...(I) + d] = given[d];
    }
    return const_cast<T*>(self().ptr_(idx));
  }
  template <class S, class F> D& inplace_raw(const S& s, F&& f) {
    if constexpr (is_expr_v<S>) {
      check_bcast(s.shape());
      const auto tmp = to_tensor(s);
      for_each_index(self().shape(), [&, this](const auto& i) { T& e = this->elem(i); e = static_cast<value_type>(f(value_type(e), tmp.bcast(i))); });
    } else {
      for_each_index(self().shape(), [&, this](const auto& i) { T& e = this->elem(i); e = static_cast<value_type>(f(value_type(e), s)); });
    }
    return self();
  }
  template <class S, class F> D& inplace(const S& s, F&& f) {
    if constexpr (is_expr_v<S>) {
      using P = promote_t<value_type, typename S::value_type>;
      check_bcast(s.shape());
      const auto tmp = to_tensor(s);
      for_each_index(self().shape(), [&, this](const auto& i) { T& e = this->elem(i); e = conv<value_type>(f(conv<P>(value_type(e)), conv<P>(tmp.bcast(i)))); });
    } else {
      using P = promote_t<value_type, S>;
      for_each_index(self().shape(), [&, this](const auto& i) { T& e = this->elem(i); e = conv<value_type>(f(conv<P>(value_type(e)), conv<P>(s))); });
    }
    return self();
  }
  template <class SH> void check_bcast(const SH& s) const {
    const auto& mine = self().shape();
    mini_require(s.size() <= N, "assignment of an expression with more dimensions");
    for (size_t d = 0; d < s.size() && d < N; ++d) {
      const size_t a = mine[N - 1 - d], b = s[s.size() - 1 - d];
      mini_require(b == a || b == 1, "incompatible shapes");
    }
  }
  template <class E> static auto to_tensor(const E& e) {
    xtensor<typename E::value_type, E::rank> t(e.shape());
    for_each_index(e.shape(), [&](const auto& i) { t.elem(i) = e.elem(i); });
    return t;
  }
  // Assign elements of an expression (through a temporary, as xtensor does).
  template <class E> void assign_elems(const E& e) {
    check_bcast(e.shape());
    const auto tmp = to_tensor(e);
    for_each_index(self().shape(), [&, this](const auto& i) { this->elem(i) = conv<value_type>(tmp.bcast(i)); });
  }
};

// Shape, strides.
template <size_t N> inline std::array<std::ptrdiff_t, N> make_strides(const std::array<size_t, N>& s, layout_type l) {
  std::array<std::ptrdiff_t, N> r{};
  std::ptrdiff_t n = 1;
  if (l == layout_type::column_major) for (size_t d = 0; d < N; ++d) { r[d] = s[d] == 1 ? 0 : n; n *= s[d]; }
  else for (size_t d = N; d-- > 0;) { r[d] = s[d] == 1 ? 0 : n; n *= s[d]; }
  return r;
}

template <class T, size_t N> struct nested_list { using type = std::initializer_list<typename nested_list<T, N - 1>::type>; };
template <class T> struct nested_list<T, 0> { using type = T; };
template <class T, size_t N> using nested_list_t = typename nested_list<T, N>::type;
template <size_t D, size_t N, class T, class L> void list_shape(const L& l, std::array<size_t, N>& s) {
  if constexpr (D < N) { s[D] = l.size(); if (l.size()) list_shape<D + 1, N, T>(*l.begin(), s); }
}
template <size_t D, size_t N, class X, class L> void list_copy(const L& l, X& x, std::array<size_t, N>& i) {
  if constexpr (D == N) x.elem(i) = l;
  else { i[D] = 0; for (const auto& e : l) { list_copy<D + 1, N>(e, x, i); ++i[D]; } }
}

template <class S, size_t N, layout_type L> class xtensor_container : public xmem<xtensor_container<S, N, L>, typename S::value_type, N> {
 public:
  using T = typename S::value_type;
  using base = xmem<xtensor_container, T, N>;
  using value_type = T;
  using reference = T&;
  using const_reference = const T&;
  using storage_type = S;
  using shape_type = std::array<size_t, N>;
  using strides_type = std::array<std::ptrdiff_t, N>;
  using iterator = T*;
  using const_iterator = const T*;

  xtensor_container() : shape_{}, strides_{}, storage_(N == 0 ? 1 : 0) { poison(); }
  explicit xtensor_container(const shape_type& s, layout_type = L) : shape_(s), strides_(make_strides(s, L)), storage_(total(s)) { poison(); }
  xtensor_container(const shape_type& s, const T& v, layout_type = L) : shape_(s), strides_(make_strides(s, L)), storage_(total(s)) { base::fill(v); }
  xtensor_container(nested_list_t<T, N> l) requires(N > 0) {
    shape_type s{};
    list_shape<0, N, T>(l, s);
    resize(s);
    std::array<size_t, N> i{};
    list_copy<0, N>(l, *this, i);
  }
  xtensor_container(const T& v) requires(N == 0) : shape_{}, strides_{}, storage_(1) { storage_[0] = v; }
  xtensor_container(const xtensor_container&) = default;
  xtensor_container(xtensor_container&&) = default;  // 'that' keeps its shape, but has no storage.
  xtensor_container& operator=(const xtensor_container& o) {
    if (this != &o) {
      shape_ = o.shape_; strides_ = o.strides_; storage_ = o.storage_;
    }
    return *this;
  }
  xtensor_container& operator=(xtensor_container&& o) {
    // Contents of the target go to 'that', as for the storage type of xtensor.
    if (this != &o) { shape_ = o.shape_; strides_ = o.strides_; storage_ = std::move(o.storage_); }
    return *this;
  }
  template <Expr E> requires(!std::is_same_v<std::decay_t<E>, xtensor_container>) xtensor_container(const E& e) : shape_{}, strides_{} { *this = e; }
  template <Expr E> requires(!std::is_same_v<std::decay_t<E>, xtensor_container>) xtensor_container& operator=(const E& e) {
    const auto tmp = base::to_tensor(e);
    if constexpr (std::decay_t<E>::rank == N) resize(e.shape());
    else { shape_type s; s.fill(1); const auto es = e.shape(); for (size_t d = 0; d < es.size(); ++d) s[N - es.size() + d] = es[d]; resize(s); }
    xtensor_container& me = *this;
    for_each_index(shape_, [&me, &tmp](const auto& i) { me.elem(i) = conv<T>(tmp.bcast(i)); });
    return *this;
  }
  template <class V> xtensor_container(const xarray<V>& a);
  template <class E> auto assign(const E& e) -> decltype(*this = e) { return *this = e; }
  template <class V> requires(N > 0 && Scalar<V>) xtensor_container& operator=(const V& v) { base::fill(v); return *this; }
  template <class... I> static xtensor_container from_shape(const shape_type& s) { return xtensor_container(s); }

  const shape_type& shape() const { return shape_; }
  size_t shape(size_t d) const { mini_require(d < N, "dimension out of range"); return shape_[d]; }
  const strides_type& strides() const { return strides_; }
  // As in xtensor: the size of the storage (which is zero after a move).
  size_t size() const { return storage_.size(); }
  T* data() { return storage_.data(); }
  const T* data() const { return storage_.data(); }
  S& storage() { return storage_; }
  const S& storage() const { return storage_; }
  layout_type layout() const { return L; }
  bool is_contiguous() const { return true; }
  T* begin() { static_assert(L == layout_type::row_major); check_storage(); return data(); }
  T* end() { check_storage(); return data() + size(); }
  const T* begin() const { check_storage(); return data(); }
  const T* end() const { check_storage(); return data() + size(); }
  const T* cbegin() const { return begin(); }
  const T* cend() const { return end(); }
  T& front() { return *begin(); }
  T& back() { return *(end() - 1); }

  template <class SH> void resize(const SH& s, bool = false) { do_resize(to_shape<N>(s)); }
  void resize(std::initializer_list<size_t> s) { do_resize(to_shape<N>(s)); }
  template <class SH> xtensor_container& reshape(const SH& s) { const auto n = to_shape<N>(s); mini_require(total(n) == total(shape_), "reshape changes the size"); shape_ = n; strides_ = make_strides(n, L); return *this; }
  xtensor_container& reshape(std::initializer_list<size_t> s) { const auto n = to_shape<N>(s); mini_require(total(n) == total(shape_), "reshape changes the size"); shape_ = n; strides_ = make_strides(n, L); return *this; }

  const T* mini_linear_(size_t i) const {
    mini_require(i < storage_.size() && (L == layout_type::row_major || i < shape_[N - 1]), "index out of range");
    return storage_.data() + i * (N ? size_t(strides_[N - 1]) : 1);
  }
  const T* ptr_(const std::array<size_t, N>& idx) const {
    std::ptrdiff_t o = 0;
    for (size_t d = 0; d < N; ++d) { mini_require(idx[d] < shape_[d], "index out of range"); o += static_cast<std::ptrdiff_t>(idx[d]) * strides_[d]; }
    mini_require(static_cast<size_t>(o) < storage_.size(), "access to a tensor without storage");
    return storage_.data() + o;
  }
  T& flat_(size_t i) { mini_require(i < storage_.size(), "flat index out of range"); return storage_.data()[i]; }
  std::array<mini_dim, N> dims_() const {
    std::array<mini_dim, N> r;
    const auto st = full_strides();
    for (size_t d = 0; d < N; ++d) { r[d].size = shape_[d]; r[d].stride = st[d]; }
    return r;
  }

 private:
  strides_type full_strides() const { return strides_; }
  void check_storage() const { mini_require(storage_.size() == total(shape_), "iteration over a tensor without storage"); }
  void poison() { mini_poison(storage_.data(), storage_.size()); }
  void do_resize(const shape_type& s) {
    if (s == shape_ && storage_.size() == total(s)) return;
    shape_ = s;
    strides_ = make_strides(s, L);
    if (storage_.size() != total(s)) { storage_.resize(total(s)); poison(); }
  }
  shape_type shape_;
  strides_type strides_;
  S storage_;
};

// View on memory: lazily bound, assignments go to the elements.
template <class T, size_t N> class xview : public xmem<xview<T, N>, T, N> {
 public:
  using base = xmem<xview, T, N>;
  using value_type = std::remove_cv_t<T>;
  using shape_type = std::array<size_t, N>;
  using reference = T&;
  using iterator = xiter<xview, T&>;
  using const_iterator = xiter<xview, T&>;

  xview(T* p, const std::array<mini_dim, N>& dims, std::shared_ptr<void> alive) : p_(p), dims_v(dims), alive_(std::move(alive)) {
    for (size_t d = 0; d < N; ++d) shape_[d] = dims_v[d].size;
  }
  xview(const xview&) = default;
  xview& operator=(const xview& o) { base::assign_elems(o); return *this; }
  template <Expr E> requires(!std::is_same_v<std::decay_t<E>, xview>) xview& operator=(const E& e) { base::assign_elems(e); return *this; }
  template <Scalar V> xview& operator=(const V& v) { base::fill(v); return *this; }

  const shape_type& shape() const { return shape_; }
  size_t shape(size_t d) const { mini_require(d < N, "dimension out of range"); return shape_[d]; }
  size_t size() const { return total(shape_); }
  T* data() const { return p_; }
  size_t data_offset() const { return 0; }
  std::array<std::ptrdiff_t, N> strides() const { std::array<std::ptrdiff_t, N> r{}; for (size_t d = 0; d < N; ++d) r[d] = dims_v[d].stride; return r; }
  iterator begin() const { return iterator(*this, 0); }
  iterator end() const { return iterator(*this, size()); }
  iterator cbegin() const { return begin(); }
  iterator cend() const { return end(); }
  T& front() const { return *begin(); }

  const T* ptr_(const std::array<size_t, N>& idx) const {
    std::ptrdiff_t o = 0;
    for (size_t d = 0; d < N; ++d) { mini_require(idx[d] < shape_[d], "view index out of range"); o += dims_v[d].offset(idx[d]); }
    return p_ + o;
  }
  T& flat_(size_t i) const {
    std::array<size_t, N> idx{};
    for (size_t d = N; d-- > 0;) { idx[d] = i % shape_[d]; i /= shape_[d]; }
    mini_require(i == 0, "flat view index out of range");
    return *const_cast<T*>(ptr_(idx));
  }
  const std::array<mini_dim, N>& dims_() const { return dims_v; }
  const std::shared_ptr<void>& alive() const { return alive_; }

 private:
  T* p_;
  std::array<mini_dim, N> dims_v;
  shape_type shape_;
  std::shared_ptr<void> alive_;
};

// Adaptor: tensor semantics on memory owned by someone else.
template <class T, size_t N, layout_type L = layout_type::row_major> class xadaptor : public xmem<xadaptor<T, N, L>, T, N> {
 public:
  using base = xmem<xadaptor, T, N>;
  using value_type = std::remove_cv_t<T>;
  using shape_type = std::array<size_t, N>;
  using reference = T&;
  using iterator = T*;
  using const_iterator = const T*;
  xadaptor(T* p, size_t n, const shape_type& s, std::shared_ptr<void> alive = nullptr) : p_(p), shape_(s), strides_(make_strides(s, L)), alive_(std::move(alive)) {
    mini_require(n == total(s), "adapted memory does not fit the shape");
  }
  xadaptor(const xadaptor&) = default;
  xadaptor& operator=(const xadaptor& o) { base::assign_elems(o); return *this; }
  template <Expr E> requires(!std::is_same_v<std::decay_t<E>, xadaptor>) xadaptor& operator=(const E& e) {
    mini_require(total(e.shape()) == total(shape_), "assignment to an adaptor changes its size");
    base::assign_elems(e);
    return *this;
  }
  const shape_type& shape() const { return shape_; }
  size_t shape(size_t d) const { mini_require(d < N, "dimension out of range"); return shape_[d]; }
  const std::array<std::ptrdiff_t, N>& strides() const { return strides_; }
  size_t size() const { return total(shape_); }
  T* data() const { return p_; }
  T* begin() const { return p_; }
  T* end() const { return p_ + size(); }
  const T* ptr_(const std::array<size_t, N>& idx) const {
    std::ptrdiff_t o = 0;
    for (size_t d = 0; d < N; ++d) { mini_require(idx[d] < shape_[d], "adaptor index out of range"); o += static_cast<std::ptrdiff_t>(idx[d]) * strides_[d]; }
    return p_ + o;
  }
  T& flat_(size_t i) const { mini_require(i < size(), "flat adaptor index out of range"); return p_[i]; }
  std::array<mini_dim, N> dims_() const {
    std::array<mini_dim, N> r;
    for (size_t d = 0; d < N; ++d) { r[d].size = shape_[d]; r[d].stride = strides_[d]; }
    return r;
  }
  const std::shared_ptr<void>& alive() const { return alive_; }

 private:
  T* p_;
  shape_type shape_;
  std::array<std::ptrdiff_t, N> strides_;
  std::shared_ptr<void> alive_;
};

template <class C> auto adapt_keep(C&& c) {
  // Returns data pointer and what keeps it alive (for temporaries).
  if constexpr (std::is_lvalue_reference_v<C>) return std::pair<decltype(c.data()), std::shared_ptr<void>>(c.data(), nullptr);
  else { auto k = std::make_shared<std::decay_t<C>>(std::move(c)); return std::pair<decltype(k->data()), std::shared_ptr<void>>(k->data(), k); }
}
template <class C> requires(!std::is_pointer_v<std::decay_t<C>>) auto adapt(C&& c) {
  const size_t n = c.size();
  auto [p, k] = adapt_keep(std::forward<C>(c));
  return xadaptor<std::remove_pointer_t<decltype(p)>, 1>(p, n, {n}, k);
}
template <class C, class I, size_t N> requires(!std::is_pointer_v<std::decay_t<C>>) auto adapt(C&& c, const std::array<I, N>& s) {
  const size_t n = c.size();
  auto [p, k] = adapt_keep(std::forward<C>(c));
  return xadaptor<std::remove_pointer_t<decltype(p)>, N>(p, n, to_shape<N>(s), k);
}
template <layout_type L, class C, class I, size_t N> requires(!std::is_pointer_v<std::decay_t<C>>) auto adapt(C&& c, const std::array<I, N>& s) {
  const size_t n = c.size();
  auto [p, k] = adapt_keep(std::forward<C>(c));
  return xadaptor<std::remove_pointer_t<decltype(p)>, N, L>(p, n, to_shape<N>(s), k);
}
template <class C, class I, size_t N> requires(!std::is_pointer_v<std::decay_t<C>>) auto adapt(C&& c, const I (&s)[N]) { return adapt(std::forward<C>(c), xt::shape(s)); }
template <class T, class I, size_t N> auto adapt(T* p, const std::array<I, N>& s) { return xadaptor<T, N>(p, total(to_shape<N>(s)), to_shape<N>(s)); }
template <class T, class I, size_t N> auto adapt(T* p, const I (&s)[N]) { return adapt(p, xt::shape(s)); }
struct no_ownership {};
template <class T, class O, class I, size_t N> auto adapt(T* p, size_t n, O, const std::array<I, N>& s) { return xadaptor<T, N>(p, n, to_shape<N>(s)); }

// Tensor of run-time rank: only the number of dimensions that DP3 needs.
template <class T> class xarray : public xexpression_tag {
 public:
  using value_type = T;
  static constexpr size_t rank = 1;
  xarray() = default;
  template <Expr E> xarray(const E& e) { shape_.assign(e.shape().begin(), e.shape().end()); for_each_index(e.shape(), [&](const auto& i) { v_.push_back(conv<T>(e.elem(i))); }); }
  size_t size() const { return v_.size(); }
  size_t dimension() const { return shape_.size(); }
  size_t shape(size_t d) const { return shape_.at(d); }
  std::array<size_t, 1> shape() const { mini_require(shape_.size() <= 1, "xarray with more than one dimension"); return {v_.size()}; }
  T& operator()(size_t i) { return v_.at(i); }
  const T& operator()(size_t i) const { return v_.at(i); }
  T& operator[](size_t i) { return v_.at(i); }
  const T& operator[](size_t i) const { return v_.at(i); }
  const T& elem(const std::array<size_t, 1>& i) const { return v_.at(i[0]); }
  template <size_t M> const T& bcast(const std::array<size_t, M>& i) const { return v_.at(v_.size() == 1 ? 0 : i[M - 1]); }
  template <class I> void reshape(const I& s) { std::vector<size_t> n(s.begin(), s.end()); size_t k = 1; for (size_t x : n) k *= x; mini_require(k == v_.size(), "reshape changes the size"); shape_ = n; }
  void reshape(std::initializer_list<size_t> s) { reshape(std::vector<size_t>(s)); }
  template <size_t N> xtensor<T, N> as() const { mini_require(shape_.size() == N, "xarray has another number of dimensions"); std::array<size_t, N> s; std::copy(shape_.begin(), shape_.end(), s.begin()); xtensor<T, N> r(s); std::copy(v_.begin(), v_.end(), r.begin()); return r; }
  auto begin() { return v_.begin(); }
  auto end() { return v_.end(); }
  auto begin() const { return v_.begin(); }
  auto end() const { return v_.end(); }
 private:
  std::vector<size_t> shape_;
  std::vector<T> v_;
};

// ------------------------------------------------------------------ view
template <class S> inline void mini_slice(const S& s, const mini_dim& in, std::ptrdiff_t& off, mini_dim* out) {
  if constexpr (is_int_slice<S>) {
    std::ptrdiff_t i = static_cast<std::ptrdiff_t>(s);
    if (i < 0) i += in.size;
    mini_require(i >= 0 && static_cast<size_t>(i) < in.size, "view slice out of range");
    off += in.offset(i);
  } else if constexpr (std::is_same_v<S, xall_tag>) {
    *out = in;
  } else if constexpr (std::is_same_v<S, xrange>) {
    const std::ptrdiff_t n = in.size;
    std::ptrdiff_t b = s.open_begin ? 0 : s.begin, e = s.open_end ? n : s.end;
    if (b < 0) b += n;
    if (e < 0) e += n;
    b = std::min(b, n);
    e = std::min(e, n);
    mini_require(s.step > 0, "only positive steps are supported");
    const size_t cnt = e > b ? (e - b + s.step - 1) / s.step : 0;
    if (in.keep) {
      auto k = std::make_shared<std::vector<size_t>>();
      for (size_t i = 0; i < cnt; ++i) k->push_back((*in.keep)[b + i * s.step]);
      out->keep = k;
      out->stride = in.stride;
    } else {
      off += b * in.stride;
      out->stride = in.stride * s.step;
      out->keep = nullptr;
    }
    out->size = cnt;
  } else {
    static_assert(std::is_same_v<S, xkeep>, "unsupported slice");
    auto k = std::make_shared<std::vector<size_t>>();
    for (size_t i : s.idx) { mini_require(i < in.size, "keep index out of range"); k->push_back(in.keep ? (*in.keep)[i] : i); }
    out->size = s.idx.size();
    out->stride = in.stride;
    out->keep = k;
  }
}
template <class E> inline std::shared_ptr<void> alive_of(const E& e) {
  if constexpr (requires { e.alive(); }) return e.alive(); else return nullptr;
}
template <class E> struct mini_elem_type { using type = std::remove_pointer_t<decltype(std::declval<E&>().data())>; };

template <class E, class... S> auto view(E&& e, S&&... s);
// xt::all() is both the "whole dimension" slice and, with an argument, a predicate.
inline xall_tag all() { return {}; }

template <class T, size_t N, class... S> auto view_mem(T* p, const std::array<mini_dim, N>& dims, std::shared_ptr<void> alive, const S&... s) {
  constexpr size_t n_int = ((is_int_slice<S> ? 1 : 0) + ... + 0);
  constexpr size_t n_new = ((is_newaxis_slice<S> ? 1 : 0) + ... + 0);
  static_assert(sizeof...(S) - n_new <= N, "too many slices");
  constexpr size_t M = N - n_int + n_new;
  std::array<mini_dim, M> out{};
  std::ptrdiff_t off = 0;
  size_t in_d = 0, out_d = 0;
  [[maybe_unused]] auto one = [&](const auto& sl) {
    using SL = std::decay_t<decltype(sl)>;
    if constexpr (is_newaxis_slice<SL>) { out[out_d].size = 1; out[out_d].stride = 0; ++out_d; }
    else if constexpr (is_int_slice<SL>) { mini_slice(sl, dims[in_d], off, nullptr); ++in_d; }
    else { mini_slice(sl, dims[in_d], off, &out[out_d]); ++in_d; ++out_d; }
  };
  (one(s), ...);
  while (in_d < N) out[out_d++] = dims[in_d++];
  return xview<T, M>(p + off, out, std::move(alive));
}
template <class E, class... S> auto view(E&& e, S&&... s) {
  using D = std::decay_t<E>;
  if constexpr (std::is_lvalue_reference_v<E> || requires { e.alive(); }) {
    return view_mem(e.data(), e.dims_(), alive_of(e), s...);
  } else {
    auto k = std::make_shared<D>(std::forward<E>(e));
    return view_mem(k->data(), k->dims_(), k, s...);
  }
}
template <class E> auto row(E&& e, size_t i) { return view(std::forward<E>(e), i); }
template <class E> auto col(E&& e, size_t i) { return view(std::forward<E>(e), all(), i); }
template <class E> auto transpose(E&& e) {
  auto v = view(std::forward<E>(e));
  constexpr size_t N = std::decay_t<E>::rank;
  auto d = v.dims_();
  std::reverse(d.begin(), d.end());
  return xview<std::remove_pointer_t<decltype(v.data())>, N>(v.data(), d, v.alive());
}
template <class E> auto flip(E&& e, size_t axis) {
  auto v = view(std::forward<E>(e));
  auto d = v.dims_();
  auto k = std::make_shared<std::vector<size_t>>();
  for (size_t i = d[axis].size; i-- > 0;) k->push_back(d[axis].keep ? (*d[axis].keep)[i] : i);
  d[axis].keep = k;
  return xview<std::remove_pointer_t<decltype(v.data())>, std::decay_t<E>::rank>(v.data(), d, v.alive());
}
template <class E, size_t N> auto reshape_impl(E&& e, const std::array<size_t, N>& s) {
  auto v = view(std::forward<E>(e));
  using T = std::remove_pointer_t<decltype(v.data())>;
  mini_require(total(s) == v.size(), "reshape changes the size");
  const auto st = make_strides(v.shape(), layout_type::row_major);
  const auto& d = v.dims_();
  bool contiguous = true;
  for (size_t i = 0; i < d.size(); ++i) if (d[i].keep || (d[i].size > 1 && d[i].stride != st[i])) contiguous = false;
  std::array<mini_dim, N> out{};
  const auto ns = make_strides(s, layout_type::row_major);
  for (size_t i = 0; i < N; ++i) { out[i].size = s[i]; out[i].stride = ns[i]; }
  if constexpr (N == 1) {
    if (!contiguous) {
      auto k = std::make_shared<std::vector<size_t>>();
      for_each_index(v.shape(), [&](const auto& i) { k->push_back(static_cast<size_t>(v.ptr_(i) - v.data())); });
      out[0].keep = k; out[0].stride = 1;
      return xview<T, N>(v.data(), out, v.alive());
    }
  }
  mini_require(contiguous, "reshape of a non-contiguous view is not supported");
  return xview<T, N>(v.data(), out, v.alive());
}
template <class E, class I, size_t N> auto reshape_view(E&& e, const std::array<I, N>& s) { return reshape_impl(std::forward<E>(e), to_shape<N>(s)); }
template <class E, class I, size_t N> auto reshape_view(E&& e, const I (&s)[N]) { return reshape_impl(std::forward<E>(e), to_shape<N>(xt::shape(s))); }
template <class E> auto flatten(E&& e) { const size_t n = e.size(); return reshape_impl(std::forward<E>(e), std::array<size_t, 1>{n}); }
template <class E> auto ravel(E&& e) { return flatten(std::forward<E>(e)); }

template <class E> struct noalias_proxy { E& e; template <class R> E& operator=(const R& r) { e = r; return e; } };
template <class E> noalias_proxy<E> noalias(E& e) { return {e}; }

// ------------------------------------------------------------------ element-wise
template <size_t A, size_t B> inline std::array<size_t, std::max(A, B)> bshape(const std::array<size_t, A>& a, const std::array<size_t, B>& b) {
  constexpr size_t M = std::max(A, B);
  std::array<size_t, M> r{};
  for (size_t d = 0; d < M; ++d) {
    const size_t x = d < A ? a[A - 1 - d] : 1, y = d < B ? b[B - 1 - d] : 1;
    mini_require(x == y || x == 1 || y == 1, "incompatible shapes");
    r[M - 1 - d] = x == 1 ? y : x;
  }
  return r;
}
template <class F, Expr A> auto map1(const A& a, F&& f) {
  using V = std::decay_t<decltype(f(std::declval<typename A::value_type>()))>;
  xtensor<V, A::rank> r(a.shape());
  for_each_index(r.shape(), [&](const auto& i) { r.elem(i) = f(a.elem(i)); });
  return r;
}
template <class F, class A, class B> auto map2(const A& a, const B& b, F&& f) {
  if constexpr (is_expr_v<A> && is_expr_v<B>) {
    using V = std::decay_t<decltype(f(std::declval<typename A::value_type>(), std::declval<typename B::value_type>()))>;
    const auto s = bshape(a.shape(), b.shape());
    xtensor<V, std::tuple_size_v<std::decay_t<decltype(s)>>> r(s);
    for_each_index(s, [&](const auto& i) { r.elem(i) = f(typename A::value_type(a.bcast(i)), typename B::value_type(b.bcast(i))); });
    return r;
  } else if constexpr (is_expr_v<A>) {
    return map1(a, [&](const auto& x) { return f(typename A::value_type(x), b); });
  } else {
    return map1(b, [&](const auto& x) { return f(a, typename B::value_type(x)); });
  }
}
template <class A, class B> concept ExprPair = (is_expr_v<A> && (is_expr_v<B> || Scalar<B>)) || (is_expr_v<B> && Scalar<A>);
#define VP_XT_ARITH(OP)                                                                     \
  template <class A, class B> requires ExprPair<A, B> auto operator OP(const A& a, const B& b) { \
    return map2(a, b, [](const auto& x, const auto& y) {                                     \
      using P = promote_t<std::decay_t<decltype(x)>, std::decay_t<decltype(y)>>;             \
      return P(conv<P>(x) OP conv<P>(y));                                                    \
    });                                                                                      \
  }
VP_XT_ARITH(+) VP_XT_ARITH(-) VP_XT_ARITH(*) VP_XT_ARITH(/)
#undef VP_XT_ARITH
#define VP_XT_OP(OP)                                                                         \
  template <class A, class B> requires ExprPair<A, B> auto operator OP(const A& a, const B& b) { \
    return map2(a, b, [](const auto& x, const auto& y) { return x OP y; });                  \
  }
VP_XT_OP(<) VP_XT_OP(>) VP_XT_OP(<=) VP_XT_OP(>=) VP_XT_OP(&&) VP_XT_OP(||) VP_XT_OP(%)
#undef VP_XT_OP
#define VP_XT_BIT(OP)                                                                        \
  template <class A, class B> requires ExprPair<A, B> auto operator OP(const A& a, const B& b) { \
    return map2(a, b, [](const auto& x, const auto& y) {                                     \
      using R = std::decay_t<decltype(x OP y)>;                                              \
      using V = std::conditional_t<std::is_same_v<std::decay_t<decltype(x)>, bool> && std::is_same_v<std::decay_t<decltype(y)>, bool>, bool, R>; \
      return V(x OP y);                                                                      \
    });                                                                                      \
  }
VP_XT_BIT(&) VP_XT_BIT(|) VP_XT_BIT(^)
#undef VP_XT_BIT
template <Expr A> auto operator-(const A& a) { return map1(a, [](const auto& x) { return -x; }); }
template <Expr A> auto operator+(const A& a) { return map1(a, [](const auto& x) { return +x; }); }
template <Expr A> auto operator!(const A& a) { return map1(a, [](const auto& x) { return !x; }); }
template <Expr A> auto operator~(const A& a) { return map1(a, [](const auto& x) { return ~x; }); }
template <Expr A, Expr B> bool operator==(const A& a, const B& b) {
  if constexpr (A::rank != B::rank) return false;
  else {
    const auto sa = a.shape();
    const auto sb = b.shape();
    for (size_t d = 0; d < sa.size(); ++d) if (sa[d] != sb[d]) return false;
    bool r = true;
    for_each_index(sa, [&](const auto& i) { if (!(a.elem(i) == b.elem(i))) r = false; });
    return r;
  }
}
template <Expr A, Expr B> bool operator!=(const A& a, const B& b) { return !(a == b); }
template <class A, class B> requires ExprPair<A, B> auto equal(const A& a, const B& b) { return map2(a, b, [](const auto& x, const auto& y) { return x == y; }); }
template <class A, class B> requires ExprPair<A, B> auto not_equal(const A& a, const B& b) { return map2(a, b, [](const auto& x, const auto& y) { return x != y; }); }
template <class A, class B> requires ExprPair<A, B> auto greater(const A& a, const B& b) { return a > b; }
template <class A, class B> requires ExprPair<A, B> auto less(const A& a, const B& b) { return a < b; }
template <class A, class B> requires ExprPair<A, B> auto maximum(const A& a, const B& b) { return map2(a, b, [](const auto& x, const auto& y) { using P = promote_t<std::decay_t<decltype(x)>, std::decay_t<decltype(y)>>; return std::max<P>(x, y); }); }
template <class A, class B> requires ExprPair<A, B> auto minimum(const A& a, const B& b) { return map2(a, b, [](const auto& x, const auto& y) { using P = promote_t<std::decay_t<decltype(x)>, std::decay_t<decltype(y)>>; return std::min<P>(x, y); }); }
template <class A, class B> requires ExprPair<A, B> auto fmax(const A& a, const B& b) { return maximum(a, b); }
template <class A, class B> requires ExprPair<A, B> auto fmin(const A& a, const B& b) { return minimum(a, b); }
template <class A, class B> requires ExprPair<A, B> auto pow(const A& a, const B& b) { return map2(a, b, [](const auto& x, const auto& y) { return std::pow(x, y); }); }
template <class A, class B> requires ExprPair<A, B> auto atan2(const A& a, const B& b) { return map2(a, b, [](const auto& x, const auto& y) { return std::atan2(x, y); }); }
#define VP_XT_FN(NAME, EXPR) template <Expr A> auto NAME(const A& a) { return map1(a, [](const auto& x) { return EXPR; }); }
VP_XT_FN(abs, std::abs(x)) VP_XT_FN(fabs, std::abs(x)) VP_XT_FN(arg, std::arg(x)) VP_XT_FN(angle, std::arg(x)) VP_XT_FN(norm, std::norm(x)) VP_XT_FN(sqrt, std::sqrt(x))
VP_XT_FN(square, (x * x)) VP_XT_FN(exp, std::exp(x)) VP_XT_FN(log, std::log(x)) VP_XT_FN(log10, std::log10(x)) VP_XT_FN(sin, std::sin(x)) VP_XT_FN(cos, std::cos(x)) VP_XT_FN(tan, std::tan(x))
VP_XT_FN(floor, std::floor(x)) VP_XT_FN(ceil, std::ceil(x)) VP_XT_FN(round, std::round(x))
#undef VP_XT_FN
template <class X> inline auto mini_conj(const X& x) { if constexpr (is_complex_t<X>::value) return std::conj(x); else return x; }
template <Expr A> auto conj(const A& a) { return map1(a, [](const auto& x) { return mini_conj(std::decay_t<decltype(x)>(x)); }); }
template <class X> inline bool mini_finite(const X& x) { if constexpr (is_complex_t<X>::value) return std::isfinite(x.real()) && std::isfinite(x.imag()); else return std::isfinite(x); }
template <class X> inline bool mini_nan(const X& x) { if constexpr (is_complex_t<X>::value) return std::isnan(x.real()) || std::isnan(x.imag()); else return std::isnan(x); }
template <class X> inline bool mini_inf(const X& x) { if constexpr (is_complex_t<X>::value) return std::isinf(x.real()) || std::isinf(x.imag()); else return std::isinf(x); }
template <Expr A> auto isfinite(const A& a) { return map1(a, [](const auto& x) { return mini_finite(x); }); }
template <Expr A> auto isnan(const A& a) { return map1(a, [](const auto& x) { return mini_nan(x); }); }
template <Expr A> auto isinf(const A& a) { return map1(a, [](const auto& x) { return mini_inf(x); }); }
template <class To, Expr A> auto cast(const A& a) { return map1(a, [](const auto& x) { return conv<To>(x); }); }

// real() and imag() are views when given complex elements in memory.
template <size_t PART, class E> auto part_view(E&& e) {
  auto v = view(std::forward<E>(e));
  using T = std::remove_pointer_t<decltype(v.data())>;
  using R = std::conditional_t<std::is_const_v<T>, const real_of_t<T>, real_of_t<T>>;
  auto d = v.dims_();
  for (auto& x : d) x.stride *= 2;
  return xview<R, std::decay_t<E>::rank>(reinterpret_cast<R*>(v.data()) + PART, d, v.alive());
}
template <Expr E> auto real(E&& e) {
  using V = typename std::decay_t<E>::value_type;
  if constexpr (is_complex_t<V>::value) return part_view<0>(std::forward<E>(e)); else return map1(e, [](const auto& x) { return x; });
}
template <Expr E> auto imag(E&& e) {
  using V = typename std::decay_t<E>::value_type;
  if constexpr (is_complex_t<V>::value) return part_view<1>(std::forward<E>(e)); else return map1(e, [](const auto& x) { return V(0); });
}
template <class F> auto vectorize(F f) { return [f](const auto& a, const auto& b) { return map2(a, b, f); }; }

// ------------------------------------------------------------------ builders
template <class T, class I, size_t N> auto zeros(const I (&s)[N]) { return xtensor<T, N>(to_shape<N>(xt::shape(s)), T(0)); }
template <class T, class I, size_t N> auto zeros(const std::array<I, N>& s) { return xtensor<T, N>(to_shape<N>(s), T(0)); }
template <class T, class I, size_t N> auto ones(const I (&s)[N]) { return xtensor<T, N>(to_shape<N>(xt::shape(s)), T(1)); }
template <class T, class I, size_t N> auto ones(const std::array<I, N>& s) { return xtensor<T, N>(to_shape<N>(s), T(1)); }
template <class T, class I, size_t N> auto empty(const I (&s)[N]) { return xtensor<T, N>(to_shape<N>(xt::shape(s))); }
template <class T, class I, size_t N> auto empty(const std::array<I, N>& s) { return xtensor<T, N>(to_shape<N>(s)); }
template <Expr E> auto zeros_like(const E& e) { return xtensor<typename E::value_type, E::rank>(e.shape(), typename E::value_type(0)); }
template <Expr E> auto ones_like(const E& e) { return xtensor<typename E::value_type, E::rank>(e.shape(), typename E::value_type(1)); }
template <Expr E> auto empty_like(const E& e) { return xtensor<typename E::value_type, E::rank>(e.shape()); }
template <Expr E, class V> auto full_like(const E& e, const V& v) { return xtensor<typename E::value_type, E::rank>(e.shape(), v); }
template <class T> auto arange(T b, T e, T step = T(1)) { std::vector<T> v; for (T x = b; x < e; x += step) v.push_back(x); xtensor<T, 1> r(std::array<size_t, 1>{v.size()}); std::copy(v.begin(), v.end(), r.begin()); return r; }
template <class T, class U> auto arange(T b, T e, U step) { return arange<T>(b, e, T(step)); }
template <class T> auto arange(T e) { return arange(T(0), e); }
template <class T> auto linspace(T b, T e, size_t n = 50, bool endpoint = true) { xtensor<T, 1> r(std::array<size_t, 1>{n}); for (size_t i = 0; i < n; ++i) r(i) = b + T(i) * ((e - b) / T(std::max<size_t>(1, endpoint ? n - 1 : n))); return r; }
template <Expr E, class I, size_t N> auto broadcast(const E& e, const std::array<I, N>& s) { xtensor<typename E::value_type, N> r(to_shape<N>(s)); for_each_index(r.shape(), [&](const auto& i) { r.elem(i) = e.bcast(i); }); return r; }
template <Expr E, class I, size_t N> auto broadcast(const E& e, const I (&s)[N]) { return broadcast(e, xt::shape(s)); }

// ------------------------------------------------------------------ reductions
namespace evaluation_strategy { struct immediate_type {}; struct lazy_type {}; inline constexpr immediate_type immediate{}; inline constexpr lazy_type lazy{}; }
struct keep_dims_type {};
inline constexpr keep_dims_type keep_dims{};
template <class V> using sum_t = std::conditional_t<std::is_integral_v<V>, std::conditional_t<std::is_unsigned_v<V> && !std::is_same_v<V, bool>, unsigned long long, long long>, V>;
// All elements of e, grouped by the indices that remain.
template <size_t K, Expr E, class F> auto reduce_axes(const E& e, const std::array<size_t, K>& axes, F&& f) {
  constexpr size_t N = E::rank;
  static_assert(K <= N, "too many axes");
  constexpr size_t M = N - K;
  std::array<size_t, M> s{};
  std::array<size_t, M> from{};
  size_t k = 0;
  const auto es = e.shape();
  for (size_t d = 0; d < N; ++d) {
    if (std::find(axes.begin(), axes.end(), d) == axes.end()) { mini_require(k < M, "repeated axis"); s[k] = es[d]; from[k++] = d; }
  }
  mini_require(k == M, "axis out of range");
  using V = typename E::value_type;
  xtensor<std::vector<V>, M> groups(s);
  for_each_index(es, [&](const auto& i) {
    std::array<size_t, M> j{};
    for (size_t d = 0; d < M; ++d) j[d] = i[from[d]];
    groups.elem(j).push_back(e.elem(i));
  });
  using R = std::decay_t<decltype(f(std::declval<std::vector<V>>()))>;
  xtensor<R, M> r(s);
  for_each_index(s, [&](const auto& i) { r.elem(i) = f(groups.elem(i)); });
  return r;
}
template <Expr E, class F> auto reduce_all(const E& e, F&& f) {
  using V = typename E::value_type;
  std::vector<V> v;
  for_each_index(e.shape(), [&](const auto& i) { v.push_back(e.elem(i)); });
  using R = std::decay_t<decltype(f(v))>;
  xtensor<R, 0> r;
  r() = f(v);
  return r;
}
#define VP_XT_REDUCE(NAME, FN)                                                                                            \
  template <Expr E> auto NAME(const E& e) { return reduce_all(e, [](const auto& v) { return FN(v); }); }                   \
  template <Expr E> auto NAME(const E& e, evaluation_strategy::immediate_type) { return NAME(e); }                         \
  template <Expr E, class I, size_t K> auto NAME(const E& e, const I (&ax)[K]) { return reduce_axes(e, to_shape<K>(xt::shape(ax)), [](const auto& v) { return FN(v); }); } \
  template <Expr E, class I, size_t K> auto NAME(const E& e, const std::array<I, K>& ax) { return reduce_axes(e, to_shape<K>(ax), [](const auto& v) { return FN(v); }); } \
  template <Expr E, class I, size_t K> auto NAME(const E& e, const I (&ax)[K], evaluation_strategy::immediate_type) { return NAME(e, ax); } \
  template <Expr E, class I> requires std::is_integral_v<I> auto NAME(const E& e, I ax) { return reduce_axes(e, std::array<size_t, 1>{static_cast<size_t>(ax < 0 ? ax + I(E::rank) : ax)}, [](const auto& v) { return FN(v); }); }
template <class C> auto red_sum(const C& v) { using V = sum_t<typename C::value_type>; V s(0); for (const auto& x : v) s += V(x); return s; }
template <class C> auto red_nansum(const C& v) { using V = sum_t<typename C::value_type>; V s(0); for (const auto& x : v) if (!mini_nan(V(x))) s += V(x); return s; }
template <class C> auto red_prod(const C& v) { using V = sum_t<typename C::value_type>; V s(1); for (const auto& x : v) s *= V(x); return s; }
template <class C> auto red_max(const C& v) { using V = typename C::value_type; V m = std::numeric_limits<V>::lowest(); for (const auto& x : v) if (V(x) > m) m = x; return m; }
template <class C> auto red_min(const C& v) { using V = typename C::value_type; V m = std::numeric_limits<V>::max(); for (const auto& x : v) if (V(x) < m) m = x; return m; }
template <class C> auto red_mean(const C& v) { using V = typename C::value_type; using R = std::conditional_t<std::is_integral_v<V>, double, V>; R s(0); for (const auto& x : v) s += R(x); return R(s / real_of_t<R>(v.size())); }
template <class C> auto red_var(const C& v) { const auto m = red_mean(v); using R = std::decay_t<decltype(m)>; R s(0); for (const auto& x : v) s += (R(x) - m) * (R(x) - m); return R(s / R(v.size())); }
template <class C> auto red_std(const C& v) { return std::sqrt(red_var(v)); }
template <class C> bool red_any(const C& v) { for (const auto& x : v) if (x != typename C::value_type(0)) return true; return false; }
template <class C> bool red_allof(const C& v) { for (const auto& x : v) if (x == typename C::value_type(0)) return false; return true; }
template <class C> auto red_median(const C& c) {
  using V = typename C::value_type;
  std::vector<V> v(c.begin(), c.end());
  const size_t n = v.size();
  mini_require(n > 0, "median of nothing");
  std::sort(v.begin(), v.end());
  return n % 2 ? V(v[n / 2]) : V((v[n / 2 - 1] + v[n / 2]) / V(2));
}
VP_XT_REDUCE(sum, red_sum) VP_XT_REDUCE(nansum, red_nansum) VP_XT_REDUCE(prod, red_prod) VP_XT_REDUCE(amax, red_max) VP_XT_REDUCE(amin, red_min)
VP_XT_REDUCE(mean, red_mean) VP_XT_REDUCE(variance, red_var) VP_XT_REDUCE(stddev, red_std)
#undef VP_XT_REDUCE
template <Expr E> auto median(const E& e) { return reduce_all(e, [](const auto& v) { return red_median(v); })(); }
template <Expr E> auto median(const E& e, std::ptrdiff_t ax) { return reduce_axes(e, std::array<size_t, 1>{static_cast<size_t>(ax < 0 ? ax + std::ptrdiff_t(E::rank) : ax)}, [](const auto& v) { return red_median(v); }); }
template <Expr E> bool any(const E& e) { return reduce_all(e, [](const auto& v) { return red_any(v); })(); }
template <Expr E> bool all(const E& e) { return reduce_all(e, [](const auto& v) { return red_allof(v); })(); }
template <Expr A, Expr B> bool allclose(const A& a, const B& b, double rtol = 1e-5, double atol = 1e-8) {
  bool r = true;
  const auto s = bshape(a.shape(), b.shape());
  for_each_index(s, [&](const auto& i) { if (!(std::abs(a.bcast(i) - b.bcast(i)) <= atol + rtol * std::abs(b.bcast(i)))) r = false; });
  return r;
}
template <Expr A, Scalar B> bool allclose(const A& a, const B& b, double rtol = 1e-5, double atol = 1e-8) { return allclose(a, map1(a, [&](const auto&) { return b; }), rtol, atol); }
template <Scalar A, Scalar B> bool allclose(const A& a, const B& b, double rtol = 1e-5, double atol = 1e-8) { return std::abs(a - b) <= atol + rtol * std::abs(b); }
template <class A, class B> requires ExprPair<A, B> auto isclose(const A& a, const B& b, double rtol = 1e-5, double atol = 1e-8, bool eq_nan = false) { return map2(a, b, [=](const auto& x, const auto& y) { if (eq_nan && mini_nan(x) && mini_nan(y)) return true; return std::abs(x - y) <= atol + rtol * std::abs(y); }); }
template <Expr E> size_t count_nonzero_(const E& e) { size_t n = 0; for_each_index(e.shape(), [&](const auto& i) { if (e.elem(i)) ++n; }); return n; }
template <Expr E> auto count_nonzero(const E& e) { xtensor<size_t, 0> r; r() = count_nonzero_(e); return r; }

// ------------------------------------------------------------------ selections
template <Expr E> std::vector<std::vector<size_t>> where(const E& e) {
  std::vector<std::vector<size_t>> r(std::max<size_t>(1, E::rank));
  for_each_index(e.shape(), [&](const auto& i) { if (e.elem(i)) for (size_t d = 0; d < i.size(); ++d) r[d].push_back(i[d]); });
  return r;
}
template <Expr E> std::vector<std::vector<size_t>> nonzero(const E& e) { return where(e); }
template <Expr C, class A, class B> auto where(const C& c, const A& a, const B& b) {
  auto get = [](const auto& x, const auto& i) { if constexpr (is_expr_v<decltype(x)>) return std::decay_t<decltype(x.bcast(i))>(x.bcast(i)); else return x; };
  using VA = std::decay_t<decltype(get(a, c.shape()))>;
  xtensor<VA, C::rank> r(c.shape());
  for_each_index(r.shape(), [&](const auto& i) { r.elem(i) = c.elem(i) ? VA(get(a, i)) : conv<VA>(get(b, i)); });
  return r;
}
template <Expr E> std::vector<std::array<size_t, E::rank>> argwhere(const E& e) {
  std::vector<std::array<size_t, E::rank>> r;
  for_each_index(e.shape(), [&](const auto& i) { if (e.elem(i)) r.push_back(i); });
  return r;
}
template <class C> auto flatten_indices(const C& c) {
  std::vector<size_t> v;
  for (const auto& i : c) for (size_t x : i) v.push_back(x);
  xtensor<size_t, 1> r(std::array<size_t, 1>{v.size()});
  std::copy(v.begin(), v.end(), r.begin());
  return r;
}
template <class T, size_t N> class xselection {
 public:
  explicit xselection(std::vector<T*> p) : p_(std::move(p)) {}
  template <Scalar V> xselection& operator=(const V& v) { fill(v); return *this; }
  template <Expr E> xselection& operator=(const E& e) { size_t k = 0; mini_require(e.size() == p_.size(), "selection size mismatch"); for_each_index(e.shape(), [&](const auto& i) { *p_[k++] = conv<T>(e.elem(i)); }); return *this; }
  template <class V> void fill(const V& v) { for (T* p : p_) *p = conv<T>(v); }
  template <class V> xselection& operator+=(const V& v) { for (T* p : p_) *p += v; return *this; }
  template <class V> xselection& operator*=(const V& v) { for (T* p : p_) *p *= v; return *this; }
  size_t size() const { return p_.size(); }

 private:
  std::vector<T*> p_;
};
template <class E, Expr C> auto select_ptrs(E&& e, const C& c) {
  using T = std::remove_reference_t<decltype(e.elem(e.shape()))>;
  std::vector<T*> p;
  mini_require(bshape(e.shape(), c.shape()) == e.shape(), "mask has another shape");
  for_each_index(e.shape(), [&](const auto& i) { if (c.bcast(i)) p.push_back(&e.elem(i)); });
  return xselection<T, 1>(std::move(p));
}
template <class E, Expr C> auto masked_view(E&& e, const C& c) { return select_ptrs(e, c); }
template <class E, Expr C> auto filtration(E&& e, const C& c) { return select_ptrs(e, c); }
template <class E, Expr C> auto filter(E&& e, const C& c) {
  using T = typename std::decay_t<E>::value_type;
  std::vector<T> v;
  for_each_index(e.shape(), [&](const auto& i) { if (c.bcast(i)) v.push_back(e.elem(i)); });
  xtensor<T, 1> r(std::array<size_t, 1>{v.size()});
  std::copy(v.begin(), v.end(), r.begin());
  return r;
}
template <class To, class T> auto cast(const xarray<T>& a) { return cast<To>(a.template as<2>()); }
template <Expr E> auto eval(const E& e) { return map1(e, [](const auto& x) { return x; }); }
template <Expr E> auto sort(const E& e) { auto r = map1(e, [](const auto& x) { return x; }); static_assert(E::rank == 1); std::sort(r.begin(), r.end()); return r; }

template <class S, size_t N, layout_type L> template <class V> xtensor_container<S, N, L>::xtensor_container(const xarray<V>& a) : shape_{}, strides_{} {
  static_assert(N == 1);
  resize(std::array<size_t, 1>{a.size()});
  for (size_t i = 0; i < a.size(); ++i) storage_[i] = conv<T>(a[i]);
}

template <Expr E> std::ostream& operator<<(std::ostream& os, const E& e) {
  os << "{";
  bool first = true;
  for_each_index(e.shape(), [&](const auto& i) { if (!first) os << ", "; first = false; os << e.elem(i); });
  return os << "}";
}

// ------------------------------------------------------------------ linalg
namespace random {
struct generator_ { unsigned long long s = 88172645463325252ULL; double next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return (s >> 11) * (1.0 / 9007199254740992.0); } void seed(unsigned long long x) { s = x ? x * 2654435761ULL + 1 : 88172645463325252ULL; } };
inline generator_& get_default_random_engine() { static generator_ g; return g; }
inline void seed(unsigned long long x) { get_default_random_engine().seed(x); }
template <class T, class I, size_t N> auto rand(const std::array<I, N>& s, T lo = 0, T hi = 1) { xtensor<T, N> r(to_shape<N>(s)); for (auto& x : r) x = lo + (hi - lo) * T(get_default_random_engine().next()); return r; }
template <class T, class I, size_t N> auto rand(const I (&s)[N], T lo = 0, T hi = 1) { return rand<T>(xt::shape(s), lo, hi); }
}  // namespace random
namespace linalg {
template <Expr A, Expr B> auto dot(const A& a, const B& b) {
  using V = promote_t<typename A::value_type, typename B::value_type>;
  if constexpr (A::rank == 1 && B::rank == 1) {
    V s(0);
    mini_require(a.size() == b.size(), "dot sizes");
    for (size_t i = 0; i < a.size(); ++i) s += conv<V>(a(i)) * conv<V>(b(i));
    xtensor<V, 1> r(std::array<size_t, 1>{1}, s);
    return r;
  } else if constexpr (A::rank == 2 && B::rank == 1) {
    xtensor<V, 1> r(std::array<size_t, 1>{a.shape(0)}, V(0));
    mini_require(a.shape(1) == b.size(), "dot sizes");
    for (size_t i = 0; i < a.shape(0); ++i) for (size_t j = 0; j < a.shape(1); ++j) r(i) += conv<V>(a(i, j)) * conv<V>(b(j));
    return r;
  } else if constexpr (A::rank == 1 && B::rank == 2) {
    xtensor<V, 1> r(std::array<size_t, 1>{b.shape(1)}, V(0));
    mini_require(a.size() == b.shape(0), "dot sizes");
    for (size_t j = 0; j < b.shape(1); ++j) for (size_t i = 0; i < b.shape(0); ++i) r(j) += conv<V>(a(i)) * conv<V>(b(i, j));
    return r;
  } else {
    xtensor<V, 2> r(std::array<size_t, 2>{a.shape(0), b.shape(1)}, V(0));
    mini_require(a.shape(1) == b.shape(0), "dot sizes");
    for (size_t i = 0; i < a.shape(0); ++i) for (size_t j = 0; j < b.shape(1); ++j) for (size_t k = 0; k < a.shape(1); ++k) r(i, j) += conv<V>(a(i, k)) * conv<V>(b(k, j));
    return r;
  }
}
template <Expr A, Expr B> auto outer(const A& a, const B& b) {
  using V = promote_t<typename A::value_type, typename B::value_type>;
  xtensor<V, 2> r(std::array<size_t, 2>{a.size(), b.size()});
  for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < b.size(); ++j) r(i, j) = conv<V>(a(i)) * conv<V>(b(j));
  return r;
}
template <Expr A> auto norm(const A& a, int = 2) {
  using R = real_of_t<typename A::value_type>;
  R s(0);
  for_each_index(a.shape(), [&](const auto& i) { s += std::norm(a.elem(i)); });
  return std::sqrt(s);
}
}  // namespace linalg
}  // namespace xt
#endif
