// Stand-in for aocommon::UVector: a vector that does not initialise elements
// it makes without a value; here such elements get a conspicuous value.
#ifndef VP_AOCOMMON_UVECTOR_H
#define VP_AOCOMMON_UVECTOR_H
#include <algorithm>
#include <complex>
#include <cstddef>
#include <initializer_list>
#include <memory>
#include <new>
#include <type_traits>
#include <utility>
#include <vector>
namespace aocommon {
template <class T> struct poison_allocator : std::allocator<T> {
  template <class U> struct rebind { using other = poison_allocator<U>; };
  poison_allocator() = default;
  template <class U> poison_allocator(const poison_allocator<U>&) {}
  template <class U> void construct(U* p) { ::new (static_cast<void*>(p)) U; poison(p); }
  template <class U, class A, class... B> void construct(U* p, A&& a, B&&... b) { ::new (static_cast<void*>(p)) U(std::forward<A>(a), std::forward<B>(b)...); }
  template <class U> static void poison(U* p) {
    if constexpr (std::is_same_v<U, bool>) *p = true;
    else if constexpr (std::is_floating_point_v<U>) *p = U(-7.7e29);
    else if constexpr (std::is_integral_v<U>) *p = U(0x6b6b6b6b);
    else if constexpr (std::is_same_v<U, std::complex<float>>) *p = U(-7.7e29f, 7.7e29f);
    else if constexpr (std::is_same_v<U, std::complex<double>>) *p = U(-7.7e29, 7.7e29);
  }
};
// UVector<bool> is a real array of bool, not a bit set.
template <class T> class UVector : public std::vector<T, poison_allocator<T>> {
 public:
  using base = std::vector<T, poison_allocator<T>>;
  using base::base;
  UVector() = default;
};
template <> class UVector<bool> {
  struct Cell {
    bool v;
    Cell() : v(true) {}
    Cell(bool b) : v(b) {}
  };
  static_assert(sizeof(Cell) == 1);
  std::vector<Cell> c_;
 public:
  using value_type = bool; using iterator = bool*; using const_iterator = const bool*; using size_type = std::size_t;
  using reference = bool&; using const_reference = const bool&; using pointer = bool*; using const_pointer = const bool*; using difference_type = std::ptrdiff_t;
  UVector() = default;
  explicit UVector(std::size_t n) : c_(n) {}
  UVector(std::size_t n, bool v) : c_(n, Cell(v)) {}
  UVector(std::initializer_list<bool> l) : c_(l.begin(), l.end()) {}
  template <class It, class = std::enable_if_t<!std::is_integral_v<It>>> UVector(It a, It b) : c_(a, b) {}
  bool* data() { return reinterpret_cast<bool*>(c_.data()); }
  const bool* data() const { return reinterpret_cast<const bool*>(c_.data()); }
  std::size_t size() const { return c_.size(); }
  bool empty() const { return c_.empty(); }
  std::size_t capacity() const { return c_.capacity(); }
  void reserve(std::size_t n) { c_.reserve(n); }
  void clear() { c_.clear(); }
  void resize(std::size_t n) { c_.resize(n); }
  void resize(std::size_t n, bool v) { c_.resize(n, Cell(v)); }
  void assign(std::size_t n, bool v) { c_.assign(n, Cell(v)); }
  template <class It, class = std::enable_if_t<!std::is_integral_v<It>>> void assign(It a, It b) { c_.assign(a, b); }
  void push_back(bool v) { c_.push_back(Cell(v)); }
  void emplace_back(bool v) { c_.push_back(Cell(v)); }
  template <class It> bool* insert(const bool* pos, It a, It b) { const auto n = pos - data(); c_.insert(c_.begin() + n, a, b); return data() + n; }
  bool* insert(const bool* pos, std::size_t k, bool v) { const auto n = pos - data(); c_.insert(c_.begin() + n, k, Cell(v)); return data() + n; }
  bool& operator[](std::size_t i) { return data()[i]; }
  const bool& operator[](std::size_t i) const { return data()[i]; }
  bool& at(std::size_t i) { return c_.at(i).v; }
  const bool& at(std::size_t i) const { return c_.at(i).v; }
  bool& front() { return c_.front().v; }
  bool& back() { return c_.back().v; }
  bool* begin() { return data(); }
  bool* end() { return data() + size(); }
  const bool* begin() const { return data(); }
  const bool* end() const { return data() + size(); }
  bool operator==(const UVector& o) const { return std::equal(begin(), end(), o.begin(), o.end()); }
};
}  // namespace aocommon
#endif
