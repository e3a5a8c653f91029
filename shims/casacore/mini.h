// A small stand-in for the part of casacore that DP3's processing steps use
// (casacore is not installed here).  Arrays have casacore's reference semantics
// and column-major layout; strings, regular expressions, simple quantities and
// expressions behave as in casacore.  Measure conversions that need ephemerides
// and everything that touches tables on disk throws.
#ifndef VP_MINI_CASACORE_H
#define VP_MINI_CASACORE_H
#include <algorithm>
#include <array>
#include <cassert>
#include <cctype>
#include <cmath>
#include <complex>
#include <filesystem>
#include <cstdint>
#include <cstdlib>
#include <functional>
#include <initializer_list>
#include <iostream>
#include <map>
#include <memory>
#include <numeric>
#include <optional>
#include <ostream>
#include <regex>
#include <sstream>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>
#include <casacore/casa/BasicMath/Math.h>
#include <casacore/casa/BasicSL/Constants.h>

#define CASACORE_MAJOR_VERSION 3
#define CASACORE_MINOR_VERSION 7
#define CASACORE_PATCH_VERSION 1

using std::string;
using std::vector;
using std::istream;
using std::ostream;
namespace casacore {
using Bool = bool; using Int = int; using uInt = unsigned int; using Int64 = long long; using uInt64 = unsigned long long;
using Float = float; using Double = double; using Complex = std::complex<float>; using DComplex = std::complex<double>;
using rownr_t = unsigned long long; using Short = short; using uChar = unsigned char; using Char = char;
constexpr bool True = true, False = false;
using std::max; using std::min;

class AipsError : public std::runtime_error { public: explicit AipsError(const std::string& s = "") : std::runtime_error(s) {} std::string getMesg() const { return what(); } };

// ------------------------------------------------------------------ strings
class Regex {
 public:
  Regex() = default;
  Regex(const std::string& s) : src_(s), re_(s, std::regex::extended) {}
  Regex(const char* s) : Regex(std::string(s)) {}
  static std::string fromString(const std::string& s) {
    std::string r;
    for (char c : s) { if (std::string("^$.[]|()*+?{}\\").find(c) != std::string::npos) r += '\\'; r += c; }
    return r;
  }
  static std::string fromPattern(const std::string& p) {
    std::string r;
    bool br = false;
    int depth = 0;
    for (size_t i = 0; i < p.size(); ++i) {
      const char c = p[i];
      if (br) { r += (c == '!' && p[i - 1] == '[') ? '^' : c; if (c == ']') br = false; continue; }
      switch (c) {
        case '*': r += ".*"; break;
        case '?': r += '.'; break;
        case '[': r += '['; br = true; break;
        case '{': r += "("; ++depth; break;
        case '}': r += ")"; --depth; break;
        case ',': r += depth > 0 ? "|" : ","; break;
        case '\\': r += '\\'; if (i + 1 < p.size()) r += p[++i]; break;
        default: if (std::string("^$.]|()+").find(c) != std::string::npos) r += '\\'; r += c;
      }
    }
    return r;
  }
  const std::string& regexp() const { return src_; }
  const std::regex& std_regex() const { return re_; }
 private:
  std::string src_;
  std::regex re_;
};
class String : public std::string {
 public:
  using std::string::string;
  String() = default;
  String(const std::string& s) : std::string(s) {}
  String(std::string&& s) : std::string(std::move(s)) {}
  String(const char* s) : std::string(s) {}
  bool matches(const Regex& r) const { return std::regex_match(*this, r.std_regex()); }
  bool matches(const std::string& s) const { return *this == s; }
  bool contains(const std::string& s) const { return find(s) != npos; }
  bool contains(const Regex& r) const { return std::regex_search(static_cast<const std::string&>(*this), r.std_regex()); }
  size_type index(const Regex& r) const { std::smatch m; const std::string& s = *this; return std::regex_search(s, m, r.std_regex()) ? size_type(m.position(0)) : npos; }
  String from(size_type p) const { return p <= size() ? String(substr(p)) : String(); }
  String before(size_type p) const { return String(substr(0, p)); }
  String after(size_type p) const { return p + 1 <= size() ? String(substr(p + 1)) : String(); }
  void upcase() { for (char& c : *this) c = std::toupper(static_cast<unsigned char>(c)); }
  void downcase() { for (char& c : *this) c = std::tolower(static_cast<unsigned char>(c)); }
  void trim() { const auto b = find_first_not_of(" \t\n\r"); if (b == npos) clear(); else { erase(0, b); erase(find_last_not_of(" \t\n\r") + 1); } }
  const char* chars() const { return c_str(); }
  static String toString(int i) { return String(std::to_string(i)); }
};
inline const Regex RXidentifier("[A-Za-z_][A-Za-z0-9_]*");
inline const Regex RXdouble("-?(([0-9]+\\.[0-9]*)|([0-9]+)|(\\.[0-9]+))([eE][+-]?[0-9]+)?");
inline const Regex RXint("-?[0-9]+");

// ------------------------------------------------------------------ arrays
class IPosition {
 public:
  IPosition() = default;
  explicit IPosition(size_t n) : v_(n, 0) {}
  template <class... A> IPosition(size_t n, ssize_t a, A... rest) {
    const std::vector<ssize_t> g{a, static_cast<ssize_t>(rest)...};
    if (g.size() == 1) v_.assign(n, a);
    else { if (g.size() != n) throw AipsError("IPosition: wrong number of values"); v_ = g; }
  }
  IPosition(std::initializer_list<ssize_t> l) : v_(l) {}
  explicit IPosition(const std::vector<ssize_t>& v) : v_(v) {}
  size_t nelements() const { return v_.size(); }
  size_t size() const { return v_.size(); }
  bool empty() const { return v_.empty(); }
  ssize_t& operator[](size_t i) { return v_.at(i); }
  const ssize_t& operator[](size_t i) const { return v_.at(i); }
  ssize_t& operator()(size_t i) { return v_.at(i); }
  const ssize_t& operator()(size_t i) const { return v_.at(i); }
  long long product() const { if (v_.empty()) return 0; long long p = 1; for (ssize_t x : v_) p *= x; return p; }
  bool isEqual(const IPosition& o) const { return v_ == o.v_; }
  bool operator==(const IPosition& o) const { return v_ == o.v_; }
  const std::vector<ssize_t>& vec() const { return v_; }
  auto begin() const { return v_.begin(); }
  auto end() const { return v_.end(); }
  std::vector<ssize_t> asStdVector() const { return v_; }
  ssize_t last() const { return v_.back(); }
 private:
  std::vector<ssize_t> v_;
};
inline std::ostream& operator<<(std::ostream& o, const IPosition& p) { o << '['; for (size_t i = 0; i < p.size(); ++i) o << (i ? ", " : "") << p[i]; return o << ']'; }
enum StorageInitPolicy { COPY, TAKE_OVER, SHARE };
struct ArrayInitializers { };

class Slice {
 public:
  Slice() : all_(true) {}
  Slice(size_t s) : b_(s), n_(1) {}
  Slice(size_t s, size_t n, size_t inc = 1) : b_(s), n_(n), inc_(inc) {}
  bool all() const { return all_; }
  size_t start() const { return b_; }
  size_t length() const { return n_; }
  size_t inc() const { return inc_; }
 private:
  bool all_ = false;
  size_t b_ = 0, n_ = 0, inc_ = 1;
};
class Slicer {
 public:
  enum LengthOrLast { endIsLength, endIsLast };
  Slicer() = default;
  Slicer(const IPosition& b, const IPosition& l, LengthOrLast e = endIsLength) : b_(b), l_(l) { if (e == endIsLast) for (size_t i = 0; i < l_.size(); ++i) l_[i] = l_[i] - b_[i] + 1; }
  const IPosition& start() const { return b_; }
  const IPosition& length() const { return l_; }
 private:
  IPosition b_, l_;
};

template <class T> class Array {
 public:
  using value_type = T;
  Array() : shape_(1, 0) { init(IPosition(1, 0)); }
  explicit Array(const IPosition& s) { init(s); }
  Array(const IPosition& s, const T& v) { init(s); set(v); }
  Array(const IPosition& s, T* p, StorageInitPolicy pol = COPY) {
    init(s);
    if (pol == SHARE) { block_ = std::shared_ptr<T[]>(p, [](T*) {}); begin_ = p; }
    else { std::copy(p, p + s.product(), begin_); if (pol == TAKE_OVER) delete[] p; }
  }
  Array(const Array& o) = default;  // A reference.
  Array(Array&& o) : Array() { swap(o); }
  virtual ~Array() = default;
  virtual Array& operator=(const Array& o) { return assign_conforming(o); }
  Array& operator=(Array&& o) { if (this != &o) { if (nelements() == 0 || shape_ == o.shape_) { Array t(static_cast<const Array&>(o)); reference_any(t); o = Array(); } else assign_conforming(o); } return *this; }
  Array& operator=(const T& v) { set(v); return *this; }
  Array& assign_conforming(const Array& o) {
    if (this == &o) return *this;
    if (nelements() == 0) { const Array c = o.copy(); reference_any(c); return *this; }
    if (!(shape_ == o.shape_)) throw AipsError("Array assignment with different shapes");
    const Array c = o.copy();
    for (size_t i = 0; i < nelements(); ++i) flat(i) = c.flat(i);
    return *this;
  }
  void assign(const Array& o) { const Array c = o.copy(); reference_any(c); }
  void reference(const Array& o) { reference_any(o); }
  void set(const T& v) { for (size_t i = 0; i < nelements(); ++i) flat(i) = v; }
  Array copy() const { Array r(shape_); for (size_t i = 0; i < nelements(); ++i) r.flat(i) = flat(i); return r; }
  void unique() { const Array c = copy(); reference_any(c); }
  void resize() { reference_any(Array(IPosition(shape_.size(), 0))); }
  void resize(const IPosition& s, bool copyValues = false) {
    if (s == shape_) return;
    Array old(*this);
    init(s);
    if (copyValues) for (size_t i = 0; i < std::min(nelements(), old.nelements()); ++i) {
      std::vector<ssize_t> idx = index_of(i);
      bool in = idx.size() == old.ndim();
      for (size_t d = 0; in && d < idx.size(); ++d) in = idx[d] < old.shape_[d];
      if (in) flat(i) = old.at(idx);
    }
  }
  size_t ndim() const { return shape_.size(); }
  size_t nelements() const { return shape_.product(); }
  size_t size() const { return nelements(); }
  bool empty() const { return nelements() == 0; }
  const IPosition& shape() const { return shape_; }
  bool contiguousStorage() const { ssize_t n = 1; for (size_t d = 0; d < ndim(); ++d) { if (shape_[d] > 1 && stride_[d] != n) return false; n *= shape_[d]; } return true; }
  T* data() { return begin_; }
  const T* data() const { return begin_; }
  T& operator()(const IPosition& p) { return at(p.vec()); }
  const T& operator()(const IPosition& p) const { return at(p.vec()); }
  Array operator()(const IPosition& b, const IPosition& e) const {
    Array r(*this);
    for (size_t d = 0; d < ndim(); ++d) { if (b[d] < 0 || e[d] >= shape_[d] || b[d] > e[d] + 1) throw AipsError("Array slice out of range"); r.begin_ += b[d] * stride_[d]; r.shape_[d] = e[d] - b[d] + 1; }
    return r;
  }
  Array operator()(const IPosition& b, const IPosition& e, const IPosition& inc) const {
    Array r = (*this)(b, e);
    for (size_t d = 0; d < ndim(); ++d) { r.shape_[d] = (r.shape_[d] + inc[d] - 1) / inc[d]; r.stride_[d] *= inc[d]; }
    return r;
  }
  Array operator()(const Slicer& s) const { IPosition e(s.start()); for (size_t i = 0; i < e.size(); ++i) e[i] += s.length()[i] - 1; return (*this)(s.start(), e); }
  Array reform(const IPosition& s) const { if (s.product() != static_cast<long long>(nelements())) throw AipsError("reform changes the size"); Array r(contiguousStorage() ? *this : copy()); r.shape_ = s; r.set_strides(); return r; }
  Array nonDegenerate() const { Array r(*this); std::vector<ssize_t> s, st; for (size_t d = 0; d < ndim(); ++d) if (shape_[d] != 1) { s.push_back(shape_[d]); st.push_back(stride_[d]); } if (s.empty()) { s = {1}; st = {1}; } r.shape_ = IPosition(s); r.stride_ = st; return r; }
  T* getStorage(bool& del) { del = !contiguousStorage(); if (!del) return begin_; T* p = new T[nelements()]; for (size_t i = 0; i < nelements(); ++i) p[i] = flat(i); return p; }
  const T* getStorage(bool& del) const { return const_cast<Array*>(this)->getStorage(del); }
  void putStorage(T*& p, bool del) { if (del) { for (size_t i = 0; i < nelements(); ++i) flat(i) = p[i]; delete[] p; } p = nullptr; }
  void freeStorage(const T*& p, bool del) const { if (del) delete[] p; p = nullptr; }
  std::vector<T> tovector() const { std::vector<T> v(nelements()); for (size_t i = 0; i < v.size(); ++i) v[i] = flat(i); return v; }
  void tovector(std::vector<T>& v) const { v = tovector(); }

  T& flat(size_t i) { return *const_cast<T*>(std::as_const(*this).ptr_flat(i)); }
  const T& flat(size_t i) const { return *ptr_flat(i); }
  T& at(const std::vector<ssize_t>& p) { return *const_cast<T*>(std::as_const(*this).ptr(p)); }
  const T& at(const std::vector<ssize_t>& p) const { return *ptr(p); }

  template <class A, class R> class iter_t {
   public:
    using iterator_category = std::random_access_iterator_tag; using value_type = T; using difference_type = std::ptrdiff_t; using pointer = std::remove_reference_t<R>*; using reference = R;
    iter_t() = default;
    iter_t(A* a, size_t i) : a_(a), i_(i) {}
    R operator*() const { return a_->flat(i_); }
    pointer operator->() const { return &a_->flat(i_); }
    R operator[](difference_type n) const { return a_->flat(i_ + n); }
    iter_t& operator++() { ++i_; return *this; }
    iter_t operator++(int) { iter_t r = *this; ++i_; return r; }
    iter_t& operator--() { --i_; return *this; }
    iter_t& operator+=(difference_type n) { i_ += n; return *this; }
    iter_t operator+(difference_type n) const { iter_t r = *this; r.i_ += n; return r; }
    iter_t operator-(difference_type n) const { iter_t r = *this; r.i_ -= n; return r; }
    difference_type operator-(const iter_t& o) const { return difference_type(i_) - difference_type(o.i_); }
    bool operator==(const iter_t& o) const { return i_ == o.i_; }
    auto operator<=>(const iter_t& o) const { return i_ <=> o.i_; }
   private:
    A* a_ = nullptr;
    size_t i_ = 0;
  };
  using iterator = iter_t<Array, T&>;
  using const_iterator = iter_t<const Array, const T&>;
  iterator begin() { return iterator(this, 0); }
  iterator end() { return iterator(this, nelements()); }
  const_iterator begin() const { return const_iterator(this, 0); }
  const_iterator end() const { return const_iterator(this, nelements()); }
  T* cbegin() { if (!contiguousStorage()) throw AipsError("cbegin on a non-contiguous array"); return begin_; }
  T* cend() { return cbegin() + nelements(); }
  const T* cbegin() const { if (!contiguousStorage()) throw AipsError("cbegin on a non-contiguous array"); return begin_; }
  const T* cend() const { return cbegin() + nelements(); }

 protected:
  void swap(Array& o) { std::swap(block_, o.block_); std::swap(begin_, o.begin_); std::swap(shape_, o.shape_); std::swap(stride_, o.stride_); }
  void reference_any(const Array& o) { block_ = o.block_; begin_ = o.begin_; shape_ = o.shape_; stride_ = o.stride_; }
  void init(const IPosition& s) {
    shape_ = s;
    const size_t n = s.product();
    block_ = std::shared_ptr<T[]>(new T[std::max<size_t>(1, n)]());
    if constexpr (std::is_floating_point_v<T>) std::fill(block_.get(), block_.get() + n, T(-7.7e29));
    else if constexpr (std::is_integral_v<T> && !std::is_same_v<T, bool>) std::fill(block_.get(), block_.get() + n, T(0x6b6b6b6b));
    begin_ = block_.get();
    set_strides();
  }
  void set_strides() { stride_.assign(shape_.size(), 1); ssize_t n = 1; for (size_t d = 0; d < shape_.size(); ++d) { stride_[d] = n; n *= shape_[d]; } }
  std::vector<ssize_t> index_of(size_t i) const { std::vector<ssize_t> r(ndim()); for (size_t d = 0; d < ndim(); ++d) { r[d] = i % shape_[d]; i /= shape_[d]; } return r; }
  const T* ptr_flat(size_t i) const {
    if (i >= nelements()) { std::fprintf(stderr, "mini casacore: index out of range\n"); std::abort(); }
    ssize_t o = 0;
    for (size_t d = 0; d < ndim(); ++d) { o += (i % shape_[d]) * stride_[d]; i /= shape_[d]; }
    return begin_ + o;
  }
  const T* ptr(const std::vector<ssize_t>& p) const {
    ssize_t o = 0;
    bool ok = p.size() == ndim();
    for (size_t d = 0; ok && d < p.size(); ++d) { ok = p[d] >= 0 && p[d] < shape_[d]; o += p[d] * stride_[d]; }
    if (!ok) { std::fprintf(stderr, "mini casacore: index out of range\n"); std::abort(); }
    return begin_ + o;
  }
  template <class> friend class Array; template <class> friend class Vector; template <class> friend class Matrix; template <class> friend class Cube;
  std::shared_ptr<T[]> block_;
  T* begin_ = nullptr;
  IPosition shape_;
  std::vector<ssize_t> stride_;
};
template <class T> class Vector : public Array<T> {
 public:
  Vector() = default;
  explicit Vector(size_t n) : Array<T>(IPosition(1, n)) {}
  Vector(size_t n, const T& v) : Array<T>(IPosition(1, n), v) {}
  explicit Vector(const IPosition& s) : Array<T>(s) {}
  Vector(const std::vector<T>& v) : Vector(v.size()) { for (size_t i = 0; i < v.size(); ++i) this->flat(i) = v[i]; }
  template <class U> explicit Vector(const std::vector<U>& v) : Vector(v.size()) { for (size_t i = 0; i < v.size(); ++i) this->flat(i) = T(v[i]); }
  Vector(std::initializer_list<T> l) : Vector(std::vector<T>(l)) {}
  Vector(const IPosition& s, T* p, StorageInitPolicy pol = COPY) : Array<T>(s, p, pol) {}
  template <class It, class = typename std::iterator_traits<It>::iterator_category> Vector(It b, size_t n, int) : Vector(n) { for (size_t i = 0; i < n; ++i, ++b) this->flat(i) = *b; }
  Vector(const Array<T>& a) : Array<T>(a) { to1(); }
  Vector(const Vector&) = default;
  Vector(Vector&& o) : Vector() { this->swap(o); }
  Vector& operator=(const Vector& o) { if (this != &o) { if (this->nelements() != o.nelements()) this->assign(o); else this->assign_conforming(o); } return *this; }
  Vector& operator=(Vector&& o) { if (this != &o) { this->reference_any(o); Vector e; o.reference_any(e); } return *this; }
  Vector& operator=(const Array<T>& o) override { Vector v(o); return *this = static_cast<const Vector&>(v); }
  Vector& operator=(const T& v) { this->set(v); return *this; }
  Vector& operator=(const std::vector<T>& v) { return *this = Vector(v); }
  using Array<T>::operator();
  T& operator()(size_t i) { return this->flat(i); }
  const T& operator()(size_t i) const { return this->flat(i); }
  T& operator[](size_t i) { return this->flat(i); }
  const T& operator[](size_t i) const { return this->flat(i); }
  Vector operator()(const Slice& s) const { return Vector(Array<T>::operator()(IPosition(1, s.start()), IPosition(1, s.start() + (s.length() - 1) * s.inc()), IPosition(1, s.inc()))); }
  using Array<T>::resize;
  void resize(size_t n, bool copyValues = false) { Array<T>::resize(IPosition(1, n), copyValues); }
  Vector copy() const { return Vector(Array<T>::copy()); }
  size_t shape(int) const { return this->nelements(); }
  using Array<T>::shape;
 private:
  void to1() { if (this->ndim() != 1) { const Array<T> r = this->nonDegenerate(); if (r.ndim() != 1) throw AipsError("not a vector"); this->reference_any(r); } }
};
template <class T> class Matrix : public Array<T> {
 public:
  Matrix() : Array<T>(IPosition(2, 0, 0)) {}
  Matrix(size_t r, size_t c) : Array<T>(IPosition(2, r, c)) {}
  Matrix(size_t r, size_t c, const T& v) : Array<T>(IPosition(2, r, c), v) {}
  explicit Matrix(const IPosition& s) : Array<T>(s) {}
  Matrix(const IPosition& s, const T& v) : Array<T>(s, v) {}
  Matrix(const IPosition& s, T* p, StorageInitPolicy pol = COPY) : Array<T>(s, p, pol) {}
  Matrix(const Array<T>& a) : Array<T>(a) { if (a.ndim() == 1) { this->shape_ = IPosition(2, a.nelements(), a.nelements() ? 1 : 0); this->stride_ = {a.stride_[0], 0}; } if (this->ndim() != 2) throw AipsError("not a matrix"); }
  Matrix(const Matrix&) = default;
  Matrix(Matrix&& o) : Matrix() { this->swap(o); }
  Matrix& operator=(const Matrix& o) { this->assign_conforming(o); return *this; }
  Matrix& operator=(Matrix&& o) { if (this->nelements() == 0 || this->shape_ == o.shape_) { Matrix t(static_cast<const Matrix&>(o)); this->reference_any(t); } else this->assign_conforming(o); return *this; }
  Matrix& operator=(const Array<T>& o) override { this->assign_conforming(o); return *this; }
  Matrix& operator=(const T& v) { this->set(v); return *this; }
  using Array<T>::operator();
  T& operator()(size_t i, size_t j) { return this->at({static_cast<ssize_t>(i), static_cast<ssize_t>(j)}); }
  const T& operator()(size_t i, size_t j) const { return this->at({static_cast<ssize_t>(i), static_cast<ssize_t>(j)}); }
  size_t nrow() const { return this->shape_[0]; }
  size_t ncolumn() const { return this->shape_[1]; }
  using Array<T>::resize;
  void resize(size_t r, size_t c, bool copyValues = false) { Array<T>::resize(IPosition(2, r, c), copyValues); }
  Vector<T> row(size_t i) const { return Vector<T>(sub(i, i, 0, ncolumn() - 1, 1)); }
  Vector<T> column(size_t j) const { return Vector<T>(sub(0, nrow() - 1, j, j, 0)); }
  Vector<T> diagonal() const {
    if (nrow() != ncolumn()) throw AipsError("diagonal of a non-square matrix");
    Vector<T> r(size_t(0));
    r.reference_any(*this);
    r.shape_ = IPosition(1, nrow());
    r.stride_ = {this->stride_[0] + this->stride_[1]};
    return r;
  }
  Matrix copy() const { return Matrix(Array<T>::copy()); }
 private:
  Array<T> sub(ssize_t a, ssize_t b, ssize_t c, ssize_t d, int keep) const {
    Array<T> r = Array<T>::operator()(IPosition(2, a, c), IPosition(2, b, d));
    r.shape_ = IPosition(1, r.shape_[keep]); r.stride_ = {r.stride_[keep]};
    return r;
  }
};
template <class T> class Cube : public Array<T> {
 public:
  Cube() : Array<T>(IPosition(3, 0, 0, 0)) {}
  Cube(size_t a, size_t b, size_t c) : Array<T>(IPosition(3, a, b, c)) {}
  Cube(size_t a, size_t b, size_t c, const T& v) : Array<T>(IPosition(3, a, b, c), v) {}
  explicit Cube(const IPosition& s) : Array<T>(s) {}
  Cube(const IPosition& s, const T& v) : Array<T>(s, v) {}
  Cube(const IPosition& s, T* p, StorageInitPolicy pol = COPY) : Array<T>(s, p, pol) {}
  Cube(const Array<T>& a) : Array<T>(a) { if (this->ndim() != 3) throw AipsError("not a cube"); }
  Cube(const Cube&) = default;
  Cube& operator=(const Cube& o) { this->assign_conforming(o); return *this; }
  Cube& operator=(const Array<T>& o) override { this->assign_conforming(o); return *this; }
  Cube& operator=(const T& v) { this->set(v); return *this; }
  using Array<T>::operator();
  T& operator()(size_t i, size_t j, size_t k) { return this->at({static_cast<ssize_t>(i), static_cast<ssize_t>(j), static_cast<ssize_t>(k)}); }
  const T& operator()(size_t i, size_t j, size_t k) const { return this->at({static_cast<ssize_t>(i), static_cast<ssize_t>(j), static_cast<ssize_t>(k)}); }
  using Array<T>::resize;
  void resize(size_t a, size_t b, size_t c) { Array<T>::resize(IPosition(3, a, b, c)); }
  size_t nrow() const { return this->shape_[0]; }
  size_t ncolumn() const { return this->shape_[1]; }
  size_t nplane() const { return this->shape_[2]; }
  Matrix<T> xyPlane(size_t k) const { Array<T> r = Array<T>::operator()(IPosition(3, 0, 0, k), IPosition(3, nrow() - 1, ncolumn() - 1, k)); r.shape_ = IPosition(2, nrow(), ncolumn()); r.stride_ = {this->stride_[0], this->stride_[1]}; return Matrix<T>(r); }
};
template <class T> class Block {
 public:
  Block() = default;
  explicit Block(size_t n) : n_(n), v_(new T[n ? n : 1]()) {}
  Block(size_t n, const T& x) : Block(n) { std::fill(v_.get(), v_.get() + n, x); }
  Block(const Block& o) : Block(o.n_) { std::copy(o.v_.get(), o.v_.get() + n_, v_.get()); }
  Block& operator=(const Block& o) { Block b(o); std::swap(n_, b.n_); std::swap(v_, b.v_); return *this; }
  void resize(size_t n, bool = false, bool cp = true) { Block b(n); if (cp) for (size_t i = 0; i < std::min(n, n_); ++i) b.v_[i] = v_[i]; std::swap(n_, b.n_); std::swap(v_, b.v_); }
  T& operator[](size_t i) { chk(i); return v_[i]; }
  const T& operator[](size_t i) const { chk(i); return v_[i]; }
  size_t size() const { return n_; }
  size_t nelements() const { return n_; }
  T* storage() { return v_.get(); }
  Block& operator=(const T& x) { std::fill(v_.get(), v_.get() + n_, x); return *this; }
  T* begin() { return v_.get(); }
  T* end() { return v_.get() + n_; }
 private:
  void chk(size_t i) const { if (i >= n_) { std::fprintf(stderr, "mini casacore: block index out of range\n"); std::abort(); } }
  size_t n_ = 0;
  std::unique_ptr<T[]> v_{new T[1]()};
};
template <class T, class F> Array<T> amap(const Array<T>& a, const Array<T>& b, F f) {
  if (!(a.shape() == b.shape())) throw AipsError("arrays do not conform");
  Array<T> r(a.shape());
  for (size_t i = 0; i < a.nelements(); ++i) r.flat(i) = f(a.flat(i), b.flat(i));
  return r;
}
template <class T> Array<T> operator+(const Array<T>& a, const Array<T>& b) { return amap(a, b, [](T x, T y) { return x + y; }); }
template <class T> Array<T> operator-(const Array<T>& a, const Array<T>& b) { return amap(a, b, [](T x, T y) { return x - y; }); }
template <class T> Array<T> operator*(const Array<T>& a, const Array<T>& b) { return amap(a, b, [](T x, T y) { return x * y; }); }
template <class T> Array<T> operator/(const Array<T>& a, const Array<T>& b) { return amap(a, b, [](T x, T y) { return x / y; }); }
template <class T> Array<T> operator&&(const Array<T>& a, const Array<T>& b) { return amap(a, b, [](T x, T y) { return x && y; }); }
template <class T> Array<T> operator||(const Array<T>& a, const Array<T>& b) { return amap(a, b, [](T x, T y) { return x || y; }); }
template <class T> Array<T> operator*(const Array<T>& a, const T& v) { Array<T> r(a.shape()); for (size_t i = 0; i < a.nelements(); ++i) r.flat(i) = a.flat(i) * v; return r; }
template <class T> Array<T> operator/(const Array<T>& a, const T& v) { Array<T> r(a.shape()); for (size_t i = 0; i < a.nelements(); ++i) r.flat(i) = a.flat(i) / v; return r; }
template <class T> Array<T> operator+(const Array<T>& a, const T& v) { Array<T> r(a.shape()); for (size_t i = 0; i < a.nelements(); ++i) r.flat(i) = a.flat(i) + v; return r; }
template <class T> Array<T> operator-(const Array<T>& a, const T& v) { Array<T> r(a.shape()); for (size_t i = 0; i < a.nelements(); ++i) r.flat(i) = a.flat(i) - v; return r; }
template <class T> Array<T> operator!(const Array<T>& a) { Array<T> r(a.shape()); for (size_t i = 0; i < a.nelements(); ++i) r.flat(i) = !a.flat(i); return r; }
template <class T> void operator+=(Array<T>& a, const Array<T>& b) { const Array<T> r = a + b; for (size_t i = 0; i < a.nelements(); ++i) a.flat(i) = r.flat(i); }
template <class T> void operator-=(Array<T>& a, const Array<T>& b) { const Array<T> r = a - b; for (size_t i = 0; i < a.nelements(); ++i) a.flat(i) = r.flat(i); }
template <class T> void operator*=(Array<T>& a, const T& v) { for (size_t i = 0; i < a.nelements(); ++i) a.flat(i) *= v; }
template <class T> void operator/=(Array<T>& a, const T& v) { for (size_t i = 0; i < a.nelements(); ++i) a.flat(i) /= v; }
inline Array<std::complex<float>> conj(const Array<std::complex<float>>& a) { Array<std::complex<float>> r(a.shape()); for (size_t i = 0; i < a.nelements(); ++i) r.flat(i) = std::conj(a.flat(i)); return r; }
template <class T> Array<bool> operator<=(const Array<T>& a, const T& v) { Array<bool> r(a.shape()); for (size_t i = 0; i < a.nelements(); ++i) r.flat(i) = a.flat(i) <= v; return r; }
template <class T> Array<bool> operator>=(const Array<T>& a, const T& v) { Array<bool> r(a.shape()); for (size_t i = 0; i < a.nelements(); ++i) r.flat(i) = a.flat(i) >= v; return r; }
template <class T> void objcopy(T* to, const T* from, size_t n) { std::copy_n(from, n, to); }
template <class T> T sum(const Array<T>& a) { T s(0); for (size_t i = 0; i < a.nelements(); ++i) s += a.flat(i); return s; }
template <class T> T max(const Array<T>& a) { T m = a.flat(0); for (size_t i = 1; i < a.nelements(); ++i) m = std::max(m, a.flat(i)); return m; }
template <class T> T min(const Array<T>& a) { T m = a.flat(0); for (size_t i = 1; i < a.nelements(); ++i) m = std::min(m, a.flat(i)); return m; }
template <class T> Array<T> sqrt(const Array<T>& a) { Array<T> r(a.shape()); for (size_t i = 0; i < a.nelements(); ++i) r.flat(i) = std::sqrt(a.flat(i)); return r; }
template <class T> bool allEQ(const Array<T>& a, const Array<T>& b) { if (!(a.shape() == b.shape())) return false; for (size_t i = 0; i < a.nelements(); ++i) if (!(a.flat(i) == b.flat(i))) return false; return true; }
template <class T> bool allEQ(const Array<T>& a, const T& b) { for (size_t i = 0; i < a.nelements(); ++i) if (!(a.flat(i) == b)) return false; return true; }
template <class T> bool anyEQ(const Array<T>& a, const T& b) { for (size_t i = 0; i < a.nelements(); ++i) if (a.flat(i) == b) return true; return false; }
template <class T> bool allNE(const Array<T>& a, const Array<T>& b) { for (size_t i = 0; i < a.nelements(); ++i) if (a.flat(i) == b.flat(i)) return false; return true; }
template <class T> bool allNear(const Array<T>& a, const Array<T>& b, double tol) { if (!(a.shape() == b.shape())) return false; for (size_t i = 0; i < a.nelements(); ++i) if (!near(a.flat(i), b.flat(i), tol)) return false; return true; }
template <class T> void indgen(Array<T>& a, T start = T(0), T inc = T(1)) { for (size_t i = 0; i < a.nelements(); ++i) { a.flat(i) = start; start += inc; } }
template <class T> size_t nfalse(const Array<T>& a) { size_t n = 0; for (size_t i = 0; i < a.nelements(); ++i) n += a.flat(i) ? 0 : 1; return n; }
template <class T> size_t ntrue(const Array<T>& a) { size_t n = 0; for (size_t i = 0; i < a.nelements(); ++i) n += a.flat(i) ? 1 : 0; return n; }
inline bool anyTrue(const Array<bool>& a) { return ntrue(a) > 0; }
inline bool allTrue(const Array<bool>& a) { return ntrue(a) == a.nelements(); }
template <class T> Matrix<T> product(const Matrix<T>& a, const Matrix<T>& b) { if (a.ncolumn() != b.nrow()) throw AipsError("product"); Matrix<T> r(a.nrow(), b.ncolumn(), T(0)); for (size_t i = 0; i < a.nrow(); ++i) for (size_t j = 0; j < b.ncolumn(); ++j) for (size_t k = 0; k < a.ncolumn(); ++k) r(i, j) += a(i, k) * b(k, j); return r; }
template <class T> Vector<T> product(const Matrix<T>& a, const Vector<T>& b) { Vector<T> r(a.nrow(), T(0)); for (size_t i = 0; i < a.nrow(); ++i) for (size_t k = 0; k < a.ncolumn(); ++k) r(i) += a(i, k) * b(k); return r; }
template <class T> Matrix<T> transpose(const Matrix<T>& a) { Matrix<T> r(a.ncolumn(), a.nrow()); for (size_t i = 0; i < a.nrow(); ++i) for (size_t j = 0; j < a.ncolumn(); ++j) r(j, i) = a(i, j); return r; }
template <class T> std::ostream& operator<<(std::ostream& o, const Array<T>& a) { o << '['; for (size_t i = 0; i < a.nelements(); ++i) o << (i ? ", " : "") << a.flat(i); return o << ']'; }
template <class T> struct SumSqr { T operator()(const T& a, const T& b) const { return a + b * b; } };
template <class T> struct Max { T operator()(const T& a, const T& b) const { return std::max(a, b); } };
template <class T> std::ostream& show_vector(std::ostream& o, const std::vector<T>& v) { o << '['; for (size_t i = 0; i < v.size(); ++i) o << (i ? "," : "") << v[i]; return o << ']'; }
template <class It, class F, class T> T accumulate_(It b, It e, T t, F f) { for (; b != e; ++b) t = f(t, *b); return t; }
template <class T, class V> int linearSearch1(const Vector<T>& v, const V& x) { for (size_t i = 0; i < v.size(); ++i) if (v[i] == x) return i; return -1; }
template <class T, class V> int linearSearch1(const std::vector<T>& v, const V& x) { for (size_t i = 0; i < v.size(); ++i) if (v[i] == x) return i; return -1; }
struct Sort { enum Order { Ascending = 1, Descending = -1 }; enum Option { DefaultSort = 0, HeapSort = 1, InsSort = 2, QuickSort = 4, NoDuplicates = 8, ParSort = 16 }; };
template <class T> size_t genSort(std::vector<T>& v, Sort::Order = Sort::Ascending, int opt = 0) { std::sort(v.begin(), v.end()); if (opt & Sort::NoDuplicates) v.erase(std::unique(v.begin(), v.end()), v.end()); return v.size(); }
struct HostInfo { static double memoryTotal() { return 8.0 * 1024 * 1024; } static int numCPUs() { return 4; } static String hostName() { return "host"; } };
template <class T> size_t genSort(T* p, size_t n) { std::sort(p, p + n); return n; }
template <class T> struct GenSort {
  static size_t sort(T* p, size_t n, Sort::Order o = Sort::Ascending, int = 0) { if (o == Sort::Ascending) std::sort(p, p + n); else std::sort(p, p + n, std::greater<T>()); return n; }
  static T kthLargest(T* p, size_t n, size_t k) { std::nth_element(p, p + k, p + n); return p[k]; }
};
template <class T, class I = uInt> struct GenSortIndirect { static size_t sort(Vector<I>& idx, const T* p, size_t n) { idx.resize(n); for (size_t i = 0; i < n; ++i) idx[i] = i; std::stable_sort(idx.data(), idx.data() + n, [&](I a, I b) { return p[a] < p[b]; }); return n; } };

// ------------------------------------------------------------------ quantities
class Unit {
 public:
  Unit() = default;
  Unit(const std::string& s) : s_(s) {}
  Unit(const char* s) : s_(s) {}
  const std::string& getName() const { return s_; }
  // Kind (0: none, t: time, a: angle, f: frequency, l: length) and factor to the base unit.
  static std::pair<char, double> get(const std::string& u) {
    static const std::map<std::string, std::pair<char, double>> m{
        {"", {'0', 1}}, {"s", {'t', 1}}, {"min", {'t', 60}}, {"h", {'t', 3600}}, {"d", {'t', 86400}}, {"ms", {'t', 1e-3}}, {"us", {'t', 1e-6}},
        {"rad", {'a', 1}}, {"mrad", {'a', 1e-3}}, {"deg", {'a', M_PI / 180}}, {"arcmin", {'a', M_PI / 10800}}, {"arcsec", {'a', M_PI / 648000}},
        {"Hz", {'f', 1}}, {"kHz", {'f', 1e3}}, {"MHz", {'f', 1e6}}, {"GHz", {'f', 1e9}}, {"m", {'l', 1}}, {"km", {'l', 1e3}}};
    const auto it = m.find(u);
    if (it == m.end()) throw AipsError("Unknown unit " + u);
    return it->second;
  }
 private:
  std::string s_;
};
template <class T> class Quantum {
 public:
  Quantum() = default;
  Quantum(const T& v) : v_(v) {}
  Quantum(const T& v, const Unit& u) : v_(v), u_(u) { Unit::get(u.getName()); }
  const T& getValue() const { return v_; }
  Quantum get(const Unit& u) const { return Quantum(getValue(u), u); }
  T& getValue() { return v_; }
  T getValue(const Unit& u, bool = false) const { return conv(v_, factor(u_.getName(), u.getName())); }
  T getBaseValue() const { return conv(v_, Unit::get(u_.getName()).second); }
  const std::string& getUnit() const { return u_.getName(); }
  void setUnit(const Unit& u) { u_ = u; }
  static bool read(Quantum& q, const std::string& s);
  static double factor(const std::string& a, const std::string& b) {
    const auto x = Unit::get(a), y = Unit::get(b);
    if (x.first == y.first) return x.second / y.second;
    if (x.first == 'a' && y.first == 't') return x.second * 43200 / M_PI / y.second;
    if (x.first == 't' && y.first == 'a') return x.second * M_PI / 43200 / y.second;
    throw AipsError("Units " + a + " and " + b + " do not conform");
  }
 private:
  static double conv(double v, double f) { return v * f; }
  template <class U> static Vector<U> conv(const Vector<U>& v, double f) { Vector<U> r(v.size()); for (size_t i = 0; i < v.size(); ++i) r[i] = v[i] * f; return r; }
  T v_{};
  Unit u_;
};
using Quantity = Quantum<double>;
inline std::ostream& operator<<(std::ostream& o, const Quantity& q) { return o << q.getValue() << q.getUnit(); }
namespace mini {
inline bool number(const std::string& s, size_t& p, double& v) {
  size_t i = p;
  bool dig = false;
  while (i < s.size() && std::isdigit(static_cast<unsigned char>(s[i]))) { ++i; dig = true; }
  if (i < s.size() && s[i] == '.') { ++i; while (i < s.size() && std::isdigit(static_cast<unsigned char>(s[i]))) { ++i; dig = true; } }
  if (!dig) return false;
  if (i < s.size() && (s[i] == 'e' || s[i] == 'E')) {
    size_t j = i + 1;
    if (j < s.size() && (s[j] == '+' || s[j] == '-')) ++j;
    if (j < s.size() && std::isdigit(static_cast<unsigned char>(s[j]))) { while (j < s.size() && std::isdigit(static_cast<unsigned char>(s[j]))) ++j; i = j; }
  }
  v = std::strtod(s.substr(p, i - p).c_str(), nullptr);
  p = i;
  return true;
}
inline std::string strip(const std::string& s) { const auto b = s.find_first_not_of(" \t"); if (b == std::string::npos) return ""; return s.substr(b, s.find_last_not_of(" \t") - b + 1); }
// a:b:c, ahbmc (hours) or a.b.c, adbmc (degrees).
inline bool sexagesimal(const std::string& t, double sign, Quantity& q) {
  std::smatch m;
  static const std::regex hms("([0-9]+)[h:]([0-9]+)(?:[m:]([0-9]+(?:\\.[0-9]*)?)s?)?m?"), dms("([0-9]+)[d.]([0-9]+)[m.]([0-9]+(?:\\.[0-9]*)?)s?");
  if (std::regex_match(t, m, hms)) { q = Quantity(sign * (std::stod(m[1]) * 3600 + std::stod(m[2]) * 60 + (m[3].matched ? std::stod(m[3]) : 0.)) * M_PI / 43200, "rad"); return true; }
  if (std::regex_match(t, m, dms)) { q = Quantity(sign * (std::stod(m[1]) + std::stod(m[2]) / 60 + std::stod(m[3]) / 3600) * M_PI / 180, "rad"); return true; }
  return false;
}
inline long long days(int y, int m, int d) {  // Modified julian day.
  y -= m <= 2;
  const long long era = (y >= 0 ? y : y - 399) / 400;
  const unsigned yoe = y - era * 400, doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1, doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
  return era * 146097 + doe - 719468 + 40587;
}
}  // namespace mini
template <> inline bool Quantum<double>::read(Quantum& q, const std::string& str) {
  const std::string s = mini::strip(str);
  size_t p = 0;
  double sg = 1, v;
  if (p < s.size() && (s[p] == '-' || s[p] == '+')) { sg = s[p] == '-' ? -1 : 1; ++p; }
  if (!mini::number(s, p, v)) return false;
  const std::string u = mini::strip(s.substr(p));
  try { q = Quantity(sg * v, u); } catch (const AipsError&) { return false; }
  return true;
}
class MVAngle {
 public:
  MVAngle(double r = 0) : r_(r) {}
  MVAngle(const Quantity& q) : r_(q.getValue("rad")) {}
  static bool read(Quantity& q, const std::string& str, bool chk = true) {
    const std::string s = mini::strip(str);
    if (s.empty()) return false;
    std::string t = s;
    double sg = 1;
    if (t[0] == '-' || t[0] == '+') { sg = t[0] == '-' ? -1 : 1; t = t.substr(1); }
    if (mini::sexagesimal(t, sg, q)) return true;
    if (!Quantity::read(q, s)) return false;
    const char k = Unit::get(q.getUnit()).first;
    if (k == '0') { q = Quantity(q.getValue(), "rad"); return true; }
    return k == 'a' || k == 't';
  }
  double radian() const { return r_; }
  double degree() const { return r_ * 180 / M_PI; }
  operator double() const { return r_; }
  static String format_time(double r) { std::ostringstream o; o << r; return o.str(); }
  enum formatTypes { ANGLE, TIME, CLEAN, NO_D, NO_H, FITS };
  const MVAngle& operator()(double = 0) const { return *this; }
  String string(uInt = 0, uInt = 0) const { std::ostringstream o; o.precision(17); o << r_; return o.str(); }
  String string(formatTypes, uInt = 0) const { return string(); }
  struct Format { Format(formatTypes, uInt = 0) {} template <class... A> Format(const A&...) {} };
  void print(std::ostream& o, const Format&) const { o << string(); }
  void print(std::ostream& o, const Format&, bool) const { o << string(); }
 private:
  double r_;
};
class MVTime {
 public:
  MVTime(double days = 0) : d_(days) {}
  MVTime(const Quantity& q) : d_(q.getValue("d")) {}
  enum formatTypes { ANGLE = 0, TIME = 1, YMD = 2, DMY = 4, CLEAN = 32, FITS = 64 };
  static bool read(Quantity& q, const std::string& str, bool = true) {
    static const std::map<std::string, int> mon{{"jan", 1}, {"feb", 2}, {"mar", 3}, {"apr", 4}, {"may", 5}, {"jun", 6}, {"jul", 7}, {"aug", 8}, {"sep", 9}, {"oct", 10}, {"nov", 11}, {"dec", 12}};
    static const std::regex re("([0-9]{1,4})[-/]?([0-9]{1,2}|[A-Za-z]{3})[-/]?([0-9]{1,4})(?:[/T -]([0-9]+)[:h]([0-9]+)(?:[:m]([0-9]+(?:\\.[0-9]*)?))?)?");
    std::smatch m;
    const std::string s = mini::strip(str);
    if (!std::regex_match(s, m, re)) return false;
    int a = std::stoi(m[1]), b, c = std::stoi(m[3]);
    std::string ms = m[2];
    for (char& x : ms) x = std::tolower(static_cast<unsigned char>(x));
    if (std::isalpha(static_cast<unsigned char>(ms[0]))) { const auto it = mon.find(ms); if (it == mon.end()) return false; b = it->second; } else b = std::stoi(ms);
    int y = a, d = c;
    if (a < 32) { y = c; d = a; }
    if (b < 1 || b > 12 || d < 1 || d > 31) return false;
    double t = mini::days(y, b, d);
    if (m[4].matched) t += std::stod(m[4]) / 24 + std::stod(m[5]) / 1440 + (m[6].matched ? std::stod(m[6]) / 86400 : 0.);
    q = Quantity(t, "d");
    return true;
  }
  double day() const { return d_; }
  double second() const { return d_ * 86400; }
  operator double() const { return d_; }
  String string(uInt = 0, uInt = 0) const { std::ostringstream o; o.precision(17); o << d_; return o.str(); }
  String string(formatTypes, uInt) const { return string(); }
  static String format_(double d) { std::ostringstream o; o << d; return o.str(); }
  struct Format { formatTypes t; uInt p; Format(formatTypes a, uInt b = 0) : t(a), p(b) {} };
  const MVTime& operator()(double = 0) const { return *this; }
  static MVTime setFormat(const Format&) { return MVTime(); }
 private:
  double d_;
};
inline std::ostream& operator<<(std::ostream& o, const MVTime& t) { return o << t.day(); }
inline std::ostream& operator<<(std::ostream& o, const MVTime::Format&) { return o; }

// ------------------------------------------------------------------ measures
class MVDirection {
 public:
  MVDirection() : v_{0, 0, 1} {}
  MVDirection(double lon, double lat) : v_{std::cos(lat) * std::cos(lon), std::cos(lat) * std::sin(lon), std::sin(lat)} {}
  MVDirection(double x, double y, double z) : v_{x, y, z} { adjust(); }
  MVDirection(const Quantity& a, const Quantity& b) : MVDirection(a.getValue("rad"), b.getValue("rad")) {}
  explicit MVDirection(const Vector<double>& v) : v_{v[0], v[1], v[2]} { adjust(); }
  Quantity getLong(const Unit& u) const { return Quantity(Quantity(getLong(), "rad").getValue(u), u); }
  Quantity getLat(const Unit& u) const { return Quantity(Quantity(getLat(), "rad").getValue(u), u); }
  bool operator==(const MVDirection& o) const { return v_ == o.v_; }
  double getLong() const { return (v_[0] == 0 && v_[1] == 0) ? 0.0 : std::atan2(v_[1], v_[0]); }
  double getLat() const { return std::asin(std::max(-1.0, std::min(1.0, v_[2]))); }
  Vector<double> get() const { return Vector<double>(std::vector<double>{getLong(), getLat()}); }
  Vector<double> getValue() const { return Vector<double>(std::vector<double>{v_[0], v_[1], v_[2]}); }
  Quantum<Vector<double>> getAngle() const { return Quantum<Vector<double>>(get(), "rad"); }
  Quantum<Vector<double>> getAngle(const Unit& u) const { return Quantum<Vector<double>>(getAngle().getValue(u), u); }
  double separation(const MVDirection& o) const { const double d = v_[0] * o.v_[0] + v_[1] * o.v_[1] + v_[2] * o.v_[2]; return std::acos(std::max(-1.0, std::min(1.0, d))); }
  const double& operator()(size_t i) const { return v_.at(i); }
 private:
  void adjust() { const double n = std::sqrt(v_[0] * v_[0] + v_[1] * v_[1] + v_[2] * v_[2]); if (n > 0) for (double& x : v_) x /= n; }
  std::array<double, 3> v_;
};
class MVPosition {
 public:
  MVPosition() : v_{0, 0, 0} {}
  MVPosition(double x, double y, double z) : v_{x, y, z} {}
  explicit MVPosition(const Vector<double>& v) : v_{v[0], v[1], v[2]} {}
  MVPosition(const Quantum<Vector<double>>& q) : MVPosition(q.getValue("m")) {}
  Vector<double> getValue() const { return Vector<double>(std::vector<double>{v_[0], v_[1], v_[2]}); }
  Vector<double> getVector() const { return getValue(); }
  const double& operator()(size_t i) const { return v_.at(i); }
  MVPosition& operator+=(const MVPosition& o) { for (int i = 0; i < 3; ++i) v_[i] += o.v_[i]; return *this; }
  MVPosition& operator-=(const MVPosition& o) { for (int i = 0; i < 3; ++i) v_[i] -= o.v_[i]; return *this; }
  MVPosition& operator*=(double f) { for (double& x : v_) x *= f; return *this; }
  friend MVPosition operator+(MVPosition a, const MVPosition& b) { return a += b; }
  friend MVPosition operator-(MVPosition a, const MVPosition& b) { return a -= b; }
  friend MVPosition operator*(MVPosition a, double f) { return a *= f; }
  friend MVPosition operator*(double f, MVPosition a) { return a *= f; }
  friend bool operator==(const MVPosition& a, const MVPosition& b) { return a.v_ == b.v_; }
 private:
  std::array<double, 3> v_;
};
using MVBaseline = MVPosition;
using MVuvw = MVPosition;
class MVEpoch { public: MVEpoch(double d = 0) : d_(d) {} MVEpoch(const Quantity& q) : d_(q.getValue("d")) {} double get() const { return d_; } Quantity getTime() const { return Quantity(d_, "d"); } private: double d_; };
struct MeasFrame { std::optional<double> time; template <class... A> void set(const A&...) {} template <class... A> void resetEpoch(const A&...) {} template <class... A> void resetDirection(const A&...) {} template <class... A> void resetPosition(const A&...) {} template <class... A> MeasFrame(const A&...) {} };
class Measure { public: virtual ~Measure() = default; };
template <class MV, class TAG> class MeasBase : public Measure, public TAG {
 public:
  using Types = typename TAG::Types;
  using MVType = MV;
  class Ref { public: Ref(Types t = TAG::DEFAULT) : t_(t) {} Ref(Types t, const MeasFrame&) : t_(t) {} Types getType() const { return t_; } void set(Types t) { t_ = t; } template <class F> void set(const F&) {} private: Types t_; };
  MeasBase() : ref_(TAG::DEFAULT) {}
  MeasBase(const MV& v, Types t = TAG::DEFAULT) : v_(v), ref_(t) {}
  MeasBase(const MV& v, const Ref& r) : v_(v), ref_(r) {}
  const MV& getValue() const { return v_; }
  void set(const MV& v) { v_ = v; }
  const Ref& getRef() const { return ref_; }
  Ref getRef() { return ref_; }
  String getRefString() const { return TAG::showType(ref_.getType()); }
  static bool getType(Types& t, const std::string& s) { return TAG::parse(t, s); }
 protected:
  MV v_;
  Ref ref_;
};
template <class M> class MeasConvertBase {
 public:
  using Types = typename M::Types;
  MeasConvertBase() : to_(M::DEFAULT) {}
  MeasConvertBase(const M& m, Types t) : m_(m), to_(t) {}
  MeasConvertBase(const M& m, const typename M::Ref& t) : m_(m), to_(t.getType()) {}
  MeasConvertBase(const typename M::Ref& f, const typename M::Ref& t) : m_(typename M::MVType(), f.getType()), to_(t.getType()) {}
  void setModel(const M& m) { m_ = m; }
  void set(const M& m, const typename M::Ref& r) { m_ = m; to_ = r.getType(); }
  M operator()() const { if (m_.getRef().getType() != to_) throw AipsError("measure conversion is not available"); return m_; }
  M operator()(const M& m) const { if (m.getRef().getType() != to_) throw AipsError("measure conversion is not available"); return m; }
  template <class V> M operator()(const V& v) const { return (*this)(M(v, m_.getRef())); }
 private:
  M m_;
  Types to_;
};
struct MDirectionTypes {
  enum Types { J2000, JMEAN, JTRUE, APP, B1950, GALACTIC, HADEC, AZEL, AZELGEO, ITRF, TOPO, ICRS, MERCURY = 32, VENUS, MARS, JUPITER, SATURN, URANUS, NEPTUNE, PLUTO, SUN, MOON, DEFAULT = J2000 };
  static const std::map<std::string, Types>& table() { static const std::map<std::string, Types> m{{"J2000", J2000}, {"B1950", B1950}, {"GALACTIC", GALACTIC}, {"HADEC", HADEC}, {"AZEL", AZEL}, {"AZELGEO", AZELGEO}, {"APP", APP}, {"ITRF", ITRF}, {"ICRS", ICRS}, {"SUN", SUN}, {"MOON", MOON}, {"JUPITER", JUPITER}, {"MARS", MARS}, {"MERCURY", MERCURY}, {"VENUS", VENUS}, {"SATURN", SATURN}, {"URANUS", URANUS}, {"NEPTUNE", NEPTUNE}}; return m; }
  static bool parse(Types& t, const std::string& s) { std::string u(s); for (char& c : u) c = std::toupper(static_cast<unsigned char>(c)); const auto it = table().find(u); if (it == table().end()) return false; t = it->second; return true; }
  static String showType(Types t) { for (const auto& [k, v] : table()) if (v == t) return k; return "?"; }
};
struct MPositionTypes { enum Types { ITRF, WGS84, DEFAULT = ITRF }; static bool parse(Types& t, const std::string& s) { if (s == "ITRF") { t = ITRF; return true; } if (s == "WGS84") { t = WGS84; return true; } return false; } static String showType(Types t) { return t == ITRF ? "ITRF" : "WGS84"; } };
struct MBaselineTypes { enum Types { J2000, ITRF, DEFAULT = ITRF }; static bool parse(Types&, const std::string&) { return false; } static String showType(Types) { return ""; } };
struct MEpochTypes { enum Types { UTC, TAI, LAST, DEFAULT = UTC }; static bool parse(Types&, const std::string&) { return false; } static String showType(Types) { return "UTC"; } };
class MDirection : public MeasBase<MVDirection, MDirectionTypes> {
 public:
  static MDirection makeMDirection(const std::string& name) { Types t; if (!parse(t, name)) throw AipsError("unknown source " + name); return MDirection(t); }
  using B = MeasBase<MVDirection, MDirectionTypes>;
  using B::B;
  using Convert = MeasConvertBase<MDirection>;
  MDirection() = default;
  explicit MDirection(Types t) : B(MVDirection(), t) {}
  MDirection(const Quantity& a, const Quantity& b, Types t = DEFAULT) : B(MVDirection(a, b), t) {}
  MDirection(const Quantity& a, const Quantity& b, const Ref& t) : B(MVDirection(a, b), t) {}
  Quantum<Vector<double>> getAngle() const { return v_.getAngle(); }
  Quantum<Vector<double>> getAngle(const Unit& u) const { return v_.getAngle(u); }
};
class MPosition : public MeasBase<MVPosition, MPositionTypes> { public: using B = MeasBase<MVPosition, MPositionTypes>; using B::B; using Convert = MeasConvertBase<MPosition>; MPosition() = default;
  Quantum<Vector<double>> get(const Unit& u) const { const Quantum<Vector<double>> q(getValue().getValue(), Unit("m")); return q.get(u); } };
class MBaseline : public MeasBase<MVBaseline, MBaselineTypes> { public: using B = MeasBase<MVBaseline, MBaselineTypes>; using B::B; using Convert = MeasConvertBase<MBaseline>; MBaseline() = default; };
class Muvw : public MeasBase<MVuvw, MBaselineTypes> { public: using B = MeasBase<MVuvw, MBaselineTypes>; using B::B; using Convert = MeasConvertBase<Muvw>; Muvw() = default; };
class MEpoch : public MeasBase<MVEpoch, MEpochTypes> { public: using B = MeasBase<MVEpoch, MEpochTypes>; using B::B; using Convert = MeasConvertBase<MEpoch>; MEpoch() = default; };
inline std::ostream& operator<<(std::ostream& o, const MVDirection& d) { return o << d.getLong() << ',' << d.getLat(); }
inline std::ostream& operator<<(std::ostream& o, const MDirection& d) { return o << d.getValue(); }
inline std::ostream& operator<<(std::ostream& o, const MPosition& d) { return o << d.getValue().getValue(); }

// ------------------------------------------------------------------ records
class Record {
 public:
  void define(const std::string& n, double v) { v_[n] = v; }
  void define(const std::string& n, const std::string& s) { s_[n] = s; }
  double* field(const std::string& n) { return &v_[n]; }
  double asDouble(const std::string& n) const { return v_.at(n); }
  bool isDefined(const std::string& n) const { return v_.count(n) || s_.count(n); }
  std::map<std::string, double> v_;
  std::map<std::string, std::string> s_;
  std::shared_ptr<const Measure> measure_;
};
using TableRecord = Record;
template <class T> class RecordFieldPtr {
 public:
  RecordFieldPtr() = default;
  RecordFieldPtr(Record& r, const std::string& n) : p_(r.field(n)) {}
  double& operator*() { return *p_; }
 private:
  double* p_ = nullptr;
};
class MeasureHolder {
 public:
  MeasureHolder() = default;
  explicit MeasureHolder(const MDirection& m) : m_(std::make_shared<MDirection>(m)) {}
  explicit MeasureHolder(const MPosition& m) : m_(std::make_shared<MPosition>(m)) {}
  bool toRecord(String&, Record& r) const { r.measure_ = m_; return bool(m_); }
  bool fromRecord(String&, const Record& r) { m_ = r.measure_; return bool(m_); }
  MDirection asMDirection() const { return dynamic_cast<const MDirection&>(*m_); }
  MPosition asMPosition() const { return dynamic_cast<const MPosition&>(*m_); }
  bool isMDirection() const { return dynamic_cast<const MDirection*>(m_.get()); }
 private:
  std::shared_ptr<const Measure> m_;
};
// Arithmetic expressions on the fields of a record.
struct ExprNodeRep { virtual ~ExprNodeRep() = default; virtual double eval(const Record&) const = 0; };
class TableExprNode {
 public:
  TableExprNode() = default;
  TableExprNode(double v);
  explicit TableExprNode(std::shared_ptr<ExprNodeRep> r) : r_(std::move(r)) {}
  template <class T> explicit TableExprNode(const Vector<T>&) {}
  template <class I> void get(const Record& r, I& v) const { v = static_cast<I>(rep().eval(r)); }
  double getDouble(const Record& r) const { return rep().eval(r); }
  const ExprNodeRep& rep() const { if (!r_) throw AipsError("tables are not available"); return *r_; }
  template <class X> TableExprNode in(const X&) const { return TableExprNode(); }
  TableExprNode operator!() const { return TableExprNode(); }
  bool isNull() const { return !r_; }
 private:
  std::shared_ptr<ExprNodeRep> r_;
};
namespace mini {
struct Num : ExprNodeRep { double v; explicit Num(double x) : v(x) {} double eval(const Record&) const override { return v; } };
struct Var : ExprNodeRep { std::string n; explicit Var(std::string x) : n(std::move(x)) {} double eval(const Record& r) const override { const auto it = r.v_.find(n); if (it == r.v_.end()) throw AipsError("unknown name " + n); return it->second; } };
using PRep = std::shared_ptr<ExprNodeRep>;
struct Fn : ExprNodeRep { std::string f; std::vector<PRep> a; double eval(const Record& r) const override {
  auto x = [&](size_t i) { return a.at(i)->eval(r); };
  if (f == "+") return a.size() == 1 ? x(0) : x(0) + x(1);
  if (f == "-") return a.size() == 1 ? -x(0) : x(0) - x(1);
  if (f == "*") return x(0) * x(1);
  if (f == "/") return x(0) / x(1);
  if (f == "//") return std::floor(x(0) / x(1));
  if (f == "%") { return std::fmod(x(0), x(1)); }
  if (f == "^") return std::pow(x(0), x(1));
  if (f == "<") return x(0) < x(1);
  if (f == ">") return x(0) > x(1);
  if (f == "<=") return x(0) <= x(1);
  if (f == ">=") return x(0) >= x(1);
  if (f == "==" || f == "=") return x(0) == x(1);
  if (f == "!=") return x(0) != x(1);
  if (f == "&&") return x(0) && x(1);
  if (f == "||") return x(0) || x(1);
  if (f == "iif") return x(0) ? x(1) : x(2);
  if (f == "min") return std::min(x(0), x(1));
  if (f == "max") return std::max(x(0), x(1));
  if (f == "sqrt") return std::sqrt(x(0));
  if (f == "abs") return std::abs(x(0));
  if (f == "floor") return std::floor(x(0));
  if (f == "ceil") return std::ceil(x(0));
  throw AipsError("unknown function " + f); } };
class Parser {
 public:
  explicit Parser(std::string s) : s_(std::move(s)) {}
  PRep Parse() { PRep r = Level(0); Skip(); if (p_ != s_.size()) Bad(); return r; }
 private:
  [[noreturn]] void Bad() { throw AipsError("error in expression " + s_); }
  void Skip() { while (p_ < s_.size() && std::isspace(static_cast<unsigned char>(s_[p_]))) ++p_; }
  PRep Make(const std::string& f, std::vector<PRep> a) { auto n = std::make_shared<Fn>(); n->f = f; n->a = std::move(a); return n; }
  PRep Level(int l) {
    static const std::vector<std::vector<std::string>> ops{{"||"}, {"&&"}, {"==", "!=", "<=", ">=", "<", ">", "="}, {"+", "-"}, {"//", "*", "/", "%"}};
    if (l == 5) return Unary();
    PRep a = Level(l + 1);
    for (;;) {
      Skip();
      bool hit = false;
      for (const auto& o : ops[l]) if (s_.compare(p_, o.size(), o) == 0) { p_ += o.size(); a = Make(o, {a, Level(l + 1)}); hit = true; break; }
      if (!hit) return a;
    }
  }
  PRep Unary() {
    Skip();
    if (p_ < s_.size() && (s_[p_] == '-' || s_[p_] == '+')) { const std::string o(1, s_[p_++]); return Make(o, {Unary()}); }
    PRep b = Prim();
    Skip();
    if (p_ < s_.size() && s_[p_] == '^') { ++p_; return Make("^", {b, Unary()}); }
    return b;
  }
  PRep Prim() {
    Skip();
    if (p_ >= s_.size()) Bad();
    if (s_[p_] == '(') { ++p_; PRep r = Level(0); Skip(); if (p_ >= s_.size() || s_[p_] != ')') Bad(); ++p_; return r; }
    double v;
    if (number(s_, p_, v)) { if (p_ < s_.size() && std::isalpha(static_cast<unsigned char>(s_[p_]))) Bad(); return std::make_shared<Num>(v); }
    if (!std::isalpha(static_cast<unsigned char>(s_[p_])) && s_[p_] != '_') Bad();
    const size_t b = p_;
    while (p_ < s_.size() && (std::isalnum(static_cast<unsigned char>(s_[p_])) || s_[p_] == '_')) ++p_;
    const std::string n = s_.substr(b, p_ - b);
    Skip();
    if (p_ < s_.size() && s_[p_] == '(') {
      ++p_;
      std::vector<PRep> a;
      for (;;) { a.push_back(Level(0)); Skip(); if (p_ < s_.size() && s_[p_] == ',') { ++p_; continue; } break; }
      if (p_ >= s_.size() || s_[p_] != ')') Bad();
      ++p_;
      return Make(n, a);
    }
    return std::make_shared<Var>(n);
  }
  std::string s_;
  size_t p_ = 0;
};
}  // namespace mini
inline TableExprNode::TableExprNode(double v) : r_(std::make_shared<mini::Num>(v)) {}
inline TableExprNode operator&&(const TableExprNode&, const TableExprNode&) { return TableExprNode(); }
inline TableExprNode operator==(const TableExprNode&, const TableExprNode&) { return TableExprNode(); }
class RecordGram { public: static TableExprNode parse(const Record&, const std::string& s) { return TableExprNode(mini::Parser(s).Parse()); } };

// ------------------------------------------------------------------ tables (not available)
[[noreturn]] inline void no_tables() { throw AipsError("tables are not available"); }
class TableDesc { public: template <class... A> TableDesc(const A&...) {} template <class C> void addColumn(const C&) {} bool isColumn(const std::string&) const { return false; } enum Option { Scratch, New, Update }; };
class TableLock { public: enum Option { DefaultLocking, UserNoReadLocking, AutoNoReadLocking, PermanentLocking }; template <class... A> TableLock(const A&...) {} };
class Table {
 public:
  enum TableOption { Old, New, NewNoReplace, Scratch, Update, Delete };
  enum TableType { Plain, Memory };
  enum EndianFormat { BigEndian, LittleEndian, LocalEndian, AipsrcEndian };
  Table() = default;
  explicit Table(const std::string&) { no_tables(); }
  template <class... A> Table(const A&...) { no_tables(); }
  TableExprNode col(const std::string&) const { return TableExprNode(); }
  Table operator()(const TableExprNode&) const { no_tables(); }
  Table operator()(const Vector<rownr_t>&) const { no_tables(); }
  template <class T> Vector<T> rowNumbers_() const { no_tables(); }
  Vector<rownr_t> rowNumbers() const { no_tables(); }
  rownr_t nrow() const { no_tables(); }
  String tableName() const { no_tables(); }
  void removeRow(const Vector<rownr_t>&) { no_tables(); }
  template <class... A> void addRow(const A&...) { no_tables(); }
  TableRecord& rwKeywordSet() { no_tables(); }
  struct Keywords { bool isDefined(const std::string&) const { return false; } Table asTable(const std::string&) const; };
  Keywords keywordSet() const { no_tables(); }
  TableDesc tableDesc() const { no_tables(); }
  bool isNull() const { return true; }
  void flush(bool = false, bool = false) {}
  void reopenRW() { no_tables(); }
  static bool isReadable(const std::string&) { return false; }
  Table sort(const std::string&) const { no_tables(); }
  enum JoinType { };
};
inline Table Table::Keywords::asTable(const std::string&) const { no_tables(); }
class SetupNewTable { public: template <class... A> SetupNewTable(const A&...) {} template <class... A> void bindAll(const A&...) {} };
template <class T> class ScalarColumnDesc { public: template <class... A> ScalarColumnDesc(const A&...) {} };
template <class T> class ArrayColumnDesc { public: template <class... A> ArrayColumnDesc(const A&...) {} };
template <class T> class ScalarColumn {
 public:
  ScalarColumn() = default;
  template <class... A> ScalarColumn(const Table&, const A&...) { no_tables(); }
  template <class... A> void attach(const A&...) { no_tables(); }
  Vector<T> getColumn() const { no_tables(); }
  void putColumn(const Array<T>&) { no_tables(); }
  T operator()(rownr_t) const { no_tables(); }
  T get(rownr_t) const { no_tables(); }
  void get(rownr_t, T&) const { no_tables(); }
  void put(rownr_t, const T&) { no_tables(); }
  bool isNull() const { return true; }
};
template <class T> class ArrayColumn : public ScalarColumn<T> { public: using ScalarColumn<T>::ScalarColumn; Array<T> operator()(rownr_t) const { no_tables(); } Array<T> get(rownr_t) const { no_tables(); } void put(rownr_t, const Array<T>&) { no_tables(); } Array<T> getColumn() const { no_tables(); } bool isDefined(rownr_t) const { return false; } void setShape(rownr_t, const IPosition&) { no_tables(); } IPosition shape(rownr_t) const { no_tables(); } };
template <class M> class ScalarMeasColumn { public: ScalarMeasColumn() = default; template <class... A> void attach(const A&...) { no_tables(); } bool isNull() const { return true; } template <class... A> ScalarMeasColumn(const Table&, const A&...) { no_tables(); } M operator()(rownr_t) const { no_tables(); } void put(rownr_t, const M&) { no_tables(); } };
template <class M> class ArrayMeasColumn { public: template <class... A> ArrayMeasColumn(const Table&, const A&...) { no_tables(); } Vector<M> operator()(rownr_t) const { no_tables(); } };
class TableIterator { public: TableIterator() = default; template <class... A> TableIterator(const A&...) { no_tables(); } Table table() const { no_tables(); } bool pastEnd() const { return true; } void next() { no_tables(); } void reset() { no_tables(); } };
class Path { public: Path(const std::string& s) : s_(s) {} String dirName() const { const auto p = s_.rfind('/'); return p == std::string::npos ? String(".") : String(s_.substr(0, p)); } String baseName() const { const auto p = s_.rfind('/'); return p == std::string::npos ? String(s_) : String(s_.substr(p + 1)); } String absoluteName() const { std::string r = std::filesystem::absolute(s_.empty() ? "." : s_).lexically_normal().string(); while (r.size() > 1 && r.back() == '/') r.pop_back(); return r; } String expandedName() const { return s_; } private: std::string s_; };
struct Timer { template <class... A> void show(std::ostream& os, const A&...) const { os << "time\n"; } };
class Directory { public: Directory(const std::string& s) : s_(s) {} std::string s_; };
class DirectoryIterator { public: template <class... A> DirectoryIterator(const A&...) {} bool pastEnd() const { return true; } String name() const { return String(); } void operator++(int) {} void operator++() {} };
class TableRow { public: template <class... A> TableRow(const A&...) { no_tables(); } const TableRecord& get(rownr_t) const { no_tables(); } template <class... A> void put(const A&...) { no_tables(); } };
class ROTableRow : public TableRow { public: using TableRow::TableRow; };
struct MSMainEnums { enum PredefinedColumns { ANTENNA1, ANTENNA2, DATA, FLAG, TIME, UVW, WEIGHT_SPECTRUM, MODEL_DATA, CORRECTED_DATA, EXPOSURE, INTERVAL }; };
class MSAntenna : public Table { public: MSAntenna() = default; template <class... A> MSAntenna(const A&...) { no_tables(); } static TableDesc requiredTableDesc() { return TableDesc(); } enum Columns { NAME, TYPE, MOUNT, POSITION, DISH_DIAMETER, STATION, FLAG_ROW, OFFSET }; static String columnName(int) { return "NAME"; } };
class MSObservation : public Table {};
class MeasurementSet : public Table, public MSMainEnums {
 public:
  MeasurementSet() = default;
  template <class... A> MeasurementSet(const A&...) { no_tables(); }
  bool isColumn(PredefinedColumns) const { no_tables(); }
  static String columnName(PredefinedColumns c) {
    static const char* n[] = {"ANTENNA1", "ANTENNA2", "DATA", "FLAG", "TIME", "UVW", "WEIGHT_SPECTRUM", "MODEL_DATA", "CORRECTED_DATA", "EXPOSURE", "INTERVAL"};
    return n[c];
  }
  MSAntenna antenna() const { no_tables(); }
};
using MS = MeasurementSet;
class MSAntennaColumns { public: struct Col { template <class T> void putColumn(const T&) { no_tables(); } template <class... A> void put(const A&...) { no_tables(); } template <class A> Col(const A&) {} }; explicit MSAntennaColumns(const MSAntenna& a) : c_(a) { no_tables(); } Col& name() { return c_; } Col& positionMeas() { return c_; } Col& flagRow() { return c_; } private: Col c_; };
class MSSelectionErrorHandler { public: virtual ~MSSelectionErrorHandler() = default; virtual void reportError(const char*, const String) {} };
class MSAntennaParse { public: static inline std::shared_ptr<MSSelectionErrorHandler> thisMSAErrorHandler; };
template <class... A> TableExprNode msAntennaGramParseCommand(const A&...) { no_tables(); }
}  // namespace casacore
namespace casa = casacore;
#endif
