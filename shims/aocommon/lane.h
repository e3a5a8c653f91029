// Stand-in for aocommon::Lane: a bounded blocking queue between writers and
// readers; reads return false / fewer items when writing ended and it is empty.
#ifndef VP_AOCOMMON_LANE_H
#define VP_AOCOMMON_LANE_H
#include <condition_variable>
#include <cstddef>
#include <deque>
#include <mutex>
#include <utility>
#ifdef VP_SCHED_POOL
#include "vpsched.h"
#endif
namespace aocommon {
#ifdef VP_SCHED_POOL
// The same queue for the controlled scheduler; every access is a schedule point.
template <class T> class Lane {
 public:
  typedef std::size_t size_type;
  typedef T value_type;
  Lane() : cap_(0) {}
  explicit Lane(std::size_t capacity) : cap_(capacity) {}
  Lane(const Lane&) = delete;
  Lane& operator=(const Lane&) = delete;
  void clear() { Locked l(this, [] { return true; }); q_.clear(); ended_ = false; }
  void write(const T& v) { emplace(v); }
  void write(T&& v) { emplace(std::move(v)); }
  template <class... A> void emplace(A&&... a) {
    Locked l(this, [this] { return ended_ || q_.size() < cap_; });
    if (!ended_) q_.emplace_back(std::forward<A>(a)...);
  }
  void write(const T* p, std::size_t n) { for (std::size_t i = 0; i < n; ++i) emplace(p[i]); }
  // As many as fit at a time, like the real one.
  void move_write(T* p, std::size_t n) {
    std::size_t i = 0;
    while (i < n) {
      Locked l(this, [this] { return ended_ || q_.size() < cap_; });
      if (ended_) return;
      while (i < n && q_.size() < cap_) q_.emplace_back(std::move(p[i++]));
    }
  }
  bool read(T& d) { return read(&d, 1) == 1; }
  std::size_t read(T* p, std::size_t n) {
    std::size_t i = 0;
    while (i < n) {
      Locked l(this, [this] { return ended_ || !q_.empty(); });
      if (q_.empty()) break;
      while (i < n && !q_.empty()) { p[i++] = std::move(q_.front()); q_.pop_front(); }
    }
    return i;
  }
  void write_end() { Locked l(this, [] { return true; }); ended_ = true; }
  void wait_for_empty() { Locked l(this, [this] { return q_.empty(); }); }
  std::size_t capacity() const { return cap_; }
  std::size_t size() const { return q_.size(); }
  bool empty() const { return size() == 0; }
  bool is_end() const { return ended_; }
  bool is_end_and_empty() const { return ended_ && q_.empty(); }
  void resize(std::size_t c) { cap_ = c; q_.clear(); ended_ = false; }
 private:
  struct Locked {
    const Lane* lane;
    template <class F> Locked(const Lane* l, F ready) : lane(l) { sched::WaitUntil(ready); sched::Acquire(lane); }
    ~Locked() { sched::Release(lane); }
  };
  std::size_t cap_;
  bool ended_ = false;
  std::deque<T> q_;
};
#else
template <class T> class Lane {
 public:
  typedef std::size_t size_type;
  typedef T value_type;
  Lane() : cap_(0) {}
  explicit Lane(std::size_t capacity) : cap_(capacity) {}
  Lane(const Lane&) = delete;
  Lane& operator=(const Lane&) = delete;
  void clear() { std::lock_guard<std::mutex> l(m_); q_.clear(); ended_ = false; w_.notify_all(); }
  void write(const T& v) { emplace(v); }
  void write(T&& v) { emplace(std::move(v)); }
  template <class... A> void emplace(A&&... a) {
    std::unique_lock<std::mutex> l(m_);
    if (ended_) return;
    while (q_.size() >= cap_) w_.wait(l);
    q_.emplace_back(std::forward<A>(a)...);
    r_.notify_all();
  }
  void write(const T* p, std::size_t n) { for (std::size_t i = 0; i < n; ++i) emplace(p[i]); }
  void move_write(T* p, std::size_t n) { for (std::size_t i = 0; i < n; ++i) emplace(std::move(p[i])); }
  bool read(T& d) {
    std::unique_lock<std::mutex> l(m_);
    while (q_.empty() && !ended_) r_.wait(l);
    if (q_.empty()) return false;
    d = std::move(q_.front());
    q_.pop_front();
    w_.notify_all();
    return true;
  }
  std::size_t read(T* p, std::size_t n) { std::size_t i = 0; while (i < n && read(p[i])) ++i; return i; }
  void write_end() { std::lock_guard<std::mutex> l(m_); ended_ = true; r_.notify_all(); w_.notify_all(); }
  void wait_for_empty() { std::unique_lock<std::mutex> l(m_); while (!q_.empty()) w_.wait(l); }
  std::size_t capacity() const { return cap_; }
  std::size_t size() const { std::lock_guard<std::mutex> l(m_); return q_.size(); }
  bool empty() const { return size() == 0; }
  bool is_end() const { std::lock_guard<std::mutex> l(m_); return ended_; }
  bool is_end_and_empty() const { std::lock_guard<std::mutex> l(m_); return ended_ && q_.empty(); }
  void resize(std::size_t c) { std::lock_guard<std::mutex> l(m_); cap_ = c; q_.clear(); ended_ = false; }
 private:
  std::size_t cap_;
  bool ended_ = false;
  std::deque<T> q_;
  mutable std::mutex m_;
  std::condition_variable r_, w_;
};
#endif
}  // namespace aocommon
#endif
