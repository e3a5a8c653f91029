// Stand-in for aocommon::Queue (a deque with a fixed ring of elements).
#ifndef VP_AOCOMMON_QUEUE_H
#define VP_AOCOMMON_QUEUE_H
#include <cassert>
#include <deque>
#include <utility>
namespace aocommon {
template <class T> class Queue {
 public:
  using value_type = T;
  size_t Size() const { return q_.size(); }
  bool Empty() const { return q_.empty(); }
  T& operator[](size_t i) { return q_.at(i); }
  const T& operator[](size_t i) const { return q_.at(i); }
  template <class... A> T& EmplaceBack(A&&... a) { return q_.emplace_back(std::forward<A>(a)...); }
  T& PushBack(T t) { q_.push_back(std::move(t)); return q_.back(); }
  T& Front() { return q_.front(); }
  const T& Front() const { return q_.front(); }
  T& Back() { return q_.back(); }
  T PopFront() { T t = std::move(q_.front()); q_.pop_front(); return t; }
  auto begin() { return q_.begin(); }
  auto end() { return q_.end(); }
  auto begin() const { return q_.begin(); }
  auto end() const { return q_.end(); }
  void Clear() { q_.clear(); }
  void Reserve(size_t) {}
 private:
  std::deque<T> q_;
};
}  // namespace aocommon
#endif
