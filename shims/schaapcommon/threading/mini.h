// Stand-in for the parallel loops of schaapcommon.  The iterations are divided
// over NThreads() "threads" in the same way as the real loops do, and executed
// one after the other in an order that a check controls (order 0: ascending,
// 1: descending, 2: odd ones first).  With VP_MINI_THREADS defined, real threads
// are used, so a race detector can watch them. With VP_SCHED_POOL the workers are
// threads of the controlled scheduler (lib/vpsched.h).
#ifndef VP_MINI_THREADING_H
#define VP_MINI_THREADING_H
#include <algorithm>
#include <cstddef>
#include <functional>
#include <mutex>
#include <type_traits>
#include <utility>
#include <vector>
#ifdef VP_MINI_THREADS
#include <thread>
#endif
#ifdef VP_SCHED_POOL
#include "vpsched.h"
#endif
namespace schaapcommon {
class ThreadPool {
 public:
  static ThreadPool& GetInstance() { static ThreadPool p; return p; }
  size_t NThreads() const { return n_; }
  void SetNThreads(size_t n) { n_ = n ? n : 1; }
  int vp_order = 0;
#ifdef VP_SCHED_POOL
  bool vp_inner = false;   // outer loops that allow nesting run in one thread, the inner ones in several
  int vp_live = 0;         // number of RecursiveFor objects
  int vp_depth = 0;
  int vp_worker[64];
  ThreadPool() { std::fill(vp_worker, vp_worker + 64, -1); }
  // Index of the pool thread that runs this: -1 outside of loops.
  int& Worker() { return vp_worker[sched::Self() + 1]; }
  void Reset() { std::fill(vp_worker, vp_worker + 64, -1); vp_live = vp_depth = 0; ids_.clear(); }
#endif
  template <class F> void ForEach(size_t n, F&& f) {
#ifdef VP_MINI_THREADS
    std::vector<std::thread> t;
    for (size_t i = 1; i < n; ++i) t.emplace_back([&f, i] { f(i); });
    if (n) f(0);
    for (auto& x : t) x.join();
#elif defined(VP_SCHED_POOL)
    if (Worker() >= 0) { for (size_t i = 0; i < n; ++i) f(i); return; }
    if (vp_inner && vp_live && vp_depth == 0) {
      ++vp_depth;
      for (size_t i = 0; i < n; ++i) f(i);
      --vp_depth;
      return;
    }
    std::vector<std::function<void()>> bodies;
    for (size_t i = 0; i < n; ++i) bodies.push_back([this, &f, i] { sched::SetOp("a thread of a parallel loop"); Worker() = i; f(i); Worker() = -1; });
    sched::Fork(bodies);
#else
    if (vp_order == 1) for (size_t i = n; i-- > 0;) f(i);
    else if (vp_order == 2) { for (size_t i = 1; i < n; i += 2) f(i); for (size_t i = 0; i < n; i += 2) f(i); }
    else for (size_t i = 0; i < n; ++i) f(i);
#endif
  }
  template <class F> void ExecuteInParallel(F&& f) { ForEach(n_, f); }
  void StartParallelExecution(std::function<void(size_t)> f) {
#ifdef VP_MINI_THREADS
    for (size_t i = 0; i < n_; ++i) running_.emplace_back([f, i] { f(i); });
#elif defined(VP_SCHED_POOL)
    std::vector<std::function<void()>> bodies;
    for (size_t i = 0; i < n_; ++i) bodies.push_back([this, f, i] { sched::SetOp("a thread that runs in parallel"); Worker() = i; f(i); Worker() = -1; });
    ids_ = sched::Start(bodies);
#else
    pending_ = std::move(f);
#endif
  }
  void FinishParallelExecution() {
#ifdef VP_MINI_THREADS
    for (auto& t : running_) t.join();
    running_.clear();
#elif defined(VP_SCHED_POOL)
    sched::Wait(ids_);
    ids_.clear();
#else
    if (pending_) { auto f = std::move(pending_); pending_ = nullptr; ForEach(n_, f); }
#endif
  }

 private:
  size_t n_ = 1;
#ifdef VP_MINI_THREADS
  std::vector<std::thread> running_;
#elif defined(VP_SCHED_POOL)
  std::vector<int> ids_;
#else
  std::function<void(size_t)> pending_;
#endif
};
namespace mini {
#ifdef VP_SCHED_POOL
inline size_t Index(size_t thread) { const int w = ThreadPool::GetInstance().Worker(); return w >= 0 ? size_t(w) : thread; }
#else
inline size_t Index(size_t thread) { return thread; }
#endif
template <class T, class F> void Chunk(T b, T e, size_t thread, F& f) {
  if constexpr (std::is_invocable_v<F&, T, T, size_t>) f(b, e, Index(thread));
  else f(b, e);
}
template <class T, class F> void One(T i, size_t thread, F& f) {
  if constexpr (std::is_invocable_v<F&, T, T, size_t>) f(i, T(i + 1), Index(thread));
  else if constexpr (std::is_invocable_v<F&, T, size_t>) f(i, Index(thread));
  else f(i);
}
template <class T, class F> void Static(T begin, T end, size_t max_threads, F& f) {
  if (!(begin < end)) return;
  const size_t n = end - begin;
  const size_t chunks = std::max<size_t>(1, std::min({n, ThreadPool::GetInstance().NThreads(), max_threads}));
  ThreadPool::GetInstance().ForEach(chunks, [&](size_t c) { Chunk<T>(begin + n * c / chunks, begin + n * (c + 1) / chunks, c, f); });
}
template <class T, class F> void Dynamic(T begin, T end, size_t max_threads, F& f) {
  if (!(begin < end)) return;
  const size_t n = end - begin;
  const size_t threads = std::max<size_t>(1, std::min({n, ThreadPool::GetInstance().NThreads(), max_threads}));
#ifdef VP_MINI_THREADS
  ThreadPool::GetInstance().ForEach(threads, [&](size_t t) { for (size_t i = t; i < n; i += threads) One<T>(begin + i, t, f); });
#elif defined(VP_SCHED_POOL)
  // Any thread may get any iteration: three ways to divide them.
  const int way = ThreadPool::GetInstance().vp_order;
  ThreadPool::GetInstance().ForEach(threads, [&](size_t t) {
    for (size_t i = 0; i < n; ++i) if ((way == 0 ? i % threads : way == 1 ? (n - 1 - i) * threads / n : (i * 7 + 3) % threads) == t) One<T>(begin + i, t, f);
  });
#else
  // Any thread may get any iteration.
  ThreadPool::GetInstance().ForEach(n, [&](size_t i) { One<T>(begin + i, (i * 7 + 3) % threads, f); });
#endif
}
}  // namespace mini
template <class T> class StaticFor {
 public:
  explicit StaticFor(size_t = 0) {}
  template <class F> void Run(T begin, T end, F f) { mini::Static<T>(begin, end, size_t(-1), f); }
  template <class F> void ConstrainedRun(T begin, T end, size_t max_threads, F f) { mini::Static<T>(begin, end, max_threads, f); }
};
template <class T> class DynamicFor {
 public:
  explicit DynamicFor(size_t = 0) {}
  template <class F> void Run(T begin, T end, F f) { mini::Dynamic<T>(begin, end, size_t(-1), f); }
  template <class F> void ConstrainedRun(T begin, T end, size_t max_threads, F f) { mini::Dynamic<T>(begin, end, max_threads, f); }
};
class RecursiveFor {
 public:
#ifdef VP_SCHED_POOL
  RecursiveFor() { ++ThreadPool::GetInstance().vp_live; }
  ~RecursiveFor() { --ThreadPool::GetInstance().vp_live; }
  RecursiveFor(const RecursiveFor&) = delete;
#endif
  template <class F> void Run(size_t begin, size_t end, F f) { mini::Dynamic<size_t>(begin, end, size_t(-1), f); }
  template <class F> void ConstrainedRun(size_t begin, size_t end, size_t max_threads, F f) { mini::Dynamic<size_t>(begin, end, max_threads, f); }
  template <class F> static void NestedRun(size_t begin, size_t end, F f) { mini::Dynamic<size_t>(begin, end, size_t(-1), f); }
  static RecursiveFor* GetInstance() { return nullptr; }
};
template <class T, class F> void RunStaticFor(T begin, T end, F f) { mini::Static<T>(begin, end, size_t(-1), f); }
template <class T, class F> void RunConstrainedStaticFor(T begin, T end, size_t max_threads, F f) { mini::Static<T>(begin, end, max_threads, f); }
}  // namespace schaapcommon
#endif
