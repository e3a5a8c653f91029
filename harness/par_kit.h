// Runs the same work with every schedule of its parallel loops, with several
// numbers of threads and divisions of the loops over the threads.
#ifndef PAR_KIT_H_
#define PAR_KIT_H_
#include <cmath>
#include <functional>
#include <memory>
#include <string>
#include <vector>
#include <schaapcommon/threading/threadpool.h>
#include "vp.h"
#include "vpsched.h"

namespace par {
typedef std::vector<double> Out;
// make() prepares the work; what it returns does it and gives all results.
typedef std::function<std::function<Out()>()> Work;

inline std::string Differ(const Out& a, const Out& b, double tolerance) {
  if (a.size() != b.size()) return vp::Str(b.size()) + " results instead of " + vp::Str(a.size());
  for (size_t i = 0; i < a.size(); ++i) {
    if (std::isnan(a[i]) && std::isnan(b[i])) continue;
    if (a[i] == b[i] || std::abs(a[i] - b[i]) <= tolerance * (1 + std::abs(a[i]))) continue;
    return "result " + vp::Str(i) + " is " + vp::Str(b[i]) + " instead of " + vp::Str(a[i]);
  }
  return "";
}
inline void AllSchedules(const Work& make, double tolerance, size_t threads, int way, bool inner, int preemptions, unsigned branches) {
  auto& pool = schaapcommon::ThreadPool::GetInstance();
  Out want, got; std::string error; bool again = true;
  sched::Options opt;
  // With one thread.
  sched::Explore(
      [&] {
        pool.Reset(); pool.SetNThreads(1); pool.vp_order = 0; pool.vp_inner = false;
        auto work = std::make_shared<std::function<Out()>>(make());
        return std::vector<std::function<void()>>{[&want, &error, work] { try { want = (*work)(); } catch (std::exception& e) { error = e.what(); } }};
      }, [&](const std::string& problem) { vp::Check(problem.empty(), "with one thread: ", problem); return false; }, opt);
  if (!vp::Check(error.empty(), "fails: ", error) || !vp::Check(!want.empty(), "no results")) return;
  opt.max_preemptions = preemptions; opt.stacks = true; opt.branch_limit = branches;
  uint64_t n = 0;
  const sched::Stats st = sched::Explore(
      [&] {
        pool.Reset(); pool.SetNThreads(threads); pool.vp_order = way; pool.vp_inner = inner;
        got.clear(); error.clear();
        auto work = std::make_shared<std::function<Out()>>(make());
        return std::vector<std::function<void()>>{[&got, &error, work] {
          sched::SetOp("the main thread");
          try { got = (*work)(); } catch (std::exception& e) { error = e.what(); }
        }};
      },
      [&](const std::string& problem) {
        ++n;
        again = vp::Check(problem.empty(), problem, ", schedule ", sched::Schedule()) &&
                vp::Check(error.empty(), "fails: ", error, ", schedule ", sched::Schedule());
        if (again) { const std::string d = Differ(want, got, tolerance); again = vp::Check(d.empty(), d, ", schedule ", sched::Schedule()); }
        return again;
      }, opt);
  vp::Step(st.points);
  vp::Count("schedules", st.executions); vp::Count("memory accesses checked", st.accesses); vp::Count("lock operations", st.locks);
  if (st.capped) vp::Count("schedules cut off", 1);
  vp::Outcome(std::to_string(st.executions) + " schedules");
  pool.SetNThreads(1);
}
}  // namespace par
#endif
