// Runtime of the controlled scheduler. Compiled without instrumentation; it
// provides the functions that gcc's -fsanitize=thread instrumentation calls
// (libtsan itself is not linked), pthread mutexes and read-write locks,
// operator new/delete and memcpy & co.
#include "vpsched.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <errno.h>
#include <new>
#include <pthread.h>
#include <ucontext.h>
#include <unordered_map>

extern "C" void __real_free(void*);
namespace {
constexpr int kMaxThreads = 8;
constexpr size_t kStack = 1024 * 1024;
struct Clock { uint32_t c[kMaxThreads]; };

struct Lock { int owner = -1; int count = 0; int readers = 0; bool reader[kMaxThreads] = {}; Clock vc{}; };

struct Thread {
  ucontext_t ctx;
  char* stack = nullptr;
  std::function<void()> body;
  bool started = false, done = false;
  std::function<bool()> ready;   // empty: runnable
  const char* op = "";
  Clock vc{};
};

struct Cell {          // shadow of 8 bytes
  uint64_t addr;
  uint64_t generation;
  uint32_t w_clk[8], r_clk[kMaxThreads][8];   // per byte; 0: never
  uint8_t w_tid[8], freed;
  const char* w_op;
  const char* r_op[kMaxThreads];
};

Thread g_threads[kMaxThreads];
int g_n = 0;
int g_cur = -1;
bool g_atomic_points = false;
bool g_stacks = false;            // also check the threads' stacks
bool g_rt = false;               // inside the runtime
ucontext_t g_main;
std::string* g_problem = nullptr;
std::unordered_map<const void*, Lock>* g_locks = nullptr;
std::vector<void*>* g_quarantine = nullptr;
std::vector<std::pair<int, std::vector<int>>>* g_path = nullptr;   // choice index, alternatives
size_t g_pos = 0;
uint64_t g_generation = 1;
sched::Stats* g_stats = nullptr;
pthread_t g_main_thread;

constexpr size_t kCells = 1 << 20;
Cell* g_cells = nullptr;

bool InThread() { return g_cur >= 0 && !g_rt && pthread_equal(pthread_self(), g_main_thread); }
struct Rt { Rt() { g_rt = true; } ~Rt() { g_rt = false; } };

void Problem(const std::string& p) { if (g_problem->empty()) *g_problem = p; }

bool OnStack(uintptr_t a) {
  for (int i = 0; i < g_n; ++i) {
    const uintptr_t s = reinterpret_cast<uintptr_t>(g_threads[i].stack);
    if (a >= s && a < s + kStack) return true;
  }
  return false;
}

Cell* Find(uint64_t addr) {
  size_t h = (addr * 0x9E3779B97F4A7C15ull) >> 44;
  for (;;) {
    Cell& c = g_cells[h];
    if (c.generation != g_generation) {
      memset(&c, 0, sizeof c);
      c.addr = addr; c.generation = g_generation;
      return &c;
    }
    if (c.addr == addr) return &c;
    h = (h + 1) & (kCells - 1);
  }
}

void AccessCell(uint64_t cell, uint8_t mask, bool write, bool is_free) {
  Cell& c = *Find(cell);
  const int t = g_cur;
  const Clock& vc = g_threads[t].vc;
  if (c.freed & mask) { Problem(std::string(is_free ? "memory freed twice by " : "use of freed memory by ") + g_threads[t].op); return; }
  for (int i = 0; i < 8; ++i) {
    if (!(mask >> i & 1)) continue;
    if (c.w_clk[i] && c.w_tid[i] != t && c.w_clk[i] > vc.c[c.w_tid[i]])
      Problem("data race: " + std::string(g_threads[t].op) + (write ? " writes" : " reads") + " what " + c.w_op + " writes");
    if (write) {
      for (int o = 0; o < g_n; ++o)
        if (o != t && c.r_clk[o][i] > vc.c[o])
          Problem("data race: " + std::string(g_threads[t].op) + " writes what " + c.r_op[o] + " reads");
      c.w_tid[i] = t; c.w_clk[i] = vc.c[t];
    } else {
      c.r_clk[t][i] = vc.c[t];
    }
  }
  if (write) c.w_op = g_threads[t].op; else c.r_op[t] = g_threads[t].op;
  if (is_free) c.freed |= mask;
}

void Access(const void* p, size_t n, bool write, bool is_free = false) {
  if (!InThread() || n == 0) return;
  Rt rt;
  uintptr_t a = reinterpret_cast<uintptr_t>(p);
  if (!g_stacks && OnStack(a)) return;
  ++g_stats->accesses;
  const uintptr_t end = a + n;
  while (a < end) {
    const uintptr_t cell = a & ~uintptr_t(7);
    uint8_t mask = 0;
    while (a < end && a < cell + 8) { mask |= 1u << (a - cell); ++a; }
    AccessCell(cell, mask, write, is_free);
  }
}

void Join(Clock& a, const Clock& b) { for (int i = 0; i < kMaxThreads; ++i) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }
void Tick() { ++g_threads[g_cur].vc.c[g_cur]; }
void AcquireOf(Lock& l) { Join(g_threads[g_cur].vc, l.vc); }
void ReleaseTo(Lock& l) { Join(l.vc, g_threads[g_cur].vc); Tick(); }

Lock& L(const void* m) { return (*g_locks)[m]; }

// Suspends the current thread until the scheduler picks it again.
void Suspend(std::function<bool()> ready) {
  Thread& t = g_threads[g_cur];
  t.ready = std::move(ready);
  const bool rt = g_rt;
  g_rt = false;
  swapcontext(&t.ctx, &g_main);
  g_rt = rt;
  t.ready = nullptr;
}

void Entry() {
  Thread& t = g_threads[g_cur];
  t.body();
  g_rt = true;
  t.done = true;
  swapcontext(&t.ctx, &g_main);
}

int AddThread(const std::function<void()>& body) {
  if (g_n == kMaxThreads) { fprintf(stderr, "too many threads\n"); abort(); }
  Thread& t = g_threads[g_n];
  if (!t.stack) t.stack = static_cast<char*>(malloc(kStack));
  t.body = body; t.started = t.done = false; t.ready = nullptr; t.op = "";
  t.vc = Clock{};
  if (g_cur >= 0) t.vc = g_threads[g_cur].vc;
  ++t.vc.c[g_n];   // a number that is used again goes on counting
  return g_n++;
}

bool Enabled(int i) { Thread& t = g_threads[i]; return !t.done && (!t.ready || t.ready()); }

// Runs one execution following the path, extending it with first choices.
void RunOne(const sched::Options& opt) {
  int last = -1, preemptions = 0;
  g_pos = 0;
  for (;;) {
    g_cur = -1;
    std::vector<int> enabled;
    bool all_done = true;
    for (int i = 0; i < g_n; ++i) {
      if (!g_threads[i].done) all_done = false;
      if (Enabled(i)) enabled.push_back(i);
    }
    if (all_done) break;
    if (enabled.empty()) {
      std::string w;
      for (int i = 0; i < g_n; ++i) if (!g_threads[i].done) w += std::string(w.empty() ? "" : ", ") + g_threads[i].op;
      Problem("deadlock of " + w);
      break;
    }
    // The running thread first, so that the first path has no preemptions.
    bool last_enabled = false;
    for (size_t i = 0; i < enabled.size(); ++i)
      if (enabled[i] == last) { std::swap(enabled[0], enabled[i]); last_enabled = true; }
    if ((last_enabled && preemptions >= opt.max_preemptions) || g_pos >= opt.branch_limit) {
      if (enabled.size() > 1 && g_pos >= opt.branch_limit) g_stats->capped = true;
      enabled.resize(1);
    }
    if (g_pos == g_path->size()) g_path->push_back({0, enabled});
    auto& node = (*g_path)[g_pos];
    node.second = enabled;
    if (size_t(node.first) >= enabled.size()) { fprintf(stderr, "the execution is not deterministic\n"); abort(); }
    const int next = enabled[node.first];
    if (last_enabled && next != last) ++preemptions;
    ++g_pos;
    ++g_stats->points;
    if (g_pos > 200000) { Problem("the threads never end"); break; }
    last = next;
    g_cur = next;
    Thread& t = g_threads[next];
    g_rt = false;
    if (!t.started) {
      t.started = true;
      getcontext(&t.ctx);
      t.ctx.uc_stack.ss_sp = t.stack;
      t.ctx.uc_stack.ss_size = kStack;
      t.ctx.uc_link = nullptr;
      makecontext(&t.ctx, Entry, 0);
    }
    swapcontext(&g_main, &t.ctx);
    g_rt = true;
  }
  g_cur = -1;
  g_rt = false;
}
}  // namespace

namespace sched {
Stats Explore(const std::function<std::vector<std::function<void()>>()>& setup, const std::function<bool(const std::string&)>& after, const Options& opt) {
  static std::string problem;
  static std::unordered_map<const void*, Lock> locks;
  static std::vector<void*> quarantine;
  std::vector<std::pair<int, std::vector<int>>> path;
  Stats stats;
  if (!g_cells) g_cells = static_cast<Cell*>(calloc(kCells, sizeof(Cell)));
  g_problem = &problem; g_locks = &locks; g_quarantine = &quarantine; g_path = &path; g_stats = &stats;
  g_main_thread = pthread_self();
  g_atomic_points = opt.atomic_points;
  g_stacks = opt.stacks;
  for (;;) {
    problem.clear(); locks.clear();
    ++g_generation;
    g_n = 0; g_cur = -1;
    {
      std::vector<std::function<void()>> bodies = setup();
      for (auto& b : bodies) AddThread(b);
    }
    RunOne(opt);
    path.resize(g_pos);
    ++stats.executions;
    stats.max_points = std::max(stats.max_points, uint64_t(g_pos));
    for (auto& l : locks) if ((l.second.owner >= 0 || l.second.readers) && problem.empty()) problem = "a lock is still held at the end";
    const bool go_on = after(problem);
    for (int i = 0; i < g_n; ++i) g_threads[i].body = nullptr;
    for (void* p : quarantine) __real_free(p);
    quarantine.clear();
    if (!go_on) break;
    while (!path.empty() && size_t(path.back().first) + 1 >= path.back().second.size()) path.pop_back();
    if (path.empty()) break;
    ++path.back().first;
  }
  g_path = nullptr; g_stats = nullptr;
  return stats;
}
void Point() { if (InThread()) { Rt rt; Suspend(nullptr); } }
void SetOp(const char* name) { if (g_cur >= 0) g_threads[g_cur].op = name; }
uint64_t Now() { return g_pos; }
int Self() { return g_cur; }
std::string Schedule() {
  std::string s;
  if (g_path) for (auto& n : *g_path) s += char('0' + n.second[n.first]);
  return s;
}
void WaitUntil(const std::function<bool()>& ready) { if (InThread()) { Rt rt; Suspend(ready); } }
void Release(const void* o) { if (InThread()) { Rt rt; ReleaseTo(L(o)); } }
void Acquire(const void* o) { if (InThread()) { Rt rt; AcquireOf(L(o)); } }
std::vector<int> Start(const std::vector<std::function<void()>>& bodies) {
  std::vector<int> ids;
  if (!InThread()) { fprintf(stderr, "threads started outside an execution\n"); abort(); }
  Rt rt;
  for (auto& b : bodies) { ids.push_back(AddThread(b)); g_threads[ids.back()].op = g_threads[g_cur].op; }
  Tick();
  return ids;
}
void Wait(const std::vector<int>& ids) {
  if (ids.empty() || !InThread()) return;
  Rt rt;
  Suspend([ids] { for (int i : ids) if (!g_threads[i].done) return false; return true; });
  for (int i : ids) Join(g_threads[g_cur].vc, g_threads[i].vc);
  Tick();
  if (ids.back() == g_n - 1) g_n = ids.front();   // thread numbers may be used again
}
void Fork(const std::vector<std::function<void()>>& bodies) {
  if (!InThread()) { for (auto& b : bodies) b(); return; }
  Wait(Start(bodies));
}
}  // namespace sched

// ---------------------------------------------------------------- locks ----
#define REAL(name, ...) static auto real = reinterpret_cast<int (*)(__VA_ARGS__)>(dlsym(RTLD_NEXT, name))
extern "C" {
static bool Recursive(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }
int pthread_mutex_lock(pthread_mutex_t* m) {
  if (!InThread()) { if (g_cur >= 0 || g_rt) return 0; REAL("pthread_mutex_lock", pthread_mutex_t*); return real(m); }
  Rt rt;
  ++g_stats->locks;
  { Lock& l = L(m); if (l.owner == g_cur && Recursive(m)) { ++l.count; return 0; } }
  Suspend([m] { return L(m).owner < 0; });
  Lock& l = L(m);
  l.owner = g_cur; l.count = 1;
  AcquireOf(l);
  return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
  if (!InThread()) { if (g_cur >= 0 || g_rt) return 0; REAL("pthread_mutex_trylock", pthread_mutex_t*); return real(m); }
  Rt rt;
  ++g_stats->locks;
  Suspend(nullptr);
  Lock& l = L(m);
  if (l.owner == g_cur && Recursive(m)) { ++l.count; return 0; }
  if (l.owner >= 0) return EBUSY;
  l.owner = g_cur; l.count = 1;
  AcquireOf(l);
  return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
  if (!InThread()) { if (g_cur >= 0 || g_rt) return 0; REAL("pthread_mutex_unlock", pthread_mutex_t*); return real(m); }
  Rt rt;
  Lock& l = L(m);
  if (l.owner != g_cur) { Problem("a mutex is unlocked that is not held, in " + std::string(g_threads[g_cur].op)); return EPERM; }
  if (--l.count == 0) { l.owner = -1; ReleaseTo(l); }
  return 0;
}
static int RdLock(pthread_rwlock_t* m) {
  Rt rt;
  ++g_stats->locks;
  Suspend([m] { return L(m).owner < 0; });
  Lock& l = L(m);
  ++l.readers; l.reader[g_cur] = true;
  AcquireOf(l);
  return 0;
}
static int WrLock(pthread_rwlock_t* m) {
  Rt rt;
  ++g_stats->locks;
  Suspend([m] { return L(m).owner < 0 && L(m).readers == 0; });
  Lock& l = L(m);
  l.owner = g_cur;
  AcquireOf(l);
  return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m) { if (!InThread()) { if (g_cur >= 0 || g_rt) return 0; REAL("pthread_rwlock_rdlock", pthread_rwlock_t*); return real(m); } return RdLock(m); }
int pthread_rwlock_wrlock(pthread_rwlock_t* m) { if (!InThread()) { if (g_cur >= 0 || g_rt) return 0; REAL("pthread_rwlock_wrlock", pthread_rwlock_t*); return real(m); } return WrLock(m); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* m) {
  if (!InThread()) { if (g_cur >= 0 || g_rt) return 0; REAL("pthread_rwlock_tryrdlock", pthread_rwlock_t*); return real(m); }
  { Rt rt; Suspend(nullptr); if (L(m).owner >= 0) return EBUSY; Lock& l = L(m); ++l.readers; l.reader[g_cur] = true; AcquireOf(l); }
  return 0;
}
int pthread_rwlock_trywrlock(pthread_rwlock_t* m) {
  if (!InThread()) { if (g_cur >= 0 || g_rt) return 0; REAL("pthread_rwlock_trywrlock", pthread_rwlock_t*); return real(m); }
  { Rt rt; Suspend(nullptr); if (L(m).owner >= 0 || L(m).readers) return EBUSY; Lock& l = L(m); l.owner = g_cur; AcquireOf(l); }
  return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t* m) {
  if (!InThread()) { if (g_cur >= 0 || g_rt) return 0; REAL("pthread_rwlock_unlock", pthread_rwlock_t*); return real(m); }
  Rt rt;
  Lock& l = L(m);
  if (l.owner == g_cur) l.owner = -1;
  else if (l.reader[g_cur]) { l.reader[g_cur] = false; --l.readers; }
  else { Problem("a lock is unlocked that is not held, in " + std::string(g_threads[g_cur].op)); return EPERM; }
  ReleaseTo(l);
  return 0;
}
}

// --------------------------------------------------------------- memory ----
static void* Alloc(size_t n) {
  void* p = malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  return p;
}
static void Release_(void* p, size_t n) {
  if (!p) return;
  if (!InThread()) { __real_free(p); return; }
  if (n) Access(p, n, true, true);
  Rt rt;
  g_quarantine->push_back(p);
}
#include <malloc.h>
void* operator new(size_t n) { return Alloc(n); }
void* operator new[](size_t n) { return Alloc(n); }
void operator delete(void* p) noexcept { Release_(p, p ? malloc_usable_size(p) : 0); }
void operator delete[](void* p) noexcept { Release_(p, p ? malloc_usable_size(p) : 0); }
void operator delete(void* p, size_t n) noexcept { Release_(p, n); }
void operator delete[](void* p, size_t n) noexcept { Release_(p, n); }

extern "C" {
void __wrap_free(void* p) { if (p) Release_(p, InThread() ? malloc_usable_size(p) : 0); }
void* __real_memcpy(void*, const void*, size_t);
void* __real_memmove(void*, const void*, size_t);
void* __real_memset(void*, int, size_t);
int __real_memcmp(const void*, const void*, size_t);
void* __wrap_memcpy(void* d, const void* s, size_t n) { Access(s, n, false); Access(d, n, true); return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { Access(s, n, false); Access(d, n, true); return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int c, size_t n) { Access(d, n, true); return __real_memset(d, c, n); }
int __wrap_memcmp(const void* a, const void* b, size_t n) { Access(a, n, false); Access(b, n, false); return __real_memcmp(a, b, n); }

void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n)                                                               \
  void __tsan_read##n(void* p) { Access(p, n, false); }                     \
  void __tsan_write##n(void* p) { Access(p, n, true); }                     \
  void __tsan_unaligned_read##n(void* p) { Access(p, n, false); }           \
  void __tsan_unaligned_write##n(void* p) { Access(p, n, true); }           \
  void __tsan_volatile_read##n(void* p) { Access(p, n, false); }            \
  void __tsan_volatile_write##n(void* p) { Access(p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { Access(p, n, false); }
void __tsan_write_range(void* p, size_t n) { Access(p, n, true); }
void __tsan_vptr_update(void** p, void*) { Access(p, 8, true); }
void __tsan_vptr_read(void** p) { Access(p, 8, false); }

// Atomics: sequentially consistent. Counting down releases, and acquires when
// zero is reached (reference counts); counting up makes no order; everything
// else acquires and releases. Schedule points only if asked for.
static void AtomicEdge(const volatile void* p, bool acquire = true, bool release = true) {
  if (!InThread()) return;
  Rt rt;
  if (g_atomic_points) Suspend(nullptr);
  Lock& l = L(const_cast<const void*>(p));
  if (acquire) AcquireOf(l);
  if (release) ReleaseTo(l);
}
}
template <typename T>
static T Add(volatile T* p, T d) {
  const bool down = d >> (sizeof(T) * 8 - 1);
  AtomicEdge(p, down && T(*p + d) == 0, down);
  const T o = *p;
  *p = o + d;
  return o;
}
extern "C" {
#define ATOMIC(bits, T)                                                                                                      \
  T __tsan_atomic##bits##_load(const volatile T* p, int) { AtomicEdge(p, true, false); return *p; }                                 \
  void __tsan_atomic##bits##_store(volatile T* p, T v, int) { AtomicEdge(p); *p = v; }                                 \
  T __tsan_atomic##bits##_exchange(volatile T* p, T v, int) { AtomicEdge(p); T o = *p; *p = v; return o; }             \
  T __tsan_atomic##bits##_fetch_add(volatile T* p, T v, int) { return Add(p, v); }       \
  T __tsan_atomic##bits##_fetch_sub(volatile T* p, T v, int) { return Add(p, static_cast<T>(-v)); }       \
  T __tsan_atomic##bits##_fetch_and(volatile T* p, T v, int) { AtomicEdge(p); T o = *p; *p = o & v; return o; }        \
  T __tsan_atomic##bits##_fetch_or(volatile T* p, T v, int) { AtomicEdge(p); T o = *p; *p = o | v; return o; }         \
  T __tsan_atomic##bits##_fetch_xor(volatile T* p, T v, int) { AtomicEdge(p); T o = *p; *p = o ^ v; return o; }        \
  T __tsan_atomic##bits##_fetch_nand(volatile T* p, T v, int) { AtomicEdge(p); T o = *p; *p = ~(o & v); return o; }    \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T* p, T* e, T v, int, int) {                                    \
    AtomicEdge(p); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; }                                            \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T* p, T* e, T v, int, int) {                                      \
    AtomicEdge(p); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; }                                            \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T* p, T e, T v, int, int) {                                          \
    AtomicEdge(p); T o = *p; if (o == e) *p = v; return o; }
ATOMIC(8, unsigned char) ATOMIC(16, unsigned short) ATOMIC(32, unsigned int) ATOMIC(64, unsigned long)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}
