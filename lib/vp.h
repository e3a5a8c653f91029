// Support code for the exhaustive enumerators: case keys, sharding, counters,
// violation records, crash/hang attribution and replay of one single case.
#ifndef VP_H_
#define VP_H_
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <csignal>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>

namespace vp {

struct Shared {           // mmap'ed file, survives a crash of this process
  volatile uint64_t serial;
  volatile uint64_t hang;
  char key[8176];
};

struct State {
  bool thorough = false;
  uint64_t shard = 0, n_shards = 1;
  std::string only;       // replay: check only this case
  bool has_only = false;
  std::string out = "/dev/stdout";
  Shared* shared = nullptr;
  uint64_t index = 0;     // index of the next case
  uint64_t states = 0, transitions = 0, traces = 0, skipped = 0;
  std::unordered_set<uint64_t> outcomes;
  std::vector<std::pair<std::string, std::string>> violations;
  uint64_t n_violations = 0;
  std::vector<std::string> samples;
  std::map<std::string, uint64_t> extra;
  std::set<std::string> notes;
  std::string key;        // the current case
  uint64_t last_serial = 0;
  unsigned stuck = 0;
  unsigned hang_limit = 60;
  bool case_failed = false;
};

inline State& S() {
  static State s;
  return s;
}

inline uint64_t Hash(const void* data, size_t n, uint64_t h = 1469598103934665603ull) {
  const unsigned char* p = static_cast<const unsigned char*>(data);
  for (size_t i = 0; i < n; ++i) { h ^= p[i]; h *= 1099511628211ull; }
  return h;
}

inline std::string JsonEscape(const std::string& s) {
  std::string r;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += char(c); }
    else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    else r += char(c);
  }
  return r;
}

// Makes any text printable (used in keys, so that keys survive JSON).
inline std::string Show(const std::string& s) {
  std::string r = "'";
  for (unsigned char c : s) {
    if (c == '\n') r += "\\n";
    else if (c == '\t') r += "\\t";
    else if (c == '\\') r += "\\\\";
    else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); r += b; }
    else r += char(c);
  }
  return r + "'";
}

// The handler may interrupt anything, so that it touches nothing but the state,
// and is not watched by the scheduler.
inline State* tick_state = nullptr;
__attribute__((no_sanitize("thread", "address"), noinline)) inline void OnTick(int) {
  if (!tick_state || !tick_state->shared) return;
  State& s = *tick_state;
  if (s.shared->serial == s.last_serial && s.last_serial != 0) {
    if (++s.stuck >= s.hang_limit) {
      s.shared->hang = 1;
      _exit(97);
    }
  } else {
    s.last_serial = s.shared->serial;
    s.stuck = 0;
  }
}

inline void Init(int argc, char** argv) {
  State& s = S();
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto next = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
    if (a == "--tier") s.thorough = next() == "thorough";
    else if (a == "--shard") s.shard = strtoull(next().c_str(), nullptr, 10);
    else if (a == "--nshards") s.n_shards = strtoull(next().c_str(), nullptr, 10);
    else if (a == "--only") { s.only = next(); s.has_only = true; }
    else if (a == "--out") s.out = next();
    else if (a == "--hang") s.hang_limit = atoi(next().c_str());
    else if (a == "--cur") {
      int fd = open(next().c_str(), O_RDWR | O_CREAT, 0600);
      if (fd >= 0 && ftruncate(fd, sizeof(Shared)) == 0) {
        void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        if (p != MAP_FAILED) { s.shared = static_cast<Shared*>(p); s.shared->serial = 0; s.shared->hang = 0; s.shared->key[0] = 0; }
        close(fd);
      }
    }
  }
  tick_state = &s;
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_handler = OnTick;
  sa.sa_flags = SA_RESTART;
  sigaction(SIGALRM, &sa, nullptr);
  itimerval tv{{1, 0}, {1, 0}};
  setitimer(ITIMER_REAL, &tv, nullptr);
}

inline bool Thorough() { return S().thorough; }

// Starts a case. False: not in this shard (or not the case to be replayed).
template <typename KeyFn>
bool CaseF(KeyFn key_fn) {
  State& s = S();
  const uint64_t i = s.index++;
  if (!s.has_only && s.n_shards > 1 && i % s.n_shards != s.shard) return false;
  s.key = key_fn();
  if (s.has_only && s.key != s.only) return false;
  ++s.states;
  s.case_failed = false;
  if (s.shared) {
    strncpy(s.shared->key, s.key.c_str(), sizeof(s.shared->key) - 1);
    s.shared->key[sizeof(s.shared->key) - 1] = 0;
    s.shared->serial = s.shared->serial + 1;
  }
  // Samples: cases number 0, 1, 10, 100, 1000...
  bool sample = s.states <= 1;
  for (uint64_t p = 10; p <= 1000000000ull; p *= 10) if (s.states == p) sample = true;
  if (sample && s.samples.size() < 12) s.samples.push_back(s.key);
  return true;
}
inline bool Case(const std::string& key) { return CaseF([&] { return key; }); }

inline void Progress() { if (S().shared) S().shared->serial = S().shared->serial + 1; }
inline void Step(uint64_t n = 1) { S().transitions += n; }
inline void Trace(uint64_t n = 1) { S().traces += n; }
inline void Outcome(uint64_t h) { if (S().outcomes.size() < 2000000) S().outcomes.insert(h); }
inline void Outcome(const std::string& t) { Outcome(Hash(t.data(), t.size())); }
inline void Count(const std::string& name, uint64_t n = 1) { S().extra[name] += n; }

// One violation record per case is kept (the first), at most 40 records.
inline void Fail(const std::string& msg) {
  State& s = S();
  if (s.case_failed) return;
  s.case_failed = true;
  ++s.n_violations;
  if (s.violations.size() < 40) s.violations.emplace_back(s.key, msg);
}
inline bool Check(bool ok, const std::string& msg) {
  if (!ok) Fail(msg);
  return ok;
}

// The same with a message built from several parts, only when it fails.
template <typename A, typename B, typename... C>
bool Check(bool ok, const A& a, const B& b, const C&... c) {
  if (!ok) {
    std::ostringstream o;
    o.precision(17);
    o << a << b;
    ((o << c), ...);
    Fail(o.str());
  }
  return ok;
}

inline int Finish() {
  State& s = S();
  FILE* f = fopen(s.out.c_str(), "w");
  if (!f) return 98;
  fprintf(f, "{\"states\": %llu, \"transitions\": %llu, \"traces\": %llu, \"n_violations\": %llu,\n",
          (unsigned long long)s.states, (unsigned long long)s.transitions,
          (unsigned long long)s.traces, (unsigned long long)s.n_violations);
  fprintf(f, "\"violations\": [");
  for (size_t i = 0; i < s.violations.size(); ++i)
    fprintf(f, "%s{\"key\": \"%s\", \"msg\": \"%s\"}", i ? ",\n" : "",
            JsonEscape(s.violations[i].first).c_str(), JsonEscape(s.violations[i].second).c_str());
  fprintf(f, "],\n\"samples\": [");
  for (size_t i = 0; i < s.samples.size(); ++i)
    fprintf(f, "%s\"%s\"", i ? ",\n" : "", JsonEscape(s.samples[i]).c_str());
  fprintf(f, "],\n\"extra\": {");
  bool first = true;
  for (auto& e : s.extra) { fprintf(f, "%s\"%s\": %llu", first ? "" : ", ", JsonEscape(e.first).c_str(), (unsigned long long)e.second); first = false; }
  fprintf(f, "},\n\"outcomes\": [");
  first = true;
  for (uint64_t h : s.outcomes) { fprintf(f, "%s\"%llx\"", first ? "" : ",", (unsigned long long)h); first = false; }
  fprintf(f, "]}\n");
  fclose(f);
  return 0;
}

// Runs body; returns "" if it returned, or "!<type>" if it threw.
template <typename F>
std::string Throws(F body) {
  try { body(); return ""; }
  catch (std::exception&) { return "!exception"; }
  catch (...) { return "!other"; }
}

template <typename T>
std::string Str(const T& t) { std::ostringstream os; os.precision(17); os << t; return os.str(); }

}  // namespace vp
#endif
