// Stand-in for aocommon's logger: swallows everything that is streamed to it,
// or passes it on to vp_sink if a harness wants to see it.
#ifndef VP_SHIM_AOCOMMON_LOGGER_H_
#define VP_SHIM_AOCOMMON_LOGGER_H_
#include <iostream>
#include <sstream>
#include <stdexcept>
#include <string>
#include <aocommon/system.h>
namespace aocommon {
struct LogStream {
  static inline thread_local std::ostream* vp_sink = nullptr;
  template <typename T>
  LogStream& operator<<(const T& t) { if (vp_sink) *vp_sink << t; return *this; }
  LogStream& operator<<(std::ostream& (*f)(std::ostream&)) { if (vp_sink) *vp_sink << f; return *this; }
  LogStream& Flush() { return *this; }
};
enum class LogVerbosityLevel { kQuiet, kNormal, kVerbose };
inline LogVerbosityLevel StringToLogVerbosityLevel(const std::string& s) {
  if (s == "quiet") return LogVerbosityLevel::kQuiet;
  if (s == "normal") return LogVerbosityLevel::kNormal;
  if (s == "verbose") return LogVerbosityLevel::kVerbose;
  throw std::runtime_error("Unknown verbosity level: " + s);
}
class Logger {
 public:
  static inline thread_local LogStream Fatal, Error, Warn, Info, Debug, Progress;
  static inline LogVerbosityLevel vp_verbosity = LogVerbosityLevel::kNormal;
  static void SetVerbosity(LogVerbosityLevel v) { vp_verbosity = v; }
  static bool IsVerbose() { return vp_verbosity == LogVerbosityLevel::kVerbose; }
  static void SetLogTime(bool) {}
  static void SetLogMemory(bool) {}
};
}  // namespace aocommon
#endif
