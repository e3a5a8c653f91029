// Stand-in for the header that CMake generates from base/Version.h.in.
#ifndef DPPP_DPPP_VERSION_H
#define DPPP_DPPP_VERSION_H
#include <string>
class DP3Version { public: static std::string AsString(bool = false) { return "DP3 6.5.0"; } static std::string GetVersion() { return "6.5.0"; } };
#endif
