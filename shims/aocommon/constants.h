#ifndef VP_AOCOMMON_CONSTANTS_H
#define VP_AOCOMMON_CONSTANTS_H
namespace aocommon { constexpr long double kSpeedOfLight = 299792458.0L; }
#endif
