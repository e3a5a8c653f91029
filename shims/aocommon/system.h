// Stand-in: the number of processors is fixed, so that results do not depend on the machine.
#ifndef VP_AOCOMMON_SYSTEM_H
#define VP_AOCOMMON_SYSTEM_H
#include <cstddef>
namespace aocommon::system { inline size_t ProcessorCount() { return 4; } inline long TotalMemory() { return 8L << 30; } }
#endif
