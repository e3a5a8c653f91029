#include <aocommon/matrix2x2.h>
