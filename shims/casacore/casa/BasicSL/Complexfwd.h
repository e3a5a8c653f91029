#include <casacore/mini.h>
