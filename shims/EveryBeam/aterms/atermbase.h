#include <EveryBeam/mini.h>
