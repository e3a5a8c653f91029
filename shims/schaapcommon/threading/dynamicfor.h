#include <schaapcommon/threading/mini.h>
