#include <schaapcommon/h5parm/mini.h>
