#include "../mocks.h"
