#include "C02.h"
namespace { F7(void) }
namespace { F3(false, false, false, float) F3(false, false, false, int) F3(false, false, false, unsigned) }
