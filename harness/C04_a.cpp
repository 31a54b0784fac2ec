#include "C04.h"
namespace { M4(false, false, false, false) M4(true, false, false, false) M4(false, true, false, false) M4(false, false, true, false) }
