#include "C04.h"
namespace { M4(false, false, false, true) M4(true, true, false, true) M4(true, false, true, true) M4(false, true, true, true) M4(true, true, true, false) }
