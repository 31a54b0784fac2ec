#include "C02.h"
namespace { F7(int) }
