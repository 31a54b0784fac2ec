#include "C24.h"
namespace {
PP(uint32_t, uint32_t, PTR, float, true)
}
