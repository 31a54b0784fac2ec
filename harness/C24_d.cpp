#include "C24.h"
namespace {
PP(uint64_t, uint32_t, PTR, float, false)
}
