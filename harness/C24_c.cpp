#include "C24.h"
namespace {
PP(uint16_t, uint32_t, SP, int, true)
}
