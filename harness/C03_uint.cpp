#include "C03.h"
namespace { W2(uint8_t) W2(uint16_t) W2(uint32_t) W2(uint64_t) }
