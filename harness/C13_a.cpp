#include "C13.h"
namespace { OMC_ADD(Ints<uint8_t>()); OMC_ADD(Ints<int8_t>()); OMC_ADD(Ints<uint16_t>()); OMC_ADD(Ints<int16_t>()); OMC_ADD(Ints<uint32_t>()); OMC_ADD(Ints<int>()); OMC_ADD(Ints<uint64_t>()); OMC_ADD(Ints<int64_t>()); }
