#include "C03.h"
namespace { W2(int8_t) W2(int16_t) W2(int32_t) W2(int64_t) }
