#include "C17.h"
namespace {
RC(uint32_t, uint32_t, PTR, float, true)
}
