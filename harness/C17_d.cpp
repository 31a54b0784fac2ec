#include "C17.h"
namespace {
RC(uint16_t, uint16_t, PTR, float, false)
}
