#include "C17.h"
namespace {
RC(int, int, VEC, float, true)
}
