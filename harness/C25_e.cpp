#include "C25.h"
namespace {
LK(int, int, PTR, float, true)
}
