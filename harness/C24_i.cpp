#include "stay.h"
namespace {
STAY(int, int, PTR, int, true)
}
