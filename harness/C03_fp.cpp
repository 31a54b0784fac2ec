#include "C03.h"
namespace { W2(float) W2(double) }
