#include "C13.h"
namespace { OMC_ADD(Floats<float>(0)); OMC_ADD(Floats<float>(1)); OMC_ADD(Floats<double>(0)); OMC_ADD(Floats<double>(1)); }
