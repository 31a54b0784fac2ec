#include "C16.h"
namespace {
typedef int8_t I8; typedef uint16_t H;
BOTH(GR, "coo_sym", l_coo<U, U, PTR, true, false, false, false, float>)
BOTH(GR, "coo_up", l_coo<B8, U, VEC, true, true, false, false, float>)
OMC_ADD(Narrow(GR, "coo8_sym", l_coo<B8, B8, PTR, true, false, false, false, float>, 116)); OMC_ADD(Narrow(GR, "coo8_sym2", l_coo<H, B8, VEC, true, false, false, false, float>, 116));
OMC_ADD(Narrow(GR, "coo8_symw", l_coo<H, B8, SP, true, false, false, false, float>)); OMC_ADD(Narrow(GR, "coo8_up", l_coo<B8, B8, PTR, true, true, false, false, float>));
OMC_ADD(Narrow(GR, "cooi8_sym", l_coo<I8, I8, PTR, true, false, false, false, float>, 50)); OMC_ADD(Narrow(GR, "cooi8_up", l_coo<int16_t, I8, VEC, true, true, false, false, float>, 112));
}
