// The momentum function defined inline in reactions.h has the same symbol as the one in calculations.cpp;
// renamed here by the preprocessor so that both definitions reach the verified module.
#include <cmath>
#define p_from_T p_from_T_inline
#include "catima/reactions.h"
double vf_use_inline_momentum(double T, double M) {
#if defined(REACTIONS) && !defined(NUREX)
    return catima::p_from_T_inline(T, M);
#else
    return 0;
#endif
}
