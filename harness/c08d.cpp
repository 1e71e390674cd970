#define NO_MAIN
#include "c08.h"
void part4(Ctx &c, Rng &r) {
    N = c.n(2500);
    UN(exp, 2, 0) UN(exp2, 2, 0) UN(inversesqrt, 2, 0) UN(log, 2, 0) UN(log2, 2, 0) UN(sqrt, 1, 0) UN(cbrt, 2, 0) BIN(pow, 2, 0)
    UNQ(exp, 2) UNQ(exp2, 2) UNQ(inversesqrt, 2) UNQ(log, 2) UNQ(log2, 2) UNQ(sqrt, 1) UNQ(cbrt, 2)
    { Fn f{"pow", 2, false}; bins<quat>(r, f, L2(pow), [](float a, float b) { return zcm::pow(a, b); }); }
}
