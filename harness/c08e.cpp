#define NO_MAIN
#include "c08.h"
void part5(Ctx &c, Rng &r) {
    N = c.n(2500);
    UN(cos, 2, 0) UN(sin, 2, 0) UN(acos, 2, 0) UN(acosh, 2, 0) UN(asin, 2, 0) UN(asinh, 2, 0) UN(atan, 2, 0) UN(atanh, 2, 0) UN(cosh, 2, 0) UN(degrees, 2, 0) UN(radians, 2, 0) UN(sinh, 2, 0) UN(tan, 2, 0) UN(tanh, 2, 0) BIN(atan, 2, 0)
    c.sample("mix(vec3, vec3, bvec3) with NaN and infinities in single lanes"); c.sample("pow(quat, float) against pow(float, float) per part");
}
