#define NO_MAIN
#include "c08.h"
void part3(Ctx &c, Rng &r) {
    N = c.n(2500);
    REL(lessThan, <) REL(lessThanEqual, <=) REL(greaterThan, >) REL(greaterThanEqual, >=) REL(equal, ==) REL(notEqual, !=)
    { Fn f{"equal", 0, false}; bin<quat, quat>(r, f, L2(equal), [](float a, float b) -> bool { return a == b; }); auto s = [](bool a, bool b) -> bool { return a == b; }; bin<bvec2, bvec2>(r, f, L2(equal), s); bin<bvec3, bvec3>(r, f, L2(equal), s); bin<bvec4, bvec4>(r, f, L2(equal), s); }
    { Fn f{"notEqual", 0, false}; bin<quat, quat>(r, f, L2(notEqual), [](float a, float b) -> bool { return a != b; }); auto s = [](bool a, bool b) -> bool { return a != b; }; bin<bvec2, bvec2>(r, f, L2(notEqual), s); bin<bvec3, bvec3>(r, f, L2(notEqual), s); bin<bvec4, bvec4>(r, f, L2(notEqual), s); }
}
