#include "c08.h"
void part2(Ctx &, Rng &); void part3(Ctx &, Rng &); void part4(Ctx &, Rng &); void part5(Ctx &, Rng &);
void run(Ctx &c, Rng &r) {
    N = c.n(2500);
    UN(ceil, 0, 0) UN(floor, 0, 0) UN(fract, 1, 1) UN(round, 0, 0) UN(roundEven, 0, 0) UN(sign, 0, 0) UN(signNotZero, 0, 0) UN(trunc, 0, 0) UN(abs, 0, 0)
    UN(isinf, 0, 0) UN(isnan, 0, 0) UNQ(isinf, 0) UNQ(isnan, 0)
    { // integers; the most negative one has no absolute value
        Fn f{"abs", 0, false}; auto s = [](int a) { return zcm::abs(a); };
        auto nomin = [](auto v) { for (unsigned i = 0; i < sizeof v / 4; ++i) { int x[4]; memcpy((void *)x, (void *)&v, sizeof v); if (x[i] == INT32_MIN) { x[i] = -5; memcpy((void *)&v, (void *)x, sizeof v); } } return v; };
        for (u64 i = 0; i < N; ++i) { STEP(r)
            int x[4];
            c.group("abs of ivec2"); ivec2 a = nomin(ti_any<ivec2>(r)); c.eval(hsh(a)); get(a, x); judge<ivec2>(f, zcm::abs(a), s, -1, str(a), (const int *)x);
            c.group("abs of ivec3"); ivec3 b = nomin(ti_any<ivec3>(r)); c.eval(hsh(b)); get(b, x); judge<ivec3>(f, zcm::abs(b), s, -1, str(b), (const int *)x);
            c.group("abs of ivec4"); ivec4 d = nomin(ti_any<ivec4>(r)); c.eval(hsh(d)); get(d, x); judge<ivec4>(f, zcm::abs(d), s, -1, str(d), (const int *)x);
        }
    }
    UNI(sign) UNI(signNotZero) BINI(max) BINI(min)
    { Fn f{"clamp", 0, false}; auto s = [](int a, int b, int d) { return zcm::clamp(a, b, d); }; tern<ivec2, ivec2>(r, f, L3(clamp), s); tern<ivec3, ivec3>(r, f, L3(clamp), s); tern<ivec4, ivec4>(r, f, L3(clamp), s); }
    part2(c, r); part3(c, r); part4(c, r); part5(c, r);
}
