// Component reductions.
#include "common.h"
#include <zcm/component_wise.hpp>
using namespace zcm;
template <class T> void ints(Ctx &c, Rng &r, u64 n) {
    const int N = Dim<T>::n; std::string nm = Dim<T>::name();
    for (u64 it = 0; it < n; ++it) { STEP(r)
        int a[4]; bool big = r.coin();
        for (int i = 0; i < N; ++i) { a[i] = i_any(r) / 5; if (!big) a[i] %= 1000; }
        if (r.chance(1, 4)) for (int i = 0; i < N; ++i) a[i] = 1 << (8 * i);
        if (r.chance(1, 4)) { int k = r.below(N); for (int i = 0; i < N; ++i) if (i != k) a[i] = a[k]; a[r.below(N)] += r.coin() ? 1 : -1; }
        if (r.chance(1, 6)) { int v0 = i_any(r) / 6, w0 = std::abs(v0) / 20 + 1; bool inc = r.coin(); for (int i = 0; i < N; ++i) a[i] = inc ? v0 + w0 * i / N : v0 - w0 * i / N; }
        T v = mk<T>(a); int64_t s = 0; for (int i = 0; i < N; ++i) s += a[i];
        c.group("compAdd " + nm); c.eval(hsh(v)); if (compAdd(v) != int(s)) c.fail("compAdd of " + nm, str(v) + " gives " + std::to_string(compAdd(v)));
        int b[4]; for (int i = 0; i < N; ++i) { b[i] = int(r.below(361)) - 180; if (r.chance(1, 5)) b[i] = int(r.below(3)) - 1; }
        if (r.chance(1, 4)) { for (int i = 0; i < N; ++i) b[i] = r.coin() ? 1 : -1; b[r.below(N)] = i_any(r) / 2; }
        if (r.chance(1, 4)) { static const int p[] = {2, 3, 5, 7, 11, 13, 17, 19, 23, 29}; for (int i = 0; i < N; ++i) b[i] = p[r.below(10)]; }
        if (r.chance(1, 6)) { int v0 = 20 + int(r.below(150)), g = r.coin() ? 1 : -1; for (int i = 0; i < N; ++i) b[i] = g * (v0 + int(r.below(v0 / 10 + 1))); if (r.coin()) std::sort(b, b + N); if (r.coin()) std::reverse(b, b + N); }
        T w = mk<T>(b); int64_t m = 1; for (int i = 0; i < N; ++i) m *= b[i];
        c.group("compMul " + nm); c.eval(hsh(w)); if (compMul(w) != int(m)) c.fail("compMul of " + nm, str(w) + " gives " + std::to_string(compMul(w)));
        T u = ti_any<T>(r); get(u, a); int lo = a[0], hi = a[0]; for (int i = 1; i < N; ++i) { lo = a[i] < lo ? a[i] : lo; hi = a[i] > hi ? a[i] : hi; }
        c.group("compMin " + nm); c.eval(hsh(u)); if (compMin(u) != lo) c.fail("compMin of " + nm, str(u) + " gives " + std::to_string(compMin(u)));
        c.group("compMax " + nm); c.eval(hsh(u)); if (compMax(u) != hi) c.fail("compMax of " + nm, str(u) + " gives " + std::to_string(compMax(u)));
    }
}
template <class T> void floats(Ctx &c, Rng &r, u64 n) {
    const int N = Dim<T>::n; std::string nm = Dim<T>::name();
    for (u64 it = 0; it < n; ++it) { STEP(r)
        T v = t_wide<T>(r, 1e-9, 1e9); float a[4]; get(v, a); double s = 0, m = 0; for (int i = 0; i < N; ++i) { s += a[i]; m += std::fabs(double(a[i])); }
        c.group("compAdd " + nm); c.eval(hsh(v)); if (!near_(compAdd(v), s, m, 4)) c.fail("compAdd of " + nm, str(v) + " gives " + fs(compAdd(v)) + " expected " + ds(s));
        double p = 1; for (int i = 0; i < N; ++i) p *= a[i];
        c.group("compMul " + nm); c.eval(hsh(v)); if (!near_(compMul(v), p, p, 4)) c.fail("compMul of " + nm, str(v) + " gives " + fs(compMul(v)) + " expected " + ds(p));
        T u = t_any<T>(r); get(u, a); for (int i = 0; i < N; ++i) if (isnanf_(a[i])) a[i] = float(i); 
        if (r.chance(1, 4)) for (int i = 0; i < N; ++i) a[i] = -std::fabs(a[i]);
        if (r.chance(1, 4)) for (int i = 0; i < N; ++i) a[i] = std::fabs(a[i]);
        u = mk<T>(a); float lo = a[0], hi = a[0]; for (int i = 1; i < N; ++i) { if (a[i] < lo) lo = a[i]; if (a[i] > hi) hi = a[i]; }
        c.group("compMin " + nm); c.eval(hsh(u)); if (!(compMin(u) == lo)) c.fail("compMin of " + nm, str(u) + " gives " + fs(compMin(u)));
        c.group("compMax " + nm); c.eval(hsh(u)); if (!(compMax(u) == hi)) c.fail("compMax of " + nm, str(u) + " gives " + fs(compMax(u)));
        // infinities and NaN reach the sum and the product
        get(v, a); int k = r.below(N); float inf = r.coin() ? INFINITY : -INFINITY; a[k] = inf; T w = mk<T>(a); c.group("compAdd special " + nm); c.eval(hsh(w)); if (!(compAdd(w) == inf)) c.fail("compAdd of " + nm + " with an infinity", str(w) + " gives " + fs(compAdd(w)));
        a[k] = NAN; w = mk<T>(a); c.eval(hsh(w)); if (!isnanf_(compAdd(w)) || !isnanf_(compMul(w))) c.fail("compAdd/compMul of " + nm + " with a NaN", str(w));
    }
}
void run(Ctx &c, Rng &r) {
    u64 n = c.n(50000);
    ints<ivec2>(c, r, n); ints<ivec3>(c, r, n); ints<ivec4>(c, r, n); floats<vec2>(c, r, n); floats<vec3>(c, r, n); floats<vec4>(c, r, n);
    c.sample("compMul(ivec4) of primes"); c.sample("compMin(vec3) of negative values and infinities");
}
