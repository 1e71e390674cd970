// Dot, cross, length, distance, normalize against double-precision Euclidean definitions.
#include "common.h"
#include <zcm/geometric.hpp>
using namespace zcm;
// components around a common scale so that squares stay in range; zeros and outliers included
template <class T> T gen(Rng &r, double lo = 5e-18, double hi = 4e17) {
    float a[4]; double s = r.coin() ? 1 : r.chance(1, 4) ? 1 + r.sgn() * r.logu(1e-7, 1e-1) : r.logu(lo, hi); if (s != 1 && r.chance(1, 6)) s = std::ldexp(1.0, std::ilogb(s));
    if (r.chance(1, 3)) { tuple_gen(r, a, Dim<T>::n, [](Rng &q) { return float(int(q.below(9)) - 4); }); for (int i = 0; i < Dim<T>::n; ++i) a[i] = float(a[i] * s); }
    else if (r.chance(1, 4)) { unit_gen(r, a, Dim<T>::n); for (int i = 0; i < Dim<T>::n; ++i) a[i] = float(a[i] * s); }
    else tuple_gen(r, a, Dim<T>::n, [s](Rng &q) { return float(s * q.sgn() * (q.coin() ? q.u01() : q.logu(1e-6, 10))); });
    bool any = false; for (int i = 0; i < Dim<T>::n; ++i) any |= std::fabs(a[i]) > 2e-18;
    if (!any) a[r.below(Dim<T>::n)] = float(s * (0.5 + r.u01()));
    return mk<T>(a);
}
// a second operand related to the first: equal, opposite, nearly parallel, nearly equal, sharing components, independent
template <class T> T rel(Rng &r, const T &a) {
    float x[4], y[4]; get(a, x); T b = gen<T>(r); get(b, y);
    switch (r.below(8)) {
    case 7: for (int i = 0; i < Dim<T>::n; ++i) { if (r.coin()) y[i] = x[i]; if (y[i] == 0 && r.coin()) y[i] = r.coin() ? 0.0f : -0.0f; } break;
    case 0: return a;
    case 1: for (int i = 0; i < Dim<T>::n; ++i) y[i] = -x[i]; break;
    case 2: { double s = r.sgn() * r.logu(1e-2, 1e2); for (int i = 0; i < Dim<T>::n; ++i) y[i] = float(x[i] * s); break; }
    case 3: for (int i = 0; i < Dim<T>::n; ++i) y[i] = float(x[i] * (1 + r.gauss() * 1e-6)); break;
    case 4: { int k = r.below(Dim<T>::n); y[k] = x[k]; break; }
    default: break;
    }
    return mk<T>(y);
}
static const double K = 8;
template <class T> void scalar(const char *f, float got, double ref, double mag, double k, const T &a, const T &b) {
    if (!near_(got, ref, mag, k)) ctx().fail(std::string(f) + " of " + Dim<T>::name(), str(a) + ", " + str(b) + " gives " + fs(got) + " expected " + ds(ref));
}
template <class T> void dots(Ctx &c, Rng &r, u64 n) {
    std::string nm = Dim<T>::name();
    for (u64 i = 0; i < n; ++i) { STEP(r)
        T a = gen<T>(r), b = rel(r, a); DV x = dv(a), y = dv(b); u64 h = hall(1, a, b);
        c.group("dot " + nm); c.eval(h); scalar("dot", zcm::dot(a, b), ddot(x, y), dadot(x, y), K, a, b);
        c.group("length2 " + nm); c.eval(h); scalar("length2", zcm::length2(a), ddot(x, x), ddot(x, x), K, a, b);
        float l = zcm::length(a); c.group("length " + nm); c.eval(h); scalar("length", l, dlen(x), dlen(x), K, a, b);
        if (!(l >= 0)) c.fail("length of " + nm + " negative", str(a));
    }
    float z[4] = {0, 0, 0, 0}; T o = mk<T>(z); if (zcm::length(o) != 0 || zcm::length2(o) != 0) c.fail("length of zero " + nm, "not zero");
}
template <class T> void dists(Ctx &c, Rng &r, u64 n) {
    std::string nm = Dim<T>::name();
    for (u64 i = 0; i < n; ++i) { STEP(r)
        T a = gen<T>(r), b = rel(r, a); DV x = dv(a), y = dv(b), d = dsub(x, y); u64 h = hall(2, a, b);
        // the differences are rounded once each; when they are tiny, their squares may leave the range
        double m = dlen(d); if (m != 0 && (m < 2e-18 || m > 4e18)) continue;
        float g = zcm::distance(a, b); c.group("distance " + nm); c.eval(h); scalar("distance", g, m, m, K, a, b); if (!(g >= 0)) c.fail("distance of " + nm + " negative", sall(a, b));
        c.group("distance2 " + nm); c.eval(h); scalar("distance2", zcm::distance2(a, b), m * m, m * m, K, a, b);
    }
}
template <class T> void norms(Ctx &c, Rng &r, u64 n) {
    std::string nm = Dim<T>::name();
    for (u64 i = 0; i < n; ++i) { STEP(r)
        T a = gen<T>(r), g = zcm::normalize(a); DV x = dv(a), e = dnorm(x), y = dv(g);
        c.group("normalize " + nm); c.eval(hsh(a));
        float q[4]; get(g, q); bool ok = true;
        for (int j = 0; j < Dim<T>::n; ++j) if (!(std::fabs(q[j] - e[j]) <= K * EPS * std::fabs(e[j]) + 1e-40)) ok = false;
        if (!ok || !(std::fabs(dlen(y) - 1) <= K * EPS)) c.fail("normalize of " + nm, str(a) + " gives " + str(g) + " expected " + str(e));
    }
}
void run(Ctx &c, Rng &r) {
    u64 n = c.n(40000);
    dots<vec2>(c, r, n); dots<vec3>(c, r, n); dots<vec4>(c, r, n); dots<quat>(c, r, n);
    dists<vec2>(c, r, n); dists<vec3>(c, r, n); dists<vec4>(c, r, n);
    norms<vec2>(c, r, n); norms<vec3>(c, r, n); norms<vec4>(c, r, n); norms<quat>(c, r, n);
    for (u64 i = 0; i < n; ++i) { STEP(r)
        float a = float(r.sgn() * r.logu(5e-18, 1e18)), b = r.chance(1, 6) ? a : r.chance(1, 6) ? -a : float(r.sgn() * r.logu(5e-18, 1e18)); if (r.chance(1, 10)) a = r.coin() ? 0.0f : -0.0f;
        switch (r.below(8)) { case 0: a = f_spice(r, 5e-18, 1e18); break; case 1: a = f_spice(r, 5e-18, 1e18); b = f_spice(r, 5e-18, 1e18); break; case 2: b = float(a * (1 + r.sgn() * r.logu(1e-7, 1e-1)) * r.sgn()); break; case 3: a = float(int(r.below(9)) - 4); b = float(int(r.below(9)) - 4) * (r.coin() ? 1.0f : 0.5f); break; default: break; }
        double x = a, y = b; u64 h = hall(3, a, b);
        c.group("scalar dot"); c.eval(h); scalar("dot", zcm::dot(a, b), x * y, x * y, 2, a, b);
        c.group("scalar length"); c.eval(h); scalar("length", zcm::length(a), std::fabs(x), x, 1, a, b); if (!(zcm::length(a) >= 0)) c.fail("length of float negative", fs(a));
        c.group("scalar length2"); c.eval(h); scalar("length2", zcm::length2(a), x * x, x * x, 2, a, b);
        c.group("scalar distance"); c.eval(h); scalar("distance", zcm::distance(a, b), std::fabs(x - y), x - y, 2, a, b); if (!(zcm::distance(a, b) >= 0)) c.fail("distance of float negative", sall(a, b));
        c.group("scalar distance2"); c.eval(h); scalar("distance2", zcm::distance2(a, b), (x - y) * (x - y), (x - y) * (x - y), 4, a, b);
    }
    c.group("cross");
    for (u64 i = 0; i < n * 2; ++i) { STEP(r)
        vec3 a = gen<vec3>(r, 1e-9, 1e9), b = rel(r, a); DV x = dv(a), y = dv(b); if (dlen(y) > 1e12) continue; c.eval(hall(4, a, b));
        vec3 g = zcm::cross(a, b); float q[3]; get(g, q); DV e = dcross(x, y);
        for (int j = 0; j < 3; ++j) { int k = (j + 1) % 3, l = (j + 2) % 3; double mag = std::fabs(x[k] * y[l]) + std::fabs(x[l] * y[k]); if (!near_(q[j], e[j], mag, K)) c.fail("cross", sall(a, b) + " gives " + str(g) + " expected " + str(e)); }
    }
    c.sample("distance2(vec3, vec3) of nearly equal vectors of length 1e12"); c.sample("normalize(quat) with parts from 1e-14");
}
