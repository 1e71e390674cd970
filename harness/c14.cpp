// Orthogonal-vector helpers.
#include "common.h"
#include <zcm/geometric.hpp>
using namespace zcm;
static void judge(Ctx &c, const char *f, const vec3 &v, const vec3 &o) {
    DV a = dv(v), b = dv(o); double la = dlen(a), lb = dlen(b);
    if (!(lb > 0)) { c.fail(std::string(f) + " zero", str(v) + " gives " + str(o)); return; }
    if (!(std::fabs(ddot(a, b)) <= 16 * EPS * la * lb)) c.fail(std::string(f) + " not perpendicular", str(v) + " gives " + str(o) + " cosine " + ds(ddot(a, b) / la / lb));
}
void run(Ctx &c, Rng &r) {
    for (u64 i = 0, n = c.n(250000); i < n; ++i) { STEP(r)
        float a[3];
        do {
            switch (r.below(6)) {
            case 0: for (float &x : a) x = float(int(r.below(5)) - 2); break;
            case 1: tuple_gen(r, a, 3, f_mod); break;
            case 2: { double s = r.logu(1e-18, 1e18); for (float &x : a) x = float(s * r.gauss()); break; }
            case 3: for (float &x : a) x = float(r.sgn() * r.logu(1e-12, 1e6)); break;
            case 4: { unit_gen(r, a, 3); a[r.below(3)] = bitsf(uint32_t(r.below(8))); break; }
            default: unit_gen(r, a, 3);
            }
            if (r.chance(1, 6)) { int k = r.below(3); a[k] = r.coin() ? a[(k + 1) % 3] : -a[(k + 1) % 3]; }
        } while (!(std::sqrt(double(a[0]) * a[0] + double(a[1]) * a[1] + double(a[2]) * a[2]) > 1e-37));
        vec3 v = mk<vec3>(a); c.group("orthogonal"); c.eval(hsh(v)); judge(c, "orthogonal", v, orthogonal(v));
        unit_gen(r, a, 3);
        if (r.chance(1, 4)) { // around the branch-free helper's own fold, |x| near one half, and y near zero
            double x = r.sgn() * (0.5 + r.gauss() * r.logu(1e-8, 1e-1)), y = r.coin() ? 0 : r.gauss() * r.logu(1e-10, 1e-1), z2 = 1 - x * x - y * y; if (z2 > 0) { a[0] = float(x); a[1] = float(y); a[2] = float(r.sgn() * std::sqrt(z2)); } }
        v = mk<vec3>(a); c.group("orthogonal_branchless"); c.eval(hsh(v)); judge(c, "orthogonal_branchless", v, orthogonal_branchless(v));
    }
    // any size that is not zero, down to the smallest denormal: one component, two, or all three; here only the result being non-zero and exactly the order of the cosine is asked
    for (u64 i = 0, n = c.n(40000); i < n; ++i) { STEP(r)
        float a[3] = {0, 0, 0}; double s = r.coin() ? r.logu(1e-45, 1e38) : r.logu(1e-45, 1e-18); uint32_t m = 1 + r.below(7);
        for (int k = 0; k < 3; ++k) if (m >> k & 1) { a[k] = float(r.sgn() * s * (r.coin() ? 1 : r.logu(1e-3, 1))); if (a[k] == 0) a[k] = bitsf(1 + r.below(3)); if (!isfin_(a[k])) a[k] = 1; } else if (r.coin()) a[k] = -0.0f;
        vec3 v = mk<vec3>(a), o = orthogonal(v); float q[3]; get(o, q); c.group("orthogonal at every scale"); c.eval(hsh(v));
        if (q[0] == 0 && q[1] == 0 && q[2] == 0) c.fail("orthogonal zero", str(v) + " gives " + str(o));
        if (s > 1e-30) judge(c, "orthogonal", v, o);
    }
    // search for unit vectors whose branch-free result vanishes: from a grid in the coordinate planes (and near them) downhill, the last steps over neighbouring floats
    c.group("orthogonal_branchless zero search");
    auto len2 = [&](const float *a) { vec3 o = orthogonal_branchless(mk<vec3>(a)); DV b = dv(o); return ddot(b, b); };
    for (u64 i = 0, n = c.n(6000); i < n; ++i) { STEP(r)
        int k = int(i % 3); double t = (double(i / 3) + r.u01()) * 3 / double(n) * 2 * 3.14159265358979, e = r.coin() ? 0 : r.gauss() * 1e-3, d = 0.01; float b[3]; double best = 1e300; u64 h = 0;
        auto at = [&](double t_, float *a) { double p[3]; p[k] = e; p[(k + 1) % 3] = std::cos(t_) * std::sqrt(1 - e * e); p[(k + 2) % 3] = std::sin(t_) * std::sqrt(1 - e * e); for (int j = 0; j < 3; ++j) a[j] = float(p[j]); };
        for (int step = 0; step < 60; ++step) { bool moved = false; for (double t2 : {t, t - d, t + d}) { float a[3]; at(t2, a); double l = len2(a); if (l < best) { best = l; t = t2; std::memcpy(b, a, sizeof a); moved = true; } } if (!moved) d *= 0.5; if (d < 1e-9) break; }
        for (int x = -6; x <= 6; ++x) for (int y = -6; y <= 6; ++y) { float a[3] = {b[0], b[1], b[2]}; int p = (k + 1) % 3, q = (k + 2) % 3; for (int j = 0; j < std::abs(x); ++j) a[p] = std::nextafter(a[p], x < 0 ? -9.0f : 9.0f); for (int j = 0; j < std::abs(y); ++j) a[q] = std::nextafter(a[q], y < 0 ? -9.0f : 9.0f); vec3 v = mk<vec3>(a); h = hsh(v); c.eval(h); judge(c, "orthogonal_branchless", v, orthogonal_branchless(v)); if (best > 1e-3) break; }
    }
    c.sample("orthogonal of axis-aligned, diagonal, denormal-component and 1e18-scale vectors");
}
