// Octahedral encoding.
#include "common.h"
#include <zcm/geometric.hpp>
using namespace zcm;
static double dist(const DV &a, const DV &b) { return dlen(dsub(a, b)); }
static const double T = 16 * EPS;
void run(Ctx &c, Rng &r) {
    double w1 = 0, w2 = 0, w3 = 0, w4 = 0;
    for (u64 i = 0, n = c.n(250000); i < n; ++i) { STEP(r)
        float a[3]; unit_gen(r, a, 3);
        switch (r.below(8)) {
        case 0: { double t = r.uni(-3.1416, 3.1416); a[0] = float(std::cos(t)); a[1] = float(std::sin(t)); a[2] = r.coin() ? 0.0f : r.coin() ? -0.0f : float(r.sgn() * r.logu(1e-12, 1e-4)); break; }   // the equator
        case 1: { a[2] = r.sgn() < 0 ? -1.0f : 1.0f; a[0] = float(r.gauss() * r.logu(1e-12, 1e-4)); a[1] = r.coin() ? 0.0f : float(r.gauss() * r.logu(1e-12, 1e-4)); break; }              // the poles
        case 2: { double t = r.uni(-3.1416, 3.1416); int k = r.below(2); a[k] = r.coin() ? 0.0f : r.coin() ? -0.0f : float(r.sgn() * r.logu(1e-12, 1e-4)); a[1 - k] = float(std::cos(t)); a[2] = float(std::sin(t)); break; } // the seams
        case 3: { int k = r.below(3); a[k] = float(r.sgn() * 0.5); double t = r.uni(-3.1416, 3.1416); if (r.chance(1, 3)) t = int(r.below(8)) * 0.78539816339744831; a[(k + 1) % 3] = float(std::cos(t) * std::sqrt(0.75)); a[(k + 2) % 3] = float(std::sin(t) * std::sqrt(0.75)); break; }
        default: break;
        }
        vec3 v = mk<vec3>(a); DV d = dv(v);
        vec2 e = encode_octahedral(v); float q[2]; get(e, q);
        c.group(std::string("encode ") + (a[2] > 0 ? "upper" : a[2] < 0 ? "lower" : "equator")); c.eval(hsh(v));
        if (!(std::fabs(q[0]) <= 1 + 2 * EPS && std::fabs(q[1]) <= 1 + 2 * EPS)) { c.fail("encode_octahedral range", str(v) + " gives " + str(e)); continue; }
        vec3 b = decode_octahedral(e); DV db = dv(b); double m = dist(db, dnorm(d)); w1 = std::fmax(w1, m);
        c.group("round trip"); c.eval(hsh(v)); if (!(m <= T)) c.fail("decode of encode", str(v) + " encodes to " + str(e) + " decodes to " + str(b));
        // any point of the square
        float p[2] = {float(r.uni(-1, 1)), float(r.uni(-1, 1))};
        switch (r.below(6)) { case 0: p[r.below(2)] = float(int(r.below(3)) - 1); break; case 1: p[0] = float(int(r.below(5)) - 2) * 0.5f; p[1] = float(int(r.below(5)) - 2) * 0.5f; break; case 2: { float s = float(r.uni(0, 1)); p[0] = float(r.sgn() * s); p[1] = float(r.sgn() * (1 - double(s)) + r.gauss() * r.logu(1e-9, 1e-3)); if (std::fabs(p[1]) > 1) p[1] = 1; break; } default: break; }
        vec2 pt = mk<vec2>(p); vec3 u = decode_octahedral(pt); DV du = dv(u); double l = std::fabs(dlen(du) - 1); w2 = std::fmax(w2, l);
        c.group("decode"); c.eval(hsh(pt)); if (!(l <= T)) { c.fail("decode_octahedral length", str(pt) + " gives " + str(u)); continue; }
        vec2 pe = encode_octahedral(u); vec3 uu = decode_octahedral(pe); double m2 = dist(dv(uu), du); w3 = std::fmax(w3, m2);
        c.group("encode of decode"); c.eval(hsh(pt)); if (!(m2 <= T)) c.fail("encode of decode", str(pt) + " decodes to " + str(u) + ", whose encoding " + str(pe) + " decodes to " + str(uu));
        // inside the square (not on its border, where several points name one direction) the coordinates come back too
        float s[2]; get(pe, s); if (std::fabs(p[0]) < 0.999 && std::fabs(p[1]) < 0.999 && std::fabs(p[0]) > 1e-3 && std::fabs(p[1]) > 1e-3) { double m3 = std::fmax(std::fabs(s[0] - p[0]), std::fabs(s[1] - p[1])); w4 = std::fmax(w4, m3); c.group("coordinates"); c.eval(hsh(pt)); if (!(m3 <= T)) c.fail("encode of decode coordinates", str(pt) + " comes back as " + str(pe)); }
    }
    char b[160]; snprintf(b, sizeof b, "largest errors in units of 2^-23: round trip %.2f, length %.2f, encode of decode %.2f, coordinates %.2f", w1 / EPS, w2 / EPS, w3 / EPS, w4 / EPS); c.sample(b);
}
