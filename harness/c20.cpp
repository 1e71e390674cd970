// Projections.
#include "mat.h"
#include <zcm/matrix_transform.hpp>
using namespace zcm;
typedef mat4 (*OrthoF)(float, float, float, float, float, float);
static DV at(const DM &m, double x, double y, double z) { DV p; p.n = 4; p.v[0] = x; p.v[1] = y; p.v[2] = z; p.v[3] = 1; return dmulv(m, p); }
static DV atmag(const DM &m, double x, double y, double z) { return at(dabs(m), std::fabs(x), std::fabs(y), std::fabs(z)); }
void run(Ctx &c, Rng &r) {
    u64 n = c.n(60000);
    auto interval = [&](float &a, float &b) {
        for (;;) { switch (r.below(6)) {
            case 0: { double s = r.logu(1e-2, 1e4); a = float(-s); b = float(s); break; }
            case 1: { double o = r.sgn() * r.logu(1e-2, 1e3), s = r.logu(1e-1, 1e3); a = float(o); b = float(o + s); break; }
            case 4: a = f_spice(r, 1e-15, 1e8); b = f_spice(r, 1e-15, 1e8); break;
            case 5: a = r.coin() ? -0.0f : 0.0f; b = f_spice(r, 1e-15, 1e8); break;
            case 2: a = float(int(r.below(41)) - 20); b = float(int(r.below(41)) - 20); break;
            default: a = 0; b = float(r.logu(1, 1e4)); }
            if (r.chance(1, 4)) std::swap(a, b);
            if (std::fabs(double(b) - a) > 1e-3 * (std::fabs(double(a)) + std::fabs(double(b)))) return; } };
    struct { const char *n; OrthoF f; bool lh, zo; } of[] = {{"orthoLH_ZO", orthoLH_ZO, true, true}, {"orthoRH_ZO", orthoRH_ZO, false, true}, {"orthoLH_NO", orthoLH_NO, true, false}, {"orthoRH_NO", orthoRH_NO, false, false}};
    for (u64 it = 0; it < n; ++it) { STEP(r)
        float l, rr, b, t, zn, zf; interval(l, rr); interval(b, t); interval(zn, zf);
        switch (r.below(10)) { case 0: b = l; t = rr; break; case 1: zn = l; zf = rr; break; case 2: b = rr; t = l; break; case 3: { double k = 1 + 0.1 * r.uni(-1, 1); b = float(l * k); t = float(rr * k); zn = float(l / k); zf = float(rr / k); break; } case 4: b = zn; t = zf; break; default: break; }
        for (auto &o : of) {
            mat4 g = o.f(l, rr, b, t, zn, zf); DM M = dm(g); c.group(o.n); c.eval(hall(1, l, rr, b, t, zn, zf));
            for (int k = 0; k < 8; ++k) { double x = k & 1 ? rr : l, y = k & 2 ? t : b, d = k & 4 ? zf : zn, z = o.lh ? d : -d; DV q = at(M, x, y, z), mg = atmag(M, x, y, z);
                double e[4] = {k & 1 ? 1. : -1., k & 2 ? 1. : -1., k & 4 ? 1. : o.zo ? 0. : -1., 1}; bool ok = true; for (int i = 0; i < 3; ++i) ok &= std::fabs(q.v[i] - e[i]) <= 8 * EPS * mg.v[i]; ok &= q.v[3] == 1;
                if (!ok) { c.fail(std::string(o.n) + " corner", sall(l, rr, b, t, zn, zf) + " gives " + str(g) + " corner " + std::to_string(k) + " maps to " + str(q)); break; } }
        }
        { mat4 g = ortho(l, rr, b, t); DM M = dm(g); c.group("ortho"); c.eval(hall(2, l, rr, b, t)); double z = r.uni(-10, 10);
          for (int k = 0; k < 4; ++k) { double x = k & 1 ? rr : l, y = k & 2 ? t : b; DV q = at(M, x, y, z), mg = atmag(M, x, y, z); double e[4] = {k & 1 ? 1. : -1., k & 2 ? 1. : -1., -z, 1}; bool ok = true; for (int i = 0; i < 3; ++i) ok &= std::fabs(q.v[i] - e[i]) <= 8 * EPS * mg.v[i]; ok &= q.v[3] == 1;
            if (!ok) { c.fail("ortho corner", sall(l, rr, b, t) + " gives " + str(g) + " corner " + std::to_string(k) + " maps to " + str(q)); break; } } }
        float fov = r.chance(1, 5) ? float(r.uni(0.01, 0.1)) : r.chance(1, 5) ? float(3.14159 - r.logu(1e-2, 1)) : float(r.uni(0.1, 3.0)), asp = r.chance(1, 4) ? 1.0f : float(r.logu(0.01, 100)); float pn, pf; do { pn = float(r.logu(1e-3, 1e2)); pf = float(pn * r.logu(1.01, 1e5)); } while (!(pf > pn * 1.005f));
        if (r.chance(1, 5)) { static const float fv[] = {0.5f, 1, 2, 3, 1.57079633f, 0.78539816f, 1.04719755f, 0.25f}; fov = fv[r.below(8)]; }
        if (r.chance(1, 5)) { static const float av[] = {0.5f, 1, 2, 4, 0.25f, 3, 8, 16, 10, 1.5f, 0.1f}; asp = av[r.below(11)]; }
        if (r.chance(1, 5)) { pn = std::ldexp(1.0f, int(r.below(28)) - 20); pf = r.coin() ? std::ldexp(pn, 1 + int(r.below(16))) : float(pn * r.logu(1.01, 1e5)); }
        if (r.chance(1, 8)) { pn = float(1 + r.below(10)); pf = pn + float(1 + r.below(1000)); }
        if (r.chance(1, 8)) { pn = float(r.logu(1e-15, 1e8)); pf = float(pn * r.logu(1.01, 1e5)); if (r.coin()) pf = float(pn * r.uni(1.01, 1.1)); }
        switch (r.below(20)) { case 0: asp = fov; break; case 1: pn = asp; pf = float(pn * r.logu(1.01, 1e4)); break; case 2: pn = fov; pf = float(pn * r.logu(1.01, 1e4)); break; case 3: pf = asp; pn = float(pf / r.logu(1.01, 1e4)); break; case 4: pf = fov; pn = float(pf / r.logu(1.01, 1e4)); break; case 5: asp = float(fov * r.uni(0.9, 1.1)); pn = float(asp * r.uni(0.9, 1.1)); pf = float(pn * r.uni(1.01, 1.1)); break; case 6: asp = fov = pn = float(r.uni(0.1, 3)); pf = pn * 2; break; default: break; }
        if (r.chance(1, 5)) std::swap(pn, pf);  // reversed depth
        struct { const char *n; mat4 (*f)(float, float, float, float); bool lh, zo; } pfn[] = {{"perspectiveLH_ZO", perspectiveLH_ZO, true, true}, {"perspectiveRH_ZO", perspectiveRH_ZO, false, true}, {"perspectiveLH_NO", perspectiveLH_NO, true, false}, {"perspectiveRH_NO", perspectiveRH_NO, false, false}};
        double th = std::tan(double(fov) / 2);
        for (auto &p : pfn) {
            mat4 g = p.f(fov, asp, pn, pf); DM M = dm(g); c.group(p.n); c.eval(hall(3, fov, asp, pn, pf));
            // the eight corners, and points on the axis at both planes
            for (int k = 0; k < 8; ++k) { double d = k & 4 ? pf : pn, y = (k & 2 ? 1 : -1) * th * d, x = (k & 1 ? 1 : -1) * th * d * asp, z = p.lh ? d : -d; DV q = at(M, x, y, z), mg = atmag(M, x, y, z);
                double e[3] = {k & 1 ? 1. : -1., k & 2 ? 1. : -1., k & 4 ? 1. : p.zo ? 0. : -1.}; bool ok = q.v[3] > 0; for (int i = 0; i < 3 && ok; ++i) ok &= std::fabs(q.v[i] / q.v[3] - e[i]) <= 12 * EPS * (mg.v[i] / q.v[3] + 1);
                if (!ok) { c.fail(std::string(p.n) + " corner", sall(fov, asp, pn, pf) + " gives " + str(g) + " corner " + std::to_string(k) + " maps to " + str(q)); break; } }
        }
    }
    c.sample("perspective with near beyond far (reversed depth)"); c.sample("orthographic box away from the axis, swapped sides");
}
