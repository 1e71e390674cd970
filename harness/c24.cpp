// Quaternions from two vectors and from look directions.
#include "rot.h"
#include <zcm/quaternion.hpp>
using namespace zcm;
void run(Ctx &c, Rng &r) {
    u64 n = c.n(150000);
    for (u64 it = 0; it < n; ++it) { STEP(r)
        float a[3], b[3]; unit_gen(r, a, 3); unit_gen(r, b, 3); int rel = r.below(6);
        if (rel == 0) for (int i = 0; i < 3; ++i) b[i] = a[i]; if (rel == 1) for (int i = 0; i < 3; ++i) b[i] = -a[i];
        if (rel == 2) { double s = r.sgn(), e = r.logu(1e-7, 1e-1); for (int i = 0; i < 3; ++i) b[i] = float(s * a[i] + e * r.gauss()); }
        double la = r.coin() ? 1 : r.logu(1e-8, 1e8), lb = r.coin() ? 1 : r.logu(1e-8, 1e8); if (r.chance(1, 6)) { la = std::pow(2, int(r.below(20)) - 10); lb = std::pow(2, int(r.below(20)) - 10); }
        for (int i = 0; i < 3; ++i) { a[i] = float(a[i] * la); b[i] = float(b[i] * lb); }
        vec3 u = mk<vec3>(a), v = mk<vec3>(b); const vec3 U = u, V = v; quat q(u, v); DQ Q = dq(q); DV nu = dnorm(dv(u)), nv = dnorm(dv(v)); double sn = dlen(dcross(nu, nv)), cs = ddot(nu, nv), dl = cs < 0 ? sn : 1; bool anti = cs < 0 && sn < 3e-3;
        c.group(cs > 0 && sn < 1e-6 ? "quat(u, v) equal" : cs < 0 && sn < 1e-6 ? "quat(u, v) opposite" : anti ? "quat(u, v) nearly opposite" : "quat(u, v)"); c.eval(hall(1, u, v)); auto in = [&] { return sall(U, V) + " gives " + str(q); };
        if (!(std::fabs(qlen(Q) - 1) <= 16 * EPS)) { c.fail("quat(u, v) is not unit", in()); continue; }
        DV g = qrot(qnorm(Q), nu); double tol = anti ? 5e-3 : 24 * EPS / dl, d = dlen(dsub(g, nv)); if (!(d <= tol)) { c.fail("quat(u, v) does not turn u into v", in() + " misses by " + ds(d)); continue; }
        // the shortest way: the turn is by exactly the angle between them, about an axis perpendicular to both
        double half = std::atan2(sn, cs) / 2; if (!(Q.w >= -tol && std::fabs(std::fabs(Q.w) - std::cos(half)) <= tol)) { c.fail("quat(u, v) takes a longer way", in()); continue; }
        double pu = Q.x * nu.v[0] + Q.y * nu.v[1] + Q.z * nu.v[2]; if (!(std::fabs(pu) <= tol)) c.fail("quat(u, v) turns about an axis not perpendicular to u", in());
        if (!samev(u, U) || !samev(v, V)) c.fail("quat(u, v) changed an argument", in());
        // look rotations
        float f[3], w[3]; unit_gen(r, f, 3); unit_gen(r, w, 3); if (r.chance(1, 3)) { w[0] = w[2] = 0; w[1] = 1; } if (r.chance(1, 5)) { for (int i = 0; i < 3; ++i) w[i] = float(f[i] * r.sgn() + 0.03 * r.gauss()); } double ul = r.coin() ? 1 : r.sgn() * r.logu(1e-7, 1e7); for (float &x : w) x = float(x * ul);
        vec3 dir = mk<vec3>(f), up = mk<vec3>(w); const vec3 D0 = dir, U0 = up; DV F = dnorm(dv(dir)), W = dnorm(dv(up)); double s = dlen(dcross(F, W)); if (!(s >= 0.01)) continue;
        for (int lh = 0; lh < 2; ++lh) { quat k = lh ? quatLookAtLH(dir, up) : quatLookAtRH(dir, up); std::string nm = lh ? "quatLookAtLH" : "quatLookAtRH"; DQ K = dq(k); double t = 32 * EPS / s; c.group(nm + (std::fabs(K.w) > 0.5 ? "" : " large turn")); c.eval(hall(2, dir, up)); auto in2 = [&] { return sall(D0, U0) + " gives " + str(k); };
            if (!(std::fabs(qlen(K) - 1) <= t)) { c.fail(nm + " is not unit", in2()); continue; } K = qnorm(K);
            DV x = qrot(K, d3(1, 0, 0)), y = qrot(K, d3(0, 1, 0)), z = qrot(K, d3(0, 0, 1)); if (!(dlen(dsub(z, dscale(F, lh ? 1 : -1))) <= t)) c.fail(nm + " does not look along the direction", in2());
            if (!(std::fabs(ddot(x, W)) <= t)) c.fail(nm + ": first axis not perpendicular to up", in2()); if (!(ddot(y, W) > 0)) c.fail(nm + ": second axis not on the side of up", in2());
            if (!samev(dir, D0) || !samev(up, U0)) c.fail(nm + " changed an argument", in2()); }
    }
    c.sample("quat(u, -u) for u along each axis"); c.sample("quat(u, v) at lengths 1e-8 and 1e8"); c.sample("quatLookAtLH straight ahead and straight back");
}
