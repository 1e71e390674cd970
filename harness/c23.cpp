// Conversions between quaternion, angle-axis, Euler-angle and matrix forms.
#include "rot.h"
#include <zcm/quaternion.hpp>
using namespace zcm;
static DQ euler_ref(double p, double y, double ro) { return qmul(qmul(qaxis(ro, d3(0, 0, 1)), qaxis(y, d3(0, 1, 0))), qaxis(p, d3(1, 0, 0))); }
static void check_euler(Ctx &c, const quat &q, const DQ &Q, u64 h) {
    // the tilt out of gimbal lock conditions pitch and roll; near lock they come from half the available digits
    double sy = 2 * (Q.w * Q.y - Q.x * Q.z), cy = std::sqrt(std::fmax(0, (1 - sy) * (1 + sy))); bool lock = cy < 3e-3; double tol = lock ? 3e-3 : 24 * EPS / cy;
    vec3 e = eulerAngles(q); float p = pitch(q), y = yaw(q), ro = roll(q); c.group(lock ? "eulerAngles near gimbal lock" : cy < 0.05 ? "eulerAngles at steep yaw" : "eulerAngles"); c.eval(h);
    float f[3]; get(e, f); auto in = [&] { return str(q) + " gives " + str(e) + " pitch " + fs(p) + " yaw " + fs(y) + " roll " + fs(ro); };
    if (!(same(f[0], p) && same(f[1], y) && same(f[2], ro))) { c.fail("eulerAngles differ from pitch, yaw, roll", in()); return; }
    const double pi = PI_() * (1 + 2 * EPS);
    if (!(std::fabs(y) <= pi / 2 && std::fabs(ro) <= pi && std::fabs(p) <= (lock ? 2 * pi : pi))) { c.fail("Euler angle out of range", in()); return; }
    double d = qrotdiff(euler_ref(p, y, ro), Q); if (!(d <= tol)) c.fail(lock ? "Euler angles near gimbal lock describe another rotation" : "Euler angles describe another rotation", in() + " difference " + ds(d) + " tolerance " + ds(tol));
    quat b(e); double d2 = qrotdiff(dq(b), Q); if (!(d2 <= tol + 12 * EPS)) c.fail("quat(eulerAngles(q)) is another rotation", in() + " back " + str(b));
}
static void check_angle_axis(Ctx &c, const quat &q, const DQ &Q, u64 h) {
    float a = angle(q); vec3 x = axis(q); c.group("angle and axis"); c.eval(h); DV ax = dv(x); double s = std::sqrt(Q.x * Q.x + Q.y * Q.y + Q.z * Q.z); auto in = [&] { return str(q) + " gives angle " + fs(a) + " axis " + str(x); };
    if (!(a >= 0 && a <= 2 * PI_() * (1 + 2 * EPS))) { c.fail("angle out of range", in()); return; }
    double l = dlen(ax); if (s > 2e-3 ? !(std::fabs(l - 1) <= 8 * EPS / (s * s) + 8 * EPS) : !(l < 2)) { c.fail("axis is not of unit length", in()); return; }
    double tol = 16 * EPS + std::fmin(8 * EPS / s, 1e-3), ra = 2 * std::acos(std::fmax(-1, std::fmin(1, Q.w)));
    if (!(std::fabs(a - ra) <= 2 * tol + 16 * EPS)) { c.fail("angle", in() + " expected " + ds(ra)); return; }
    double d = qrotdiff(qaxis(a, ax), Q); if (!(d <= tol)) c.fail("angle and axis describe another rotation", in() + " difference " + ds(d));
    quat b = angleAxis(a, x); d = qrotdiff(dq(b), Q); if (!(d <= tol + 16 * EPS)) c.fail("angleAxis(angle(q), axis(q)) is another rotation", in() + " back " + str(b));
}
void run(Ctx &c, Rng &r) {
    u64 n = c.n(80000);
    for (u64 it = 0; it < n; ++it) { STEP(r)
        DQ D = q_gen(r); if (r.chance(1, 5)) { double y = r.sgn() * (PI_() / 2 - (r.chance(1, 4) ? 0 : r.logu(1e-8, 1e-1))); D = euler_ref(r.chance(1, 4) ? 0 : r.uni(-3.14, 3.14), y, r.chance(1, 4) ? 0 : r.uni(-3.14, 3.14)); }
        quat q = mkq(D); if (r.chance(1, 5)) { q = q * mkq(q_gen(r)); if (r.coin()) q = q * conjugate(q); if (std::fabs(qlen(dq(q)) - 1) > 3 * EPS) q = mkq(qnorm(dq(q))); }  // lengths a few roundings from one, no more
        if (r.chance(1, 8)) { float f[4]; unit_gen(r, f, 4); q = mk<quat>(f); }
        const quat Q0 = q; DQ Q = qnorm(dq(q)); auto in = [&] { return str(Q0); };
        DM R = qmat(Q, 3), R4 = qmat(Q, 4), t = R, t4 = R4; for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) { t4.m[i][j] = i < 3 && j < 3 ? 16 * EPS : 0; t.m[i][j] = 16 * EPS; }
        c.group("mat3_cast"); c.eval(hall(1, q)); mat3 m3 = mat3_cast(q); expect_mat("mat3_cast", m3, R, t, in); c.group("mat4_cast"); c.eval(hall(2, q)); mat4 m4 = mat4_cast(q); expect_mat("mat4_cast", m4, R4, t4, in);
        mat3 rm = mk_dm<mat3>(R); mat4 rm4 = mk_dm<mat4>(R4); const mat3 RM = rm;
        if (r.chance(1, 3)) { float f[16]; get(rm4, f); f[12] = f_mod(r); f[13] = f_mod(r); f[14] = f_mod(r); rm4 = mk<mat4>(f); }  // a translation does not matter
        { int big = 0; double v[4] = {std::fabs(Q.w), std::fabs(Q.x), std::fabs(Q.y), std::fabs(Q.z)}; for (int i = 1; i < 4; ++i) if (v[i] > v[big]) big = i; const char *nm[] = {"w", "x", "y", "z"};
          c.group(std::string("quat_cast largest ") + nm[big]); c.eval(hall(3, rm)); quat b = quat_cast(rm); auto in2 = [&] { return str(RM) + " gives " + str(b); }; if (!(qrotdiff(dq(b), Q) <= 16 * EPS)) c.fail("quat_cast of mat3", in2());
          quat b4 = quat_cast(rm4); c.group("quat_cast of mat4"); c.eval(hall(4, rm4)); if (!(qrotdiff(dq(b4), Q) <= 16 * EPS)) c.fail("quat_cast of mat4", str(rm4) + " gives " + str(b4));
          if (!(qrotdiff(dq(quat_cast(m3)), Q) <= 48 * EPS)) c.fail("quat_cast(mat3_cast(q)) is another rotation", in()); if (!(qrotdiff(dq(quat_cast(m4)), Q) <= 48 * EPS)) c.fail("quat_cast(mat4_cast(q)) is another rotation", in()); }
        check_angle_axis(c, q, Q, hall(5, q)); check_euler(c, q, Q, hall(6, q));
        { float u[3]; unit_gen(r, u, 3); vec3 ax = mk<vec3>(u); float an = angle_gen(r); quat g = angleAxis(an, ax); DQ ref = qaxis(an, dv(ax)); c.group("angleAxis"); c.eval(hall(7, ax, an)); auto in3 = [&] { return sall(an, ax) + " gives " + str(g); };
          float p[4]; get(g, p); double e[4] = {ref.x, ref.y, ref.z, ref.w}; for (int i = 0; i < 4; ++i) if (!(std::fabs(p[i] - e[i]) <= 6 * EPS * std::fabs(e[i]) + 1e-37)) { c.fail("angleAxis", in3() + " expected " + str(ref)); break; }
          if (an >= 0 && an <= 6.2831f) { double s = std::fabs(std::sin(an / 2)); float back = angle(g); c.group("angle(angleAxis)"); c.eval(hall(8, ax, an)); if (!(std::fabs(back - an) <= std::fmin(2e-3, 16 * EPS / s) + 16 * EPS)) c.fail("angle(angleAxis(a, x)) is not a", in3() + " back " + fs(back)); if (s > 0.05) { expect_near("axis(angleAxis(a, x)) is not x", axis(g), dv(ax), 1 / (s * s), 12, in3); } }
          // rotate: a quaternion of any moderate length times the rotation, the axis of any length
          double l = r.coin() ? 1 : r.chance(1, 3) ? 1 + r.sgn() * r.logu(1e-7, 1e-1) : r.logu(1e-9, 1e9); float w[3]; for (int i = 0; i < 3; ++i) w[i] = float(u[i] * l); vec3 aw = mk<vec3>(w); quat z = r.coin() ? q : t_wide<quat>(r, 1e-9, 1e9); const quat Z = z; quat h = rotate(z, an, aw); DQ e2 = qmul(dq(z), qaxis(an, dnorm(dv(aw)))); c.group("rotate(quat)"); c.eval(hall(9, z, aw, an));
          if (!(qmaxdiff(dq(h), e2) <= 32 * EPS * qlen(dq(z)) + 1e-37)) c.fail("rotate(quat, angle, axis)", sall(Z, an, aw) + " gives " + str(h) + " expected " + str(e2)); if (!samev(z, Z) || !samev(aw, mk<vec3>(w))) c.fail("rotate changed an argument", sall(Z, an, aw)); }
        { float e[3] = {angle_gen(r), angle_gen(r), angle_gen(r)}; if (r.chance(1, 2)) { e[0] = float(r.uni(-3.14, 3.14)); e[1] = float(r.uni(-1.57, 1.57)); e[2] = float(r.uni(-3.14, 3.14)); } vec3 ev = mk<vec3>(e); quat g(ev); DQ ref = euler_ref(e[0], e[1], e[2]); c.group("quat(Euler angles)"); c.eval(hall(10, ev));
          if (!(qmaxdiff(dq(g), ref) <= 12 * EPS)) c.fail("quat(Euler angles)", str(ev) + " gives " + str(g) + " expected " + str(ref));
          double cy = std::cos(double(e[1])); if (std::fabs(e[0]) < 3.141 && std::fabs(e[2]) < 3.141 && std::fabs(e[1]) < 1.5707 && cy > 1e-2) { vec3 b = eulerAngles(g); c.group("eulerAngles(quat(e))"); c.eval(hall(11, ev)); DV E = dv(ev); expect_near("eulerAngles(quat(e)) is not e", b, E, 1 / cy, 48, [&] { return str(ev); }); } }
        if (!samev(q, Q0)) c.fail("the quaternion was changed", in());
    }
    c.sample("yaw of exactly 90 degrees with general pitch and roll"); c.sample("rotation matrix of a turn by pi - 1e-7"); c.sample("q * conjugate(q) with w above one");
}
