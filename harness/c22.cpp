// Quaternion operators and rotation of vectors.
#include "rot.h"
#include <zcm/quaternion.hpp>
using namespace zcm;
static bool qexp(const char *key, const quat &got, const DQ &ref, double tol, const std::function<std::string()> &in) {
    double d = qmaxdiff(dq(got), ref);
    if (d <= tol) return true;
    ctx().fail(key, ctx().failed_enough(key) ? "" : "inputs " + in() + " got " + str(got) + " expected " + str(ref) + " tolerance " + ds(tol)); return false;
}
static void elementwise(Ctx &c, Rng &r, u64 n) {
    for (u64 it = 0; it < n; ++it) { STEP(r)
        quat x = t_any<quat>(r), y = t_any<quat>(r); float a[4], b[4], e[4]; if (r.chance(1, 6)) y = x;
        if (r.chance(1, 4)) { get(x, b); b[r.below(4)] = f_any(r); y = mk<quat>(b); }
        if (r.chance(1, 6)) { get(x, a); for (int i = 0; i < 4; ++i) b[i] = a[i] == 0 ? -a[i] : a[i]; y = mk<quat>(b); }
        get(x, a); get(y, b); const quat X = x, Y = y; float s = f_any(r); auto in = [&] { return sall(X, Y, s); };
#define EW(OPN, EXPR, REF) { c.group(OPN); c.eval(hall(1, X, Y, s)); for (int i = 0; i < 4; ++i) e[i] = REF; expect_same(OPN, quat(EXPR), mk<quat>(e), in()); if (!samev(x, X) || !samev(y, Y)) c.fail("operand of " OPN " changed", in()); }
        EW("+", x + y, a[i] + b[i]) EW("-", x - y, a[i] - b[i]) EW("unary -", -x, -a[i]) EW("unary +", +x, a[i]) EW("+ with itself", x + x, a[i] + a[i]) EW("- with itself", x - x, a[i] - a[i])
        EW("quat * scalar", x * s, a[i] * s) EW("scalar * quat", s * x, s * a[i]) EW("conjugate", conjugate(x), i == 3 ? a[i] : -a[i])
#define CP(OPN, STMT, REF) { c.group(OPN); c.eval(hall(2, X, Y, s)); quat z = x; STMT; for (int i = 0; i < 4; ++i) e[i] = REF; expect_same(OPN, z, mk<quat>(e), in()); if (!samev(y, Y)) c.fail("operand of " OPN " changed", in()); }
        CP("+=", z += y, a[i] + b[i]) CP("-=", z -= y, a[i] - b[i]) CP("+= itself", z += z, a[i] + a[i]) CP("-= itself", z -= z, a[i] - a[i]) CP("*= scalar", z *= s, a[i] * s)
        CP("*= own w", z *= z.w, a[i] * a[3]) CP("*= own x", z *= z.x, a[i] * a[0]) CP("z = -z", z = -z, -a[i]) CP("z = conjugate(z)", z = conjugate(z), i == 3 ? a[i] : -a[i])
        auto tame = [](float num, float den, float q) { return isfin_(num) && isfin_(den) && std::fabs(den) > 1e-30f && std::fabs(den) < 1e30f && std::fabs(q) > 1e-30f && std::fabs(q) < 1e30f; };
        for (int k = 0; k < 4; ++k) { quat z = x; float q[4]; float d = s; if (k == 0) z = x / s; else if (k == 1) z /= s; else if (k == 2) { d = a[1]; z /= z.y; } else z = s / x; get(z, q); const char *nm[] = {"quat / scalar", "/= scalar", "/= own y", "scalar / quat"};
            c.group(nm[k]); c.eval(hall(3, X, s));
            for (int i = 0; i < 4; ++i) { float num = k == 3 ? s : a[i], den = k == 3 ? a[i] : d, ref = num / den; if (tame(num, den, ref) && !ulps(q[i], ref, 2)) { c.fail(nm[k], in() + " got " + str(z)); break; } if ((den == 0 || !isfin_(den)) && k == 3 && !same(q[i], ref)) { c.fail(nm[k], in() + " got " + str(z)); break; } } }
        bool q = true, z = true; for (int i = 0; i < 4; ++i) { q &= a[i] == b[i]; z &= a[i] == a[i]; }
        c.group("== and !="); c.eval(hall(4, X, Y)); if ((x == y) != q || (x != y) != !q) c.fail("==", in()); if ((x == x) != z || (x != x) != !z) c.fail("== with itself", in());
        { float w[4]; get(t_mod<quat>(r), w); quat p = mk<quat>(w); int i = r.below(4); float old = w[i]; w[i] = r.coin() ? std::nextafter(old, 1e9f) : old + 1; if (w[i] != old) { quat o = mk<quat>(w); c.group("== one part differs"); c.eval(hall(5, p, o)); if (p == o || !(p != o)) c.fail("== ignores part " + std::to_string(i), sall(p, o)); } }
    }
}
static quat qg(Rng &r, double &len) {
    int k = r.below(5); if (k == 0) { quat q = r.coin() ? t_mod<quat>(r) : t_wide<quat>(r, 1e-12, 1e10); len = qlen(dq(q)); return q; }
    double s = k == 1 ? 1 : k == 2 ? 1 + r.sgn() * r.logu(1e-7, 1e-1) : r.logu(1e-6, 1e6); quat q = mkq(qscale(q_gen(r), s)); len = qlen(dq(q)); return q;
}
void run(Ctx &c, Rng &r) {
    u64 n = c.n(40000); elementwise(c, r, n / 2);
    for (u64 it = 0; it < n; ++it) { STEP(r)
        double la, lb; quat a = qg(r, la), b = r.chance(1, 8) ? a : qg(r, lb); lb = qlen(dq(b)); const quat A = a, B = b; auto in = [&] { return sall(A, B); }; DQ da = dq(a), db = dq(b), ref = qmul(da, db), raa = qmul(da, da);
        double tol = 16 * EPS * la * lb + 1e-37; c.group("product"); c.eval(hall(6, A, B)); qexp("product", a * b, ref, tol, in); if (!samev(a, A) || !samev(b, B)) c.fail("operand of product changed", in());
        { quat z = a; z *= b; c.group("*="); c.eval(hall(6, A, B)); qexp("*=", z, ref, tol, in); if (!samev(b, B)) c.fail("operand of *= changed", in()); }
        { quat z = a; z *= z; c.group("*= itself"); c.eval(hall(6, A)); qexp("*= itself", z, raa, 16 * EPS * la * la + 1e-37, in); qexp("product with itself", a * a, raa, 16 * EPS * la * la + 1e-37, in); }
        { quat z = a; z = z * b; qexp("a = a * b", z, ref, tol, in); z = b; z = a * z; qexp("b = a * b", z, ref, tol, in); }
        if (la > 1e-15 && la < 1e15) { quat i = inverse(a); DQ ri = qscale(qconj(da), 1 / (la * la)); c.group("inverse"); c.eval(hall(7, A)); qexp("inverse", i, ri, 12 * EPS / la, in); c.group("q * inverse(q)"); c.eval(hall(7, A)); qexp("q * inverse(q)", a * i, DQ{1, 0, 0, 0}, 48 * EPS, in); qexp("inverse(q) * q", i * a, DQ{1, 0, 0, 0}, 48 * EPS, in);
            // each part of the inverse is one division away from the part of the conjugate: relative accuracy per part
            float p[4], q[4]; get(i, p); get(a, q); for (int k = 0; k < 4; ++k) { double e = (k == 3 ? 1 : -1) * double(q[k]) / (la * la); if (!near_(p[k], e, e, 12)) { c.fail("inverse part", in() + " got " + str(i)); break; } } }
        // rotation of vectors
        quat u = mkq(q_gen(r)), w = mkq(q_gen(r)); vec3 v = t_wide<vec3>(r); const quat U = u; const vec3 V = v; DV d = dv(v); double l = dlen(d); DQ du = qnorm(dq(u)); auto in2 = [&] { return sall(U, w, V); };
        c.group("quat * vec3"); c.eval(hall(8, U, V)); vec3 g = u * v; DV e = qrot(du, d); for (int i = 0; i < 1; ++i) expect_near("quat * vec3", g, e, l, 24, in2); if (!samev(u, U) || !samev(v, V)) c.fail("operand of rotation changed", in2());
        { vec3 z = v; z = u * z; expect_same("v = q * v", z, g, in2()); z = v; z = z * u; vec3 h = v * u; expect_same("v = v * q", z, h, in2()); c.group("vec3 * quat"); c.eval(hall(9, U, V)); expect_near("vec3 * quat", h, qrot(qconj(du), d), l, 32, in2); expect_near("vec3 * quat undoes quat * vec3", vec3(g * u), d, l, 64, in2); }
        { double lg = dlen(dv(g)); if (!(std::fabs(lg - l) <= 32 * EPS * l + 1e-37)) c.fail("rotation changes the length", in2()); }
        c.group("composition"); c.eval(hall(10, U, w, V)); expect_near("(p q) v = p (q v)", vec3((w * u) * v), qrot(qnorm(dq(w)), e), l, 64, in2);
        { vec3 z = t_mod<vec3>(r); DV dz = dv(z); DV lhs = dcross(dv(vec3(u * v)), dv(vec3(u * z))), rhs = qrot(du, dcross(d, dz)); double lm = l * dlen(dz); c.group("handedness"); c.eval(hall(11, U, V, z)); for (int i = 0; i < 3; ++i) if (!(std::fabs(lhs.v[i] - rhs.v[i]) <= 128 * EPS * lm + 1e-37)) { c.fail("rotation changes handedness", in2()); break; } }
        // integer-valued chains are exact
        if (it % 4 == 0) { float f[4]; for (float &q : f) q = float(int(r.below(5)) - 2); quat z = mk<quat>(f); DQ m = dq(z); std::string log = str(z); u64 h = hall(12, z);
            for (int k = 0; k < 10; ++k) { for (float &q : f) q = float(int(r.below(5)) - 2); quat o = mk<quat>(f); DQ mo = dq(o); double big = qlen(m); int op = r.below(6); if (big > 4000 && op > 1) op = 1; if (big > 100000) break;
                switch (op) { case 0: z += o; m = qadd(m, mo); break; case 1: z -= o; m = qadd(m, qscale(mo, -1)); break; case 2: z *= o; m = qmul(m, mo); break; case 3: z = o * z; m = qmul(mo, m); break; case 4: z = conjugate(z); m = qconj(m); break; default: z *= 2.0f; m = qscale(m, 2); }
                log += " op" + std::to_string(op) + str(o); h = hall(h, o) + op; c.group("integer-valued chain"); c.eval(h); if (qmaxdiff(dq(z), m) != 0) { c.fail("integer-valued chain", log + " got " + str(z) + " expected " + str(m)); break; } } }
    }
    c.sample("q *= q for a quaternion of length 1e-6"); c.sample("rotation by a half turn about a near-axis");
}
