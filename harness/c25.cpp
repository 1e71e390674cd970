// slerp, lerp, nlerp.
#include "rot.h"
#include <zcm/quaternion.hpp>
using namespace zcm;
void run(Ctx &c, Rng &r) {
    u64 n = c.n(150000);
    for (u64 it = 0; it < n; ++it) { STEP(r)
        DQ A = q_gen(r), B; int rel = r.below(7); const char *kind = "general";
        switch (rel) {
        case 0: B = A; kind = "equal"; break; case 1: B = qscale(A, -1); kind = "opposite sign"; break;
        case 2: { DV a = d3(r.gauss(), r.gauss(), r.gauss()); B = qscale(qmul(A, qaxis(2 * r.logu(1e-7, 1e-1), dnorm(a))), r.sgn()); kind = "close"; break; }
        case 3: { DV a = d3(r.gauss(), r.gauss(), r.gauss()); B = qmul(A, qaxis(PI_() + r.sgn() * (r.coin() ? 0 : r.logu(1e-7, 1e-1)), dnorm(a))); kind = "half a turn apart"; break; }
        default: B = q_gen(r); }
        quat x = mkq(A), y = mkq(B); if (rel == 0 && r.coin()) y = x; const quat X = x, Y = y; A = qnorm(dq(x)); B = qnorm(dq(y));
        float t = r.chance(1, 8) ? 0.0f : r.chance(1, 8) ? 1.0f : r.chance(1, 6) ? 0.5f : r.chance(1, 8) ? float(r.logu(1e-9, 1e-2)) : r.chance(1, 8) ? float(1 - r.logu(1e-7, 1e-2)) : r.chance(1, 8) ? std::ldexp(1.0f, -int(r.below(24))) : r.chance(1, 10) ? 0.75f : float(r.u01()); if (t > 1) t = 1;
        auto in = [&] { return sall(X, Y, t); };
        { quat g = slerp(x, y, t); DQ G = dq(g); double d = qdot(A, B); DQ Z = d < 0 ? qscale(B, -1) : B; double th = std::atan2(qlen(qadd(Z, qscale(A, -1))), qlen(qadd(Z, A))) * 2, sn = std::sin(th);
          auto arc = [&](const DQ &z) { return sn < 1e-9 ? qadd(qscale(A, 1 - t), qscale(z, t)) : qscale(qadd(qscale(A, std::sin((1 - double(t)) * th)), qscale(z, std::sin(double(t) * th))), 1 / sn); };
          c.group(std::string("slerp ") + kind); c.eval(hall(1, x, y, t)); double e = qmaxdiff(G, arc(Z)); if (std::fabs(d) < 16 * EPS) e = std::fmin(e, qmaxdiff(G, arc(qscale(Z, -1))));
          if (!(std::fabs(qlen(G) - 1) <= 24 * EPS)) c.fail("slerp is not unit", in() + " gives " + str(g)); else if (!(e <= 24 * EPS)) c.fail("slerp", in() + " gives " + str(g) + " expected " + str(arc(Z)) + " difference " + ds(e));
          if (t == 0 && !(qrotdiff(G, A) <= 12 * EPS)) c.fail("slerp does not start at the first rotation", in() + " gives " + str(g)); if (t == 1 && !(qrotdiff(G, B) <= 12 * EPS)) c.fail("slerp does not end at the second rotation", in() + " gives " + str(g)); }
        quat p = x, q = y; if (r.coin()) { p = t_wide<quat>(r, 1e-10, 1e10); q = r.chance(1, 8) ? p : t_wide<quat>(r, 1e-10, 1e10); } DQ P = dq(p), Q = dq(q), S = qadd(qscale(P, 1 - double(t)), qscale(Q, t)); const quat P0 = p, Q0 = q; auto in2 = [&] { return sall(P0, Q0, t); };
        { quat g = lerp(p, q, t); c.group("lerp"); c.eval(hall(2, p, q, t)); float f[4]; get(g, f); double e[4] = {S.x, S.y, S.z, S.w}, m[4] = {std::fabs(P.x) * (1 - t) + std::fabs(Q.x) * t, std::fabs(P.y) * (1 - t) + std::fabs(Q.y) * t, std::fabs(P.z) * (1 - t) + std::fabs(Q.z) * t, std::fabs(P.w) * (1 - t) + std::fabs(Q.w) * t};
          // (a form x + t (y - x) rounds the larger operand at the far end)
          double far_[4] = {std::fabs(P.x), std::fabs(P.y), std::fabs(P.z), std::fabs(P.w)};
          for (int i = 0; i < 4; ++i) if (!near_(f[i], e[i], m[i] + far_[i], 6)) { c.fail("lerp", in2() + " gives " + str(g) + " expected " + str(S)); break; } }
        double sl = qlen(S), mg = qlen(P) + qlen(Q); if (sl > 1e-3 * mg && sl > 1e-12) { quat g = nlerp(p, q, t); c.group("nlerp"); c.eval(hall(3, p, q, t)); DQ G = dq(g); if (!(std::fabs(qlen(G) - 1) <= 12 * EPS)) c.fail("nlerp is not unit", in2() + " gives " + str(g)); else if (!(qmaxdiff(G, qnorm(S)) <= 12 * EPS * mg / sl)) c.fail("nlerp", in2() + " gives " + str(g) + " expected " + str(qnorm(S))); }
        if (!samev(x, X) || !samev(y, Y)) c.fail("interpolation changed an argument", in());
        if (it % 16 == 0) { // constant speed: equal steps of the parameter turn by equal angles
            const int K = 8; DQ prev = dq(slerp(x, y, 0.0f)); double step0 = -1; c.group("slerp constant speed"); c.eval(hall(4, x, y));
            for (int k = 1; k <= K; ++k) { DQ cur = dq(slerp(x, y, float(k) / K)); double st = 2 * std::atan2(qlen(qadd(cur, qscale(prev, -1))), qlen(qadd(cur, prev))); if (step0 < 0) step0 = st; else if (!(std::fabs(st - step0) <= 128 * EPS)) { c.fail("slerp does not turn at constant speed", sall(X, Y)); break; } prev = cur; } }
    }
    c.sample("slerp between q and -q"); c.sample("slerp of rotations 1e-7 apart"); c.sample("slerp half a turn apart, either arc");
}
