// decompose_orthogonal.
#include "rot.h"
#include <zcm/matrix_transform.hpp>
using namespace zcm;
void run(Ctx &c, Rng &r) {
    u64 n = c.n(200000);
    for (u64 it = 0; it < n; ++it) { STEP(r)
        DQ q = q_gen(r); DM R = qmat(q, 4), S = dident(4), T = dident(4); double lo = 1e-3, hi = 1e3; bool cube = false; if (r.chance(1, 5)) { lo = 1e-10; hi = 1e10; }
        double u = r.sgn() * r.logu(lo, hi); int kind = r.below(4); for (int i = 0; i < 3; ++i) S.m[i][i] = kind == 0 ? u : kind == 1 ? r.sgn() : kind == 2 ? std::fabs(r.logu(lo, hi)) : r.sgn() * r.logu(lo, hi);
        if (r.chance(1, 6)) { static const double pv[] = {0.5, 2, 1, 4, 0.25}; int k2 = r.below(4); double w = k2 == 0 ? double(1 + r.below(20)) : pv[r.below(5)]; for (int i = 0; i < 3; ++i) S.m[i][i] = r.sgn() * (k2 == 0 ? (r.coin() ? w : 1 + r.below(20)) : k2 == 1 ? w : k2 == 2 ? pv[r.below(5)] : std::ldexp(1.0, int(r.below(41)) - 20)); }
        if (r.chance(1, 8)) { double w = r.logu(lo, hi); for (int i = 0; i < 3; ++i) S.m[i][i] = r.sgn() * w * (1 + r.logu(1e-6, 1e-1) * r.uni(-1, 1)); }
        if (r.chance(1, 5)) { // turns of the cube, exactly, so that the matrix holds true zeros and the scale factors themselves
            int p[3] = {0, 1, 2}; for (int i = 2; i > 0; --i) std::swap(p[i], p[r.below(i + 1)]); DM C = dident(4); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) C.m[i][j] = p[i] == j ? r.sgn() : 0; if (ddet(C) < 0) for (int j = 0; j < 3; ++j) C.m[0][j] = -C.m[0][j]; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) if (C.m[i][j] == 0) C.m[i][j] = 0; R = C; cube = true; }
        float t[3]; for (float &x : t) x = r.coin() ? f_mod(r) : f_spice(r); if (r.chance(1, 8)) t[1] = t[2] = t[0]; for (int i = 0; i < 3; ++i) T.m[3][i] = t[i];
        mat4 m = mk_dm<mat4>(dmul(dmul(T, R), S)); if (cube) { float f[16]; get(m, f); for (int i = 0; i < 15; ++i) if (f[i] == 0 && r.chance(1, 3)) f[i] = -0.0f; m = mk<mat4>(f); } const mat4 M0 = m; DM A = dm(m); bool mir = S.m[0][0] * S.m[1][1] * S.m[2][2] < 0;
        const float junk = bitsf(0x7fc12345u); float j4[4] = {junk, -3, 1e30f, junk}; vec3 s = mk<vec3>(j4), tr = mk<vec3>(j4); quat o = mk<quat>(j4);
        decompose_orthogonal(m, s, o, tr); DQ Q = dq(o); double tc = q.w * q.w; c.group(std::string(mir ? "mirrored, " : "proper, ") + (cube ? "cube turn" : tc > 0.25 ? "small angle" : std::fabs(q.x) > std::fabs(q.y) ? (std::fabs(q.x) > std::fabs(q.z) ? "large about x" : "large about z") : std::fabs(q.y) > std::fabs(q.z) ? "large about y" : "large about z")); c.eval(hall(1, M0));
        auto in = [&] { return str(M0) + " gives scale " + str(s) + " orientation " + str(o) + " translation " + str(tr); };
        if (!samev(m, M0)) c.fail("the matrix was changed", in());
        float g[3]; get(tr, g); for (int i = 0; i < 3; ++i) if (!(g[i] == t[i])) { c.fail("translation", in()); break; }
        get(s, g); bool sg = true; for (int i = 0; i < 3; ++i) sg &= mir ? g[i] < 0 : g[i] > 0; if (!sg) { c.fail(mir ? "signs of the scale of a mirroring matrix" : "signs of the scale", in()); continue; }
        for (int i = 0; i < 3; ++i) if (!(std::fabs(std::fabs(g[i]) - std::fabs(S.m[i][i])) <= 8 * EPS * std::fabs(S.m[i][i]))) { c.fail("scale factor", in()); break; }
        if (!(std::fabs(qlen(Q) - 1) <= 16 * EPS)) { c.fail("orientation is not unit", in()); continue; }
        DM RR = qmat(qnorm(Q), 4), ref = dident(4), tol = ref; for (int k = 0; k < 3; ++k) for (int w = 0; w < 3; ++w) { ref.m[k][w] = RR.m[k][w] * g[k]; tol.m[k][w] = 32 * EPS * std::fabs(g[k]); } for (int w = 0; w < 4; ++w) { ref.m[3][w] = A.m[3][w]; tol.m[3][w] = tol.m[w][3] = 0; }
        expect_mat("recomposition", M0, ref, tol, in);
    }
    c.sample("half turn about a diagonal axis with mixed-sign scale"); c.sample("uniform scale -1e-10");
}
