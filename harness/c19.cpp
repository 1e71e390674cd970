// lookAtLH, lookAtRH.
#include "rot.h"
#include <zcm/matrix_transform.hpp>
using namespace zcm;
void run(Ctx &c, Rng &r) {
    u64 n = c.n(150000);
    for (u64 it = 0; it < n; ++it) { STEP(r)
        float e[3], t[3], u[3], w[3]; double es = r.chance(1, 5) ? 0 : r.chance(1, 4) ? r.logu(1e-6, 1e6) : r.logu(1e-3, 1e4), dist = r.chance(1, 4) ? 1 : r.chance(1, 4) ? r.logu(1e-5, 1e6) : r.logu(1e-2, 1e4);
        unit_gen(r, e, 3); unit_gen(r, t, 3); unit_gen(r, u, 3);
        if (r.chance(1, 3)) { u[0] = u[2] = 0; u[1] = 1; }
        double ul = r.coin() ? 1 : r.logu(1e-6, 1e6); if (r.chance(1, 5)) ul = -ul;
        for (int i = 0; i < 3; ++i) { e[i] = float(e[i] * es); w[i] = float(e[i] + t[i] * dist); u[i] = float(u[i] * ul); }
        if (r.chance(1, 6)) for (int i = 0; i < 3; ++i) { e[i] = float(int(r.below(11)) - 5); w[i] = float(int(r.below(11)) - 5); u[i] = float(int(r.below(5)) - 2); }
        if (r.chance(1, 5)) { vec3 p[3]; for (auto &q : p) q = t_wide<vec3>(r, 1e-6, 1e6); get(p[0], e); get(p[1], w); get(p[2], u); }
        switch (r.below(24)) { case 0: for (int i = 0; i < 3; ++i) u[i] = e[i]; break; case 1: for (int i = 0; i < 3; ++i) u[i] = w[i]; break; case 2: for (int i = 0; i < 3; ++i) u[i] = -w[i]; break; case 3: for (int i = 0; i < 3; ++i) w[i] = -e[i]; break; case 4: for (int i = 0; i < 3; ++i) w[i] = float(e[i] * (1 + 0.1 * r.uni(-1, 1))); break; case 5: for (int i = 0; i < 3; ++i) u[i] = float(e[i] * (1 + 0.1 * r.uni(-1, 1))); break; case 6: for (int i = 0; i < 3; ++i) w[i] = 0; break; case 7: for (int i = 0; i < 3; ++i) if (r.coin()) w[i] = e[i]; break; default: break; }
        vec3 E = mk<vec3>(e), W = mk<vec3>(w), U = mk<vec3>(u); const vec3 E0 = E, W0 = W, U0 = U;
        DV d = dsub(dv(W), dv(E)); double dl = dlen(d); DV up = dv(U); if (!(dl > 1e-3 * dlen(dv(E)) && dl > 1e-7) || !(dlen(up) > 0)) continue;
        DV f = dnorm(d), cr = dcross(f, dnorm(up)); double sn = dlen(cr); if (sn < 0.01) continue;
        for (int lh = 0; lh < 2; ++lh) {
            const std::string nm = lh ? "lookAtLH" : "lookAtRH"; mat4 m = lh ? lookAtLH(E, W, U) : lookAtRH(E, W, U); c.group(nm + (sn < 0.1 ? " up nearly parallel" : " general")); c.eval(hall(lh, E0, W0, U0));
            if (!samev(E, E0) || !samev(W, W0) || !samev(U, U0)) c.fail(nm + " changed its argument", sall(E0, W0, U0));
            auto in = [&] { return sall(E0, W0, U0) + " gives " + str(m); };
            DM M = dm(m); double tol = 24 * EPS / sn, el = dlen(dv(E)), wl = dlen(dv(W)); auto bad = [&](const char *k) { c.fail(nm + " " + k, in()); };
            if (!(M.m[0][3] == 0 && M.m[1][3] == 0 && M.m[2][3] == 0 && M.m[3][3] == 1)) { bad("last row"); continue; }
            // rigid and handed: the 3x3 part is orthonormal with determinant +1 (right) and, for the left-handed form, also +1
            bool rigid = true; for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) { double s = 0; for (int k = 0; k < 3; ++k) s += M.m[k][a] * M.m[k][b]; rigid &= std::fabs(s - (a == b)) <= 4 * tol; }
            if (!rigid) { bad("is not rigid"); continue; }
            DM m3; m3.n = 3; for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) m3.m[a][b] = M.m[a][b]; double det = ddet(m3);
            auto at = [&](const DV &p, double one) { DV q; q.n = 4; for (int i = 0; i < 3; ++i) q.v[i] = p.v[i]; q.v[3] = one; return dmulv(M, q); };
            DV oe = at(dv(E), 1), ot = at(dv(W), 1), ou = at(dnorm(up), 0);
            double te = 2 * tol * el + 1e-37, tt = 2 * tol * (el + wl) + 1e-37;
            for (int i = 0; i < 3; ++i) if (!(std::fabs(oe.v[i]) <= te)) { bad("does not map the eye to the origin"); break; }
            double z = lh ? dl : -dl; if (!(std::fabs(ot.v[0]) <= tt && std::fabs(ot.v[1]) <= tt && std::fabs(ot.v[2] - z) <= tt)) bad("does not map the target to the third axis");
            if (!(std::fabs(ou.v[0]) <= 2 * tol && ou.v[1] > 0)) bad("does not map up into the half-plane of the positive second axis");
            if (!(std::fabs(det - 1) <= 8 * tol)) bad("mirrors space");
        }
    }
    c.sample("eye (0,0,0), target on an axis, up nearly parallel (sine 0.01)");
}
