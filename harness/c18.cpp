// translate, rotate, scale.
#include "rot.h"
#include <zcm/matrix_transform.hpp>
using namespace zcm;
void run(Ctx &c, Rng &r) {
    u64 n = c.n(60000);
    for (u64 it = 0; it < n; ++it) { STEP(r)
        mat4 m = m_gen<mat4>(r); if (r.chance(1, 4)) { float a[16]; get(m, a); a[3] = a[7] = a[11] = 0; a[15] = 1; m = mk<mat4>(a); } if (r.chance(1, 8)) m = mk_dm<mat4>(dident(4));
        const mat4 M0 = m; DM A = dm(m); vec3 v = t_wide<vec3>(r); const vec3 V0 = v; DV d = dv(v);
        auto unch = [&](const char *f) { if (!samev(m, M0) || !samev(v, V0)) c.fail(std::string(f) + " changed its argument", sall(M0, V0)); };
        { DM T = dident(4); for (int i = 0; i < 3; ++i) T.m[3][i] = d.v[i]; c.group("translate"); c.eval(hall(1, m, v)); mat4 g = translate(m, v); unch("translate");
          expect_mat("translate", g, dmul(A, T), dtol(dabsmul(A, T), 8), [&] { return sall(M0, V0); }); mat4 z = m; z = translate(z, v); expect_same("m = translate(m, v)", z, g, sall(M0, V0)); }
        { DM S = dident(4); for (int i = 0; i < 3; ++i) S.m[i][i] = d.v[i]; c.group("scale"); c.eval(hall(2, m, v)); mat4 g = scale(m, v); unch("scale");
          expect_mat("scale", g, dmul(A, S), dtol(dabsmul(A, S), 2), [&] { return sall(M0, V0); }); mat4 z = m; z = scale(z, v); expect_same("m = scale(m, v)", z, g, sall(M0, V0)); }
        { float ang = angle_gen(r); float u[3]; unit_gen(r, u, 3); double l = r.chance(1, 3) ? 1 : r.chance(1, 4) ? 1 + r.sgn() * r.logu(1e-7, 1e-1) : r.chance(1, 2) ? r.logu(1e-10, 1e10) : r.uni(0.1, 10); for (float &x : u) x = float(x * l); vec3 ax = mk<vec3>(u); const vec3 AX = ax; DV a = dnorm(dv(ax));
          double cs = std::cos(double(ang)), sn = std::sin(double(ang)); DM R = dident(4), mag = dident(4);
          // Rodrigues' formula, right-handed
          for (int col = 0; col < 3; ++col) for (int row = 0; row < 3; ++row) { double cr = 0; if (row != col) { int k = 3 - row - col; cr = ((col + 1) % 3 == row ? 1 : -1) * a.v[k]; }
            R.m[col][row] = (1 - cs) * a.v[row] * a.v[col] + sn * cr + (row == col ? cs : 0); mag.m[col][row] = std::fabs(a.v[row] * a.v[col]) + std::fabs(sn * cr) + (row == col ? std::fabs(cs) : 0); }
          c.group("rotate"); c.eval(hall(3, m, ax, ang)); mat4 g = rotate(m, ang, ax); unch("rotate"); if (!samev(ax, AX)) c.fail("rotate changed its axis", str(AX));
          DM t = dtol(dabsmul(dabs(A), mag), 16);
          expect_mat("rotate", g, dmul(A, R), t, [&] { return sall(M0, ang, AX); });
          DM gd = dm(g); for (int i = 0; i < 4; ++i) if (!(gd.m[3][i] == A.m[3][i])) { c.fail("rotate changed the translation column", sall(M0, ang, AX)); break; }
          mat4 z = m; z = rotate(z, ang, ax); expect_same("m = rotate(m, ...)", z, g, sall(M0, ang, AX));
          // a pure rotation keeps lengths and handedness, whatever the reference formula says
          mat4 p = rotate(mk_dm<mat4>(dident(4)), ang, ax); DM P = dm(p); double det = ddet(P); if (!(std::fabs(det - 1) < 64 * EPS)) c.fail("rotate: determinant is not 1", sall(ang, AX) + " gives " + ds(det));
          DV x = d3(r.gauss(), r.gauss(), r.gauss()); x.n = 4; x.v[3] = 1; DV y = dmulv(P, x); double lx = std::sqrt(ddot(x, x) - 1), ly = std::sqrt(ddot(y, y) - 1); if (!(std::fabs(lx - ly) < 64 * EPS * lx + 1e-7)) c.fail("rotate changes lengths", sall(ang, AX));
          DV av = a; av.n = 4; av.v[3] = 1; DV aw = dmulv(P, av); for (int i = 0; i < 3; ++i) if (!(std::fabs(aw.v[i] - a.v[i]) < 32 * EPS)) { c.fail("rotate moves its axis", sall(ang, AX)); break; } }
        // composed builders against the product of their references
        { mat4 g = mk_dm<mat4>(dident(4)); DM ref = dident(4); DM bound = dident(4); std::string log; u64 h = 9; double err = 0;
          for (int k = 0; k < 6; ++k) { DM X = dident(4); float p[3] = {float(r.uni(-2, 2)), float(r.uni(-2, 2)), float(r.uni(-2, 2))}; vec3 q = mk<vec3>(p); int op = r.below(3); h = hall(h, q) + op;
            if (op == 0) { g = translate(g, q); for (int i = 0; i < 3; ++i) X.m[3][i] = p[i]; log += " translate " + str(q); }
            else if (op == 1) { g = scale(g, q); for (int i = 0; i < 3; ++i) X.m[i][i] = p[i]; log += " scale " + str(q); }
            else { float an = angle_gen(r); g = rotate(g, an, q); X = qmat(qaxis(an, dnorm(dv(q))), 4); log += " rotate " + str(an) + str(q); h = hall(h, an); }
            ref = dmul(ref, X); bound = dabsmul(bound, dabs(X)); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) bound.m[i][j] += 0; err += 1; }
          double mx = 0; for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) mx = std::fmax(mx, bound.m[i][j]);
          DM t = bound; for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) t.m[i][j] = 64 * EPS * mx; c.group("chain of builders"); c.eval(h); expect_mat("chain of builders", g, ref, t, [&] { return log; }); }
    }
    c.sample("rotate(general m, 3.1415925, axis of length 1e-9)"); c.sample("translate of a projective matrix");
}
