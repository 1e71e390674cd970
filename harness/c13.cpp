// Reflect, refract, faceforward.
#include "common.h"
#include <zcm/geometric.hpp>
using namespace zcm;
template <class T> struct Conv { static DV d(const T &t) { return dv(t); } };
template <> struct Conv<float> { static DV d(const float &t) { DV v; v.n = 1; v.v[0] = t; return v; } };
template <class T> T unit(Rng &r) { return t_unit<T>(r); }
template <> float unit<float>(Rng &r) { return r.coin() ? 1.0f : -1.0f; }
template <class T> void one(Ctx &c, Rng &r, u64 n) {
    std::string nm = Dim<T>::name(); const int N = Dim<T>::n;
    for (u64 it = 0; it < n; ++it) { STEP(r)
        T nv = unit<T>(r), i = t_wide<T>(r);
        if (r.chance(1, 4)) { float a[4], b[4]; get(nv, a); get(i, b); double s = r.sgn() * r.logu(0.1, 10); for (int j = 0; j < N; ++j) b[j] = float(a[j] * s + (r.coin() ? r.gauss() * 1e-4 : 0)); i = mk<T>(b); }
        DV I = Conv<T>::d(i), Nn = Conv<T>::d(nv);
        { double d = ddot(Nn, I); DV e = dsub(I, dscale(Nn, 2 * d)); T g = reflect(i, nv); c.group("reflect " + nm); c.eval(hall(1, i, nv));
          expect_near(("reflect of " + nm).c_str(), g, e, dlen(I), 12, [&] { return sall(i, nv); });
          double l = dlen(Conv<T>::d(g)); if (!(std::fabs(l - dlen(I)) <= 16 * EPS * dlen(I) + 1e-40)) c.fail("reflect of " + nm + " changes the length", sall(i, nv) + " gives " + str(g)); }
        { T u = unit<T>(r); if (r.chance(1, 3)) { float a[4], b[4]; get(nv, a); get(u, b); double s = 0; for (int j = 0; j < N; ++j) { b[j] = float(-a[j] + r.gauss() * 0.2); s += double(b[j]) * b[j]; } for (int j = 0; j < N; ++j) b[j] = N == 1 ? -a[j] : float(b[j] / std::sqrt(s)); u = mk<T>(b); }
          float eta = r.chance(1, 4) ? 1.0f : float(r.chance(1, 2) ? r.uni(0.3, 3) : r.logu(1e-2, 50)); if (r.chance(1, 5)) eta = r.coin() ? std::ldexp(1.0f, int(r.below(10)) - 5) : float(1 + r.below(4)); if (r.chance(1, 8)) { float a[4], b[4]; get(nv, a); double e = r.coin() ? 0 : r.logu(1e-7, 1e-2), s = 0; for (int j = 0; j < N; ++j) { b[j] = float(-a[j] + (N == 1 ? 0 : e * r.gauss())); s += double(b[j]) * b[j]; } if (e != 0) for (int j = 0; j < N; ++j) b[j] = float(b[j] / std::sqrt(s)); u = mk<T>(b); } DV U = Conv<T>::d(u);
          // exactly grazing without a change of index: the ray goes straight on
          bool graze = N > 1 && r.chance(1, 16); T nv0 = nv; if (graze) { float a[4] = {}, b[4] = {}; int p = r.below(N), q = (p + 1 + r.below(N - 1)) % N; a[p] = float(r.sgn()); b[q] = float(r.sgn()); nv = mk<T>(a); u = mk<T>(b); Nn = Conv<T>::d(nv); U = Conv<T>::d(u); eta = 1; }
          // mostly rays that face the surface; the law is the same for the others, and the result is again on the far side
          double d = ddot(Nn, U); if (d > 0 && r.chance(3, 4)) { float a[4]; get(u, a); for (int j = 0; j < N; ++j) a[j] = -a[j]; u = mk<T>(a); U = Conv<T>::d(u); d = -d; }
          double k = 1 - double(eta) * eta * (1 - d * d), dk = 16 * EPS * (1 + double(eta) * eta);
          T g = refract(u, nv, eta); c.group("refract " + nm); c.eval(hall(2, u, nv, eta)); float q[4]; get(g, q); DV G = Conv<T>::d(g);
          bool zero = true, fin = true; for (int j = 0; j < N; ++j) { zero &= q[j] == 0; fin &= isfin_(q[j]); }
          if (!fin) { c.fail("refract of " + nm + " not finite", sall(u, nv, eta) + " gives " + str(g)); continue; }
          if (k < -dk) { c.group("refract total reflection " + nm); c.eval(hall(2, u, nv, eta)); if (!zero) c.fail("refract of " + nm + " total internal reflection", sall(u, nv, eta) + " gives " + str(g)); continue; }
          if (k < dk) { if (zero && !graze) continue; k = k < 0 ? 0 : k; }
          DV e = dsub(dscale(U, eta), dscale(Nn, eta * d + std::sqrt(k)));
          double tol = 16 * EPS * (1 + eta) + (std::sqrt(k + dk) - std::sqrt(k > dk ? k - dk : 0));
          for (int j = 0; j < N; ++j) if (!(std::fabs(G[j] - e[j]) <= tol)) { c.fail("refract of " + nm, sall(u, nv, eta) + " gives " + str(g) + " expected " + str(e)); break; }
          // Snell's law: the tangential part is scaled by eta, and the result is on the far side
          if (!(ddot(G, Nn) <= tol)) c.fail("refract of " + nm + " on the near side", sall(u, nv, eta) + " gives " + str(g));
          nv = nv0; }
        { T a = t_wide<T>(r), b = t_wide<T>(r), ref = t_wide<T>(r); switch (r.below(8)) { case 0: b = a; break; case 1: ref = a; break; case 2: ref = b; break; case 3: { float x[4], y[4]; get(b, x); double s = r.sgn() * r.logu(0.1, 10); for (int j = 0; j < N; ++j) y[j] = float(x[j] * s * (1 + 0.05 * r.uni(-1, 1))); ref = mk<T>(y); break; } default: break; } bool exact = r.coin();
          if (exact) { float x[4], y[4]; for (int j = 0; j < N; ++j) { x[j] = float(int(r.below(7)) - 3); y[j] = float(int(r.below(7)) - 3); } if (N > 1 && r.coin()) { for (int j = 0; j < N; ++j) { x[j] = 0; y[j] = 0; } int p = r.below(N), s2 = (p + 1) % N; float u = float(r.below(5)), v = float(r.below(5)); x[p] = u; x[s2] = v; y[p] = -v; y[s2] = u; } b = mk<T>(x); ref = mk<T>(y); }
          DV B = Conv<T>::d(b), R = Conv<T>::d(ref); double d = ddot(R, B); if (!exact && std::fabs(d) < 8 * EPS * dadot(R, B)) continue;
          T g = faceforward(a, b, ref); c.group(std::string("faceforward ") + (d < 0 ? "kept " : d > 0 ? "flipped " : "perpendicular ") + nm); c.eval(hall(3, a, b, ref)); float x[4], y[4]; get(a, x); get(g, y);
          for (int j = 0; j < N; ++j) if (!(y[j] == (d < 0 ? x[j] : -x[j]))) { c.fail("faceforward of " + nm, sall(a, b, ref) + " gives " + str(g)); break; } }
    }
}
void run(Ctx &c, Rng &r) {
    u64 n = c.n(60000); one<float>(c, r, n / 2); one<vec2>(c, r, n); one<vec3>(c, r, n); one<vec4>(c, r, n);
    c.sample("refract(vec3) at eta 1.5 near the critical angle"); c.sample("faceforward with exactly perpendicular integer vectors");
}
