// Shared by the matrix monitors: type traits, invertible-matrix generator, error bounds.
#pragma once
#include "common.h"
template <class M> struct MT;
template <> struct MT<zcm::mat2> { typedef zcm::vec2 V; enum { n = 2 }; };
template <> struct MT<zcm::mat3> { typedef zcm::vec3 V; enum { n = 3 }; };
template <> struct MT<zcm::mat4> { typedef zcm::vec4 V; enum { n = 4 }; };
template <class M> M mk_dm(const DM &d) { float a[Dim<M>::n]; int n = d.n; for (int c = 0; c < n; ++c) for (int r = 0; r < n; ++r) a[c * n + r] = float(d.m[c][r]); return mk<M>(a); }
inline DM dabs(const DM &a) { DM d = a; for (int c = 0; c < a.n; ++c) for (int r = 0; r < a.n; ++r) d.m[c][r] = std::fabs(a.m[c][r]); return d; }
inline DM dlin(const DM &a, double s, const DM &b, double t) { DM d = a; for (int c = 0; c < a.n; ++c) for (int r = 0; r < a.n; ++r) d.m[c][r] = s * a.m[c][r] + t * b.m[c][r]; return d; }
inline std::string str(const DM &a) { std::string s = "ref("; for (int c = 0; c < a.n; ++c) for (int r = 0; r < a.n; ++r) s += (c + r ? ", " : "") + ds(a.m[c][r]); return s + ")"; }
// any matrix of moderate entries
template <class M> M m_gen(Rng &r) {
    const int n = MT<M>::n; float a[16];
    switch (r.below(16)) {
    case 9: {   // affine: last row 0 .. 0 1 (or another last entry, or one non-zero entry in the last row)
        for (int i = 0; i < n * n; ++i) a[i] = i % n == n - 1 ? float(i == n * n - 1) : float(r.gauss() * 2);
        unsigned k = r.below(5); if (k == 0) a[n * n - 1] = float(r.sgn() * r.uni(0.25, 4)); if (k == 1) a[r.below(n - 1) * n + n - 1] = float(r.gauss());
        break; }
    case 10: {  // last column 0 .. 0 1, or linear part only
        for (int i = 0; i < n * n; ++i) a[i] = i / n == n - 1 || i % n == n - 1 ? float(i == n * n - 1) : float(r.gauss() * 2);
        unsigned k = r.below(3); if (k == 0) for (int i = 0; i < n - 1; ++i) a[i * n + n - 1] = float(r.gauss()); if (k == 1) a[n * n - 1] = float(r.sgn() * r.uni(0.25, 4));
        break; }
    case 11: {  // symmetric or antisymmetric
        bool anti = r.chance(1, 3); for (int c = 0; c < n; ++c) for (int w = 0; w <= c; ++w) { float f = float(r.gauss()); a[c * n + w] = f; a[w * n + c] = anti ? -f : f; if (anti && c == w) a[c * n + c] = 0; }
        break; }
    case 12: {  // a rotation (of two coordinates at a time), perhaps with a reflection or a uniform scale
        double m[4][4]; for (int c = 0; c < n; ++c) for (int w = 0; w < n; ++w) m[c][w] = c == w;
        for (int k = 0; k < 6; ++k) { int p = r.below(n), q = r.below(n); if (p == q) continue; double t = r.coin() ? r.uni(-3.2, 3.2) : (int(r.below(9)) - 4) * 0.78539816339744831, co = std::cos(t), si = std::sin(t); for (int c = 0; c < n; ++c) { double x = m[c][p], y = m[c][q]; m[c][p] = co * x - si * y; m[c][q] = si * x + co * y; } }
        double s = r.chance(1, 3) ? r.logu(0.1, 10) : 1; int f = r.chance(1, 3) ? int(r.below(n)) : -1; for (int i = 0; i < n * n; ++i) a[i] = float(m[i / n][i % n] * s * (i / n == f ? -1 : 1));
        break; }
    case 13: {  // identity, exactly or nearly; one changed entry
        double e = r.coin() ? r.logu(1e-7, 1e-1) : 0; for (int i = 0; i < n * n; ++i) a[i] = float((i / n == i % n) + e * r.gauss()); if (r.coin()) a[r.below(n * n)] = f_mod(r);
        break; }
    case 14: {  // equal columns or rows, a zero column or row
        for (int i = 0; i < n * n; ++i) a[i] = float(r.gauss()); int p = r.below(n), q = r.below(n); bool col = r.coin(), z = r.coin(); for (int i = 0; i < n; ++i) { if (col) a[p * n + i] = z ? 0 : a[q * n + i]; else a[i * n + p] = z ? 0 : a[i * n + q]; }
        break; }
    case 15: {  // blocks
        int k = 1 + r.below(n - 1); for (int i = 0; i < n * n; ++i) a[i] = (i / n < k) == (i % n < k) ? float(r.gauss()) : 0.0f;
        break; }
    case 0: { for (int i = 0; i < n * n; ++i) a[i] = float(int(r.below(9)) - 4); break; }
    case 1: { float s = f_mod(r); for (int i = 0; i < n * n; ++i) a[i] = i / n == i % n ? s : 0.0f; break; }
    case 2: { for (int i = 0; i < n * n; ++i) a[i] = i / n == i % n ? f_mod(r) : 0.0f; break; }
    case 3: { int p[4] = {0, 1, 2, 3}; for (int i = n - 1; i > 0; --i) std::swap(p[i], p[r.below(i + 1)]); for (int i = 0; i < n * n; ++i) a[i] = p[i / n] == i % n ? float(r.sgn() * r.uni(0.5, 2)) : 0.0f; break; }
    case 4: { bool up = r.coin(); for (int i = 0; i < n * n; ++i) { int c = i / n, w = i % n; a[i] = c == w ? float(r.sgn() * r.uni(0.5, 4)) : (up ? c > w : c < w) ? float(r.uni(-2, 2)) : 0.0f; } break; }
    case 5: { tuple_gen(r, a, n * n, f_mod); break; }
    case 6: { double s = r.coin() ? r.logu(1e-3, 1e3) : std::ldexp(1.0, int(r.below(53)) - 26); if (r.chance(1, 4)) { for (int i = 0; i < n * n; ++i) a[i] = float(s * (1 + 0.1 * r.uni(-1, 1))); break; } if (r.chance(1, 4)) { tuple_gen(r, a, n * n, [](Rng &q) { return f_spice(q, 1e-9, 1e6); }); break; } for (int i = 0; i < n * n; ++i) a[i] = float(s * r.gauss()); break; }
    case 7: { for (int i = 0; i < n * n; ++i) a[i] = float(r.gauss()); int p = r.below(n), q = r.below(n); if (p != q) { double e = r.logu(1e-3, 1); for (int i = 0; i < n; ++i) a[p * n + i] = float(a[q * n + i] + e * r.gauss()); } break; }
    default: for (int i = 0; i < n * n; ++i) a[i] = float(r.gauss());
    }
    return mk<M>(a);
}
// the inverse in double precision, with a bound on the rounding error of a single-precision adjugate/determinant
// evaluation; false when the matrix is too close to singular for the question to have an answer
inline bool inv_ref(const DM &m, DM &inv, DM &err, double k = 16) {
    double det = ddet(m), dmag = dperm(m);
    if (!(std::fabs(det) > 0) || !(k * EPS * dmag < 0.05 * std::fabs(det))) return false;
    if (std::fabs(det) < 1e-30 || std::fabs(det) > 1e30) return false;
    DM adj = dadj(m), amag = dadjmag(m); inv = adj; err = adj;
    for (int c = 0; c < m.n; ++c) for (int r = 0; r < m.n; ++r) {
        inv.m[c][r] = adj.m[c][r] / det;
        err.m[c][r] = 1.1 * k * EPS * (amag.m[c][r] / std::fabs(det) + std::fabs(adj.m[c][r]) * dmag / (det * det)) + 1e-37;
        if (!(std::fabs(inv.m[c][r]) < 1e26 && err.m[c][r] < 1e26)) return false;
    }
    return true;
}
template <class M> bool expect_mat(const std::string &key, const M &got, const DM &ref, const DM &tol, const std::function<std::string()> &in) {
    DM g = dm(got);
    for (int c = 0; c < ref.n; ++c) for (int r = 0; r < ref.n; ++r)
        if (!(std::fabs(g.m[c][r] - ref.m[c][r]) <= tol.m[c][r])) {
            ctx().fail(key, ctx().failed_enough(key) ? "" : "inputs " + in() + " got " + str(got) + " expected " + str(ref) + " column " + std::to_string(c) + " row " + std::to_string(r) + " tolerance " + ds(tol.m[c][r]));
            return false;
        }
    return true;
}
inline DM dtol(const DM &mag, double k) { DM d = mag; for (int c = 0; c < mag.n; ++c) for (int r = 0; r < mag.n; ++r) d.m[c][r] = k * EPS * std::fabs(mag.m[c][r]) + 1e-37; return d; }
