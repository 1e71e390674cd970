// Matrix operators.
#include "mat.h"
#include <zcm/matrix.hpp>
using namespace zcm;
template <class T> bool expect_dv(const std::string &key, const T &got, const DV &ref, const DV &tol, const std::function<std::string()> &in) {
    DV g = dv(got);
    for (int i = 0; i < ref.n; ++i) if (!(std::fabs(g.v[i] - ref.v[i]) <= tol.v[i])) { ctx().fail(key, ctx().failed_enough(key) ? "" : "inputs " + in() + " got " + str(got) + " expected " + str(ref) + " component " + std::to_string(i)); return false; }
    return true;
}
template <class M> void elementwise(Ctx &c, Rng &r, u64 n) {
    const int N = Dim<M>::n; std::string nm = Dim<M>::name();
    for (u64 it = 0; it < n; ++it) { STEP(r)
        float a[16], b[16], e[16]; M x = t_any<M>(r), y = t_any<M>(r);
        if (r.chance(1, 6)) y = x;
        if (r.chance(1, 4)) { get(x, a); memcpy(b, a, sizeof a); b[r.below(N)] = f_any(r); y = mk<M>(b); }
        if (r.chance(1, 6)) { get(x, a); for (int i = 0; i < N; ++i) b[i] = a[i] == 0 ? -a[i] : a[i]; y = mk<M>(b); }
        get(x, a); get(y, b); M X = x, Y = y; float s = f_any(r);
        auto in = [&] { return sall(X, Y, s); };
        auto unch = [&](const char *op) { if (!samev(x, X) || !samev(y, Y)) c.fail(std::string("operand of ") + op + " changed " + nm, in()); };
#define EW(OPN, EXPR, REF) { c.group(OPN " " + nm); c.eval(hall(1, X, Y, s)); for (int i = 0; i < N; ++i) e[i] = REF; expect_same((OPN " " + nm).c_str(), M(EXPR), mk<M>(e), in()); unch(OPN); }
        EW("+", x + y, a[i] + b[i]) EW("-", x - y, a[i] - b[i]) EW("unary -", -x, -a[i]) EW("unary +", +x, a[i])
        EW("matrixCompMult", matrixCompMult(x, y), a[i] * b[i])
        EW("+ with itself", x + x, a[i] + a[i]) EW("- with itself", x - x, a[i] - a[i]) EW("matrixCompMult with itself", matrixCompMult(x, x), a[i] * a[i])
        EW("matrix * scalar", x * s, a[i] * s) EW("scalar * matrix", s * x, s * a[i])
        { c.group("+= " + nm); c.eval(hall(1, X, Y)); M z = x; z += y; for (int i = 0; i < N; ++i) e[i] = a[i] + b[i]; expect_same(("+= " + nm).c_str(), z, mk<M>(e), in()); unch("+="); }
        { c.group("-= " + nm); c.eval(hall(1, X, Y)); M z = x; z -= y; for (int i = 0; i < N; ++i) e[i] = a[i] - b[i]; expect_same(("-= " + nm).c_str(), z, mk<M>(e), in()); unch("-="); }
        { c.group("+= itself " + nm); c.eval(hall(1, X)); M z = x; z += z; for (int i = 0; i < N; ++i) e[i] = a[i] + a[i]; expect_same(("+= itself " + nm).c_str(), z, mk<M>(e), in()); }
        { c.group("-= itself " + nm); c.eval(hall(1, X)); M z = x; z -= z; for (int i = 0; i < N; ++i) e[i] = a[i] - a[i]; expect_same(("-= itself " + nm).c_str(), z, mk<M>(e), in()); }
        // division: one rounding, or a multiplication by the reciprocal where that is safe
        { c.group("matrix / scalar " + nm); c.eval(hall(1, X, s)); float q[16]; M z = x / s; get(z, q);
          for (int i = 0; i < N; ++i) { float d = a[i] / s; bool tame = isfin_(s) && isfin_(a[i]) && std::fabs(s) > 1e-30f && std::fabs(s) < 1e30f && std::fabs(d) > 1e-30f && std::fabs(d) < 1e30f;
            if (!(tame ? ulps(q[i], d, 2) : std::fabs(s) > 1e-30f && std::fabs(s) < 1e30f ? same(q[i], d) || std::fabs(double(q[i]) - double(d)) <= 4 * EPS * std::fabs(double(d)) + 3e-45 : true)) { c.fail("matrix / scalar " + nm, sall(X, s) + " got " + str(z)); break; } } unch("/"); }
        { c.group("scalar / matrix " + nm); c.eval(hall(1, X, s)); float q[16]; M z = s / x; get(z, q);
          for (int i = 0; i < N; ++i) { float d = s / a[i]; bool tame = isfin_(s) && isfin_(a[i]) && std::fabs(a[i]) > 1e-30f && std::fabs(a[i]) < 1e30f && std::fabs(d) > 1e-30f && std::fabs(d) < 1e30f;
            if (!(tame ? ulps(q[i], d, 2) : (a[i] == 0 || !isfin_(a[i])) ? same(q[i], d) : true)) { c.fail("scalar / matrix " + nm, sall(s, X) + " got " + str(z)); break; } } unch("/"); }
        { c.group("== " + nm); c.eval(hall(1, X, Y)); bool q = true; for (int i = 0; i < N; ++i) q &= a[i] == b[i]; if ((x == y) != q) c.fail("== " + nm, in()); if ((x != y) != !q) c.fail("!= " + nm, in());
          bool z = true; for (int i = 0; i < N; ++i) z &= a[i] == a[i]; if ((x == x) != z || (x != x) == z) c.fail("== of an object with itself " + nm, in()); }
    }
    // each single element matters to equality
    for (u64 it = 0; it < n / 4 + 1; ++it) for (int i = 0; i < N; ++i) {
        float a[16]; M x = t_mod<M>(r); get(x, a); a[i] = r.coin() ? std::nextafter(a[i], 1e9f) : a[i] + 1; M y = mk<M>(a); float b[16]; get(x, b); if (b[i] == a[i]) continue;
        c.group("== one element differs " + nm); c.eval(hall(2, x, y)); if (x == y || !(x != y)) c.fail("== ignores element " + std::to_string(i) + " " + nm, sall(x, y)); }
}
template <class M> void products(Ctx &c, Rng &r, u64 n) {
    typedef typename MT<M>::V V; std::string nm = Dim<M>::name(); const int N = MT<M>::n;
    for (u64 it = 0; it < n; ++it) { STEP(r)
        M x = m_gen<M>(r), y = r.chance(1, 8) ? x : m_gen<M>(r); V v = t_wide<V>(r, 1e-15, 1e9); if (r.chance(1, 8)) { float p[16]; get(x, p); double g = r.sgn(), w = r.coin() ? 0 : r.logu(1e-7, 1e-1); for (float &q : p) q = float(g * q * (1 + w * r.uni(-1, 1))); y = mk<M>(p); } const M X = x, Y = y; const V Vv = v;
        DM A = dm(x), B = dm(y); DV d = dv(v), ad = d; for (int i = 0; i < N; ++i) ad.v[i] = std::fabs(d.v[i]);
        auto in = [&] { return sall(X, Y, Vv); };
        auto unch = [&](const char *op) { if (!samev(x, X) || !samev(y, Y) || !samev(v, Vv)) c.fail(std::string("operand of ") + op + " changed " + nm, in()); };
        DM ref = dmul(A, B), tol = dtol(dabsmul(A, B), 12), AA = dmul(A, A), tAA = dtol(dabsmul(A, A), 12);
        c.group("matrix * matrix " + nm); c.eval(hall(3, X, Y)); expect_mat("matrix * matrix " + nm, x * y, ref, tol, in); unch("*");
        { M z = x; z *= y; c.group("*= " + nm); c.eval(hall(3, X, Y)); expect_mat("*= " + nm, z, ref, tol, in); unch("*=");
          M w = x * y; if (!samev(z, w)) c.fail("*= differs from * " + nm, in()); }
        { M z = x; z *= z; c.group("*= itself " + nm); c.eval(hall(3, X)); expect_mat("*= itself " + nm, z, AA, tAA, in); M w = x * x; expect_mat("* with itself " + nm, w, AA, tAA, in); }
        { M z = x; z = z * y; expect_mat("a = a * b " + nm, z, ref, tol, in); z = y; z = x * z; expect_mat("b = a * b " + nm, z, ref, tol, in); }
        // vectors
        DM a1 = dabs(A); DV mv = dmulv(A, d), mvt = dscale(dmulv(a1, ad), 12 * EPS), vm = dvmul(d, A), vmt = dscale(dvmul(ad, a1), 12 * EPS); for (int i = 0; i < N; ++i) { mvt.v[i] += 1e-37; vmt.v[i] += 1e-37; }
        c.group("matrix * vector " + nm); c.eval(hall(4, X, Vv)); expect_dv("matrix * vector " + nm, V(x * v), mv, mvt, in); unch("*");
        c.group("vector * matrix " + nm); c.eval(hall(5, X, Vv)); expect_dv("vector * matrix " + nm, V(v * x), vm, vmt, in); unch("*");
        { V w = v; w = x * w; expect_dv("v = m * v " + nm, w, mv, mvt, in); w = v; w = w * x; expect_dv("v = v * m " + nm, w, vm, vmt, in); }
        { M z = x; int k = r.below(N); DV col; col.n = N; for (int i = 0; i < N; ++i) col.v[i] = A.m[k][i]; DV acol = col; for (int i = 0; i < N; ++i) acol.v[i] = std::fabs(col.v[i]);
          DV e = dmulv(A, col), t = dscale(dmulv(a1, acol), 12 * EPS); for (int i = 0; i < N; ++i) t.v[i] += 1e-37; c.group("m[k] = m * m[k] " + nm); c.eval(hall(6, X)); z[k] = z * z[k]; expect_dv("m[k] = m * m[k] " + nm, V(z[k]), e, t, in);
          DM zz = dm(z); for (int cc = 0; cc < N; ++cc) if (cc != k) for (int q = 0; q < N; ++q) if (zz.m[cc][q] != A.m[cc][q]) { c.fail("assigning one column changed another " + nm, in()); cc = q = N; } }
        // division
        DM bi, be; if (!inv_ref(B, bi, be)) { c.group("singular divisor " + nm); c.eval(hall(7, Y)); continue; }
        DM aB = dabs(bi), q = dmul(A, bi), qt = dlin(dmul(a1, be), 1.1, dmul(a1, aB), 12 * EPS);
        c.group("matrix / matrix " + nm); c.eval(hall(8, X, Y)); expect_mat("matrix / matrix " + nm, x / y, q, qt, in); unch("/");
        { M z = x; z /= y; c.group("/= " + nm); c.eval(hall(8, X, Y)); expect_mat("/= " + nm, z, q, qt, in); unch("/="); }
        { M z = y; z /= z; DM b1 = dabs(B); c.group("/= itself " + nm); c.eval(hall(8, Y)); DM I = dident(N), t = dlin(dmul(b1, be), 1.1, dmul(b1, aB), 12 * EPS); expect_mat("/= itself " + nm, z, I, t, in); M w = y / y; expect_mat("/ with itself " + nm, w, I, t, in); }
        { DV e = dmulv(bi, d), t = dmulv(be, ad), t2 = dmulv(aB, ad); for (int i = 0; i < N; ++i) t.v[i] = 1.1 * t.v[i] + 12 * EPS * t2.v[i] + 1e-37; c.group("matrix / vector " + nm); c.eval(hall(9, Y, Vv)); expect_dv("matrix / vector " + nm, V(y / v), e, t, in); unch("/"); }
        { DV e = dvmul(d, bi), t = dvmul(ad, be), t2 = dvmul(ad, aB); for (int i = 0; i < N; ++i) t.v[i] = 1.1 * t.v[i] + 12 * EPS * t2.v[i] + 1e-37; c.group("vector / matrix " + nm); c.eval(hall(10, Y, Vv)); expect_dv("vector / matrix " + nm, V(v / y), e, t, in); unch("/"); }
    }
}
// chains of compound operations against a double-precision model kept in step
template <class M> void chains(Ctx &c, Rng &r, u64 n) {
    std::string nm = Dim<M>::name(); const int N = Dim<M>::n;
    for (u64 it = 0; it < n; ++it) { STEP(r)
        float a[16]; for (int i = 0; i < N; ++i) a[i] = float(int(r.below(5)) - 2); M z = mk<M>(a); DM d = dm(z); u64 h = hall(11, z); std::string log = str(z); std::vector<M> hist(1, z);
        for (int k = 0; k < 12; ++k) {
            double big = 0; for (int q = 0; q < d.n; ++q) for (int w = 0; w < d.n; ++w) big = std::fmax(big, std::fabs(d.m[q][w]));
            for (int i = 0; i < N; ++i) a[i] = float(int(r.below(5)) - 2);
            M o = mk<M>(a); DM e = dm(o); int op = r.below(5); if (big > 4000 && op >= 2) op = 1; if (big > 400000) break;
            const char *opn[] = {"+=", "-=", "*=", "left *", "comp *"};
            switch (op) { case 0: z += o; d = dlin(d, 1, e, 1); break; case 1: z -= o; d = dlin(d, 1, e, -1); break; case 2: z *= o; d = dmul(d, e); break; case 3: z = o * z; d = dmul(e, d); break;
            default: z = matrixCompMult(z, o); for (int q = 0; q < d.n; ++q) for (int w = 0; w < d.n; ++w) d.m[q][w] *= e.m[q][w]; }
            h = hall(h, o) + op; c.group("integer-valued chain " + nm); c.eval(h); log += std::string(" ") + opn[op] + " " + str(o);
            // all intermediate values are integers below 2^24, so single precision is exact
            DM g = dm(z); bool ok = true; for (int q = 0; q < d.n; ++q) for (int w = 0; w < d.n; ++w) ok &= g.m[q][w] == d.m[q][w];
            if (!ok) { c.fail("integer-valued chain " + nm, log + " got " + str(z) + " expected " + str(d)); break; }
        }
    }
}
void run(Ctx &c, Rng &r) {
    u64 n = c.n(7000);
    elementwise<mat2>(c, r, n); elementwise<mat3>(c, r, n); elementwise<mat4>(c, r, n);
    products<mat2>(c, r, 2 * n); products<mat3>(c, r, 2 * n); products<mat4>(c, r, 2 * n);
    chains<mat2>(c, r, n); chains<mat3>(c, r, n); chains<mat4>(c, r, n);
    c.sample("mat3 m *= m for a near-singular m"); c.sample("mat4 == with one element one ulp apart"); c.sample("m[k] = m * m[k]");
}
