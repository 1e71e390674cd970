// Transpose, determinant, inverse, adjugate and their transposed forms.
#include "mat.h"
#include <zcm/matrix.hpp>
using namespace zcm;
template <class M> void one(Ctx &c, Rng &r, u64 n) {
    std::string nm = Dim<M>::name(); const int N = MT<M>::n;
    for (u64 it = 0; it < n; ++it) { STEP(r)
        { M x = t_any<M>(r), X = x; float a[16], e[16]; get(x, a); for (int q = 0; q < N; ++q) for (int w = 0; w < N; ++w) e[w * N + q] = a[q * N + w];
          c.group("transpose " + nm); c.eval(hall(1, X)); expect_same(("transpose " + nm).c_str(), transpose(x), mk<M>(e), str(X)); expect_same(("transpose argument " + nm).c_str(), x, X, str(X)); x = transpose(x); expect_same(("x = transpose(x) " + nm).c_str(), x, mk<M>(e), str(X)); }
        M x = m_gen<M>(r); const M X = x; DM A = dm(x); auto in = [&] { return str(X); };
        c.group("determinant " + nm); c.eval(hall(2, X)); float dt = determinant(x); if (!near_(dt, ddet(A), dperm(A), 16)) c.fail("determinant " + nm, in() + " got " + fs(dt) + " expected " + ds(ddet(A)));
        DM adj = dadj(A), amag = dtol(dadjmag(A), 12);
        c.group("adjugate " + nm); c.eval(hall(3, X)); expect_mat("adjugate " + nm, adjugate(x), adj, amag, in);
        c.group("adjugateTranspose " + nm); c.eval(hall(4, X)); expect_mat("adjugateTranspose " + nm, adjugateTranspose(x), dtrans(adj), dtrans(amag), in);
        DM inv, err;
        if (inv_ref(A, inv, err)) {
            M i = inverse(x); c.group("inverse " + nm); c.eval(hall(5, X)); expect_mat("inverse " + nm, i, inv, err, in);
            c.group("inverseTranspose " + nm); c.eval(hall(6, X)); expect_mat("inverseTranspose " + nm, inverseTranspose(x), dtrans(inv), dtrans(err), in);
            // both products are the identity, up to the error of the inverse spread by the matrix
            DM I = dident(N), t = dlin(dmul(dabs(A), err), 1.1, dabsmul(A, inv), 12 * EPS), t2 = dlin(dmul(err, dabs(A)), 1.1, dabsmul(inv, A), 12 * EPS);
            c.group("m * inverse " + nm); c.eval(hall(7, X)); expect_mat("m * inverse(m) " + nm, x * i, I, t, in); expect_mat("inverse(m) * m " + nm, i * x, I, t2, in);
            M z = x; z = inverse(z); expect_same(("x = inverse(x) " + nm).c_str(), z, i, in());
        } else { c.group("too near singular " + nm); c.eval(hall(8, X)); }
        expect_same(("argument changed " + nm).c_str(), x, X, in());
        // integer matrices of small determinant: exact
        float a[16]; for (int i = 0; i < N * N; ++i) a[i] = float(int(r.below(7)) - 3); M y = mk<M>(a); DM B = dm(y); double d = ddet(B); float g = determinant(y);
        c.group("determinant of integers " + nm); c.eval(hall(9, y)); if (double(g) != d) c.fail("determinant of integers " + nm, str(y) + " got " + fs(g) + " expected " + ds(d));
        DM aj = dadj(B); DM ga = dm(adjugate(y)), gt = dm(adjugateTranspose(y)); c.group("adjugate of integers " + nm); c.eval(hall(10, y));
        for (int q = 0; q < N; ++q) for (int w = 0; w < N; ++w) { if (ga.m[q][w] != aj.m[q][w]) { c.fail("adjugate of integers " + nm, str(y) + " expected " + str(aj)); q = w = N; break; } if (gt.m[w][q] != aj.m[q][w]) { c.fail("adjugateTranspose of integers " + nm, str(y)); q = w = N; break; } }
    }
}
void run(Ctx &c, Rng &r) {
    u64 n = c.n(25000); one<mat2>(c, r, n); one<mat3>(c, r, n); one<mat4>(c, r, n);
    c.sample("mat4 whose columns 1 and 3 differ by 1e-3"); c.sample("permutation mat3 with scaled entries");
}
