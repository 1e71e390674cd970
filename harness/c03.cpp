// Boolean vectors: every row of every truth table.
#include "common.h"
#include <zcm/common.hpp>
using namespace zcm;

template <class B> bool proper(const B &b) { unsigned char x[4]; memcpy(x, (const void *)&b, sizeof b); for (size_t i = 0; i < sizeof b; ++i) if (x[i] > 1) return false; return true; }
template <class B> void tables(Ctx &c, Rng &r) {
    const int N = Dim<B>::n;
    const std::string T = Dim<B>::name();
    auto mkb = [&](unsigned m) { bool x[4]; for (int i = 0; i < N; ++i) x[i] = m >> i & 1; return mk<B>(x); };
    auto chk = [&](const std::string &k, const B &g, unsigned e, const std::string &in) { if (!proper(g) || !samev(g, mkb(e))) expect_same((T + " " + k).c_str(), g, mkb(e), in); };
    const unsigned M = (1u << N) - 1;
    for (unsigned p = 0; p <= M; ++p) {
        for (unsigned q = 0; q <= M; ++q) {
            const B a = mkb(p), b = mkb(q);
            std::string in = str(a) + ", " + str(b);
            u64 h = hall(1, a, b);
            B g = a;
            c.group(T + " binary"); c.eval(h);
            chk("&&", a && b, p & q, in); chk("||", a || b, p | q, in); chk("^", a ^ b, p ^ q, in);
            c.group(T + " compound"); c.eval(h);
            g = a; g &= b; chk("&=", g, p & q, in); g = a; g |= b; chk("|=", g, p | q, in); g = a; g ^= b; chk("^=", g, p ^ q, in);
            c.group(T + " equality"); c.eval(h);
            if ((a == b) != (p == q)) c.fail(T + " ==", in);
            if ((a != b) != (p != q)) c.fail(T + " !=", in);
            c.group(T + " equal/notEqual"); c.eval(h);
            chk("equal", equal(a, b), ~(p ^ q) & M, in); chk("notEqual", notEqual(a, b), p ^ q, in);
            if (!samev(a, mkb(p)) || !samev(b, mkb(q))) c.fail(T + " operand changed", in);
        }
        const B a = mkb(p);
        std::string in = str(a);
        B g = a;
        c.group(T + " not"); c.eval(hall(2, a)); chk("!", !a, ~p & M, in);
        c.group(T + " reductions"); c.eval(hall(3, a));
        if (all(a) != (p == M)) c.fail(T + " all", in);
        if (any(a) != (p != 0)) c.fail(T + " any", in);
        for (int s = 0; s < 2; ++s) {
            bool k = s; unsigned m = s ? M : 0;
            c.group(T + " scalar forms"); c.eval(hall(4, a, k));
            chk("v&&s", a && k, p & m, in); chk("s&&v", k && a, p & m, in); chk("v||s", a || k, p | m, in); chk("s||v", k || a, p | m, in); chk("v^s", a ^ k, p ^ m, in); chk("s^v", k ^ a, p ^ m, in);
            g = a; g &= k; chk("&=s", g, p & m, in); g = a; g |= k; chk("|=s", g, p | m, in); g = a; g ^= k; chk("^=s", g, p ^ m, in);
        }
        c.group(T + " aliased"); c.eval(hall(5, a));
        g = a; g &= g; chk("self &=", g, p, in); g = a; g |= g; chk("self |=", g, p, in); g = a; g ^= g; chk("self ^=", g, 0, in);
        chk("&& same", a && a, p, in); chk("|| same", a || a, p, in); chk("^ same", a ^ a, 0, in);
        if (!(a == a) || a != a) c.fail(T + " == same", in);
        for (int i = 0; i < N; ++i) {  // own component as the scalar
            bool k = p >> i & 1; unsigned m = k ? M : 0;
            g = a; g &= g[i]; chk("&= own component", g, p & m, in); g = a; g |= g[i]; chk("|= own component", g, p | m, in); g = a; g ^= g[i]; chk("^= own component", g, p ^ m, in);
        }
    }
    c.sample(T + ": all " + std::to_string((M + 1) * (M + 1)) + " operand pairs");
    // chains of compound operations against a bit-set model
    u64 n = c.n(3000);
    for (u64 it = 0; it < n; ++it) { STEP(r)
        unsigned p = r.below(M + 1); B a = mkb(p); std::string hist = str(a);
        u64 h = hall(6, a);
        for (int k = 0; k < 12; ++k) {
            unsigned q = r.below(M + 1); int o = r.below(7); B b = mkb(q);
            switch (o) { case 0: a &= b; p &= q; break; case 1: a |= b; p |= q; break; case 2: a ^= b; p ^= q; break; case 3: a = a && b; p &= q; break; case 4: a = a || b; p |= q; break; case 5: a = a ^ b; p ^= q; break; default: a = !a; p = ~p & M; }
            hist += " op" + std::to_string(o) + " " + std::to_string(q); h = c.mix(h, o * 64 + q);
        }
        c.group(T + " chains"); c.eval(h); chk("chain", a, p, hist);
    }
}
void run(Ctx &c, Rng &r) { tables<bvec2>(c, r); tables<bvec3>(c, r); tables<bvec4>(c, r); }
