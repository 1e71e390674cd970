// Float vector operators: every form, every component, bit for bit what the scalar operation gives.
#include "common.h"
using namespace zcm;

template <class V> V apply(const V &a, const V &b, float (*f)(float, float)) {
    float x[4], y[4], z[4]; get(a, x); get(b, y);
    for (int i = 0; i < Dim<V>::n; ++i) z[i] = f(x[i], y[i]);
    return mk<V>(z);
}
// scalar reference operations, kept out of line so the compiler cannot share work with the library
__attribute__((noinline)) float s_add(float a, float b) { return a + b; }
__attribute__((noinline)) float s_sub(float a, float b) { return a - b; }
__attribute__((noinline)) float s_mul(float a, float b) { return a * b; }
__attribute__((noinline)) float s_div(float a, float b) { return a / b; }
template <class V> V bc(float s) { float a[4] = {s, s, s, s}; return mk<V>(a); }

template <class V> void one(Ctx &c, Rng &r, u64 n) {
    const std::string T = Dim<V>::name();
    struct Op { const char *sym; float (*f)(float, float); };
    for (u64 it = 0; it < n; ++it) { STEP(r)
        V a = t_any<V>(r), b = t_any<V>(r);
        if (r.chance(1, 6)) b = mk<V>([&] { static float t[4]; get(a, t); t[r.below(Dim<V>::n)] = f_any(r); return t; }());
        float s = f_any(r);
        switch (r.below(12)) { // operands close to each other or to each other's negative; a scalar that is one of the components
        case 0: { float x[4], y[4]; get(a, x); double g = r.sgn(), w = r.logu(1e-7, 1e-1); for (int i = 0; i < Dim<V>::n; ++i) y[i] = float(g * x[i] * (1 + w * r.uni(-1, 1))); b = mk<V>(y); break; }
        case 1: { float x[4]; get(a, x); s = x[r.below(Dim<V>::n)]; if (r.coin()) s = -s; break; }
        case 2: { float x[4]; get(a, x); s = float(x[0] * (1 + r.logu(1e-7, 1e-1) * r.uni(-1, 1))); break; }
        case 3: { float x[4], y[4]; get(a, x); for (int i = 0; i < Dim<V>::n; ++i) y[i] = -x[i]; b = mk<V>(y); break; }
        default: break; }
        V a0 = a, b0 = b;
        u64 h = hall(1, a, b, s);
        std::string in;
        auto I = [&] { return str(a0) + ", " + str(b0) + ", " + fs(s); };
#define VV(OP, F) { c.group(T + " v" #OP "v"); V g = a OP b; c.eval(h); std::string k = T + " v" #OP "v"; V e = apply(a0, b0, F); if (!samev(g, e)) expect_same(k.c_str(), g, e, I()); }
#define VS(OP, F) { c.group(T + " v" #OP "s"); V g = a OP s; c.eval(h); std::string k = T + " v" #OP "s"; V e = apply(a0, bc<V>(s), F); if (!samev(g, e)) expect_same(k.c_str(), g, e, I()); }
#define SV(OP, F) { c.group(T + " s" #OP "v"); V g = s OP a; c.eval(h); std::string k = T + " s" #OP "v"; V e = apply(bc<V>(s), a0, F); if (!samev(g, e)) expect_same(k.c_str(), g, e, I()); }
#define CV(OP, F) { c.group(T + " " #OP "v"); V g = a; g OP b; c.eval(h); std::string k = T + " " #OP "v"; V e = apply(a0, b0, F); if (!samev(g, e)) expect_same(k.c_str(), g, e, I()); }
#define CS(OP, F) { c.group(T + " " #OP "s"); V g = a; g OP s; c.eval(h); std::string k = T + " " #OP "s"; V e = apply(a0, bc<V>(s), F); if (!samev(g, e)) expect_same(k.c_str(), g, e, I()); }
        VV(+, s_add) VV(-, s_sub) VV(*, s_mul) VV(/, s_div)
        VS(+, s_add) VS(-, s_sub) VS(*, s_mul) VS(/, s_div)
        SV(+, s_add) SV(-, s_sub) SV(*, s_mul) SV(/, s_div)
        CV(+=, s_add) CV(-=, s_sub) CV(*=, s_mul) CV(/=, s_div)
        CS(+=, s_add) CS(-=, s_sub) CS(*=, s_mul) CS(/=, s_div)
        // operands that are the same object
#define AL(OP, F) { c.group(T + " self" #OP); V g = a; g OP g; c.eval(h); std::string k = T + " self" #OP; V e = apply(a0, a0, F); if (!samev(g, e)) expect_same(k.c_str(), g, e, I()); }
        AL(+=, s_add) AL(-=, s_sub) AL(*=, s_mul) AL(/=, s_div)
        // scalar operand read from the vector being changed
        for (int i = 0; i < Dim<V>::n; ++i) {
            float x[4]; get(a0, x);
#define EL(OP, F) { c.group(T + " " #OP "own component"); V g = a; g OP g._data[i]; c.eval(h + i); std::string k = T + " " #OP "own component"; V e = apply(a0, bc<V>(x[i]), F); if (!samev(g, e)) expect_same(k.c_str(), g, e, I()); }
            EL(+=, s_add) EL(-=, s_sub) EL(*=, s_mul) EL(/=, s_div)
        }
        { c.group(T + " unary"); V g = -a; c.eval(h); float x[4]; get(a0, x); for (float &f : x) f = -f; V e = mk<V>(x); if (!samev(g, e)) expect_same((T + " -v").c_str(), g, e, I());
          V p = +a; if (!samev(p, a0)) expect_same((T + " +v").c_str(), p, a0, I()); }
        { c.group(T + " ++/--"); c.eval(h);
          V up = apply(a0, bc<V>(1), s_add), dn = apply(a0, bc<V>(1), s_sub);
          V g = a; V &ref = ++g; if (!samev(g, up)) expect_same((T + " ++v").c_str(), g, up, I()); if (&ref != &g) c.fail(T + " ++v reference", I());
          g = a; V old = g++; if (!samev(g, up)) expect_same((T + " v++").c_str(), g, up, I()); if (!samev(old, a0)) expect_same((T + " v++ value").c_str(), old, a0, I());
          g = a; V &ref2 = --g; if (!samev(g, dn)) expect_same((T + " --v").c_str(), g, dn, I()); if (&ref2 != &g) c.fail(T + " --v reference", I());
          g = a; V old2 = g--; if (!samev(g, dn)) expect_same((T + " v--").c_str(), g, dn, I()); if (!samev(old2, a0)) expect_same((T + " v-- value").c_str(), old2, a0, I()); }
        { c.group(T + " ==/!="); c.eval(h);
          auto eq = [&](const V &p, const V &q) { float x[4], y[4]; get(p, x); get(q, y); bool e = true; for (int i = 0; i < Dim<V>::n; ++i) e = e && x[i] == y[i]; return e; };
          bool e = eq(a0, b0);
          if ((a == b) != e) c.fail(T + " ==", I());
          if ((a != b) != !e) c.fail(T + " !=", I());
          bool ee = eq(a0, a0);
          if ((a == a) != ee || (a != a) != !ee) c.fail(T + " self ==", I());
          // differ in exactly one component, or only in the sign of a zero
          float x[4]; get(a0, x); int k = r.below(Dim<V>::n);
          x[k] = x[k] == 0 ? -x[k] : std::nextafter(x[k], 0.0f);
          V d = mk<V>(x); bool ed = eq(a0, d);
          if ((a == d) != ed || (d != a) != !ed) c.fail(T + " == one component", I() + " vs " + str(d)); }
        { c.group(T + " copy"); c.eval(h); V g = b; g = a; if (!samev(g, a0)) expect_same((T + " assignment").c_str(), g, a0, I()); V &self = g; g = self; if (!samev(g, a0)) expect_same((T + " self-assignment").c_str(), g, a0, I()); V cp(a); if (!samev(cp, a0)) expect_same((T + " copy").c_str(), cp, a0, I()); }
        if (!samev(a, a0) || !samev(b, b0)) c.fail(T + " operand changed", I());
        if (it < 2) c.sample(T + " operators on " + I());
    }
}
void run(Ctx &c, Rng &r) {
    one<vec2>(c, r, c.n(15000));
    one<vec3>(c, r, c.n(15000));
    one<vec4>(c, r, c.n(15000));
}
