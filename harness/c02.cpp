// Integer vector operators: every form, every component, exactly the 32-bit scalar result wherever that is defined.
#include "common.h"
using namespace zcm;

enum Op { ADD, SUB, MUL, DIV, MOD, AND, OR, XOR, SHL, SHR, NOP };
static const char *sym[] = {"+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>"};
static bool fits(int64_t v) { return v >= INT32_MIN && v <= INT32_MAX; }
static bool defd(Op o, int x, int y) {
    int64_t a = x, b = y;
    switch (o) {
    case ADD: return fits(a + b);
    case SUB: return fits(a - b);
    case MUL: return fits(a * b);
    case DIV: case MOD: return b != 0 && !(x == INT32_MIN && y == -1);
    case SHL: return y >= 0 && y < 32 && x >= 0 && fits(a << y);
    case SHR: return y >= 0 && y < 32;
    default: return true;
    }
}
static int ev(Op o, int x, int y) {
    int64_t a = x, b = y;
    switch (o) {
    case ADD: return int(a + b); case SUB: return int(a - b); case MUL: return int(a * b);
    case DIV: return int(a / b); case MOD: return int(a % b);
    case AND: return int(uint32_t(x) & uint32_t(y)); case OR: return int(uint32_t(x) | uint32_t(y)); case XOR: return int(uint32_t(x) ^ uint32_t(y));
    case SHL: return int(a << y); default: return int(a >= 0 ? a >> y : -((-a - 1) >> y) - 1);  // floor
    }
}
static int draw(Rng &r, Op o, bool rhs) {
    if (rhs && (o == SHL || o == SHR)) return int(r.below(32));
    if (o == MUL && r.coin()) return int(r.below(92682)) - 46340;
    return i_any(r);
}
// complete one side of a pair so that the scalar operation is defined
static int fixl(Rng &r, Op o, int y) { for (int i = 0; i < 40; ++i) { int x = draw(r, o, false); if (i > 8) x = int(r.below(9)) - 4; if (defd(o, x, y)) return x; } return o == SUB && y < 0 ? -1 : 0; }
static int fixr(Rng &r, Op o, int x) { for (int i = 0; i < 40; ++i) { int y = draw(r, o, true); if (i > 8) y = int(r.below(5)); if (defd(o, x, y)) return y; } return o == DIV || o == MOD ? 1 : 0; }

template <class V, int O> struct F;
#define FORMS(O, OP) template <class V> struct F<V, O> { \
    static V vv(V a, V b) { return a OP b; } static V vs(V a, int s) { return a OP s; } static V sv(int s, V a) { return s OP a; } \
    static void cv(V &a, V b) { a OP##= b; } static void cs(V &a, int s) { a OP##= s; } static void self(V &a) { a OP##= a; } static void own(V &a, int i) { a OP##= a._data[i]; } };
FORMS(ADD, +) FORMS(SUB, -) FORMS(MUL, *) FORMS(DIV, /) FORMS(MOD, %) FORMS(AND, &) FORMS(OR, |) FORMS(XOR, ^) FORMS(SHL, <<) FORMS(SHR, >>)

template <class V, int O> void op(Ctx &c, Rng &r, u64 n) {
    const int N = Dim<V>::n;
    const std::string T = Dim<V>::name(), S = sym[O];
    const Op o = Op(O);
    typedef F<V, O> f;
    auto chk = [&](const std::string &form, const V &g, const int *e, const std::string &in) { V ee = mk<V>(e); if (!samev(g, ee)) expect_same((T + " " + form).c_str(), g, ee, in); };
    for (u64 it = 0; it < n; ++it) { STEP(r)
        int x[4], y[4], e[4], s;
        bool pat = r.chance(1, 4), rel = r.chance(1, 5);
        int px = i_any(r); int64_t pw = pat && r.coin() ? std::abs(int64_t(px)) / 10 : 0, pt = r.coin() ? 1 : -1; bool asc = r.coin();
        for (int i = 0; i < N; ++i) { x[i] = pat ? px : draw(r, o, false); if (pat && pw) { int64_t v = int64_t(px) + (asc ? pt * pw * i / N : int64_t(r.next() % u64(2 * pw + 1)) - pw); if (fits(v)) x[i] = int(v); } if ((o == SHL) && x[i] < 0) x[i] = ~x[i]; y[i] = fixr(r, o, x[i]); if (rel) { int64_t v = pt * (int64_t(x[i]) + (asc ? 0 : int64_t(r.below(3)) - 1)); if (fits(v) && defd(o, x[i], int(v))) y[i] = int(v); } e[i] = ev(o, x[i], y[i]); }
        V a = mk<V>(x), b = mk<V>(y);
        const std::string in = it < 2 || true ? str(a) + ", " + str(b) : "";
        c.group(T + " v" + S + "v"); c.eval(hall(O, a, b)); V g = f::vv(a, b); chk("v" + S + "v", g, e, in);
        c.group(T + " " + S + "=v"); c.eval(hall(O, a, b)); g = a; f::cv(g, b); chk(S + "=v", g, e, in);
        // scalar on the right, on the left
        s = draw(r, o, true); if ((o == DIV || o == MOD) && !s) s = 3;
        for (int i = 0; i < N; ++i) { x[i] = fixl(r, o, s); e[i] = ev(o, x[i], s); }
        a = mk<V>(x);
        c.group(T + " v" + S + "s"); c.eval(hall(O, a, s)); g = f::vs(a, s); chk("v" + S + "s", g, e, str(a) + ", " + std::to_string(s));
        c.group(T + " " + S + "=s"); c.eval(hall(O, a, s)); g = a; f::cs(g, s); chk(S + "=s", g, e, str(a) + ", " + std::to_string(s));
        s = draw(r, o, false); if (o == SHL && s < 0) s = ~s;
        for (int i = 0; i < N; ++i) { x[i] = fixr(r, o, s); e[i] = ev(o, s, x[i]); }
        a = mk<V>(x);
        c.group(T + " s" + S + "v"); c.eval(hall(O, a, s)); g = f::sv(s, a); chk("s" + S + "v", g, e, std::to_string(s) + ", " + str(a));
        // the same object on both sides, and a component of the left side as the scalar
        bool ok = true;
        for (int i = 0; i < N; ++i) { do x[i] = o == SHL || o == SHR ? int(r.below(32)) : r.coin() ? i_any(r) : int(r.below(200)) - 100; while (!defd(o, x[i], x[i]) && (x[i] = 1, !defd(o, 1, 1))); ok = ok && defd(o, x[i], x[i]); e[i] = ok ? ev(o, x[i], x[i]) : 0; }
        if (ok) { a = mk<V>(x); c.group(T + " self" + S); c.eval(hall(O, a)); g = a; f::self(g); chk("self" + S, g, e, str(a)); g = f::vv(a, a); chk("v" + S + "v same", g, e, str(a)); }
        int k = r.below(N);
        s = x[k]; ok = true;
        for (int i = 0; i < N; ++i) { if (i != k) x[i] = fixl(r, o, s); ok = ok && defd(o, x[i], s); if (ok) e[i] = ev(o, x[i], s); }
        if (ok) { a = mk<V>(x); c.group(T + " " + S + "=own component"); c.eval(hall(O, a, k)); g = a; f::own(g, k); chk(S + "=own component", g, e, str(a) + " component " + std::to_string(k)); }
        if (it < 1) c.sample(T + " " + S + " on " + in);
    }
}
template <class B> struct Bn; template <> struct Bn<ivec2> { typedef bvec2 t; }; template <> struct Bn<ivec3> { typedef bvec3 t; }; template <> struct Bn<ivec4> { typedef bvec4 t; };

template <class V> void all(Ctx &c, Rng &r, u64 n) {
    op<V, ADD>(c, r, n); op<V, SUB>(c, r, n); op<V, MUL>(c, r, n); op<V, DIV>(c, r, n); op<V, MOD>(c, r, n);
    op<V, AND>(c, r, n); op<V, OR>(c, r, n); op<V, XOR>(c, r, n); op<V, SHL>(c, r, n); op<V, SHR>(c, r, n);
    const int N = Dim<V>::n;
    const std::string T = Dim<V>::name();
    for (u64 it = 0; it < n; ++it) { STEP(r)
        V a = ti_any<V>(r);
        int x[4], e[4]; get(a, x);
        c.group(T + " unary"); c.eval(hall(1, a));
        V p = +a; if (!samev(p, a)) expect_same((T + " +v").c_str(), p, a, str(a));
        for (int i = 0; i < N; ++i) { if (x[i] == INT32_MIN) x[i] = -7; e[i] = -x[i]; }
        V b = mk<V>(x), g = -b; if (!samev(g, mk<V>(e))) expect_same((T + " -v").c_str(), g, mk<V>(e), str(b));
        c.group(T + " ++/--"); c.eval(hall(2, a));
        for (int i = 0; i < N; ++i) { if (x[i] == INT32_MAX) x[i] = 5; }
        b = mk<V>(x); int up[4], dn[4]; for (int i = 0; i < N; ++i) { up[i] = x[i] + 1; if (x[i] == INT32_MIN) x[i] = 1; dn[i] = x[i] - 1; }
        V d = mk<V>(x), U = mk<V>(up), D = mk<V>(dn);
        g = b; V &rf = ++g; if (!samev(g, U)) expect_same((T + " ++v").c_str(), g, U, str(b)); if (&rf != &g) c.fail(T + " ++v reference", str(b));
        g = b; V old = g++; if (!samev(g, U)) expect_same((T + " v++").c_str(), g, U, str(b)); if (!samev(old, b)) expect_same((T + " v++ value").c_str(), old, b, str(b));
        g = d; V &rf2 = --g; if (!samev(g, D)) expect_same((T + " --v").c_str(), g, D, str(d)); if (&rf2 != &g) c.fail(T + " --v reference", str(d));
        g = d; V old2 = g--; if (!samev(g, D)) expect_same((T + " v--").c_str(), g, D, str(d)); if (!samev(old2, d)) expect_same((T + " v-- value").c_str(), old2, d, str(d));
        c.group(T + " ==/!="); c.eval(hall(3, a, b));
        { int y[4]; get(a, y); int k = r.below(N); V same_ = mk<V>(y); y[k] ^= 1 << r.below(32); V diff = mk<V>(y);
          if (!(a == same_) || (a != same_)) c.fail(T + " == equal", str(a));
          if ((a == diff) || !(a != diff) || (diff == a)) c.fail(T + " == differs in one component", str(a) + " " + str(diff));
          V q = ti_any<V>(r); bool eq = samev(a, q); if ((a == q) != eq || (a != q) == eq) c.fail(T + " ==", str(a) + " " + str(q)); }
        c.group(T + " to bool"); c.eval(hall(4, a));
        { int y[4]; get(a, y); for (int i = 0; i < N; ++i) { if (r.chance(1, 3)) y[i] = 0; else if (r.chance(1, 3)) y[i] = 1 << r.below(32); } V q = mk<V>(y); bool eb[4]; for (int i = 0; i < N; ++i) eb[i] = y[i] != 0;
          typename Bn<V>::t bb = static_cast<typename Bn<V>::t>(q), rb = mk<typename Bn<V>::t>(eb); if (!samev(bb, rb)) expect_same((T + " to bool").c_str(), bb, rb, str(q));
          typename Bn<V>::t im = q; if (!samev(im, rb)) expect_same((T + " to bool implicitly").c_str(), im, rb, str(q)); }
        c.group(T + " copy"); c.eval(hall(5, a));
        { V q = b; q = a; if (!samev(q, a)) expect_same((T + " assignment").c_str(), q, a, str(b)); V &s = q; q = s; if (!samev(q, a)) expect_same((T + " self-assignment").c_str(), q, a, str(b)); }
    }
}
void run(Ctx &c, Rng &r) { all<ivec2>(c, r, c.n(6000)); all<ivec3>(c, r, c.n(6000)); all<ivec4>(c, r, c.n(6000)); }
