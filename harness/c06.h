// Pieces of the accessor monitor used by the generated sources: the generated code is one small captureless function per
// accessor name, listed in tables; the checking is done here, once per vector type.
#pragma once
#include <zcm/common.hpp>
#include <zcm/geometric.hpp>
template <class V> V rv(Rng &r, float) { return t_any<V>(r); }
template <class V> V rv(Rng &r, int32_t) { return ti_any<V>(r); }
inline float rs(Rng &r, float) { return f_any(r); }
inline int32_t rs(Rng &r, int32_t) { return i_any(r); }
// scalar reference operations (the workload keeps integers away from overflow)
__attribute__((noinline)) inline float q_add(float a, float b) { return a + b; }
__attribute__((noinline)) inline float q_sub(float a, float b) { return a - b; }
__attribute__((noinline)) inline float q_mul(float a, float b) { return a * b; }
__attribute__((noinline)) inline float q_div(float a, float b) { return a / b; }
inline int32_t q_add(int32_t a, int32_t b) { return a + b; }
inline int32_t q_sub(int32_t a, int32_t b) { return a - b; }
inline int32_t q_mul(int32_t a, int32_t b) { return a * b; }
inline int32_t q_div(int32_t a, int32_t b) { return a / b; }
inline float tame(float f) { return f; }
inline int32_t tame(int32_t i) { return i % 20000; }
inline float nz(float f) { return f; }
inline int32_t nz(int32_t i) { return i == 0 ? 3 : i; }

enum { S_READ, S_CREAD, S_FMT, S_SET, S_ADD, S_SUB, S_MUL, S_DIV, S_PREI, S_PREIREF, S_PRED, S_POSTI, S_POSTD, S_COPY, S_CHAIN, S_SELF, S_SELFADD, S_COUNT };
static const char *const kS[] = {"read", "read of a constant", "format_as", "=", "+=", "-=", "*=", "/=", "prefix ++", "reference from prefix ++", "prefix --", "postfix ++", "postfix --", "= same name of another vector", "chained =", "= itself", "+= itself"};
enum { B_OR, B_AND, B_XOR, B_MOD, B_SHR, B_SHL, B_COUNT };
static const char *const kB[] = {"|=", "&=", "^=", "%=", ">>=", "<<="};
enum { P_COPY, P_OWN, P_ADD, P_EXPR, P_LESS, P_COUNT };
static const char *const kP[] = {"= component of another vector", "= own component", "+= own component", "expression", "comparison"};
template <class V, class E> struct ScalarT { const char *name; int i; E (*f)(int op, V &v, const V &k, V &z, E s); };
template <class V> struct BitT { const char *name; int i; void (*f)(int op, V &v, int s); };
template <class V, class E> struct PairT { const char *name; int i, j; E (*f)(int op, V &v, const V &w); };
template <class V, class R> struct SwzT { const char *name; int len; int ix[4]; void (*f)(V &v, const V &k, const V &w, R *out); };
template <class R> R take(R x) { return x; }

#define SCALAR(NAME, I) {#NAME, I, [](int op, V &v, const V &k, V &z, E s) -> E { switch (op) { \
    case S_READ: return v.NAME; case S_CREAD: return k.NAME; case S_FMT: return format_as(k.NAME); case S_SET: v.NAME = s; return 0; case S_ADD: v.NAME += s; return 0; case S_SUB: v.NAME -= s; return 0; \
    case S_MUL: v.NAME *= s; return 0; case S_DIV: v.NAME /= s; return 0; case S_PREI: return ++v.NAME; case S_PREIREF: { E &ref = ++v.NAME; ref = s; return 0; } case S_PRED: return --v.NAME; \
    case S_POSTI: return v.NAME++; case S_POSTD: return v.NAME--; case S_COPY: v.NAME = k.NAME; return 0; case S_CHAIN: v.NAME = z.NAME = k.NAME; return 0; case S_SELF: v.NAME = *&v.NAME; return 0; case S_SELFADD: v.NAME += v.NAME; return 0; } return 0; }},
#define SCALAR_INT(NAME, I) {#NAME, I, [](int op, V &v, int s) { switch (op) { case B_OR: v.NAME |= s; break; case B_AND: v.NAME &= s; break; case B_XOR: v.NAME ^= s; break; case B_MOD: v.NAME %= s; break; case B_SHR: v.NAME >>= s; break; case B_SHL: v.NAME <<= s; break; } }},
#define PAIR(A, I, B, J) {#A " with " #B, I, J, [](int op, V &v, const V &w) -> E { switch (op) { case P_COPY: v.A = w.B; return 0; case P_OWN: v.A = v.B; return 0; case P_ADD: v.A += v.B; return 0; case P_EXPR: return v.A * v.B - v.A; case P_LESS: return v.A < v.B; } return 0; }},
#define SWZ(R, NAME, L, ...) {#NAME, L, {__VA_ARGS__}, [](V &v, const V &k, const V &w, R *o) { o[0] = v.NAME; o[1] = k.NAME; o[2] = take<R>(k.NAME); o[3] = format_as(v.NAME); v.NAME = w.NAME; }},

template <class V> __attribute__((noinline)) void bad(const char *name, const char *what, const std::string &d) { ctx().fail(std::string(Dim<V>::name()) + "." + name + " " + what, d); }

template <class V, class E> void check_scalars(Ctx &c, Rng &r, u64 n, const ScalarT<V, E> *t, size_t cnt) {
    for (size_t q = 0; q < cnt; ++q) {
        c.group(std::string(Dim<V>::name()) + "." + t[q].name);
        const int i = t[q].i;
        for (u64 it = 0; it < n; ++it) { STEPX(r, &t[q]) for (int op = 0; op < S_COUNT; ++op) {
            V v0 = rv<V>(r, E()), w0 = rv<V>(r, E()), z0 = rv<V>(r, E());
            E x[4], w[4], s = tame(rs(r, E())); get(v0, x); get(w0, w); x[i] = tame(x[i]); v0 = mk<V>(x);
            if (op == S_DIV) s = nz(s);
            E o = x[i], ret = 0, nv = o; bool has = false, zset = false;
            switch (op) {
            case S_READ: has = true; ret = o; break;
            case S_CREAD: case S_FMT: has = true; ret = w[i]; break;
            case S_SET: nv = s; break; case S_ADD: nv = q_add(o, s); break; case S_SUB: nv = q_sub(o, s); break; case S_MUL: nv = q_mul(o, s); break; case S_DIV: nv = q_div(o, s); break;
            case S_PREI: has = true; ret = nv = q_add(o, E(1)); break; case S_PREIREF: nv = s; break; case S_PRED: has = true; ret = nv = q_sub(o, E(1)); break;
            case S_POSTI: has = true; ret = o; nv = q_add(o, E(1)); break; case S_POSTD: has = true; ret = o; nv = q_sub(o, E(1)); break;
            case S_COPY: nv = w[i]; break; case S_CHAIN: nv = w[i]; zset = true; break; case S_SELF: break; case S_SELFADD: nv = q_add(o, o); break;
            }
            c.eval(hall(op, v0, w0, s));
            V v = v0, k = w0, z = z0;
            E g = t[q].f(op, v, k, z, s);
            x[i] = nv; V ev = mk<V>(x), ez = z0;
            if (zset) { E y[4]; get(z0, y); y[i] = w[i]; ez = mk<V>(y); }
            if (!samev(v, ev)) bad<V>(t[q].name, kS[op], str(v0) + " and " + str(w0) + ", " + str(s) + " leaves " + str(v) + " expected " + str(ev));
            if (has && !same(g, ret)) bad<V>(t[q].name, kS[op], str(v0) + " and " + str(w0) + " gives " + str(g) + " expected " + str(ret));
            if (!samev(k, w0)) bad<V>(t[q].name, kS[op], "the source vector " + str(w0) + " became " + str(k));
            if (!samev(z, ez)) bad<V>(t[q].name, kS[op], "middle of a chain: " + str(z) + " expected " + str(ez));
        } }
    }
}
template <class V> void check_bits(Ctx &c, Rng &r, u64 n, const BitT<V> *t, size_t cnt) {
    for (size_t q = 0; q < cnt; ++q) {
        c.group(std::string(Dim<V>::name()) + "." + t[q].name + " bitwise");
        for (u64 it = 0; it < n; ++it) { STEPX(r, &t[q]) for (int op = 0; op < B_COUNT; ++op) {
            V v0 = ti_any<V>(r); int x[4], s = i_any(r), i = t[q].i; get(v0, x);
            if (op == B_SHL) { x[i] &= 0x7fff; s &= 15; } else if (op == B_SHR) s &= 31; else if (op == B_MOD && (s == 0 || s == -1)) s = 7;
            v0 = mk<V>(x); c.eval(hall(op, v0, s));
            V v = v0; t[q].f(op, v, s);
            int o = x[i];
            x[i] = op == B_OR ? (o | s) : op == B_AND ? (o & s) : op == B_XOR ? (o ^ s) : op == B_MOD ? int(int64_t(o) % s) : op == B_SHR ? (o >= 0 ? o >> s : ~(~o >> s)) : o << s;
            if (!samev(v, mk<V>(x))) bad<V>(t[q].name, kB[op], str(v0) + ", " + str(s) + " leaves " + str(v) + " expected " + str(mk<V>(x)));
        } }
    }
}
template <class V, class E> void check_pairs(Ctx &c, Rng &r, u64 n, const PairT<V, E> *t, size_t cnt) {
    c.group(std::string(Dim<V>::name()) + " component pairs");
    for (size_t q = 0; q < cnt; ++q) for (u64 it = 0; it < n; ++it) { STEPX(r, &t[q]) for (int op = 0; op < P_COUNT; ++op) {
        V v0 = rv<V>(r, E()), w0 = rv<V>(r, E()); E x[4], w[4]; get(v0, x); get(w0, w);
        int i = t[q].i, j = t[q].j; x[i] = tame(x[i]); x[j] = tame(x[j]); v0 = mk<V>(x);
        c.eval(hall(q * 8 + op, v0, w0));
        V v = v0, k = w0; E g = t[q].f(op, v, k);
        E ret = op == P_EXPR ? q_sub(q_mul(x[i], x[j]), x[i]) : op == P_LESS ? E(x[i] < x[j]) : E(0);
        if (op == P_COPY) x[i] = w[j]; else if (op == P_OWN) x[i] = x[j]; else if (op == P_ADD) x[i] = q_add(x[i], x[j]);
        if (!samev(v, mk<V>(x)) || !same(g, ret)) bad<V>(t[q].name, kP[op], str(v0) + " and " + str(w0) + " leaves " + str(v) + " expected " + str(mk<V>(x)) + "; gives " + str(g) + " expected " + str(ret));
        if (!samev(k, w0)) bad<V>(t[q].name, kP[op], "the source vector " + str(w0) + " became " + str(k));
    } }
}
template <class V, class E, class R> void check_swz(Ctx &c, Rng &r, u64 n, const SwzT<V, R> *t, size_t cnt) {
    for (size_t q = 0; q < cnt; ++q) {
        c.group(std::string(Dim<V>::name()) + "." + t[q].name);
        for (u64 it = 0; it < n; ++it) { STEPX(r, &t[q])
            V v0 = rv<V>(r, E()), k0 = rv<V>(r, E()), w0 = rv<V>(r, E()); E x[4], k[4], w[4], e[4], ek[4]; get(v0, x); get(k0, k); get(w0, w);
            for (int i = 0; i < t[q].len; ++i) { e[i] = x[t[q].ix[i]]; ek[i] = k[t[q].ix[i]]; }
            c.eval(hall(3, v0, k0, w0));
            V v = v0, kk = k0, ww = w0; R o[4]; memset((void *)o, 0, sizeof o);
            t[q].f(v, kk, ww, o);
            R re = mk<R>(e), rk = mk<R>(ek);
            if (!samev(o[0], re)) bad<V>(t[q].name, "read", str(v0) + " gives " + str(o[0]));
            if (!samev(o[1], rk)) bad<V>(t[q].name, "read of a constant", str(k0) + " gives " + str(o[1]));
            if (!samev(o[2], rk)) bad<V>(t[q].name, "passed as an argument", str(k0) + " gives " + str(o[2]));
            if (!samev(o[3], re)) bad<V>(t[q].name, "format_as", str(v0) + " gives " + str(o[3]));
            for (int i = 0; i < t[q].len; ++i) x[t[q].ix[i]] = w[t[q].ix[i]];
            if (!samev(v, mk<V>(x))) bad<V>(t[q].name, "= same name of another vector", str(v0) + " and " + str(w0) + " leaves " + str(v) + " expected " + str(mk<V>(x)));
            if (!samev(ww, w0) || !samev(kk, k0)) bad<V>(t[q].name, "use changes its source", str(w0) + " " + str(k0));
        }
    }
}
