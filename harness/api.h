// The table of every callable entry of the public interface, and what the whole-interface monitors share:
// argument blocks of exactly the argument's size, inputs made from bits alone, results as a flat list of words.
#pragma once
#include "common.h"
#if defined(__has_feature)
#if __has_feature(memory_sanitizer)
#include <sanitizer/msan_interface.h>
#define MSAN 1
#endif
#endif
struct Out {
    std::vector<uint32_t> w;   // result words, NaN made canonical
    bool poisoned = false;
    void raw(const void *p, size_t n) {
#ifdef MSAN
        if (__msan_test_shadow(p, n) >= 0) { poisoned = true; __msan_unpoison(p, n); }
#else
        (void)p; (void)n;
#endif
    }
    void u64v(u64 x) { raw(&x, 8); w.push_back(uint32_t(x)); w.push_back(uint32_t(x >> 32)); }
    void off(std::ptrdiff_t d) { raw(&d, sizeof d); w.push_back(uint32_t(d)); }
    void f(float x) { raw(&x, 4); w.push_back(isnanf_(x) ? 0x7fc00000u : fbits(x)); }
    void i(uint32_t x) { raw(&x, 4); w.push_back(x); }
    void b(const void *p) { unsigned char c; raw(p, 1); memcpy(&c, p, 1); w.push_back(c); }
};
inline void ser(Out &o, float x) { o.f(x); }
inline void ser(Out &o, int x) { o.i(uint32_t(x)); }
inline void ser(Out &o, unsigned x) { o.i(x); }
inline void ser(Out &o, bool x) { o.b(&x); }
inline void ser(Out &o, unsigned long x) { o.u64v(x); }
template <class E> struct SerE { static void s(Out &o, const E *p, int n) { for (int i = 0; i < n; ++i) ser(o, p[i]); } };
template <> struct SerE<bool> { static void s(Out &o, const bool *p, int n) { for (int i = 0; i < n; ++i) o.b(p + i); } };
template <class T> auto ser(Out &o, const T &t) -> typename std::enable_if<(Dim<T>::n > 1)>::type {
    typename Dim<T>::elem a[Dim<T>::n];
    o.raw(&t, sizeof t);
    memcpy((void *)a, (const void *)&t, sizeof t);
    SerE<typename Dim<T>::elem>::s(o, a, Dim<T>::n);
}
struct ApiArg { char code, mode, policy; int n; };   // mode: V value, R const reference, M changeable, P pointer to n elements
struct ApiFn { const char *sig; int nargs; ApiArg arg[16]; void (*call)(void *const *a, Out &o); };
const std::vector<ApiFn> &api();

// elements of one argument
struct Ty { char elem; int n; size_t esize; };
inline Ty ty(char c) {
    switch (c) {
    case 'f': return {'f', 1, 4}; case 'i': return {'i', 1, 4}; case 'u': return {'u', 1, 4}; case 'b': return {'b', 1, 1};
    case '2': return {'f', 2, 4}; case '3': return {'f', 3, 4}; case '4': case 'q': case 'm': return {'f', 4, 4}; case 'n': return {'f', 9, 4}; case 'o': return {'f', 16, 4};
    case 'A': return {'i', 2, 4}; case 'B': return {'i', 3, 4}; case 'C': return {'i', 4, 4};
    case 'X': return {'b', 2, 1}; case 'Y': return {'b', 3, 1}; case 'Z': return {'b', 4, 1};
    }
    abort();
}
inline size_t align_of(char c) {
    switch (c) {
    case '2': return alignof(zcm::vec2); case '3': return alignof(zcm::vec3); case '4': return alignof(zcm::vec4); case 'q': return alignof(zcm::quat); case 'm': return alignof(zcm::mat2); case 'n': return alignof(zcm::mat3); case 'o': return alignof(zcm::mat4);
    case 'A': return alignof(zcm::ivec2); case 'B': return alignof(zcm::ivec3); case 'C': return alignof(zcm::ivec4);
    case 'X': return alignof(zcm::bvec2); case 'Y': return alignof(zcm::bvec3); case 'Z': return alignof(zcm::bvec4);
    case 'b': return 1;
    default: return 4;
    }
}
inline int elems(const ApiArg &a) { return a.mode == 'P' ? a.n : ty(a.code).n; }
inline size_t bytes(const ApiArg &a) { return elems(a) * ty(a.code).esize; }

// inputs: only integer arithmetic and exact conversions, so every build of this file makes the same ones
inline float fbit(Rng &r, int style) {
    static const float sp[] = {0.0f, -0.0f, 1.0f, -1.0f, 0.5f, -0.5f, 2.0f, 1.5f, 2.5f, -2.5f, 3.0f, 0.25f, 1e-6f, 1e6f, 3.14159274f, 1.57079637f, 0.0031308f, 0.04045f, 0.99999994f, 1.00000012f, 8388608.0f, 16777216.0f};
    static const uint32_t ex[] = {0x7f800000u, 0xff800000u, 0x7fc00000u, 0xffc00000u, 0x7f7fffffu, 0xff7fffffu, 0x00000001u, 0x80000001u, 0x00800000u, 0x7fc12345u, 0x1f800000u, 0x5f800000u, 0x20000000u, 0x4f000000u, 0xcf000000u};
    switch (style) {
    case 0: return bitsf(uint32_t(r.next() >> 32));
    case 1: return bitsf(ex[r.below(sizeof ex / sizeof *ex)]);
    case 2: return sp[r.below(sizeof sp / sizeof *sp)];
    case 3: return float(int(r.below(41)) - 20) * 0.25f;
    case 4: return float(int(r.below(2000001)) - 1000000) * (1.0f / 1048576.0f);            // about [-1, 1]
    case 5: return bitsf(uint32_t((r.next() >> 32 & 0x807fffffu) | ((107 + r.below(41)) << 23)));   // 2^-20 .. 2^20
    default: return float(int(r.below(4001)) - 2000) * (1.0f / 256.0f);
    }
}
inline int i_within(Rng &r, int m) { switch (r.below(4)) { case 0: return r.coin() ? m - int(r.below(3)) : -m + int(r.below(3)); case 1: { int b = int(r.below(31)); int v = b < 31 ? int(1u << b) : 0; v = v > m ? m : v; return r.coin() ? v : -v; } default: return int(r.next() >> 33) % (m + 1) * (r.coin() ? 1 : -1); } }
// plain: keep to finite moderate numbers
inline void fill_arg(Rng &r, const ApiArg &a, void *p, int flavour, const void *prev) {
    Ty t = ty(a.code); int n = elems(a);
    for (int k = 0; k < n; ++k) {
        char *q = (char *)p + k * t.esize;
        if (t.elem == 'f') {
            float f;
            if (a.policy == 't') { unsigned m = r.below(6); f = m == 0 ? 0.0f : m == 1 ? 1.0f : m == 2 ? 0.5f : float(r.below(16777217)) * (1.0f / 16777216.0f); }
            else if (a.policy == 'p') f = flavour & 1 ? bitsf(uint32_t((r.next() >> 32 & 0x7fffffu) | ((120 + r.below(10)) << 23))) : float(int(r.below(1000)) + 1) * 0.015625f;
            else if (flavour == 0) f = fbit(r, 4);
            else if (flavour == 1) f = fbit(r, 3);
            else if (flavour == 2) f = fbit(r, 2 + int(r.below(5)));
            else if (flavour == 3) { f = fbit(r, 4); if (k == 0 && n > 1) f = fbit(r, int(r.below(2))); }
            else f = fbit(r, int(r.below(7)));
            memcpy(q, &f, 4);
            if (k > 0 && a.policy == 'a' && flavour == 5 && r.coin()) memcpy(q, p, 4);
        } else if (t.elem == 'i') {
            int v; int s = int(r.below(201)) - 100;
            switch (a.policy) {
            case 's': v = s; break;
            // as large as keeps the results inside int: sums of two, of four, products of two, three, four
            case 'j': v = flavour & 1 ? i_within(r, 1073741823) : s; break;
            case 'S': v = flavour & 1 ? i_within(r, 536870911) : s; break;
            case 'k': v = flavour & 1 ? i_within(r, 46340) : s; break;
            case 'K': v = flavour & 1 ? i_within(r, 1290) : s; break;
            case 'L': v = flavour & 1 ? i_within(r, 215) : s; break;
            case 'h': v = int(flavour & 1 ? r.below(4) ? r.below(32) : 31 - r.below(2) * r.below(3) : r.below(9)); break;
            case 'H': v = flavour & 1 ? i_any(r) : int(r.below(1001)); break;
            case 'd': { v = flavour & 1 ? i_any(r) : s; if (v == 0 || v == -1) v = 3; break; }
            case 'n': v = i_any(r); if (v == INT32_MIN) v = 5; break;
            default: v = flavour & 1 ? i_any(r) : s; if (k > 0 && flavour == 5 && r.coin()) memcpy(&v, p, 4);
            }
            memcpy(q, &v, 4);
        } else if (t.elem == 'u') {
            uint32_t v = a.policy == 'x' ? r.below(a.n) : uint32_t(r.next() >> 32);
            memcpy(q, &v, 4);
        } else { unsigned char v = r.coin(); memcpy(q, &v, 1); }
    }
    // sometimes the same value as the previous argument
    if (prev && flavour == 6 && a.policy == 'a') memcpy(p, prev, bytes(a));
}
struct ArgVals { std::vector<unsigned char> b[16]; };
// a float close to f: some units in the last place away, or a relative change of 2^-1 .. 2^-22
inline float nudge(Rng &r, float f) {
    uint32_t b = fbits(f), d = r.coin() ? 1 + r.below(3) : 1u << (1 + r.below(22));
    return bitsf(r.coin() ? b + d : b - d);
}
inline float ratio(long a, double d) { volatile double q = double(a) / d; return float(q); }
// unit vectors and quaternions, rotation matrices, rigid transforms: exact integers divided by one correctly rounded root
inline void fill_unit(Rng &r, const ApiArg &a, void *p) {
    int n = elems(a); float v[16];
    long q[4];
    do for (int k = 0; k < 4; ++k) q[k] = long(r.below(4) ? r.below(19) : r.below(3)) - (r.below(4) ? 9 : 1); while (q[0] == 0 || q[1] == 0);
    if (r.below(3) == 0) q[r.below(4)] = 0;
    if (q[0] == 0 && q[1] == 0) q[0] = 1;
    if (a.code == 'n' || a.code == 'o') {
        long w = q[0], x = q[1], y = q[2], z = q[3], s = w * w + x * x + y * y + z * z;
        long m[9] = {w * w + x * x - y * y - z * z, 2 * (x * y + w * z), 2 * (x * z - w * y), 2 * (x * y - w * z), w * w - x * x + y * y - z * z, 2 * (y * z + w * x), 2 * (x * z + w * y), 2 * (y * z - w * x), w * w - x * x - y * y + z * z};
        int e = a.code == 'n' ? 3 : 4;
        float scale = r.below(3) == 0 ? float(1 + r.below(5)) : 1.0f;
        for (int c = 0; c < e; ++c) for (int k = 0; k < e; ++k) v[c * e + k] = c < 3 && k < 3 ? ratio(m[c * 3 + k], double(s)) * scale : c == 3 && k < 3 ? fbit(r, 3) : k == 3 && c == 3 ? 1.0f : 0.0f;
    } else if (a.code == 'm') {
        double s = double(q[0] * q[0] + q[1] * q[1]); volatile double l = std::sqrt(s);
        v[0] = ratio(q[0], l); v[1] = ratio(q[1], l); v[2] = -v[1]; v[3] = v[0];
    } else {
        long s = 0; for (int k = 0; k < n && k < 4; ++k) s += q[k] * q[k];
        volatile double l = std::sqrt(double(s));
        for (int k = 0; k < n; ++k) v[k] = k < 4 ? ratio(q[k], l) : 0.0f;
    }
    memcpy(p, v, n * 4);
}
// vectors along an axis, identity-like, diagonal and permutation matrices
inline void fill_axis(Rng &r, const ApiArg &a, void *p) {
    int n = elems(a), e = a.code == 'm' ? 2 : a.code == 'n' ? 3 : a.code == 'o' ? 4 : 0; float v[16];
    for (int k = 0; k < n && k < 16; ++k) v[k] = r.below(6) ? 0.0f : -0.0f;
    float one = r.below(3) ? 1.0f : fbit(r, 3);
    if (e) { int rot = r.below(3) ? 0 : int(r.below(e)); for (int k = 0; k < e; ++k) v[k * e + (k + rot) % e] = r.below(3) ? one : -one; if (r.below(4) == 0) v[r.below(e) * e + e - 1] = fbit(r, 4); }
    else v[r.below(n)] = r.coin() ? one : -one;
    if (r.below(4) == 0) { int k = int(r.below(n)); v[k] = nudge(r, v[k]); }
    memcpy(p, v, n * 4);
}
// equal or opposite to an earlier argument except for small changes
inline void fill_near(Rng &r, const ApiArg &a, void *p, const void *prev) {
    Ty t = ty(a.code); int n = elems(a);
    memcpy(p, prev, bytes(a));
    if (t.elem == 'f') {
        bool neg = r.below(5) < 2; unsigned which = r.below(5); if (which > 3) which = 2;        // all, one, none, most
        uint32_t d = 1u << (1 + r.below(22)); int one = int(r.below(n));
        for (int k = 0; k < n; ++k) {
            float f; memcpy(&f, (char *)p + 4 * k, 4);
            if (neg) f = -f;
            if (which == 0) f = bitsf(fbits(f) + (r.coin() ? d : -d)); else if (which == 1 ? k == one : which == 3 && r.coin()) f = nudge(r, f);
            memcpy((char *)p + 4 * k, &f, 4);
        }
    } else if (t.elem == 'b') { if (r.coin()) ((unsigned char *)p)[r.below(n)] ^= 1; }
    else if (r.coin()) { uint32_t v; char *q = (char *)p + 4 * r.below(n); memcpy(&v, q, 4); v = r.coin() ? v + (r.coin() ? 1 : -1) : v ^ (1u << r.below(32)); memcpy(q, &v, 4); }
}
// left operands of << keep inside int; called again whenever single arguments were exchanged
inline void fix_case(const ApiFn &f, ArgVals &v) {
    int H = -1, h = -1;
    for (int i = 0; i < f.nargs; ++i) { if (f.arg[i].policy == 'H') H = i; if (f.arg[i].policy == 'h') h = i; }
    if (H < 0 || h < 0 || !strstr(f.sig, "<<")) return;
    int nH = elems(f.arg[H]), nh = elems(f.arg[h]);
    for (int k = 0; k < 4; ++k) {
        int32_t x, s; char *q = (char *)v.b[H].data() + 4 * (k % nH);
        memcpy(&x, q, 4); memcpy(&s, v.b[h].data() + 4 * (k % nh), 4);
        x &= int32_t((1u << (31 - s)) - 1);
        memcpy(q, &x, 4);
    }
}
// cases the comparison-guided hunt (--mode hunt) found to reach branches the sampled ones do not; every build runs the same ones
inline const std::vector<ArgVals> *hunted(const ApiFn &f) {
    static std::vector<std::vector<ArgVals>> all; static bool loaded = false;
    if (!loaded) {
        loaded = true;
        const std::vector<ApiFn> &T = api(); const char *path = getenv("ZCM_HUNTED"); FILE *in = path && *path ? fopen(path, "r") : 0;
        if (in) {
            all.resize(T.size()); static char line[8192]; size_t at = 0;
            while (fgets(line, sizeof line, in)) {
                char *tab = strchr(line, '\t'); if (!tab || !strchr(tab, '\n')) continue;
                *tab = 0; size_t i = at, n = T.size(); while (n && strcmp(T[i].sig, line)) { i = (i + 1) % T.size(); --n; }
                if (!n) continue;
                at = i; ArgVals v; char *q = tab + 1; bool ok = true;
                for (int j = 0; j < T[i].nargs && ok; ++j) {
                    size_t m = bytes(T[i].arg[j]); v.b[j].assign(m, 0);
                    for (size_t z = 0; z < m && ok; ++z) { int x = 0; for (int d = 0; d < 2; ++d, ++q) { char ch = *q; int y = ch >= '0' && ch <= '9' ? ch - '0' : ch >= 'a' && ch <= 'f' ? ch - 'a' + 10 : -1; if (y < 0) { ok = false; break; } x = x * 16 + y; } v.b[j][z] = (unsigned char)x; }
                    if (ok && *q == ';') ++q; else ok = false;
                }
                if (ok) all[i].push_back(v);
            }
            fclose(in);
        }
    }
    return all.empty() ? 0 : &all[&f - &api()[0]];
}
inline void make_case(const ApiFn &f, Rng &r, int fl, ArgVals &v);
inline void make_case(const ApiFn &f, u64 seed, u64 k, ArgVals &v) {
    if (k < 100000 && (k & 1)) { const std::vector<ArgVals> *q = hunted(f); if (q && k / 2 < q->size()) { v = (*q)[k / 2]; return; }
        if (q && !q->empty() && k % 4 == 1) {   // one of them with a single argument or a single component drawn again
            v = (*q)[k / 4 % q->size()]; int n = f.nargs, i = int(k / 4 / q->size() % unsigned(n)); ArgVals w; make_case(f, seed, k + 200000, w);
            size_t es = ty(f.arg[i].code).esize; int e = int(k / 8 % unsigned(elems(f.arg[i])));
            if (k & 8) v.b[i] = w.b[i]; else memcpy(v.b[i].data() + e * es, w.b[i].data() + e * es, es);
            fix_case(f, v); return;
        } }
    u64 h = 1469598103934665603ull; for (const char *p = f.sig; *p; ++p) h = (h ^ (unsigned char)*p) * 1099511628211ull;
    Rng r(seed * 1000003 + k * 7919 + h);
    make_case(f, r, int(k % 16), v);
}
inline void make_case(const ApiFn &f, Rng &r, int fl, ArgVals &v) {
    for (int i = 0; i < f.nargs; ++i) {
        const ApiArg &a = f.arg[i];
        v.b[i].assign(bytes(a), 0);
        const void *prev = 0, *like = 0;
        if (i > 0 && f.arg[i - 1].code == a.code && bytes(a) == bytes(f.arg[i - 1])) prev = v.b[i - 1].data();
        for (int q = i; q-- > 0 && !like;) if (f.arg[q].code == a.code && f.arg[q].policy == a.policy && bytes(f.arg[q]) == bytes(a)) like = v.b[q].data();
        bool flt = ty(a.code).elem == 'f' && a.policy == 'a', free_ = a.policy == 'a';
        int fa = fl == 7 ? int(r.below(5)) : fl == 15 ? int(r.below(15)) : fl;
        if (fa < 8) { fill_arg(r, a, v.b[i].data(), fa, prev); continue; }
        fill_arg(r, a, v.b[i].data(), fa == 13 ? 7 : int(r.below(5)), prev);
        if (!free_) continue;
        if ((fa == 9 || fa == 10) && like) { fill_near(r, a, v.b[i].data(), like); continue; }
        if (!flt) continue;
        float *p = (float *)v.b[i].data(); int n = elems(a);
        if ((fa == 8 || fa == 9) && n > 1) fill_unit(r, a, p);
        else if (fa == 11) { for (int z = 0; z < n; ++z) if (r.coin()) { static const float s[] = {0.0f, 0.0f, -0.0f, 1.0f, -1.0f}; p[z] = s[r.below(5)]; } }
        else if (fa == 12 && n > 1) fill_axis(r, a, p);
        else if (fa == 13) { for (int z = 0; z < n; ++z) p[z] = fbit(r, int(r.below(3))); }
        else if (fa == 14) { for (int z = 0; z < n; ++z) p[z] = z && r.coin() ? p[r.below(z)] : r.coin() ? nudge(r, fbit(r, 2)) : fbit(r, 2); }
    }
    fix_case(f, v);
}
inline u64 case_hash(const ApiFn &f, const ArgVals &v) {
    u64 h = 5; for (int i = 0; i < f.nargs; ++i) for (unsigned char c : v.b[i]) h = ctx().mix(h, c);
    return h;
}
inline std::string case_str(const ApiFn &f, const ArgVals &v) {
    std::string s = std::string(f.sig) + " with";
    for (int i = 0; i < f.nargs; ++i) {
        Ty t = ty(f.arg[i].code); s += " (";
        for (int k = 0; k < elems(f.arg[i]); ++k) {
            if (k) s += ", ";
            const unsigned char *q = v.b[i].data() + k * t.esize;
            if (t.elem == 'f') { float x; memcpy(&x, q, 4); s += fs(x); } else if (t.elem == 'b') s += q[0] ? "true" : "false"; else { int x; memcpy(&x, q, 4); s += std::to_string(x); }
        }
        s += ")";
    }
    return s;
}
inline std::string out_str(const Out &o) { std::string s; char b[16]; for (uint32_t x : o.w) { snprintf(b, sizeof b, " %08x", x); s += b; } return s; }
// changeable arguments are part of the result
inline void collect(const ApiFn &f, void *const *a, Out &o) {
    for (int i = 0; i < f.nargs; ++i) if (f.arg[i].mode == 'M') {
        Ty t = ty(f.arg[i].code);
        o.raw(a[i], bytes(f.arg[i]));
        for (int k = 0; k < t.n; ++k) { const char *q = (const char *)a[i] + k * t.esize; if (t.elem == 'f') { float x; memcpy(&x, q, 4); ser(o, x); } else if (t.elem == 'b') o.b(q); else { uint32_t x; memcpy(&x, q, 4); o.i(x); } }
    }
}
