// Hashing: equal values hash equally, no component is ignored, containers work.
#include "common.h"
#include <unordered_map>
#include <unordered_set>
#include <zcm/hash.hpp>
using namespace zcm;

template <class T> bool sem_eq(const T &a, const T &b) { typename Dim<T>::elem x[Dim<T>::n], y[Dim<T>::n]; get(a, x); get(b, y); for (int i = 0; i < Dim<T>::n; ++i) if (!(x[i] == y[i])) return false; return true; }
template <class T> T rnd(Rng &r, float) { float a[Dim<T>::n]; tuple_gen(r, a, Dim<T>::n, f_any); for (float &f : a) if (isnanf_(f)) f = 0; return mk<T>(a); }
template <class T> T rnd(Rng &r, int) { return ti_any<T>(r); }
template <class T> T rnd(Rng &r, bool) { return tb_any<T>(r); }
template <class T> T smallk(Rng &r, float) { float a[Dim<T>::n]; for (float &f : a) { static const float v[] = {0.0f, -0.0f, 1.0f, -1.0f}; f = v[r.below(Dim<T>::n > 9 && r.chance(3, 4) ? 2 : 4)]; } return mk<T>(a); }
template <class T> T smallk(Rng &r, int) { int a[Dim<T>::n]; for (int &f : a) f = int(r.below(3)) - 1; return mk<T>(a); }
template <class T> T smallk(Rng &r, bool) { return tb_any<T>(r); }
inline float change(Rng &r, float f) { switch (r.below(4)) { case 0: return f == 0 ? 1.0f : -f; case 1: { float g = std::nextafter(f, f > 0 ? 0.0f : 1.0f); return g == f ? 1.0f : g; } case 2: return f * 0.5f == f ? f + 1 : f * 0.5f; default: { float g = f_any(r); return isnanf_(g) || g == f ? (f == 3 ? 4 : 3) : g; } } }
// one bit, the complement, the negation, the byte order, a neighbour, several bits, another value
inline int change(Rng &r, int f) {
    switch (r.below(9)) {
    case 0: return ~f; case 1: return int(0u - unsigned(f)); case 2: return int(__builtin_bswap32(unsigned(f)));
    case 3: return int(unsigned(f) + (r.coin() ? 1u : ~0u)); case 4: return int(unsigned(f) ^ (unsigned(r.next()) & unsigned(r.next())));
    case 5: { int g = i_any(r); return g == f ? ~f : g; } case 6: { unsigned u = unsigned(f), s = 1 + r.below(31); return int(u << s | u >> (32 - s)); }
    default: return f ^ int(1u << r.below(32)); } }
inline bool change(Rng &, bool f) { return !f; }
inline void flipz(Rng &r, float *x, int n) { for (int i = 0; i < n; ++i) if (x[i] == 0 && r.coin()) x[i] = -x[i]; }
inline void flipz(Rng &, int *, int) {}
inline void flipz(Rng &, bool *, int) {}
// reference container key, with zeros unified
inline int32_t kk(float f) { return f == 0 ? 0 : int32_t(fbits(f)); }
inline int32_t kk(int f) { return f; }
inline int32_t kk(bool f) { return f; }
template <class T> std::vector<int32_t> key(const T &t) { typename Dim<T>::elem x[Dim<T>::n]; get(t, x); std::vector<int32_t> k; for (auto e : x) k.push_back(kk(e)); return k; }

template <class T> struct Hs { static size_t h(const T &t) { return std::hash<T>()(t); } enum { std_ = 1 }; };
template <class T> void one(Ctx &c, Rng &r, double nb) {
    typedef typename Dim<T>::elem E;
    const int N = Dim<T>::n;
    const std::string TN = Dim<T>::name();
    u64 n = c.n(nb), changed[16] = {}, tried[16] = {};
    for (u64 i = 0; i < n; ++i) { STEP(r)
        const T a = r.chance(1, 4) ? smallk<T>(r, E()) : rnd<T>(r, E());
        E x[16]; get(a, x);
        flipz(r, x, N);
        const T b = mk<T>(x);
        size_t ha = zcm::hash(a);
        c.group(TN + " equal values"); c.eval(hall(1, a, b));
        if (ha != zcm::hash(b)) c.fail(TN + " equal values, different hashes", str(a) + " and " + str(b));
        if (ha != zcm::hash(a)) c.fail(TN + " hash not repeatable", str(a));
        if (Hs<T>::h(a) != ha || Hs<T>::h(b) != ha) c.fail(TN + " std::hash differs from hash", str(a));
        if (a == b) {} else c.fail(TN + " values differing only in the sign of zero do not compare equal", str(a) + " and " + str(b));
        int k = r.below(N);
        get(a, x); E old = x[k]; x[k] = change(r, x[k]);
        if (x[k] == old) continue;
        const T d = mk<T>(x);
        c.group(TN + " one component changed"); c.eval(hall(2, a, d));
        ++tried[k]; if (zcm::hash(d) != ha) ++changed[k];
        if (i < 2) c.sample(TN + " hash " + str(a) + " = " + std::to_string(ha));
    }
    for (int k = 0; k < N; ++k) if (tried[k] > 20 && !changed[k]) c.fail(TN + " component ignored by hash", "component " + std::to_string(k) + " changed " + std::to_string(tried[k]) + " times, hash never");
}
// with the other components held, some change of a component shows in the hash (always, for boolean and integer types)
template <class T> void context(Ctx &c, Rng &r, double nb) {
    typedef typename Dim<T>::elem E;
    const int N = Dim<T>::n; const bool flt = std::is_same<E, float>::value;
    const std::string TN = Dim<T>::name();
    u64 n = c.n(nb), lost = 0; std::string ex;
    for (u64 i = 0; i < n; ++i) { STEP(r)
        const T a = r.chance(1, 2) ? smallk<T>(r, E()) : rnd<T>(r, E());
        for (int k = 0; k < N; ++k) {
            E x[16]; get(a, x); E old = x[k]; bool seen = false; int tries = std::is_same<E, bool>::value ? 1 : 12;
            c.group(TN + " component within a context"); c.eval(hall(3 + k, a));
            for (int t = 0; t < tries && !seen; ++t) {
                x[k] = change(r, old); if (x[k] == old) continue;
                seen = zcm::hash(mk<T>(x)) != zcm::hash(a);
                if (!seen && !flt) c.fail(TN + " change of a component does not change the hash", str(a) + " and " + str(mk<T>(x)));
            }
            if (!seen && flt) { ++lost; ex = str(a) + " component " + std::to_string(k); }
        }
    }
    if (lost * 1000 > n * N) c.fail(TN + " components are ignored in some contexts", std::to_string(lost) + " of " + std::to_string(n * N) + " contexts, such as " + ex);
}
template <class T> void scal(Ctx &c, Rng &r) {
    const std::string TN = Dim<T>::name();
    u64 n = c.n(20000), ch = 0;
    for (u64 i = 0; i < n; ++i) { STEP(r)
        T a = r.chance(1, 4) ? smallk<T>(r, T()) : rnd<T>(r, T()), x = a; flipz(r, &x, 1);
        c.group(TN + " scalar"); c.eval(hall(1, a));
        if (zcm::hash(a) != zcm::hash(x)) c.fail(TN + " scalar equal values, different hashes", str(a));
        T d = change(r, a); if (zcm::hash(d) != zcm::hash(a)) ++ch;
    }
    if (!ch) c.fail(TN + " scalar hash constant", "");
}
template <class T> void containers(Ctx &c, Rng &r) {
    typedef typename Dim<T>::elem E;
    const std::string TN = Dim<T>::name();
    c.group(TN + " container histories");
    u64 hs = c.n(25);
    for (u64 h = 0; h < hs; ++h) { STEP(r)
        std::unordered_map<T, int> m; std::unordered_set<T> s; std::map<std::vector<int32_t>, int> ref;
        bool wide = r.chance(1, 3);
        u64 hh = 9;
        for (int step = 0; step < 200; ++step) {
            T k = wide ? rnd<T>(r, E()) : smallk<T>(r, E());
            int o = r.below(4);
            hh = hall(hh, k); c.eval(hh + o);
            if (o <= 1) { int v = int(r.below(1000)); m[k] = v; s.insert(k); ref[key(k)] = v; }
            else if (o == 2) { size_t a = m.erase(k), b = ref.erase(key(k)), d = s.erase(k); if (a != b || d != b) c.fail(TN + " erase", str(k)); }
            else { auto a = m.find(k); auto b = ref.find(key(k)); if ((a == m.end()) != (b == ref.end()) || (b != ref.end() && a->second != b->second) || s.count(k) != (b != ref.end())) c.fail(TN + " lookup", str(k)); }
            if (m.size() != ref.size() || s.size() != ref.size()) { c.fail(TN + " container size", std::to_string(m.size()) + " instead of " + std::to_string(ref.size())); break; }
        }
        for (auto &e : m) if (!ref.count(key(e.first))) c.fail(TN + " stray key", str(e.first));
    }
}
void run(Ctx &c, Rng &r) {
    scal<float>(c, r); scal<int>(c, r); scal<bool>(c, r);
    { c.group("unsigned scalar"); u64 ch = 0; for (u64 i = 0; i < c.n(2000); ++i) { unsigned u = unsigned(r.next()); c.eval(u); if (zcm::hash(u) != zcm::hash(u)) c.fail("unsigned hash", ""); ch += zcm::hash(u) != zcm::hash(u + 1); } if (!ch) c.fail("unsigned hash constant", ""); }
#define T(X) one<X>(c, r, Dim<X>::n > 4 ? 20000 : 40000); context<X>(c, r, Dim<X>::n > 4 ? 1000 : 4000); containers<X>(c, r);
    T(bvec2) T(bvec3) T(bvec4) T(ivec2) T(ivec3) T(ivec4) T(vec2) T(vec3) T(vec4) T(quat) T(mat2) T(mat3) T(mat4)
}
