// Shared monitor runtime: deterministic workload generation, IEEE-aware oracles, violation log.
// Values enter and leave the code under test as raw object bytes (memcpy), so an oracle for one
// operation never depends on another operation of the library being right.
#pragma once
#include <algorithm>
#include <cassert>
#include <cfenv>
#include <cfloat>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <limits>
#include <map>
#include <string>
#include <vector>

#include <zcm/vec2.hpp>
#include <zcm/vec3.hpp>
#include <zcm/vec4.hpp>
#include <zcm/ivec2.hpp>
#include <zcm/ivec3.hpp>
#include <zcm/ivec4.hpp>
#include <zcm/bvec2.hpp>
#include <zcm/bvec3.hpp>
#include <zcm/bvec4.hpp>
#include <zcm/mat2.hpp>
#include <zcm/mat3.hpp>
#include <zcm/mat4.hpp>
#include <zcm/quat.hpp>

typedef uint64_t u64;

#ifdef GUIDED
#include "guided.h"
#endif
// ------------------------------------------------------------------ random numbers
struct Rng {
    u64 s;
    explicit Rng(u64 seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
#ifdef GUIDED
    guided::Tape tape;
    u64 next() { return tape.next([this] { return raw(); }); }
    void mark(const void *tag) { tape.mark(tag, [this] { return raw(); }); }
    u64 raw() {
#else
    u64 next() {
#endif
        u64 z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    unsigned below(unsigned n) { return unsigned((next() >> 11) % n); }
    bool chance(unsigned num, unsigned den) { return below(den) < num; }
    double u01() { return double(next() >> 11) * (1.0 / 9007199254740992.0); }
    double uni(double a, double b) { return a + (b - a) * u01(); }
    double logu(double a, double b) { return std::exp(uni(std::log(a), std::log(b))); }
    double gauss() {
        double a = u01() + 1e-300, b = u01();
        return std::sqrt(-2 * std::log(a)) * std::cos(6.283185307179586 * b);
    }
    bool coin() { return next() >> 63; }
    double sgn() { return coin() ? 1.0 : -1.0; }
};

// at the head of every sampling loop: one step of the monitor
#ifdef GUIDED
#define STEP(r) { static char step_tag_; (r).mark(&step_tag_); }
#define STEPX(r, id) { (r).mark(id); }
#else
#define STEP(r)
#define STEPX(r, id)
#endif

// ------------------------------------------------------------------ context
struct Viol { u64 count = 0; std::string detail; };

struct Ctx {
    u64 seed = 1;
    double scale = 1;
    std::string tier = "quick";
    std::string only, mode, out;
    u64 evals = 0;
    std::vector<u64> bits = std::vector<u64>(1u << 20, 0);  // 2^26-bit sketch: lower bound on distinct cases
    u64 distinct = 0;
    std::map<std::string, u64> groups;
    u64 *cur = nullptr;
    u64 curid = 0;
    std::map<std::string, std::string> samples;
    std::map<std::string, Viol> viols;
    u64 n(double base) const { double x = base * scale; return x < 1 ? 1 : u64(x); }
    u64 mix(u64 h, u64 v) {
        h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
        h *= 0xff51afd7ed558ccdull;
        return h ^ (h >> 32);
    }
    void note(u64 h) {
        h = mix(h, curid);
        u64 i = h & ((1u << 26) - 1);
        u64 m = 1ull << (i & 63);
        if (!(bits[i >> 6] & m)) { bits[i >> 6] |= m; ++distinct; }
    }
    void group(const std::string &g) {
        cur = &groups[g];
        curid = std::hash<std::string>()(g);
    }
    // one observed execution of the operation of the current group on the inputs hashed in h
    void eval(u64 h) { ++evals; if (cur) ++*cur; note(h); }
    void fail(const std::string &key, const std::string &detail) {
        Viol &v = viols[key];
        if (v.count++ == 0) v.detail = detail;
    }
    bool failed_enough(const std::string &key) {
        auto it = viols.find(key);
        return it != viols.end() && it->second.count > 20;
    }
    void sample(const std::string &s) { if (samples.size() < 12) samples[s] = s; }
};

inline Ctx &ctx() { static Ctx c; return c; }

inline std::string jesc(const std::string &s) {
    std::string o;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += char(c); }
        else if (c < 32) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += char(c);
    }
    return o;
}

inline std::string fs(float f) { char b[64]; uint32_t u; memcpy(&u, &f, 4); snprintf(b, sizeof b, "%.9g(0x%08x)", double(f), u); return b; }
inline std::string ds(double f) { char b[64]; snprintf(b, sizeof b, "%.12g", f); return b; }

inline int finish() {
    Ctx &c = ctx();
    printf("{\"evals\":%llu,\"distinct\":%llu,\"groups\":{", (unsigned long long)c.evals, (unsigned long long)c.distinct);
    bool first = true;
    for (auto &g : c.groups) { printf("%s\"%s\":%llu", first ? "" : ",", jesc(g.first).c_str(), (unsigned long long)g.second); first = false; }
    printf("},");
#ifdef GUIDED
    printf("%s", guided::stats().c_str());
#endif
    printf("\"samples\":[");
    first = true;
    for (auto &s : c.samples) { printf("%s\"%s\"", first ? "" : ",", jesc(s.second).c_str()); first = false; }
    printf("],\"violations\":[");
    first = true;
    for (auto &v : c.viols) {
        printf("%s{\"key\":\"%s\",\"count\":%llu,\"detail\":\"%s\"}", first ? "" : ",", jesc(v.first).c_str(), (unsigned long long)v.second.count, jesc(v.second.detail).c_str());
        first = false;
    }
    printf("]}\n");
    fflush(stdout);
    return 0;
}

void run(Ctx &c, Rng &r);  // each monitor defines this

#ifndef NO_MAIN
int main(int argc, char **argv) {
    Ctx &c = ctx();
    for (int i = 1; i + 1 < argc; i += 2) {
        std::string a = argv[i];
        if (a == "--seed") c.seed = strtoull(argv[i + 1], 0, 10);
        else if (a == "--scale") c.scale = atof(argv[i + 1]);
        else if (a == "--tier") c.tier = argv[i + 1];
        else if (a == "--only") c.only = argv[i + 1];
        else if (a == "--mode") c.mode = argv[i + 1];
        else if (a == "--out") c.out = argv[i + 1];
    }
    Rng r(c.seed);
    run(c, r);
    return finish();
}
#endif

// ------------------------------------------------------------------ raw bytes <-> zcm types
template <class T> struct Dim;
#define DIM(T, E, N) template <> struct Dim<zcm::T> { typedef E elem; enum { n = N }; static const char *name() { return #T; } };
DIM(vec2, float, 2) DIM(vec3, float, 3) DIM(vec4, float, 4)
DIM(ivec2, int32_t, 2) DIM(ivec3, int32_t, 3) DIM(ivec4, int32_t, 4)
DIM(bvec2, bool, 2) DIM(bvec3, bool, 3) DIM(bvec4, bool, 4)
DIM(mat2, float, 4) DIM(mat3, float, 9) DIM(mat4, float, 16)
DIM(quat, float, 4)
#undef DIM
template <> struct Dim<float> { typedef float elem; enum { n = 1 }; static const char *name() { return "float"; } };
template <> struct Dim<int> { typedef int elem; enum { n = 1 }; static const char *name() { return "int"; } };
template <> struct Dim<bool> { typedef bool elem; enum { n = 1 }; static const char *name() { return "bool"; } };

template <class T> T mk(const typename Dim<T>::elem *p) {
    T t;
    static_assert(sizeof(T) == sizeof(typename Dim<T>::elem) * Dim<T>::n, "layout");
    memcpy((void *)&t, (const void *)p, sizeof(T));
    return t;
}
template <class T> void put(T &t, const typename Dim<T>::elem *p) { memcpy((void *)&t, (const void *)p, sizeof(T)); }
template <class T> void get(const T &t, typename Dim<T>::elem *p) { memcpy((void *)p, (const void *)&t, sizeof(T)); }

template <class T> std::string str(const T &t) {
    typename Dim<T>::elem a[Dim<T>::n];
    get(t, a);
    std::string s = std::string(Dim<T>::name()) + "(";
    for (int i = 0; i < Dim<T>::n; ++i) { if (i) s += ", "; s += sizeof(a[0]) == 4 && std::is_same<typename Dim<T>::elem, float>::value ? fs(float(a[i])) : std::to_string(a[i]); }
    return s + ")";
}
template <class T> u64 hsh(const T &t, u64 h = 7) {
    typename Dim<T>::elem a[Dim<T>::n];
    get(t, a);
    for (int i = 0; i < Dim<T>::n; ++i) {
        uint32_t u = 0;
        memcpy(&u, &a[i], sizeof a[i]);
        h = ctx().mix(h, u);
    }
    return h;
}
inline u64 hall(u64 h) { return h; }
template <class T, class... R> u64 hall(u64 h, const T &t, const R &... r) { return hall(hsh(t, h), r...); }
inline std::string sall() { return ""; }
template <class T, class... R> std::string sall(const T &t, const R &... r) { std::string s = str(t); std::string rest = sall(r...); return rest.empty() ? s : s + ", " + rest; }

// ------------------------------------------------------------------ comparisons
inline uint32_t fbits(float f) { uint32_t u; memcpy(&u, &f, 4); return u; }
inline float bitsf(uint32_t u) { float f; memcpy(&f, &u, 4); return f; }
inline bool isnanf_(float f) { return (fbits(f) & 0x7fffffffu) > 0x7f800000u; }
inline bool isinff_(float f) { return (fbits(f) & 0x7fffffffu) == 0x7f800000u; }
inline bool isfin_(float f) { return (fbits(f) & 0x7f800000u) != 0x7f800000u; }
// identical results: same bits, or both NaN
inline bool same(float a, float b) { return fbits(a) == fbits(b) || (isnanf_(a) && isnanf_(b)); }
inline bool same(int a, int b) { return a == b; }
inline bool same(bool a, bool b) { unsigned char x, y; memcpy(&x, &a, 1); memcpy(&y, &b, 1); return x == y; }
template <class T> bool samev(const T &a, const T &b) {
    typename Dim<T>::elem x[Dim<T>::n], y[Dim<T>::n];
    get(a, x); get(b, y);
    for (int i = 0; i < Dim<T>::n; ++i) if (!same(x[i], y[i])) return false;
    return true;
}
const double EPS = 1.1920928955078125e-07;  // 2^-23
// |got - ref| <= k * eps * mag, where mag is the magnitude of the largest intermediate term.
// ref NaN requires NaN; a reference beyond float range accepts an infinity of its sign.
inline bool near_(float got, double ref, double mag, double k) {
    if (std::isnan(ref)) return isnanf_(got);
    if (isnanf_(got)) return false;
    if (std::isinf(ref)) return isinff_(got) && (got > 0) == (ref > 0);
    double tol = k * (EPS * std::fmax(std::fabs(mag), std::fabs(ref)) + 1.5e-45);
    if (isinff_(got)) return std::fabs(ref) + tol >= double(FLT_MAX) && (got > 0) == (ref > 0);
    return std::fabs(double(got) - ref) <= tol;
}
inline bool ulps(float a, float b, int n) {
    if (same(a, b)) return true;
    if (isnanf_(a) || isnanf_(b)) return false;
    auto ord = [](float f) { int64_t u = fbits(f); return (u & 0x80000000) ? -(u & 0x7fffffff) : u; };
    int64_t d = ord(a) - ord(b);
    return d <= n && d >= -n;
}

// ------------------------------------------------------------------ value generators
static const float kSpecials[] = {0.0f, -0.0f, 1.0f, -1.0f, 2.0f, -2.0f, 0.5f, -0.5f, 0.25f, 1.5f, -1.5f, 2.5f, 3.0f, -3.0f, 10.0f, 100.0f,
    1.0f + 1.1920929e-07f, 1.0f - 5.9604645e-08f, 0.1f, -0.1f, 3.14159265f, 1.57079633f, -1.57079633f, 0.70710678f, 1e-3f, 1e3f, 1e-6f, 1e6f, 8388608.0f, 16777216.0f, -8388609.0f, 4194304.5f};
static const float kExtremes[] = {FLT_MAX, -FLT_MAX, FLT_MIN, -FLT_MIN, 1.4e-45f, -1.4e-45f, 1e30f, -1e30f, 1e-30f, 1e20f, 1e19f, 1e-20f, 1e-19f, 1e38f,
    std::numeric_limits<float>::infinity(), -std::numeric_limits<float>::infinity(), std::numeric_limits<float>::quiet_NaN(), -std::numeric_limits<float>::quiet_NaN(), 2147483648.0f, -2147483648.0f, 1.1754942e-38f};

// any float at all
inline float f_any(Rng &r) {
    switch (r.below(8)) {
    case 0: return bitsf(uint32_t(r.next() >> 32));
    case 1: return kExtremes[r.below(sizeof kExtremes / sizeof *kExtremes)];
    case 2: case 3: return kSpecials[r.below(sizeof kSpecials / sizeof *kSpecials)];
    case 4: return float(int(r.below(41)) - 20);
    case 5: return float(r.uni(-1, 1));
    case 6: return float(r.sgn() * r.logu(1e-10, 1e10));
    default: return float(r.uni(-100, 100));
    }
}
// a finite float of moderate magnitude (zero, or 1e-6 .. 1e6)
inline float f_mod(Rng &r) {
    switch (r.below(8)) {
    case 0: { float f; do f = kSpecials[r.below(sizeof kSpecials / sizeof *kSpecials)]; while (std::fabs(f) > 1e6f); return f; }
    case 1: return float(int(r.below(21)) - 10);
    case 2: return float(int(r.below(41)) - 20) * 0.5f;
    case 3: return float(r.sgn() * r.logu(1e-6, 1e6));
    case 4: case 5: return float(r.uni(-1, 1));
    case 6: return float(r.uni(-10, 10));
    default: return float(r.uni(-1000, 1000));
    }
}
// positive, moderate
inline float f_pos(Rng &r, double lo = 1e-3, double hi = 1e3) { return r.chance(1, 4) ? float(int(r.below(10)) + 1) : float(r.logu(lo, hi)); }

// structured tuples: equal components, sign flips, zeros, single outliers, all independent
template <class G> void tuple_gen(Rng &r, float *a, int n, G g) {
    switch (r.below(9)) {
    case 8: { float v = g(r); double w = r.coin() ? 0.1 : r.logu(1e-7, 1e-1); for (int i = 0; i < n; ++i) a[i] = float(v * (1 + w * r.uni(-1, 1))); if (n > 1 && r.coin()) { if (r.coin()) std::sort(a, a + n, [](float p, float q) { return isnanf_(p) ? false : isnanf_(q) ? true : p < q; }); else for (int i = 1; i < n; ++i) a[i] = float(a[i - 1] * (1 - w * r.u01())); } break; }  // close together, and ordered
    case 0: { float v = g(r); for (int i = 0; i < n; ++i) a[i] = v; break; }
    case 1: { float v = g(r); for (int i = 0; i < n; ++i) a[i] = r.coin() ? v : -v; break; }
    case 2: { for (int i = 0; i < n; ++i) a[i] = r.coin() ? 0.0f : -0.0f; a[r.below(n)] = g(r); break; }
    case 3: { float v = g(r), w = g(r); for (int i = 0; i < n; ++i) a[i] = r.coin() ? v : w; break; }
    case 4: { for (int i = 0; i < n; ++i) a[i] = g(r); a[r.below(n)] = 0.0f; break; }
    default: for (int i = 0; i < n; ++i) a[i] = g(r);
    }
}
// finite, with the values a shortcut would single out, and a wide range of scales
inline float f_spice(Rng &r, double lo = 1e-15, double hi = 1e12) {
    switch (r.below(8)) {
    case 0: return r.coin() ? 0.0f : -0.0f;
    case 1: return float(r.sgn());
    case 2: { static const float s[] = {0.5f, -0.5f, 2.0f, -2.0f, 0.25f, 4.0f, 0.70710678f, -0.70710678f}; return s[r.below(8)]; }
    case 3: return std::ldexp(float(r.sgn()), int(r.below(61)) - 30);
    case 4: return float(int(r.below(2001)) - 1000);
    case 5: return float(r.sgn() * r.logu(lo, 1e-6));
    case 6: return float(r.sgn() * r.logu(1e4, hi));
    default: return f_mod(r);
    }
}
// moderate, spiced, or a moderate one scaled as a whole
template <class T> T t_wide(Rng &r, double lo = 1e-15, double hi = 1e12) {
    float a[Dim<T>::n];
    switch (r.below(4)) {
    case 0: tuple_gen(r, a, Dim<T>::n, [=](Rng &q) { return f_spice(q, lo, hi); }); break;
    case 1: { tuple_gen(r, a, Dim<T>::n, [](Rng &q) { return float(q.coin() ? q.uni(-1, 1) : int(q.below(9)) - 4); }); double s = r.logu(lo, hi); if (r.coin()) s = std::ldexp(1.0, std::ilogb(s)); for (float &x : a) x = float(x * s); break; }
    default: tuple_gen(r, a, Dim<T>::n, f_mod);
    }
    return mk<T>(a);
}
template <class T> T t_any(Rng &r) { float a[Dim<T>::n]; tuple_gen(r, a, Dim<T>::n, f_any); return mk<T>(a); }
template <class T> T t_mod(Rng &r) { float a[Dim<T>::n]; tuple_gen(r, a, Dim<T>::n, f_mod); return mk<T>(a); }

// unit tuples, rounded to float from a normalised double tuple
inline void unit_gen(Rng &r, float *a, int n) {
    double v[16], s = 0;
    switch (r.below(12)) {
    case 8: { for (int i = 0; i < n; ++i) v[i] = 1 + 0.1 * r.uni(-1, 1); if (r.coin()) std::sort(v, v + n); if (r.coin()) std::reverse(v, v + n); double g = r.sgn(); bool mix = r.coin(); for (int i = 0; i < n; ++i) v[i] *= mix ? r.sgn() : g; break; }
    case 9: { double g = r.sgn(); for (int i = 0; i < n; ++i) v[i] = g * std::fabs(r.gauss()); break; }
    case 10: { for (int i = 0; i < n; ++i) v[i] = r.gauss(); int k = r.below(n); if (n > 1) { double q = 0; v[k] = 0; for (double *p = v; p < v + n; ++p) q += *p * *p; for (int i = 0; i < n; ++i) v[i] *= std::sqrt(0.75 / q); v[k] = r.sgn() * 0.5; if (r.chance(1, 4)) for (int i = 0; i < n; ++i) v[i] = i == k ? r.sgn() * 0.5 : i == (k + 1) % n ? r.sgn() * std::sqrt(0.75) : 0; if (n == 4 && r.chance(1, 4)) for (int i = 0; i < n; ++i) v[i] = r.sgn() * 0.5; } break; }
    case 11: for (int i = 0; i < n; ++i) v[i] = r.gauss() * (r.coin() ? 1 : r.logu(1e-20, 1e-8)); break;
    case 0: for (int i = 0; i < n; ++i) v[i] = 0; v[r.below(n)] = r.sgn(); break;
    case 1: for (int i = 0; i < n; ++i) v[i] = int(r.below(3)) - 1; break;
    case 2: { for (int i = 0; i < n; ++i) v[i] = 0; int k = r.below(n); v[k] = r.sgn(); for (int i = 0; i < n; ++i) v[i] += r.gauss() * r.logu(1e-7, 1e-1); break; }
    case 3: for (int i = 0; i < n; ++i) v[i] = r.gauss(); v[r.below(n)] = 0; break;
    case 4: for (int i = 0; i < n; ++i) v[i] = r.gauss(); v[r.below(n)] *= r.logu(1e-7, 1e-1); break;
    default: for (int i = 0; i < n; ++i) v[i] = r.gauss();
    }
    for (int i = 0; i < n; ++i) s += v[i] * v[i];
    if (s < 1e-20) { for (int i = 0; i < n; ++i) v[i] = 0; v[0] = 1; s = 1; }
    s = std::sqrt(s);
    for (int i = 0; i < n; ++i) { a[i] = float(v[i] / s); if (a[i] == 0 && r.chance(1, 4)) a[i] = -0.0f; }
}
template <class T> T t_unit(Rng &r) { float a[Dim<T>::n]; unit_gen(r, a, Dim<T>::n); return mk<T>(a); }

// ints: any, and small
inline int i_any(Rng &r) {
    static const int sp[] = {0, 1, -1, 2, -2, 3, 7, 8, -8, 31, 32, 255, 256, -256, 65535, 65536, INT32_MAX, INT32_MIN, INT32_MAX - 1, INT32_MIN + 1, 0x40000000, -0x40000000, 0x55555555, int(0xAAAAAAAAu)};
    switch (r.below(4)) {
    case 0: { int v = int(uint32_t(r.next() >> 32)); return r.coin() ? v : v / (1 << r.below(31)); }
    case 1: return sp[r.below(sizeof sp / sizeof *sp)];
    case 2: return int(r.below(2001)) - 1000;
    default: return int(r.below(9)) - 4;
    }
}
template <class T> T ti_any(Rng &r) {
    int a[Dim<T>::n];
    switch (r.below(6)) {
    case 5: { long long v = i_any(r), w = v / 10 ? v / 10 : 1; if (w < 0) w = -w; bool up = r.coin(); for (auto &x : a) { long long y = v + (long long)(r.next() % (2 * u64(w) + 1)) - w; x = int(y > INT32_MAX ? INT32_MAX : y < INT32_MIN ? INT32_MIN : y); } if (r.coin()) { std::sort(a, a + Dim<T>::n); if (!up) std::reverse(a, a + Dim<T>::n); } break; }
    case 0: { int v = i_any(r); for (auto &x : a) x = v; break; }
    case 1: { int v = i_any(r), w = i_any(r); for (auto &x : a) x = r.coin() ? v : w; break; }
    default: for (auto &x : a) x = i_any(r);
    }
    return mk<T>(a);
}
template <class T> T tb_any(Rng &r) { bool a[Dim<T>::n]; for (auto &x : a) x = r.coin(); return mk<T>(a); }

// ------------------------------------------------------------------ double-precision reference vectors
struct DV { int n; double v[4]; double &operator[](int i) { return v[i]; } double operator[](int i) const { return v[i]; } };
template <class T> DV dv(const T &t) { DV d; d.n = Dim<T>::n; float a[Dim<T>::n]; get(t, a); for (int i = 0; i < d.n; ++i) d.v[i] = a[i]; return d; }
inline double ddot(const DV &a, const DV &b) { double s = 0; for (int i = 0; i < a.n; ++i) s += a.v[i] * b.v[i]; return s; }
inline double dadot(const DV &a, const DV &b) { double s = 0; for (int i = 0; i < a.n; ++i) s += std::fabs(a.v[i] * b.v[i]); return s; }
inline double dlen(const DV &a) { return std::sqrt(ddot(a, a)); }
inline DV dscale(const DV &a, double s) { DV d = a; for (int i = 0; i < a.n; ++i) d.v[i] *= s; return d; }
inline DV dadd(const DV &a, const DV &b) { DV d = a; for (int i = 0; i < a.n; ++i) d.v[i] += b.v[i]; return d; }
inline DV dsub(const DV &a, const DV &b) { DV d = a; for (int i = 0; i < a.n; ++i) d.v[i] -= b.v[i]; return d; }
inline DV dcross(const DV &a, const DV &b) { DV d; d.n = 3; d.v[0] = a.v[1] * b.v[2] - a.v[2] * b.v[1]; d.v[1] = a.v[2] * b.v[0] - a.v[0] * b.v[2]; d.v[2] = a.v[0] * b.v[1] - a.v[1] * b.v[0]; return d; }
inline DV dnorm(const DV &a) { return dscale(a, 1 / dlen(a)); }
inline DV d3(double x, double y, double z) { DV d; d.n = 3; d.v[0] = x; d.v[1] = y; d.v[2] = z; d.v[3] = 0; return d; }
inline std::string str(const DV &d) { std::string s = "ref("; for (int i = 0; i < d.n; ++i) { if (i) s += ", "; s += ds(d.v[i]); } return s + ")"; }

// column-major double matrix, m[c][r]
struct DM { int n; double m[4][4]; };
template <class M> DM dm(const M &x) { DM d; int n = Dim<M>::n == 4 ? 2 : Dim<M>::n == 9 ? 3 : 4; d.n = n; float a[Dim<M>::n]; get(x, a); for (int c = 0; c < n; ++c) for (int r = 0; r < n; ++r) d.m[c][r] = a[c * n + r]; return d; }
inline DM dident(int n) { DM d; d.n = n; for (int c = 0; c < 4; ++c) for (int r = 0; r < 4; ++r) d.m[c][r] = c == r; return d; }
inline DM dmul(const DM &a, const DM &b) { DM d; d.n = a.n; for (int c = 0; c < a.n; ++c) for (int r = 0; r < a.n; ++r) { double s = 0; for (int k = 0; k < a.n; ++k) s += a.m[k][r] * b.m[c][k]; d.m[c][r] = s; } return d; }
inline DM dabsmul(const DM &a, const DM &b) { DM d; d.n = a.n; for (int c = 0; c < a.n; ++c) for (int r = 0; r < a.n; ++r) { double s = 0; for (int k = 0; k < a.n; ++k) s += std::fabs(a.m[k][r] * b.m[c][k]); d.m[c][r] = s; } return d; }
inline DV dmulv(const DM &a, const DV &b) { DV d; d.n = a.n; for (int r = 0; r < a.n; ++r) { double s = 0; for (int k = 0; k < a.n; ++k) s += a.m[k][r] * b.v[k]; d.v[r] = s; } return d; }
inline DV dvmul(const DV &b, const DM &a) { DV d; d.n = a.n; for (int c = 0; c < a.n; ++c) { double s = 0; for (int k = 0; k < a.n; ++k) s += a.m[c][k] * b.v[k]; d.v[c] = s; } return d; }
inline DM dtrans(const DM &a) { DM d = a; for (int c = 0; c < a.n; ++c) for (int r = 0; r < a.n; ++r) d.m[c][r] = a.m[r][c]; return d; }
inline DM dminor(const DM &a, int c0, int r0) { DM d; d.n = a.n - 1; int cc = 0; for (int c = 0; c < a.n; ++c) { if (c == c0) continue; int rr = 0; for (int r = 0; r < a.n; ++r) { if (r == r0) continue; d.m[cc][rr++] = a.m[c][r]; } ++cc; } return d; }
inline double ddet(const DM &a) { if (a.n == 1) return a.m[0][0]; double s = 0; for (int c = 0; c < a.n; ++c) s += (c % 2 ? -1 : 1) * a.m[c][0] * ddet(dminor(a, c, 0)); return s; }
inline double dperm(const DM &a) { if (a.n == 1) return std::fabs(a.m[0][0]); double s = 0; for (int c = 0; c < a.n; ++c) s += std::fabs(a.m[c][0]) * dperm(dminor(a, c, 0)); return s; }
// adjugate, and the permanent of |minor| as the magnitude of its terms
inline DM dadj(const DM &a) { DM d; d.n = a.n; for (int c = 0; c < a.n; ++c) for (int r = 0; r < a.n; ++r) d.m[c][r] = ((c + r) % 2 ? -1 : 1) * ddet(dminor(a, r, c)); return d; }
inline DM dadjmag(const DM &a) { DM d; d.n = a.n; for (int c = 0; c < a.n; ++c) for (int r = 0; r < a.n; ++r) d.m[c][r] = dperm(dminor(a, r, c)); return d; }

// ------------------------------------------------------------------ check helpers
#define WHERE(name) std::string(name)
// exact agreement of a result with a reference of the same type
template <class T> bool expect_same(const char *key, const T &got, const T &ref, const std::string &in) {
    if (samev(got, ref)) return true;
    if (!ctx().failed_enough(key)) ctx().fail(key, "inputs " + in + " got " + str(got) + " expected " + str(ref)); else ctx().fail(key, "");
    return false;
}
inline bool expect(const char *key, bool ok, const std::function<std::string()> &d) {
    if (ok) return true;
    if (!ctx().failed_enough(key)) ctx().fail(key, d()); else ctx().fail(key, "");
    return false;
}
template <class T> bool expect_near(const char *key, const T &got, const DV &ref, double mag, double k, const std::function<std::string()> &in) {
    float a[Dim<T>::n]; get(got, a);
    for (int i = 0; i < Dim<T>::n; ++i)
        if (!near_(a[i], ref.v[i], mag, k)) {
            ctx().fail(key, ctx().failed_enough(key) ? "" : "inputs " + in() + " got " + str(got) + " expected " + str(ref) + " component " + std::to_string(i) + " tolerance " + ds(k * EPS * std::fmax(mag, std::fabs(ref.v[i]))));
            return false;
        }
    return true;
}
