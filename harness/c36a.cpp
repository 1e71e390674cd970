#define NO_MAIN
#include "c36.h"
#include <glm/gtx/norm.hpp>
#include <glm/gtx/component_wise.hpp>
#include <glm/gtc/color_space.hpp>
#include <glm/ext/scalar_common.hpp>
#include <zcm/angle_and_trigonometry.hpp>
#include <zcm/common.hpp>
#include <zcm/exponential.hpp>

// one-argument functions over every float type
#define U1(fn, gen, k) { \
    struct A { static void one(Rng &r, int s) { (void)s; \
        U1T(fn, float, gen, k) U1T(fn, zcm::vec2, gen, k) U1T(fn, zcm::vec3, gen, k) U1T(fn, zcm::vec4, gen, k) } }; \
    for (u64 i = 0; i < N; ++i) { STEP(r) A::one(r, int(i)); } }
#define U1T(fn, T, gen, k) { T x = gen<T>(r, s); c_group(#fn, Dim<T>::name()); T z = zcm::fn(x); auto w = glm::fn(g(x)); ctx().eval(hash_all(x)); agree(("" #fn "(" + std::string(Dim<T>::name()) + ")").c_str(), z, w, 0, k, [&] { return str(x); }); }
static void c_group(const char *fn, const char *t) { ctx().group(std::string(fn) + "(" + t + ")"); }
template <class T> T any_(Rng &r, int s) { return mv<T>(r, s); }
template <class T, class F> T map_(Rng &r, int s, F f) { float a[Dim<T>::n]; for (int i = 0; i < Dim<T>::n; ++i) a[i] = f(mf(r, s)); return mk<T>(a); }
template <class T> T pos_(Rng &r, int s) { return map_<T>(r, s, [](float x) { return std::fabs(x) + 1e-6f; }); }
template <class T> T unit_(Rng &r, int s) { return map_<T>(r, s, [](float x) { return x / (1 + std::fabs(x)); }); }
template <class T> T ge1_(Rng &r, int s) { return map_<T>(r, s, [](float x) { return 1 + std::fabs(x); }); }
template <class T> T small_(Rng &r, int s) { return map_<T>(r, s, [](float x) { return std::fmod(x, 20.0f); }); }
// halves are rounded away from zero by GLM's std::round and by this library alike
template <class T> T halves_(Rng &r, int s) { return s & 1 ? map_<T>(r, s, [](float x) { return std::floor(x) + 0.5f; }) : mv<T>(r, s); }

#define T2(fn, T, S, genx, geny, mag, k) { T x = genx<T>(r, s); S y = geny<S>(r, s); c_group(#fn, Dim<T>::name()); auto z = zcm::fn(x, y); auto w = glm::fn(g(x), g(y)); ctx().eval(hash_all(x, y)); agree(("" #fn "(" + std::string(Dim<T>::name()) + ", " + Dim<S>::name() + ")").c_str(), z, w, mag, k, [&] { return str(x) + " " + str(y); }); }
#define T2V(fn, genx, geny, mag, k) T2(fn, zcm::vec2, zcm::vec2, genx, geny, mag, k) T2(fn, zcm::vec3, zcm::vec3, genx, geny, mag, k) T2(fn, zcm::vec4, zcm::vec4, genx, geny, mag, k)
#define T2F(fn, genx, geny, mag, k) T2(fn, float, float, genx, geny, mag, k) T2V(fn, genx, geny, mag, k)
#define T2I(fn) T2(fn, zcm::ivec2, zcm::ivec2, miv, miv, 0, 0) T2(fn, zcm::ivec3, zcm::ivec3, miv, miv, 0, 0) T2(fn, zcm::ivec4, zcm::ivec4, miv, miv, 0, 0)
#define T3(fn, T, S, U, gx, gy, gz, mag, k) { T x = gx<T>(r, s); S y = gy<S>(r, s); U v = gz<U>(r, s); c_group(#fn, Dim<T>::name()); auto z = zcm::fn(x, y, v); auto w = glm::fn(g(x), g(y), g(v)); ctx().eval(hash_all(x, y, v)); agree(("" #fn "(" + std::string(Dim<T>::name()) + ", ..., " + Dim<U>::name() + ")").c_str(), z, w, mag, k, [&] { return str(x) + " " + str(y) + " " + str(v); }); }
template <class T> T bool_(Rng &r, int) { return mbv<T>(r); }

template <class T> static void ordered(Rng &r, int s, T &lo, T &hi) {
    float a[Dim<T>::n], b[Dim<T>::n];
    for (int i = 0; i < Dim<T>::n; ++i) { a[i] = mf(r, s); b[i] = a[i] + std::fabs(mf(r, s + 1)) + 0.01f; }
    lo = mk<T>(a); hi = mk<T>(b);
}
template <class T> static void triple(Rng &r, int s) {
    T lo, hi; ordered(r, s, lo, hi);
    T x = mv<T>(r, s);
    std::string t = Dim<T>::name();
    ctx().group("clamp(" + t + ")"); ctx().eval(hash_all(x, lo, hi));
    agree(("clamp(" + t + ")").c_str(), zcm::clamp(x, lo, hi), glm::clamp(g(x), g(lo), g(hi)), 0, 0, [&] { return str(x) + " " + str(lo) + " " + str(hi); });
    ctx().group("smoothstep(" + t + ")"); ctx().eval(hash_all(x, lo, hi));
    // (x - lo) / (hi - lo) loses what x and lo have in common
    double rel = 0; { float a[Dim<T>::n], b[Dim<T>::n], d[Dim<T>::n]; get(lo, a); get(hi, b); get(x, d); for (int i = 0; i < Dim<T>::n; ++i) rel = std::fmax(rel, (std::fabs(a[i]) + std::fabs(d[i])) / std::fabs(double(b[i]) - a[i])); }
    agree(("smoothstep(" + t + ")").c_str(), zcm::smoothstep(lo, hi, x), glm::smoothstep(g(lo), g(hi), g(x)), 1 + rel, 16, [&] { return str(lo) + " " + str(hi) + " " + str(x); });
    ctx().group("fma(" + t + ")"); ctx().eval(hash_all(x, lo, hi));
    agree(("fma(" + t + ")").c_str(), zcm::fma(x, lo, hi), g(x) * g(lo) + g(hi), amax(x) * amax(lo) + amax(hi), 4, [&] { return str(x) + " " + str(lo) + " " + str(hi); });
    ctx().group("mix(" + t + ")");
    ctx().eval(hash_all(x, lo, hi));
    agree(("mix(" + t + ")").c_str(), zcm::mix(x, hi, lo), glm::mix(g(x), g(hi), g(lo)), (amax(x) + amax(hi)) * (1 + amax(lo)), 8, [&] { return str(x) + " " + str(hi) + " " + str(lo); });
    float f = mf(r, s + 2);
    agree(("mix(" + t + ", float)").c_str(), zcm::mix(x, hi, f), glm::mix(g(x), g(hi), f), (amax(x) + amax(hi)) * (1 + std::fabs(f)), 8, [&] { return str(x) + " " + str(hi) + " " + fs(f); });
    T y; { float a[Dim<T>::n]; for (int i = 0; i < Dim<T>::n; ++i) { do a[i] = mf(r, s); while (std::fabs(a[i]) < 1e-3f); } y = mk<T>(a); }
    ctx().group("mod(" + t + ")"); ctx().eval(hash_all(x, y));
    // a quotient that rounds across an integer moves the result by one divisor
    { float a[Dim<T>::n], b[Dim<T>::n]; get(x, a); get(y, b); bool edge = false; for (int i = 0; i < Dim<T>::n; ++i) { double q = double(a[i]) / b[i], d = std::fabs(q - std::nearbyint(q)); if (d < 4 * EPS * (1 + std::fabs(q))) edge = true; }
      if (!edge) agree(("mod(" + t + ")").c_str(), zcm::mod(x, y), glm::mod(g(x), g(y)), amax(x) + amax(y), 8, [&] { return str(x) + " " + str(y); }); }
}
template <class T> static void withfloat(Rng &r, int s) {
    T x = mv<T>(r, s); float y; do y = mf(r, s + 1); while (std::fabs(y) < 1e-3f);
    std::string t = Dim<T>::name();
    float a[Dim<T>::n]; get(x, a); bool edge = false; for (int i = 0; i < Dim<T>::n; ++i) { double q = double(a[i]) / y, d = std::fabs(q - std::nearbyint(q)); if (d < 4 * EPS * (1 + std::fabs(q))) edge = true; }
    ctx().group("mod(" + t + ", float)"); ctx().eval(hash_all(x, y));
    if (!edge) agree(("mod(" + t + ", float)").c_str(), zcm::mod(x, y), glm::mod(g(x), y), amax(x) + std::fabs(y), 8, [&] { return str(x) + " " + fs(y); });
}
#define BOOLMIX(T, B) { zcm::T a = mv<zcm::T>(r, s), b = mv<zcm::T>(r, s); zcm::B m = mbv<zcm::B>(r); ctx().group("mix(" #T ", " #B ")"); ctx().eval(hash_all(a, b, m)); agree("mix(" #T ", " #B ")", zcm::mix(a, b, m), glm::mix(g(a), g(b), g(m)), 0, 0, [&] { return str(a) + str(b) + str(m); }); }
#define REL(T) { zcm::T x = mv<zcm::T>(r, 1), y = r.coin() ? x : mv<zcm::T>(r, 1); ctx().group("relational(" #T ")"); ctx().eval(hash_all(x, y)); auto in = [&] { return str(x) + " " + str(y); }; \
    agree("lessThan(" #T ")", zcm::lessThan(x, y), glm::lessThan(g(x), g(y)), 0, 0, in); agree("lessThanEqual(" #T ")", zcm::lessThanEqual(x, y), glm::lessThanEqual(g(x), g(y)), 0, 0, in); agree("greaterThan(" #T ")", zcm::greaterThan(x, y), glm::greaterThan(g(x), g(y)), 0, 0, in); \
    agree("greaterThanEqual(" #T ")", zcm::greaterThanEqual(x, y), glm::greaterThanEqual(g(x), g(y)), 0, 0, in); agree("equal(" #T ")", zcm::equal(x, y), glm::equal(g(x), g(y)), 0, 0, in); agree("notEqual(" #T ")", zcm::notEqual(x, y), glm::notEqual(g(x), g(y)), 0, 0, in); \
    agree("==(" #T ")", bool(x == y), g(x) == g(y), 0, 0, in); agree("!=(" #T ")", bool(x != y), g(x) != g(y), 0, 0, in); }
#define BREL(T) { zcm::T x = mbv<zcm::T>(r), y = r.coin() ? x : mbv<zcm::T>(r); ctx().group("boolean(" #T ")"); ctx().eval(hash_all(x, y)); auto in = [&] { return str(x) + " " + str(y); }; \
    agree("all(" #T ")", zcm::all(x), glm::all(g(x)), 0, 0, in); agree("any(" #T ")", zcm::any(x), glm::any(g(x)), 0, 0, in); agree("equal(" #T ")", zcm::equal(x, y), glm::equal(g(x), g(y)), 0, 0, in); agree("notEqual(" #T ")", zcm::notEqual(x, y), glm::notEqual(g(x), g(y)), 0, 0, in); }
#define CLS(T) { zcm::T x; { float a[Dim<zcm::T>::n]; for (auto &f : a) { f = mf(r, s); if (r.below(3) == 0) f = bitsf((r.coin() ? 0x7f800000u : 0xff800000u) | (r.coin() ? 0 : 0x400000u)); } x = mk<zcm::T>(a); } ctx().group("classify(" #T ")"); ctx().eval(hash_all(x)); agree("isnan(" #T ")", zcm::isnan(x), glm::isnan(g(x)), 0, 0, [&] { return str(x); }); agree("isinf(" #T ")", zcm::isinf(x), glm::isinf(g(x)), 0, 0, [&] { return str(x); }); }

void run_vec(Ctx &c, Rng &r) {
    u64 N = c.n(4000);
    U1(abs, any_, 0) U1(floor, any_, 0) U1(ceil, any_, 0) U1(trunc, any_, 0) U1(round, halves_, 0) U1(roundEven, halves_, 0) U1(fract, any_, 2) U1(sign, any_, 0)
    U1(sin, any_, 4) U1(cos, any_, 4) U1(tan, any_, 4) U1(asin, unit_, 4) U1(acos, unit_, 4) U1(atan, any_, 4) U1(sinh, small_, 4) U1(cosh, small_, 4) U1(tanh, any_, 4) U1(asinh, any_, 4) U1(acosh, ge1_, 4) U1(atanh, unit_, 4)
    U1(radians, any_, 4) U1(degrees, any_, 4) U1(exp, small_, 4) U1(exp2, small_, 4) U1(log, pos_, 4) U1(log2, pos_, 4) U1(sqrt, pos_, 4) U1(inversesqrt, pos_, 4)
    for (u64 i = 0; i < N; ++i) { STEP(r)
        int s = int(i);
        T2F(min, any_, any_, 0, 0) T2F(max, any_, any_, 0, 0) T2F(step, any_, any_, 0, 0) T2F(atan, any_, any_, 0, 4) T2F(pow, pos_, unit_, 0, 8)
        T2I(min) T2I(max)
        triple<float>(r, s); triple<zcm::vec2>(r, s); triple<zcm::vec3>(r, s); triple<zcm::vec4>(r, s);
        withfloat<zcm::vec2>(r, s); withfloat<zcm::vec3>(r, s); withfloat<zcm::vec4>(r, s);
        BOOLMIX(vec2, bvec2) BOOLMIX(vec3, bvec3) BOOLMIX(vec4, bvec4)
        REL(vec2) REL(vec3) REL(vec4) BREL(bvec2) BREL(bvec3) BREL(bvec4) CLS(vec2) CLS(vec3) CLS(vec4)
#define IABS(T) { zcm::T x = miv<zcm::T>(r, s), lo = miv<zcm::T>(r, s), hi = lo; { int a[Dim<zcm::T>::n], b[Dim<zcm::T>::n]; get(lo, a); for (int j = 0; j < Dim<zcm::T>::n; ++j) b[j] = a[j] + int(r.below(20)); hi = mk<zcm::T>(b); } ctx().group("integer(" #T ")"); ctx().eval(hash_all(x, lo, hi)); auto in = [&] { return str(x) + str(lo) + str(hi); }; \
        agree("abs(" #T ")", zcm::abs(x), glm::abs(g(x)), 0, 0, in); agree("sign(" #T ")", zcm::sign(x), glm::sign(g(x)), 0, 0, in); agree("clamp(" #T ")", zcm::clamp(x, lo, hi), glm::clamp(g(x), g(lo), g(hi)), 0, 0, in); }
        IABS(ivec2) IABS(ivec3) IABS(ivec4)
    }
}
