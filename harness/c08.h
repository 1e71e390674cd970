// Vector and quaternion overloads against the scalar function of the same name, component by component.
#pragma once
#include "common.h"
#include <zcm/common.hpp>
#include <zcm/exponential.hpp>
#include <zcm/angle_and_trigonometry.hpp>
using namespace zcm;

// zero signs, infinities and NaN must agree exactly; ordinary values to a couple of units in the last place (or of the largest argument, for composite formulas)
static bool close_(float g, float e, double mag, int nulp) {
    if (same(g, e)) return true;
    if (g == 0 && e == 0) return false;
    if (!isfin_(g) || !isfin_(e)) return false;
    return ulps(g, e, nulp) || (mag > 0 && std::fabs(double(g) - e) <= 3 * EPS * mag);
}
static bool close_(int g, int e, double, int) { return g == e; }
static bool close_(bool g, bool e, double, int) { return g == e; }

struct Fn { const char *name; int nulp; bool composite; };
template <class T, class R, class S, class... A> void judge(const Fn &f, const R &got, S scalar, int lane_of_scalar_arg, const std::string &in, const A *... a) {
    typedef typename Dim<R>::elem RE; RE g[4]; get(got, g); (void)lane_of_scalar_arg;
    for (int i = 0; i < Dim<R>::n; ++i) {
        RE e = scalar(a[i]...);
        double mag = 0;
        if (f.composite) { double m[] = {double(a[i])...}; for (double x : m) if (std::isfinite(x)) mag = std::fmax(mag, std::fabs(x)); }
        if (!close_(g[i], e, mag, f.nulp)) {
            std::string key = std::string(f.name) + " of " + Dim<T>::name();
            ctx().fail(key, "inputs " + in + " got " + str(got) + ", component " + std::to_string(i) + " should be " + str(e));
        }
    }
}
template <class T> T rnd(Rng &r);
template <> inline vec2 rnd<vec2>(Rng &r) { return t_any<vec2>(r); }
template <> inline vec3 rnd<vec3>(Rng &r) { return t_any<vec3>(r); }
template <> inline vec4 rnd<vec4>(Rng &r) { return t_any<vec4>(r); }
template <> inline quat rnd<quat>(Rng &r) { return t_any<quat>(r); }
template <> inline ivec2 rnd<ivec2>(Rng &r) { return ti_any<ivec2>(r); }
template <> inline ivec3 rnd<ivec3>(Rng &r) { return ti_any<ivec3>(r); }
template <> inline ivec4 rnd<ivec4>(Rng &r) { return ti_any<ivec4>(r); }
template <> inline bvec2 rnd<bvec2>(Rng &r) { return tb_any<bvec2>(r); }
template <> inline bvec3 rnd<bvec3>(Rng &r) { return tb_any<bvec3>(r); }
template <> inline bvec4 rnd<bvec4>(Rng &r) { return tb_any<bvec4>(r); }
template <class T> struct Bv; template <> struct Bv<vec2> { typedef bvec2 t; }; template <> struct Bv<vec3> { typedef bvec3 t; }; template <> struct Bv<vec4> { typedef bvec4 t; };

// sometimes copy single components between arguments, so that equal and adjacent values meet
template <class T> void relate(Rng &r, T &a, const T &b) { if (r.chance(1, 3)) { typename Dim<T>::elem x[4], y[4]; get(a, x); get(b, y); x[r.below(Dim<T>::n)] = y[r.below(Dim<T>::n)]; if (r.coin()) { int k = r.below(Dim<T>::n); x[k] = y[k]; } a = mk<T>(x); } }

static u64 N;
template <class T, class F, class S> void un(Rng &r, Fn f, F vf, S sf) {
    ctx().group(std::string(f.name) + " of " + Dim<T>::name());
    typedef typename Dim<T>::elem E;
    for (u64 i = 0; i < N; ++i) { STEP(r) T a = rnd<T>(r); ctx().eval(hsh(a)); E x[4]; get(a, x); judge<T>(f, vf(a), sf, -1, str(a), (const E *)x); }
}
template <class T, class U, class F, class S> void bin(Rng &r, Fn f, F vf, S sf) {
    ctx().group(std::string(f.name) + " of " + Dim<T>::name() + " and " + Dim<U>::name());
    typedef typename Dim<T>::elem E; typedef typename Dim<U>::elem G;
    for (u64 i = 0; i < N; ++i) { STEP(r) T a = rnd<T>(r); U b = rnd<U>(r); relate(r, a, b); ctx().eval(hall(1, a, b)); E x[4]; G y[4]; get(a, x); get(b, y); judge<T>(f, vf(a, b), sf, -1, sall(a, b), (const E *)x, (const G *)y); }
}
// a float argument applies to every component
template <class T, class F, class S> void bins(Rng &r, Fn f, F vf, S sf) {
    ctx().group(std::string(f.name) + " of " + Dim<T>::name() + " and float");
    for (u64 i = 0; i < N; ++i) { STEP(r) T a = rnd<T>(r); float s = f_any(r); ctx().eval(hall(2, a, s)); float x[4], y[4] = {s, s, s, s}; get(a, x); judge<T>(f, vf(a, s), sf, 1, sall(a, s), (const float *)x, (const float *)y); }
}
template <class T, class U, class F, class S> void tern(Rng &r, Fn f, F vf, S sf) {
    ctx().group(std::string(f.name) + " of three " + Dim<T>::name() + " " + Dim<U>::name());
    typedef typename Dim<T>::elem E; typedef typename Dim<U>::elem G;
    for (u64 i = 0; i < N; ++i) { STEP(r) T a = rnd<T>(r), b = rnd<T>(r); U d = rnd<U>(r); relate(r, a, b); ctx().eval(hall(3, a, b, d)); E x[4], y[4]; G z[4]; get(a, x); get(b, y); get(d, z); judge<T>(f, vf(a, b, d), sf, -1, sall(a, b, d), (const E *)x, (const E *)y, (const G *)z); }
}
template <class T, class F, class S> void terns(Rng &r, Fn f, F vf, S sf) {
    ctx().group(std::string(f.name) + " of two " + Dim<T>::name() + " and float");
    for (u64 i = 0; i < N; ++i) { STEP(r) T a = rnd<T>(r), b = rnd<T>(r); float s = r.coin() ? float(r.uni(0, 1)) : f_any(r); relate(r, a, b); ctx().eval(hall(4, a, b, s)); float x[4], y[4], z[4] = {s, s, s, s}; get(a, x); get(b, y); judge<T>(f, vf(a, b, s), sf, 2, sall(a, b, s), (const float *)x, (const float *)y, (const float *)z); }
}
#define L1(F) [](auto a) { return zcm::F(a); }
#define L2(F) [](auto a, auto b) { return zcm::F(a, b); }
#define L3(F) [](auto a, auto b, auto d) { return zcm::F(a, b, d); }
#define UN(F, K, COMP) { Fn f{#F, K, COMP}; un<vec2>(r, f, L1(F), [](float a) { return zcm::F(a); }); un<vec3>(r, f, L1(F), [](float a) { return zcm::F(a); }); un<vec4>(r, f, L1(F), [](float a) { return zcm::F(a); }); }
#define UNQ(F, K) { Fn f{#F, K, false}; un<quat>(r, f, L1(F), [](float a) { return zcm::F(a); }); }
#define UNI(F) { Fn f{#F, 0, false}; un<ivec2>(r, f, L1(F), [](int a) { return zcm::F(a); }); un<ivec3>(r, f, L1(F), [](int a) { return zcm::F(a); }); un<ivec4>(r, f, L1(F), [](int a) { return zcm::F(a); }); }
#define BIN(F, K, COMP) { Fn f{#F, K, COMP}; auto s = [](float a, float b) { return zcm::F(a, b); }; bin<vec2, vec2>(r, f, L2(F), s); bin<vec3, vec3>(r, f, L2(F), s); bin<vec4, vec4>(r, f, L2(F), s); }
#define BINI(F) { Fn f{#F, 0, false}; auto s = [](int a, int b) { return zcm::F(a, b); }; bin<ivec2, ivec2>(r, f, L2(F), s); bin<ivec3, ivec3>(r, f, L2(F), s); bin<ivec4, ivec4>(r, f, L2(F), s); }
#define REL(F, OP) { Fn f{#F, 0, false}; auto s = [](float a, float b) -> bool { return a OP b; }; bin<vec2, vec2>(r, f, L2(F), s); bin<vec3, vec3>(r, f, L2(F), s); bin<vec4, vec4>(r, f, L2(F), s); }
#define TERN(F, K) { Fn f{#F, K, true}; auto s = [](float a, float b, float d) { return zcm::F(a, b, d); }; tern<vec2, vec2>(r, f, L3(F), s); tern<vec3, vec3>(r, f, L3(F), s); tern<vec4, vec4>(r, f, L3(F), s); }

