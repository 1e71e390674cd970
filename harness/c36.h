// C36: the same arguments given to both libraries. Values cross between them as component arrays.
#pragma once
#define GLM_ENABLE_EXPERIMENTAL 1
#define GLM_FORCE_PURE 1
#include <glm/glm.hpp>
#include <glm/gtc/quaternion.hpp>
#include <glm/gtc/type_ptr.hpp>
#include "common.h"
template <class T> struct G;
#define GMAP(T) template <> struct G<zcm::T> { typedef glm::T t; };
GMAP(vec2) GMAP(vec3) GMAP(vec4) GMAP(ivec2) GMAP(ivec3) GMAP(ivec4) GMAP(bvec2) GMAP(bvec3) GMAP(bvec4) GMAP(mat2) GMAP(mat3) GMAP(mat4) GMAP(quat)
template <> struct G<float> { typedef float t; };
template <> struct G<int> { typedef int t; };
template <> struct G<bool> { typedef bool t; };
template <class T> typename G<T>::t g(const T &x) {
    typename G<T>::t y;
    static_assert(sizeof y == sizeof x || sizeof(T) == 16, "both libraries lay the type out alike");
    memcpy((void *)&y, (const void *)&x, sizeof(typename Dim<T>::elem) * Dim<T>::n);
    return y;
}
template <class T> struct Comp { static double get(const typename G<T>::t &x, int i) { typename Dim<T>::elem e; memcpy((void *)&e, (const char *)&x + i * sizeof e, sizeof e); return double(e); } };
// agreement up to k roundings of a quantity of magnitude mag
template <class T> bool agree(const char *key, const T &z, const typename G<T>::t &r, double mag, double k, const std::function<std::string()> &in) {
    for (int i = 0; i < Dim<T>::n; ++i) {
        typename Dim<T>::elem e; memcpy((void *)&e, (const char *)&z + i * sizeof e, sizeof e);
        double a = double(e), b = Comp<T>::get(r, i);
        if (a == b || (a != a && b != b)) continue;
        if (std::isinf(a) != std::isinf(b) || a != a || b != b || !(std::fabs(a - b) <= k * EPS * std::fmax(mag, std::fmax(std::fabs(a), std::fabs(b))) + 1e-44)) {
            std::string k2 = key;
            if (ctx().failed_enough(k2)) ctx().fail(k2, "");
            else { std::string s; for (int j = 0; j < Dim<T>::n; ++j) s += " " + ds(Comp<T>::get(r, j)); ctx().fail(k2, std::string(key) + " of " + in() + ": this library " + str(z) + ", GLM" + s); }
            return false;
        }
    }
    return true;
}
// moderate random values of several styles
inline float mf(Rng &r, int style) {
    switch (style % 5) {
    case 0: return float(r.uni(-1, 1));
    case 1: return float(int(r.below(21)) - 10) * 0.5f;
    case 2: return float(r.gauss());
    case 3: return float(r.sgn() * r.logu(1e-3, 1e3));
    default: return float(r.uni(-10, 10));
    }
}
template <class T> T mv(Rng &r, int style) { float a[Dim<T>::n]; for (int i = 0; i < Dim<T>::n; ++i) a[i] = mf(r, style); return mk<T>(a); }
template <class T> T miv(Rng &r, int style) { int a[Dim<T>::n]; for (int i = 0; i < Dim<T>::n; ++i) a[i] = style & 1 ? int(r.below(2001)) - 1000 : int(r.below(11)) - 5; return mk<T>(a); }
template <class T> T mbv(Rng &r) { bool a[Dim<T>::n]; for (int i = 0; i < Dim<T>::n; ++i) a[i] = r.coin(); return mk<T>(a); }
template <class T> double amax(const T &x) { float a[Dim<T>::n]; get(x, a); double m = 0; for (int i = 0; i < Dim<T>::n; ++i) m = std::fmax(m, std::fabs(double(a[i]))); return m; }
void run_vec(Ctx &c, Rng &r);
void run_vec2(Ctx &c, Rng &r);
void run_mat(Ctx &c, Rng &r);
template <class... R> u64 hash_all(const R &... r) { return hall(7, r...); }
