#define NO_MAIN
#include "c36.h"
#include <glm/gtx/norm.hpp>
#include <glm/gtx/component_wise.hpp>
#include <glm/gtc/color_space.hpp>
#include <zcm/color_space.hpp>
#include <zcm/component_wise.hpp>
#include <zcm/geometric.hpp>
#include <zcm/type_ptr.hpp>
template <class T> static void geo(Rng &r, int s) {
    T x = mv<T>(r, s), y = r.below(5) ? mv<T>(r, s) : x, n = mv<T>(r, s + 1);
    std::string t = Dim<T>::name();
    double ax = amax(x), ay = amax(y), D = Dim<T>::n;
    auto in = [&] { return str(x) + " " + str(y) + " " + str(n); };
    ctx().group("geometric(" + t + ")"); ctx().eval(hash_all(x, y, n));
    agree(("dot(" + t + ")").c_str(), zcm::dot(x, y), glm::dot(g(x), g(y)), D * ax * ay, 4, in);
    agree(("length(" + t + ")").c_str(), zcm::length(x), glm::length(g(x)), 0, 8, in);
    agree(("distance(" + t + ")").c_str(), zcm::distance(x, y), glm::distance(g(x), g(y)), ax + ay, 8, in);
    agree(("length2(" + t + ")").c_str(), zcm::length2(x), glm::length2(g(x)), 0, 8, in);
    agree(("distance2(" + t + ")").c_str(), zcm::distance2(x, y), glm::distance2(g(x), g(y)), (ax + ay) * (ax + ay), 8, in);
    double d = 0; { float a[Dim<T>::n], b[Dim<T>::n]; get(x, a); get(y, b); for (int i = 0; i < Dim<T>::n; ++i) d += double(a[i]) * b[i]; }
    if (Dim<T>::n > 1 && r.chance(1, 8)) { /* exactly at right angles */ float a[Dim<T>::n], b[Dim<T>::n]; for (int i = 0; i < Dim<T>::n; ++i) a[i] = b[i] = 0; a[0] = float(r.below(5)) - 2; a[Dim<T>::n - 1] = float(r.below(5)) - 2; b[0] = -a[Dim<T>::n - 1]; b[Dim<T>::n - 1] = a[0]; T p = mk<T>(a), q = mk<T>(b);
        agree(("faceforward(" + t + ")").c_str(), zcm::faceforward(n, p, q), glm::faceforward(g(n), g(p), g(q)), 0, 0, [&] { return str(n) + str(p) + str(q); }); }
    if (std::fabs(d) > 1e-4 * ax * ay) agree(("faceforward(" + t + ")").c_str(), zcm::faceforward(n, x, y), glm::faceforward(g(n), g(x), g(y)), 0, 0, in);
    double len = 0; { float a[Dim<T>::n]; get(n, a); for (float f : a) len += double(f) * f; len = std::sqrt(len); }
    if (len > 1e-3) {
        T u; { float a[Dim<T>::n]; get(n, a); for (float &f : a) f = float(f / len); u = mk<T>(a); }
        agree(("reflect(" + t + ")").c_str(), zcm::reflect(x, u), glm::reflect(g(x), g(u)), 4 * D * ax, 8, in);
        double xl = 0; { float a[Dim<T>::n]; get(x, a); for (float f : a) xl += double(f) * f; xl = std::sqrt(xl); }
        if (xl > 1e-3) {
            T w; { float a[Dim<T>::n]; get(x, a); for (float &f : a) f = float(f / xl); w = mk<T>(a); }
            float eta = float(r.uni(0.2, 2));
            double di = 0; { float a[Dim<T>::n], b[Dim<T>::n]; get(w, a); get(u, b); for (int i = 0; i < Dim<T>::n; ++i) di += double(a[i]) * b[i]; }
            double k = 1 - double(eta) * eta * (1 - di * di);
            if (std::fabs(k) > 1e-2) agree(("refract(" + t + ")").c_str(), zcm::refract(w, u, eta), glm::refract(g(w), g(u), eta), 8, 32, [&] { return str(w) + str(u) + fs(eta); });
        }
    }
}
template <class T> static void vnorm(Rng &r, int s) {
    T x = mv<T>(r, s); if (amax(x) < 1e-3) return;
    std::string t = Dim<T>::name();
    ctx().group("normalize(" + t + ")"); ctx().eval(hash_all(x));
    agree(("normalize(" + t + ")").c_str(), zcm::normalize(x), glm::normalize(g(x)), 0, 8, [&] { return str(x); });
}
template <class T> static void ops(Rng &r, int s) {
    T x = mv<T>(r, s), y = mv<T>(r, s); float f = mf(r, s + 1);
    { float a[Dim<T>::n]; get(y, a); for (float &v : a) if (v == 0) v = 1; y = mk<T>(a); } if (f == 0) f = 2;
    std::string t = Dim<T>::name(); auto in = [&] { return str(x) + " " + str(y) + " " + fs(f); };
    ctx().group("operators(" + t + ")"); ctx().eval(hash_all(x, y, f));
#define OP(o) agree((t + " " #o " " + t).c_str(), x o y, g(x) o g(y), 0, 2, in); agree((t + " " #o " float").c_str(), x o f, g(x) o f, 0, 2, in); agree(("float " #o " " + t).c_str(), f o x, f o g(x), 0, 2, in);
    OP(+) OP(-) OP(*)
#undef OP
    agree((t + " / " + t).c_str(), x / y, g(x) / g(y), 0, 2, in); agree((t + " / float").c_str(), x / f, g(x) / f, 0, 2, in); agree(("float / " + t).c_str(), f / y, f / g(y), 0, 2, in);
    agree(("-" + t).c_str(), -x, -g(x), 0, 0, in);
#define AS(o, v, gv) { T a = x; a o v; auto b = g(x); b o gv; agree((t + " " #o).c_str(), a, b, 0, 2, in); }
    AS(+=, y, g(y)) AS(-=, y, g(y)) AS(*=, y, g(y)) AS(/=, y, g(y)) AS(+=, f, f) AS(-=, f, f) AS(*=, f, f) AS(/=, f, f)
    { T a = x; auto b = g(x); agree(("++" + t).c_str(), ++a, ++b, 0, 0, in); agree((t + "--").c_str(), a--, b--, 0, 0, in); agree((t + " after --").c_str(), a, b, 0, 0, in); }
    agree(("compAdd(" + t + ")").c_str(), zcm::compAdd(x), glm::compAdd(g(x)), 4 * amax(x), 4, in); agree(("compMul(" + t + ")").c_str(), zcm::compMul(x), glm::compMul(g(x)), 0, 4, in);
    agree(("compMin(" + t + ")").c_str(), zcm::compMin(x), glm::compMin(g(x)), 0, 0, in); agree(("compMax(" + t + ")").c_str(), zcm::compMax(x), glm::compMax(g(x)), 0, 0, in);
}
template <class T> static void iops(Rng &r, int s) {
    T x = miv<T>(r, s), y = miv<T>(r, s); int f = int(r.below(100)) - 50;
    { int a[Dim<T>::n]; get(y, a); for (int &v : a) if (v == 0) v = 7; y = mk<T>(a); } if (f == 0) f = 3;
    std::string t = Dim<T>::name(); auto in = [&] { return str(x) + " " + str(y) + " " + std::to_string(f); };
    ctx().group("operators(" + t + ")"); ctx().eval(hash_all(x, y, f));
#define OP(o) agree((t + " " #o " " + t).c_str(), x o y, g(x) o g(y), 0, 0, in); agree((t + " " #o " int").c_str(), x o f, g(x) o f, 0, 0, in);
    OP(+) OP(-) OP(*) OP(/) OP(%) OP(&) OP(|) OP(^)
    agree(("-" + t).c_str(), -x, -g(x), 0, 0, in);
    agree((t + " == ").c_str(), bool(x == y), g(x) == g(y), 0, 0, in); agree((t + " != ").c_str(), bool(x != y), g(x) != g(y), 0, 0, in);
    T m; { int a[Dim<T>::n]; for (int &v : a) v = int(r.below(8)); m = mk<T>(a); }
    T p; { int a[Dim<T>::n]; get(x, a); for (int &v : a) v = std::abs(v); p = mk<T>(a); }
    agree((t + " << " + t).c_str(), p << m, g(p) << g(m), 0, 0, in); agree((t + " >> " + t).c_str(), p >> m, g(p) >> g(m), 0, 0, in);
    agree(("compAdd(" + t + ")").c_str(), zcm::compAdd(x), glm::compAdd(g(x)), 0, 0, in); agree(("compMin(" + t + ")").c_str(), zcm::compMin(x), glm::compMin(g(x)), 0, 0, in); agree(("compMax(" + t + ")").c_str(), zcm::compMax(x), glm::compMax(g(x)), 0, 0, in);
}
// the libraries read and write one another's component arrays
template <class T> static void share(Rng &r, int s, unsigned cols) {
    typedef typename G<T>::t X;
    T z = mv<T>(r, s);
    ctx().group("component pointers(" + std::string(Dim<T>::name()) + ")"); ctx().eval(hash_all(z));
    X x; memcpy(glm::value_ptr(x), zcm::value_ptr((const T &)z), sizeof(float) * Dim<T>::n);
    float a[Dim<T>::n]; get(z, a);
    (void)cols;
    agree((std::string("value_ptr(") + Dim<T>::name() + ") to GLM").c_str(), z, x, 0, 0, [&] { return str(z); });
    T back; float *p = zcm::value_ptr(back); memcpy(p, glm::value_ptr(x), sizeof(float) * Dim<T>::n);
    agree((std::string("value_ptr(") + Dim<T>::name() + ") from GLM").c_str(), back, x, 0, 0, [&] { return str(z); });
}
void run_vec2(Ctx &c, Rng &r) {
    u64 N = c.n(4000);
    for (u64 i = 0; i < N; ++i) { STEP(r)
        int s = int(i);
        geo<zcm::vec2>(r, s); geo<zcm::vec3>(r, s); geo<zcm::vec4>(r, s);
        vnorm<zcm::vec2>(r, s); vnorm<zcm::vec3>(r, s); vnorm<zcm::vec4>(r, s);
        ops<zcm::vec2>(r, s); ops<zcm::vec3>(r, s); ops<zcm::vec4>(r, s); iops<zcm::ivec2>(r, s); iops<zcm::ivec3>(r, s); iops<zcm::ivec4>(r, s);
        share<zcm::vec2>(r, s, 1); share<zcm::vec3>(r, s, 1); share<zcm::vec4>(r, s, 1); share<zcm::mat2>(r, s, 2); share<zcm::mat3>(r, s, 3); share<zcm::mat4>(r, s, 4); share<zcm::quat>(r, s, 1);
        { zcm::vec3 a = mv<zcm::vec3>(r, s), b = mv<zcm::vec3>(r, s); c.group("cross"); c.eval(hash_all(a, b)); agree("cross(vec3)", zcm::cross(a, b), glm::cross(g(a), g(b)), 2 * amax(a) * amax(b), 4, [&] { return str(a) + str(b); }); }
        { float v[4]; for (float &f : v) f = float(r.u01()); v[3] = mf(r, s); zcm::vec3 a = mk<zcm::vec3>(v); zcm::vec4 b = mk<zcm::vec4>(v); float gm = float(r.uni(1, 4)); c.group("color space"); c.eval(hash_all(b, gm));
          auto in = [&] { return str(b) + " gamma " + fs(gm); };
          // near the joint of the curve the two sides differ in the fifth digit: GLM rounds its constants to four digits as well
          bool joint = false; for (int k = 0; k < 3; ++k) if (std::fabs(v[k] - 0.04045f) < 1e-4f || std::fabs(v[k] - 0.0031308f) < 1e-5f) joint = true;
          if (!joint) {
          { /* the default curve is GLM's low-precision one */ glm::vec<3, float, glm::lowp> l(a.x, a.y, a.z), m(b.x, b.y, b.z); l = glm::convertLinearToSRGB(l); m = glm::convertLinearToSRGB(m);
            agree("convertLinearToSRGB(vec3)", zcm::convertLinearToSRGB(a), glm::vec3(l.x, l.y, l.z), 1, 8, in); agree("convertLinearToSRGB(vec4)", zcm::convertLinearToSRGB(b), glm::vec4(m.x, m.y, m.z, b.w), 1, 8, in); }
          agree("convertSRGBToLinear(vec3)", zcm::convertSRGBToLinear(a), glm::convertSRGBToLinear(g(a)), 1, 4, in); agree("convertSRGBToLinear(vec4)", zcm::convertSRGBToLinear(b), glm::convertSRGBToLinear(g(b)), 1, 4, in);
          agree("convertLinearToSRGB(vec3, float)", zcm::convertLinearToSRGB(a, gm), glm::convertLinearToSRGB(g(a), gm), 1, 8, in); agree("convertLinearToSRGB(vec4, float)", zcm::convertLinearToSRGB(b, gm), glm::convertLinearToSRGB(g(b), gm), 1, 8, in);
          agree("convertSRGBToLinear(vec3, float)", zcm::convertSRGBToLinear(a, gm), glm::convertSRGBToLinear(g(a), gm), 1, 8, in); agree("convertSRGBToLinear(vec4, float)", zcm::convertSRGBToLinear(b, gm), glm::convertSRGBToLinear(g(b), gm), 1, 8, in); } }
    }
}
