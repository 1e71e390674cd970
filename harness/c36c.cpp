#define NO_MAIN
#include "c36.h"
#include "mat.h"
#include "rot.h"
#include <glm/ext/matrix_clip_space.hpp>
#include <glm/ext/matrix_transform.hpp>
#include <glm/gtc/matrix_inverse.hpp>
#include <glm/gtx/matrix_operation.hpp>
#include <zcm/matrix.hpp>
#include <zcm/matrix_transform.hpp>
#include <zcm/quaternion.hpp>
#include <zcm/geometric.hpp>
#include <zcm/common.hpp>
template <class M> static double cond_like(const M &m, double &det) {   // magnitude of the inverse's terms over the determinant
    DM d = dm(m); det = ddet(d); DM a = dadjmag(d); double x = 0; for (int c = 0; c < d.n; ++c) for (int r = 0; r < d.n; ++r) x = std::fmax(x, a.m[c][r]);
    return x;
}
template <class M, class V> static void mats(Rng &r, int s) {
    M a = mv<M>(r, s), b = mv<M>(r, s + 1); V v = mv<V>(r, s); float f; do f = mf(r, s + 2); while (std::fabs(f) < 1e-3f);
    std::string t = Dim<M>::name(); auto in = [&] { return str(a) + " " + str(b) + " " + str(v) + " " + fs(f); };
    double n = Dim<V>::n, A = amax(a), B = amax(b);
    ctx().group("matrix(" + t + ")"); ctx().eval(hash_all(a, b, v, f));
    agree((t + " + ").c_str(), a + b, g(a) + g(b), 0, 2, in); agree((t + " - ").c_str(), a - b, g(a) - g(b), 0, 2, in); agree(("-" + t).c_str(), -a, -g(a), 0, 0, in);
    agree((t + " * " + t).c_str(), a * b, g(a) * g(b), n * A * B, 4, in); agree((t + " * vec").c_str(), a * v, g(a) * g(v), n * A * amax(v), 4, in); agree(("vec * " + t).c_str(), v * a, g(v) * g(a), n * A * amax(v), 4, in);
    agree((t + " * float").c_str(), a * f, g(a) * f, 0, 2, in); agree(("float * " + t).c_str(), f * a, f * g(a), 0, 2, in); agree((t + " / float").c_str(), a / f, g(a) / f, 0, 2, in);
    { M x = a; x *= b; auto y = g(a); y *= g(b); agree((t + " *=").c_str(), x, y, n * A * B, 4, in); }
    { M x = a; x += b; auto y = g(a); y += g(b); agree((t + " +=").c_str(), x, y, 0, 2, in); }
    { M x = a; x -= b; auto y = g(a); y -= g(b); agree((t + " -=").c_str(), x, y, 0, 2, in); }
    agree((t + " ==").c_str(), bool(a == b), g(a) == g(b), 0, 0, in);
    agree(("transpose(" + t + ")").c_str(), zcm::transpose(a), glm::transpose(g(a)), 0, 0, in);
    agree(("matrixCompMult(" + t + ")").c_str(), zcm::matrixCompMult(a, b), glm::matrixCompMult(g(a), g(b)), 0, 2, in);
    agree(("determinant(" + t + ")").c_str(), zcm::determinant(a), glm::determinant(g(a)), dperm(dm(a)), 32, in);
    double det, mag = cond_like(a, det);
    if (std::fabs(det) > 0.02 * dperm(dm(a)) && det != 0) {
        double tol = mag / std::fabs(det) * dperm(dm(a)) / std::fabs(det);
        agree(("inverse(" + t + ")").c_str(), zcm::inverse(a), glm::inverse(g(a)), tol, 64, in);
        if (Dim<V>::n > 2) agree(("inverseTranspose(" + t + ")").c_str(), zcm::inverseTranspose(a), glm::inverseTranspose(g(a)), tol, 64, in);
        // GLM's column division is a multiplication by the inverse, as here
        agree((t + " / vec").c_str(), zcm::inverse(a) * v, g(a) / g(v), tol * n * amax(v), 256, in);
    }
    for (unsigned c = 0; c < unsigned(n); ++c) agree((t + "[]").c_str(), a[c], g(a)[int(c)], 0, 0, in);
}
static zcm::vec3 nz(Rng &r, int s) { zcm::vec3 v; do v = mv<zcm::vec3>(r, s); while (amax(v) < 0.05); return v; }
static void builders(Rng &r, int s) {
    zcm::mat4 m = mv<zcm::mat4>(r, s); zcm::vec3 v = mv<zcm::vec3>(r, s + 1), ax = nz(r, s + 2); float an = float(r.uni(-7, 7));
    auto in = [&] { return str(m) + " " + str(v) + " " + str(ax) + " " + fs(an); };
    double M = amax(m), V = amax(v);
    ctx().group("transform builders"); ctx().eval(hash_all(m, v, ax, an));
    agree("translate", zcm::translate(m, v), glm::translate(g(m), g(v)), M * (1 + 3 * V), 4, in);
    agree("translate(vec3)", zcm::translate(zcm::mat4(), v), glm::translate(glm::mat4(1), g(v)), V, 2, in);
    agree("scale", zcm::scale(m, v), glm::scale(g(m), g(v)), 0, 2, in);
    agree("rotate", zcm::rotate(m, an, ax), glm::rotate(g(m), an, g(ax)), 4 * M, 16, in);
    zcm::vec3 eye = mv<zcm::vec3>(r, s), at = mv<zcm::vec3>(r, s + 1), up = nz(r, s);
    DV d; d.n = 3; DV u; u.n = 3; { float a[3], b[3], c[3]; get(eye, a); get(at, b); get(up, c); for (int i = 0; i < 3; ++i) { d.v[i] = double(b[i]) - a[i]; u.v[i] = c[i]; } }
    double dl = dlen(d), ul = dlen(u);
    if (dl > 0.1 * (1 + amax(eye) / 10)) {
        double sn = dlen(dcross(d, u)) / (dl * ul);
        if (sn > 0.1) {
            auto in2 = [&] { return str(eye) + " " + str(at) + " " + str(up); };
            ctx().group("lookAt"); ctx().eval(hash_all(eye, at, up));
            double k = (1 + amax(eye)) * (1 + (amax(eye) + amax(at)) / dl);
            agree("lookAtRH", zcm::lookAtRH(eye, at, up), glm::lookAtRH(g(eye), g(at), g(up)), 3 * k / sn, 32, in2);
            agree("lookAtLH", zcm::lookAtLH(eye, at, up), glm::lookAtLH(g(eye), g(at), g(up)), 3 * k / sn, 32, in2);
            float dd[3] = {float(d.v[0] / dl), float(d.v[1] / dl), float(d.v[2] / dl)}; zcm::vec3 dir = mk<zcm::vec3>(dd);
            // the conversion to a quaternion takes another branch where two candidates tie: compare as rotations
            auto z = zcm::quatLookAtRH(dir, up); auto w = glm::quatLookAtRH(g(dir), g(up)); auto z2 = zcm::quatLookAtLH(dir, up); auto w2 = glm::quatLookAtLH(g(dir), g(up));
            if (glm::dot(g(z), w) < 0) w = -w;
            if (glm::dot(g(z2), w2) < 0) w2 = -w2;
            agree("quatLookAtRH", z, w, 1 / sn, 32, in2); agree("quatLookAtLH", z2, w2, 1 / sn, 32, in2);
        }
    }
    float l = mf(r, s), rt = l + float(r.sgn() * r.uni(0.5, 20)), bo = mf(r, s + 1), tp = bo + float(r.sgn() * r.uni(0.5, 20)), ne = float(r.logu(0.01, 10)), fa = ne + float(r.logu(1, 1000));
    auto in3 = [&] { return fs(l) + " " + fs(rt) + " " + fs(bo) + " " + fs(tp) + " " + fs(ne) + " " + fs(fa); };
    ctx().group("ortho"); ctx().eval(hash_all(l, rt, bo, tp, ne, fa));
    double o = 1 + (std::fabs(l) + std::fabs(rt)) / std::fabs(double(rt) - l) + (std::fabs(bo) + std::fabs(tp)) / std::fabs(double(tp) - bo) + (ne + fa) / (double(fa) - ne);
#define ORT(f) agree(#f, zcm::f(l, rt, bo, tp, ne, fa), glm::f(l, rt, bo, tp, ne, fa), o, 16, in3);
    ORT(orthoRH_NO) ORT(orthoRH_ZO) ORT(orthoLH_NO) ORT(orthoLH_ZO)
    agree("ortho(4)", zcm::ortho(l, rt, bo, tp), glm::ortho(l, rt, bo, tp), o, 16, in3);
    float fov = float(r.uni(0.1, 3)), asp = float(r.logu(0.1, 10));
    auto in4 = [&] { return fs(fov) + " " + fs(asp) + " " + fs(ne) + " " + fs(fa); };
    ctx().group("perspective"); ctx().eval(hash_all(fov, asp, ne, fa));
    double pk = 1 + 4 / std::fabs(std::cos(fov / 2.0)) + 2 * double(fa) * ne / (double(fa) - ne) * (1 + (ne + fa) / (double(fa) - ne));
#define PER(f) agree(#f, zcm::f(fov, asp, ne, fa), glm::f(fov, asp, ne, fa), pk, 16, in4);
    PER(perspectiveRH_NO) PER(perspectiveRH_ZO) PER(perspectiveLH_NO) PER(perspectiveLH_ZO)
}
static zcm::quat uq(Rng &r) { double q[4], n = 0; do { n = 0; for (double &x : q) { x = r.gauss(); n += x * x; } } while (n < 1e-3); float f[4]; for (int i = 0; i < 4; ++i) f[i] = float(q[i] / std::sqrt(n)); return mk<zcm::quat>(f); }
static void quats(Rng &r, int s) {
    using namespace zcm;
    quat a = uq(r), b = r.below(4) ? uq(r) : a, p = mv<quat>(r, s), q = mv<quat>(r, s + 1); float t = float(r.u01()), f; do f = mf(r, s); while (std::fabs(f) < 1e-3f);
    vec3 v = mv<vec3>(r, s), ax = nz(r, s); vec4 v4 = mv<vec4>(r, s);
    auto in = [&] { return str(a) + " " + str(b) + " " + str(p) + " " + str(q) + " " + fs(t) + " " + fs(f) + " " + str(v); };
    double P = amax(p), Q = amax(q), V = amax(v);
    ctx().group("quaternion"); ctx().eval(hash_all(a, b, p, q, t, f, v));
    agree("quat + quat", p + q, g(p) + g(q), 0, 2, in); agree("quat - quat", p - q, g(p) - g(q), 0, 2, in); agree("-quat", -p, -g(p), 0, 0, in);
    agree("quat * quat", p * q, g(p) * g(q), 4 * P * Q, 4, in); agree("quat * float", p * f, g(p) * f, 0, 2, in); agree("float * quat", f * p, f * g(p), 0, 2, in); agree("quat / float", p / f, g(p) / f, 0, 2, in);
    agree("quat * vec3", a * v, g(a) * g(v), 8 * V, 8, in); agree("vec3 * quat", v * a, g(v) * g(a), 8 * V, 16, in);
    { quat x = p; x *= q; auto y = g(p); y *= g(q); agree("quat *=", x, y, 4 * P * Q, 4, in); }
    agree("quat ==", bool(p == q), g(p) == g(q), 0, 0, in);
    agree("dot(quat)", dot(p, q), glm::dot(g(p), g(q)), 4 * P * Q, 4, in); agree("length(quat)", length(p), glm::length(g(p)), 0, 8, in);
    agree("conjugate", conjugate(p), glm::conjugate(g(p)), 0, 0, in);
    if (P > 0.01) { agree("inverse(quat)", inverse(p), glm::inverse(g(p)), 0, 16, in); agree("normalize(quat)", normalize(p), glm::normalize(g(p)), 0, 8, in); }
    agree("mat3_cast", mat3_cast(a), glm::mat3_cast(g(a)), 2, 8, in); agree("mat4_cast", mat4_cast(a), glm::mat4_cast(g(a)), 2, 8, in);
    { mat3 m = mat3_cast(a); auto z = quat_cast(m); auto w = glm::quat_cast(g(m)); if (glm::dot(g(z), w) < 0) w = -w; agree("quat_cast(mat3)", z, w, 1, 16, in);
      mat4 m4 = mat4_cast(a); auto z4 = quat_cast(m4); auto w4 = glm::quat_cast(g(m4)); if (glm::dot(g(z4), w4) < 0) w4 = -w4; agree("quat_cast(mat4)", z4, w4, 1, 16, in); }
    agree("lerp", lerp(p, q, t), glm::lerp(g(p), g(q), t), P + Q, 8, in);
    { double d = std::fabs(double(glm::dot(g(a), g(b)))); if (d < 0.9999 && d > 1e-4) agree("slerp", slerp(a, b, t), glm::slerp(g(a), g(b), t), 1, 64 / std::sqrt(1 - d * d), in); }
    { float l[3]; get(ax, l); double n = std::sqrt(double(l[0]) * l[0] + double(l[1]) * l[1] + double(l[2]) * l[2]); float ul[3] = {float(l[0] / n), float(l[1] / n), float(l[2] / n)}; vec3 un = mk<vec3>(ul); float an = float(r.uni(-7, 7));
      agree("angleAxis", angleAxis(an, un), glm::angleAxis(an, g(un)), 1, 8, in); agree("rotate(quat)", rotate(a, an, un), glm::rotate(g(a), an, g(un)), 2, 16, in); }
    { float w[4]; get(a, w); double cw = std::fabs(double(w[3])); if (cw < 0.87 || (w[3] > 0 && cw < 0.99)) agree("angle", angle(a), glm::angle(g(a)), 6.3, 16 / std::sqrt(1 - cw * cw), in); if (cw < 0.99) agree("axis", axis(a), glm::axis(g(a)), 1, 16 / (1 - cw * cw), in);
      double x = w[0], y = w[1], z = w[2], ww = w[3], lock = std::fabs(2 * (x * z - ww * y));
      if (lock < 0.99) {   // away from the gimbal lock, and from the branch cut of the arc tangents
          double k = 32 / (1 - lock);
          auto near2 = [&](const char *n, float u, float o) { double d = std::fabs(double(u) - o); d = std::fmin(d, std::fabs(d - 6.283185307179586)); if (!(d <= k * EPS * 4)) ctx().fail(n, std::string(n) + " of " + str(a) + ": this library " + fs(u) + ", GLM " + fs(o)); };
          near2("pitch", pitch(a), glm::pitch(g(a))); near2("yaw", yaw(a), glm::yaw(g(a))); near2("roll", roll(a), glm::roll(g(a)));
          vec3 e = eulerAngles(a); glm::vec3 h = glm::eulerAngles(g(a)); float ee[3]; get(e, ee); near2("eulerAngles.x", ee[0], h.x); near2("eulerAngles.y", ee[1], h.y); near2("eulerAngles.z", ee[2], h.z);
      } }
    { bvec4 e = equal(p, q); (void)e; agree("equal(quat)", equal(a, b), glm::equal(g(a), g(b)), 0, 0, in); agree("notEqual(quat)", notEqual(a, b), glm::notEqual(g(a), g(b)), 0, 0, in); }
}
void run_mat(Ctx &c, Rng &r) {
    u64 N = c.n(6000);
    for (u64 i = 0; i < N; ++i) { STEP(r)
        int s = int(i);
        mats<zcm::mat2, zcm::vec2>(r, s); mats<zcm::mat3, zcm::vec3>(r, s); mats<zcm::mat4, zcm::vec4>(r, s);
        builders(r, s); quats(r, s);
    }
}
