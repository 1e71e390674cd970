// Rotation references in double precision.
#pragma once
#include "mat.h"
struct DQ { double w, x, y, z; };
inline DQ dq(const zcm::quat &q) { float a[4]; get(q, a); return DQ{a[3], a[0], a[1], a[2]}; }
inline zcm::quat mkq(const DQ &q) { float a[4] = {float(q.x), float(q.y), float(q.z), float(q.w)}; return mk<zcm::quat>(a); }
inline DQ qmul(const DQ &a, const DQ &b) { return DQ{a.w * b.w - a.x * b.x - a.y * b.y - a.z * b.z, a.w * b.x + a.x * b.w + a.y * b.z - a.z * b.y, a.w * b.y - a.x * b.z + a.y * b.w + a.z * b.x, a.w * b.z + a.x * b.y - a.y * b.x + a.z * b.w}; }
inline DQ qconj(const DQ &a) { return DQ{a.w, -a.x, -a.y, -a.z}; }
inline double qdot(const DQ &a, const DQ &b) { return a.w * b.w + a.x * b.x + a.y * b.y + a.z * b.z; }
inline DQ qscale(const DQ &a, double s) { return DQ{a.w * s, a.x * s, a.y * s, a.z * s}; }
inline DQ qadd(const DQ &a, const DQ &b) { return DQ{a.w + b.w, a.x + b.x, a.y + b.y, a.z + b.z}; }
inline double qlen(const DQ &a) { return std::sqrt(qdot(a, a)); }
inline DQ qnorm(const DQ &a) { return qscale(a, 1 / qlen(a)); }
inline double qmaxdiff(const DQ &a, const DQ &b) { return std::fmax(std::fmax(std::fabs(a.w - b.w), std::fabs(a.x - b.x)), std::fmax(std::fabs(a.y - b.y), std::fabs(a.z - b.z))); }
inline DV qrot(const DQ &q, const DV &v) { DQ r = qmul(qmul(q, DQ{0, v.v[0], v.v[1], v.v[2]}), qconj(q)); return d3(r.x, r.y, r.z); }
inline DQ qaxis(double angle, const DV &axis) { double s = std::sin(angle / 2); return DQ{std::cos(angle / 2), axis.v[0] * s, axis.v[1] * s, axis.v[2] * s}; }
// distance between the rotations two (near-)unit quaternions stand for: zero when equal or opposite
inline double qrotdiff(const DQ &a, const DQ &b) { return std::fmin(qmaxdiff(a, b), qmaxdiff(a, qscale(b, -1))); }
inline std::string str(const DQ &q) { return "ref(w " + ds(q.w) + ", " + ds(q.x) + ", " + ds(q.y) + ", " + ds(q.z) + ")"; }
inline DM qmat(const DQ &q, int n) {
    DM d = dident(n);
    for (int c = 0; c < 3; ++c) { DV e = d3(c == 0, c == 1, c == 2), v = qrot(q, e); for (int r = 0; r < 3; ++r) d.m[c][r] = v.v[r]; }
    return d;
}
inline const double &PI_() { static const double p = 3.14159265358979323846; return p; }
// a unit quaternion in double precision: general, near identity, near half turns, axis-aligned
inline DQ q_gen(Rng &r) {
    float u[4];
    switch (r.below(8)) {
    case 0: { DV a = d3(r.gauss(), r.gauss(), r.gauss()); return qaxis(r.logu(1e-6, 1e-1) * r.sgn(), dnorm(a)); }
    case 1: { DV a = d3(r.gauss(), r.gauss(), r.gauss()); return qaxis(PI_() + r.sgn() * r.logu(1e-7, 1e-1), dnorm(a)); }
    case 2: { int k = r.below(3); return qaxis((int(r.below(17)) - 8) * PI_() / 4, d3(k == 0, k == 1, k == 2)); }
    case 3: { int k = r.below(3); return qaxis(r.uni(-2 * PI_(), 2 * PI_()), d3(k == 0, k == 1, k == 2)); }
    default: unit_gen(r, u, 4); return qnorm(DQ{u[0], u[1], u[2], u[3]});
    }
}
inline float angle_gen(Rng &r) {
    switch (r.below(9)) {
    case 6: return float(int(r.below(25)) - 12);
    case 7: { static const float s[] = {0.0f, -0.0f, 0.5f, -0.5f, 2.0f, -2.0f, 1.0f, -1.0f, 0.25f, 4.0f, 1.5f}; return r.coin() ? s[r.below(11)] : std::ldexp(float(r.sgn()), int(r.below(27)) - 20); }
    case 8: return r.coin() ? float(r.uni(-1000, 1000)) : float(r.sgn() * r.logu(1e-12, 1e-3));
    case 0: return float((int(r.below(33)) - 16) * PI_() / 8);
    case 1: return float(r.sgn() * r.logu(1e-6, 1e-1));
    case 2: return float((int(r.below(9)) - 4) * PI_() / 2 + r.sgn() * r.logu(1e-7, 1e-2));
    case 3: return float(r.uni(-100, 100));
    default: return float(r.uni(-2 * PI_(), 2 * PI_()));
    }
}
