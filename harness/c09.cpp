// Scalar common functions against their shading-language definitions, evaluated in exact or double arithmetic.
#include "common.h"
#include <zcm/common.hpp>

static bool eqv(float g, float e) { return (g == e) || (isnanf_(g) && isnanf_(e)); }  // sign of zero free
static void ck(const char *f, float g, double e, const std::string &in) { if (!eqv(g, float(e))) ctx().fail(f, in + " gives " + fs(g) + " expected " + ds(e)); }
static double exact_round(double x) { if (!std::isfinite(x)) return x; double t = std::trunc(x), d = std::fabs(x - t); return d >= 0.5 ? t + (x < 0 ? -1 : 1) : t; }
static double exact_even(double x) { if (!std::isfinite(x)) return x; double f = std::floor(x), d = x - f; if (d < 0.5) return f; if (d > 0.5) return f + 1; return std::fmod(f, 2.0) == 0 ? f : f + 1; }
static void unary(Ctx &c, float x) {
    double d = x; std::string s; u64 h = fbits(x);
#define U(NAME, EXPR, REF) { c.group(NAME); c.eval(h); float g = (EXPR); if (!eqv(g, float(REF))) ck(NAME, g, (REF), fs(x)); }
    U("abs", zcm::abs(x), std::fabs(d))
    if (x == 0 && fbits(zcm::abs(x))) c.fail("abs of negative zero", fs(x) + " gives a negative zero");
    U("floor", zcm::floor(x), std::floor(d)) U("ceil", zcm::ceil(x), std::ceil(d)) U("trunc", zcm::trunc(x), std::trunc(d))
    U("round", zcm::round(x), exact_round(d)) U("roundEven", zcm::roundEven(x), exact_even(d))
    c.group("fract"); c.eval(h);
    { float g = zcm::fract(x); double e = std::isfinite(d) ? d - std::floor(d) : NAN; if (!(std::isnan(e) ? isnanf_(g) : g >= 0 && std::fabs(g - e) <= EPS * 0.5)) c.fail("fract", fs(x) + " gives " + fs(g) + " expected " + ds(e)); }
    c.group("isinf"); c.eval(h); if (zcm::isinf(x) != isinff_(x)) c.fail("isinf", fs(x));
    c.group("isnan"); c.eval(h); if (zcm::isnan(x) != isnanf_(x)) c.fail("isnan", fs(x));
    if (!isnanf_(x)) { U("sign", zcm::sign(x), x > 0 ? 1 : x < 0 ? -1 : 0) U("signNotZero", zcm::signNotZero(x), x >= 0 ? 1 : -1) }
}
static void binary(Ctx &c, float x, float y) {
    auto in = [&] { return fs(x) + ", " + fs(y); };
    u64 h = c.mix(fbits(x), fbits(y));
#define B(NAME, EXPR, REF) { c.group(NAME); c.eval(h); float g = (EXPR); if (!eqv(g, float(REF))) ck(NAME, g, (REF), in()); }
    B("min", zcm::min(x, y), y < x ? y : x) B("max", zcm::max(x, y), x < y ? y : x) B("step", zcm::step(x, y), y < x ? 0 : 1)
    for (int t = 0; t < 2; ++t) B("mix flag", zcm::mix(x, y, t == 1), t ? y : x)
}
static void run_mod(Ctx &c, Rng &r, u64 n) {
    c.group("mod");
    for (u64 i = 0; i < n; ++i) { STEP(r)
        float x, y; bool exact = false;
        switch (r.below(4)) {
        case 0: { float q = float(1u << r.below(4)); x = (int(r.below(4001)) - 2000) / q; y = (int(r.below(201)) - 100) / q; exact = true; break; }
        case 1: y = float(r.sgn() * r.logu(1e-5, 1e5)); x = float(y * r.uni(-50, 50)); break;
        case 2: y = float(r.sgn() * r.logu(1e-30, 1e30)); x = float(y * r.sgn() * r.logu(1e-6, 1e5)); break;
        default: x = f_mod(r); y = f_mod(r);
        }
        if (y == 0) continue;
        c.eval(hall(1, x, y));
        float g = zcm::mod(x, y);
        double m = std::fmod(double(x), double(y)); if (m != 0 && (m < 0) != (y < 0)) m += y;
        double tol = 4 * EPS * (std::fabs(double(x)) + std::fabs(double(y))) + 1e-44, d = std::fabs(g - m);
        // the rounded quotient may fall on the other side of an integer only when the exact one is next to it
        bool edge = std::fabs(m) <= tol || std::fabs(m - y) <= tol;
        bool ok = isfin_(g) && (d <= tol || (edge && std::fabs(d - std::fabs(double(y))) <= tol));
        if (exact && g != float(m)) ok = false;
        if (!ok) c.fail("mod", fs(x) + ", " + fs(y) + " gives " + fs(g) + " expected " + ds(m));
    }
    c.group("mod special");
    for (u64 i = 0; i < n / 8; ++i) { STEP(r)  // an infinite or NaN dividend, a zero or NaN divisor: x - y * floor(x / y) is NaN
        float x = f_mod(r), y = f_mod(r);
        switch (r.below(4)) { case 0: x = r.coin() ? INFINITY : -INFINITY; break; case 1: x = NAN; break; case 2: y = NAN; break; default: y = r.coin() ? 0.0f : -0.0f; }
        c.eval(hall(2, x, y)); float g = zcm::mod(x, y);
        if (!isnanf_(g)) c.fail("mod special", fs(x) + ", " + fs(y) + " gives " + fs(g) + " expected NaN");
    }
}
void run(Ctx &c, Rng &r) {
    // a residue class of all 2^32 bit patterns chosen by the seed, then structured values
    u64 step = c.tier == "thorough" ? 64 : 32749, k = r.below(unsigned(step));
    for (u64 u = k; u < (1ull << 32); u += step) unary(c, bitsf(uint32_t(u)));
    for (u64 i = 0, n = c.n(60000); i < n; ++i) { STEP(r)
        float x;
        switch (r.below(5)) {
        case 0: x = float(int(r.below(2000001)) - 1000000) * 0.5f; break;
        case 1: { float b = float(int(r.below(400)) - 200) * 0.5f; x = bitsf(fbits(b) + (b == 0 ? 0 : int(r.below(5)) - 2)); break; }
        case 2: { uint32_t e = 127 + r.below(26); x = bitsf((uint32_t(r.next() & 0x80000000u)) | (e << 23) | (uint32_t(r.next() >> 41) & (r.coin() ? 0x7fffffu : 0x700007u))); break; }
        default: x = f_any(r);
        }
        unary(c, x);
    }
    for (u64 i = 0, n = c.n(150000); i < n; ++i) { STEP(r) float x = f_any(r), y = r.chance(1, 5) ? x : f_any(r); if (r.chance(1, 8)) y = -x; binary(c, x, y); }
    run_mod(c, r, c.n(150000));
    for (u64 i = 0, n = c.n(150000); i < n; ++i) { STEP(r)
        float x = f_any(r), lo = f_any(r), hi = f_any(r);
        if (r.chance(1, 4)) { float v[3] = {x, lo, hi}; x = v[r.below(3)]; }
        if (!isnanf_(lo) && !isnanf_(hi)) {
            if (lo > hi) std::swap(lo, hi);
            c.group("clamp"); c.eval(hall(3, x, lo, hi));
            float e = isnanf_(x) ? x : x < lo ? lo : x > hi ? hi : x;
            ck("clamp", zcm::clamp(x, lo, hi), e, fs(x) + ", " + fs(lo) + ", " + fs(hi));
        }
        { float a = f_any(r), b = f_any(r), d = f_any(r); if (r.coin()) { a = f_mod(r); b = f_mod(r); d = float(-double(a) * b * (1 + r.gauss() * 1e-7)); }
          c.group("fma"); c.eval(hall(4, a, b, d)); ck("fma", zcm::fma(a, b, d), ::fmaf(a, b, d), fs(a) + ", " + fs(b) + ", " + fs(d)); }
        { float e0 = f_mod(r), e1 = f_mod(r); if (e0 > e1) std::swap(e0, e1);
          if (e0 < e1) {
              float v = r.chance(1, 3) ? f_mod(r) : r.chance(1, 6) ? (r.coin() ? e0 : e1) : float(e0 + (double(e1) - e0) * r.uni(-0.2, 1.2));
              c.group("smoothstep"); c.eval(hall(5, e0, e1, v));
              double t = (double(v) - e0) / (double(e1) - e0); t = t < 0 ? 0 : t > 1 ? 1 : t; double e = t * t * (3 - 2 * t); float g = zcm::smoothstep(e0, e1, v);
              if (!(std::fabs(g - e) <= 8 * EPS)) c.fail("smoothstep", fs(e0) + ", " + fs(e1) + ", " + fs(v) + " gives " + fs(g) + " expected " + ds(e));
              if (v <= e0 && g != 0) c.fail("smoothstep below the first edge", fs(e0) + ", " + fs(e1) + ", " + fs(v) + " gives " + fs(g));
              if (v >= e1 && g != 1) c.fail("smoothstep above the second edge", fs(e0) + ", " + fs(e1) + ", " + fs(v) + " gives " + fs(g));
          } }
        { float a = f_mod(r), b = f_mod(r), t = r.chance(1, 4) ? f_mod(r) : r.chance(1, 4) ? float(r.below(2)) : float(r.uni(0, 1));
          c.group("mix"); c.eval(hall(6, a, b, t));
          double e = a * (1.0 - t) + double(b) * t, mag = (std::fabs(double(a)) + std::fabs(double(b))) * (1 + std::fabs(double(t)));
          float g = zcm::mix(a, b, t); if (!near_(g, e, mag, 4)) c.fail("mix", fs(a) + ", " + fs(b) + ", " + fs(t) + " gives " + fs(g) + " expected " + ds(e)); }
        { int a = i_any(r), b = i_any(r), d = i_any(r); if (r.chance(1, 5)) b = a;
          c.group("integer min"); c.eval(hall(7, a, b)); if (zcm::min(a, b) != (a < b ? a : b)) c.fail("integer min", std::to_string(a) + ", " + std::to_string(b));
          c.group("integer max"); c.eval(hall(7, a, b)); if (zcm::max(a, b) != (a > b ? a : b)) c.fail("integer max", std::to_string(a) + ", " + std::to_string(b));
          c.group("integer sign"); c.eval(hall(7, a)); if (zcm::sign(a) != (a > 0) - (a < 0)) c.fail("integer sign", std::to_string(a));
          c.group("integer signNotZero"); c.eval(hall(7, a)); if (zcm::signNotZero(a) != (a < 0 ? -1 : 1)) c.fail("integer signNotZero", std::to_string(a));
          if (a != INT32_MIN) { c.group("integer abs"); c.eval(hall(7, a)); if (zcm::abs(a) != (a < 0 ? -a : a)) c.fail("integer abs", std::to_string(a)); }
          int lo = b < d ? b : d, hi = b < d ? d : b; c.group("integer clamp"); c.eval(hall(7, a, lo, hi)); if (zcm::clamp(a, lo, hi) != (a < lo ? lo : a > hi ? hi : a)) c.fail("integer clamp", std::to_string(a) + ", " + std::to_string(lo) + ", " + std::to_string(hi)); }
    }
    c.sample("roundEven(2.5) = 2, round(-2.5) = -3, floor of the 2^32 bit patterns congruent to " + std::to_string(k) + " mod " + std::to_string(step));
}
