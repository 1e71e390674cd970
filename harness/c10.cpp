// Scalar exponential and trigonometric functions against double-precision references.
#include "common.h"
#include <zcm/exponential.hpp>
#include <zcm/angle_and_trigonometry.hpp>
static const double K = 4;  // 4 * 2^-23 relative: a few units in the last place
struct U { const char *name; float (*f)(float); double (*ref)(double); double lo, hi; };
static double r_is(double x) { return 1 / std::sqrt(x); }
static const U kU[] = {
    {"exp", [](float x) { return zcm::exp(x); }, [](double x) { return std::exp(x); }, -110, 95}, {"exp2", [](float x) { return zcm::exp2(x); }, [](double x) { return std::exp2(x); }, -155, 135},
    {"inversesqrt", [](float x) { return zcm::inversesqrt(x); }, r_is, 0, 1e4}, {"log", [](float x) { return zcm::log(x); }, [](double x) { return std::log(x); }, 0, 10}, {"log2", [](float x) { return zcm::log2(x); }, [](double x) { return std::log2(x); }, 0, 10},
    {"sqrt", [](float x) { return zcm::sqrt(x); }, [](double x) { return std::sqrt(x); }, 0, 1e6}, {"cbrt", [](float x) { return zcm::cbrt(x); }, [](double x) { return std::cbrt(x); }, -1e4, 1e4},
    {"cos", [](float x) { return zcm::cos(x); }, [](double x) { return std::cos(x); }, -12, 12}, {"sin", [](float x) { return zcm::sin(x); }, [](double x) { return std::sin(x); }, -12, 12}, {"tan", [](float x) { return zcm::tan(x); }, [](double x) { return std::tan(x); }, -12, 12},
    {"acos", [](float x) { return zcm::acos(x); }, [](double x) { return std::acos(x); }, -1.01, 1.01}, {"asin", [](float x) { return zcm::asin(x); }, [](double x) { return std::asin(x); }, -1.01, 1.01}, {"atan", [](float x) { return zcm::atan(x); }, [](double x) { return std::atan(x); }, -20, 20},
    {"acosh", [](float x) { return zcm::acosh(x); }, [](double x) { return std::acosh(x); }, 0.9, 20}, {"asinh", [](float x) { return zcm::asinh(x); }, [](double x) { return std::asinh(x); }, -20, 20}, {"atanh", [](float x) { return zcm::atanh(x); }, [](double x) { return std::atanh(x); }, -1.01, 1.01},
    {"cosh", [](float x) { return zcm::cosh(x); }, [](double x) { return std::cosh(x); }, -95, 95}, {"sinh", [](float x) { return zcm::sinh(x); }, [](double x) { return std::sinh(x); }, -95, 95}, {"tanh", [](float x) { return zcm::tanh(x); }, [](double x) { return std::tanh(x); }, -12, 12},
};
static inline void one(Ctx &c, const U &u, float x) {
    c.eval(fbits(x));
    if (x == 0 && u.ref == r_is) { float g = u.f(x); if (!isinff_(g)) c.fail(u.name, "zero gives " + fs(g)); return; }
    float g = u.f(x); double e = u.ref(x);
    if (!near_(g, e, std::fabs(e), K)) c.fail(std::isnan(e) ? std::string(u.name) + " outside its domain" : std::string(u.name), fs(x) + " gives " + fs(g) + " expected " + ds(e));
}
void run(Ctx &c, Rng &r) {
    u64 step = c.tier == "thorough" ? 512 : 65521, k = r.below(unsigned(step));
    for (const U &u : kU) {
        c.group(u.name);
        for (u64 b = k; b < (1ull << 32); b += step) one(c, u, bitsf(uint32_t(b)));
        for (u64 i = 0, n = c.n(50000); i < n; ++i) { STEPX(r, &u)
            float x;
            switch (r.below(6)) {
            case 0: x = f_any(r); break;
            case 1: { static const double a[] = {0, 1, -1, 0.5, -0.5, 1.5707963267948966, 3.141592653589793, 0.7853981633974483, -1.5707963267948966, 6.283185307179586, 88.7228, -87.336, -103.97, 128, -126, -149, 4.712388980384690}; float b = float(a[r.below(sizeof a / sizeof *a)]); x = bitsf(fbits(b) + (b == 0 ? r.below(4) : int(r.below(9)) - 4)); break; }
            case 2: x = float(r.sgn() * r.logu(1e-12, 1)); break;
            case 3: x = float(1 + r.sgn() * r.logu(1e-7, 1)) * (r.coin() ? 1 : -1); break;
            default: x = float(r.uni(u.lo, u.hi));
            }
            one(c, u, x);
        }
        float sp[] = {0.0f, -0.0f, INFINITY, -INFINITY, NAN, 1.0f, -1.0f, FLT_MAX, -FLT_MAX, FLT_MIN, 1.4e-45f, -1.4e-45f};
        for (float x : sp) one(c, u, x);
    }
    c.group("pow");
    for (u64 i = 0, n = c.n(120000); i < n; ++i) { STEP(r)
        float x, y;
        switch (r.below(6)) {
        case 0: x = f_any(r); y = f_any(r); break;
        case 1: x = float(r.logu(1e-3, 1e3)); y = float(r.uni(-13, 13)); break;
        case 2: x = float(int(r.below(21)) - 10); y = float(int(r.below(21)) - 10); break;
        case 3: x = -float(r.logu(1e-2, 1e2)); y = float(int(r.below(41)) - 20) * 0.5f; break;
        case 4: x = float(1 + r.sgn() * r.logu(1e-6, 1e-1)); y = float(r.sgn() * r.logu(1, 1e6)); break;
        default: { static const float s[] = {0.0f, -0.0f, 1.0f, -1.0f, INFINITY, -INFINITY, 0.5f, 2.0f, 3.0f, -2.0f}; x = s[r.below(10)]; y = s[r.below(10)]; }
        }
        c.eval(hall(1, x, y));
        if (isnanf_(x) || isnanf_(y)) { float g = zcm::pow(x, y); if (!(isnanf_(g) || x == 1 || y == 0)) c.fail("pow of NaN", fs(x) + ", " + fs(y) + " gives " + fs(g)); continue; }
        if (x == 0 && fbits(x)) x = r.coin() ? 0.0f : x;
        double e = std::pow(double(x), double(y)); float g = zcm::pow(x, y);
        if (!near_(g, e, std::fabs(e), K)) c.fail(std::isnan(e) ? "pow outside its domain" : "pow", fs(x) + ", " + fs(y) + " gives " + fs(g) + " expected " + ds(e));
    }
    c.group("atan2");
    for (u64 i = 0, n = c.n(120000); i < n; ++i) { STEP(r)
        float y, x;
        switch (r.below(4)) {
        case 0: y = f_any(r); x = f_any(r); break;
        case 1: { double a = r.uni(-3.15, 3.15), l = r.logu(1e-6, 1e6); y = float(l * std::sin(a)); x = float(l * std::cos(a)); break; }
        case 2: y = float(int(r.below(5)) - 2); x = float(int(r.below(5)) - 2); break;
        default: { static const float s[] = {0.0f, -0.0f, 1.0f, -1.0f, INFINITY, -INFINITY, 1e-40f, -1e-40f, FLT_MAX}; y = s[r.below(9)]; x = s[r.below(9)]; }
        }
        if (x == 0 && y == 0) continue;
        c.eval(hall(2, y, x));
        double e = std::atan2(double(y), double(x)); float g = zcm::atan(y, x);
        if (!near_(g, e, std::fabs(e), K)) c.fail("atan of two arguments", fs(y) + ", " + fs(x) + " gives " + fs(g) + " expected " + ds(e));
    }
    c.sample("sin over the bit patterns congruent to " + std::to_string(k) + " mod " + std::to_string(step)); c.sample("pow(-8, 3), pow(-8, 0.5) -> NaN, atan(0, -1) -> pi");
}
