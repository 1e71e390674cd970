// sRGB conversions.
#include "common.h"
#include <zcm/color_space.hpp>
using namespace zcm;
static double to_lin(double s, double g) { return s <= 0.04045 ? s / 12.92 : std::pow((s + 0.055) / 1.055, g); }
static double to_srgb(double l, double g) { return l < 0.0031308 ? l * 12.92 : 1.055 * std::pow(l, 1 / g) - 0.055; }
static bool okl(float got, double s, double g) { auto one = [&](double ref) { return near_(got, ref, ref, 8 + 6 * g); }; return one(to_lin(s, g)) || (std::fabs(s - 0.04045) < 4 * EPS * 0.04045 && (one(s / 12.92) || one(std::pow((s + 0.055) / 1.055, g)))); }
static bool oks(float got, double l, double g) { double p = 1.055 * std::pow(l, 1 / g) - 0.055, m = p + 0.055; auto pw = [&] { return near_(got, p, m, 8 + 12 / g); }; if (std::fabs(l - 0.0031308) < 4 * EPS * 0.0031308) return pw() || near_(got, l * 12.92, l * 12.92, 4); return l < 0.0031308 ? near_(got, l * 12.92, l * 12.92, 4) : pw(); }
void run(Ctx &c, Rng &r) {
    u64 n = c.n(120000);
    auto ch = [&]() -> float { switch (r.below(9)) { case 0: return float(r.below(256)) / 255.0f; case 1: return r.coin() ? 0.0f : 1.0f; case 7: return std::ldexp(1.0f, -int(r.below(24))); case 8: return r.coin() ? 0.75f : float(r.below(11)) / 10.0f; case 2: return float(r.coin() ? r.logu(1e-7, 1) : r.chance(1, 4) ? r.logu(1e-30, 1e-7) : r.chance(1, 4) ? -0.0 : r.logu(1e-7, 1e-3)); case 3: return float(0.0031308 * (1 + r.gauss() * r.logu(1e-7, 1e-1))); case 4: return float(0.04045 * (1 + r.gauss() * r.logu(1e-7, 1e-1))); default: return float(r.u01()); } };
    for (u64 it = 0; it < n; ++it) { STEP(r)
        float a[4] = {ch(), ch(), ch(), f_any(r)}; if (r.chance(1, 5)) { a[1] = a[0]; if (r.coin()) a[2] = a[0]; } for (int i = 0; i < 3; ++i) if (!(a[i] <= 1)) a[i] = 1;
        float g = r.chance(1, 4) ? 2.4f : r.chance(1, 4) ? 2.2f : r.chance(1, 8) ? 1.0f : r.chance(1, 6) ? std::ldexp(1.0f, int(r.below(5)) - 2) : r.chance(1, 6) ? float(1 + r.below(8)) : float(r.logu(0.25, 8)); vec3 v3 = mk<vec3>(a); vec4 v4 = mk<vec4>(a); float p[4], q[4];
        auto alpha = [&](const char *k) { if (!same(q[3], a[3])) c.fail(std::string(k) + ": alpha changed", sall(v4, g) + " gives alpha " + fs(q[3])); };
        auto agree = [&](const char *k) { for (int i = 0; i < 3; ++i) if (!same(p[i], q[i])) { c.fail(std::string(k) + ": vec4 form differs from vec3 form", sall(v4, g)); return; } };
#define BOTH(NAME, E3, E4, COND) { vec3 x = E3; vec4 y = E4; get(x, p); get(y, q); c.group(NAME " vec3"); c.eval(hall(1, v3, g)); c.group(NAME " vec4"); c.eval(hall(1, v4, g)); for (int i = 0; i < 3; ++i) { float got = p[i]; if (!(COND)) { c.fail(NAME, sall(v3, g) + " gives " + str(x) + " channel " + std::to_string(i)); break; } } agree(NAME); alpha(NAME); }
        BOTH("sRGB to linear", convertSRGBToLinear(v3), convertSRGBToLinear(v4), okl(got, a[i], 2.4))
        BOTH("sRGB to linear with exponent", convertSRGBToLinear(v3, g), convertSRGBToLinear(v4, g), okl(got, a[i], g))
        BOTH("linear to sRGB with exponent", convertLinearToSRGB(v3, g), convertLinearToSRGB(v4, g), oks(got, a[i], g))
        BOTH("linear to sRGB default", convertLinearToSRGB(v3), convertLinearToSRGB(v4), std::fabs(got - to_srgb(a[i], 2.4)) <= (a[i] >= 0.002f ? std::fmin(0.04, 0.03 * to_srgb(a[i], 2.4)) : 0.04))
        { // there and back
          vec3 f = convertSRGBToLinear(convertLinearToSRGB(v3, g), g), b = convertLinearToSRGB(convertSRGBToLinear(v3, g), g); get(f, p); get(b, q); c.group("there and back"); c.eval(hall(2, v3, g)); bool std_ = g == 2.4f;
          for (int i = 0; i < 3; ++i) { double l = a[i], s = to_srgb(l, g); bool same_seg = (l > 0.0031309 && s > 0.040455) || (l < 0.0031307 && s < 0.040445);
            if (std_ || same_seg) { double cond = l > 0.003 ? g * (1 + 0.055 / std::fmax(s, 0.01)) : 1; if (!(std::fabs(p[i] - l) <= 24 * EPS * (1 + cond) * (l + 1e-30) * (1 + 8 / g) + (std_ ? 2e-7 * (std::fabs(l - 0.0031308) < 1e-5) : 0))) { c.fail("sRGB to linear does not undo linear to sRGB", sall(v3, g) + " gives " + str(f)); break; } }
            double s2 = a[i], l2 = to_lin(s2, g); bool same2 = (s2 > 0.040455 && l2 > 0.0031309) || (s2 < 0.040445 && l2 < 0.0031307);
            if (std_ || same2) { if (!(std::fabs(q[i] - s2) <= 24 * EPS * (s2 + 0.055) * (1 + 8 / g) * (1 + g) + (std_ ? 2e-6 * (std::fabs(s2 - 0.04045) < 1e-4) : 0))) { c.fail("linear to sRGB does not undo sRGB to linear", sall(v3, g) + " gives " + str(b)); break; } } } }
        { // clamping of the explicit form
          float o[3], cl[3]; for (int i = 0; i < 3; ++i) { o[i] = r.chance(1, 3) ? a[i] : r.chance(1, 8) ? float(r.sgn() * (r.coin() ? r.logu(1e6, 1e38) : INFINITY)) : r.chance(1, 6) ? float(int(r.below(9)) - 4) : r.chance(1, 6) ? float(-r.logu(1e-30, 1e-6)) : r.coin() ? float(-r.logu(1e-6, 1e6)) : float(1 + r.logu(1e-6, 1e6)); cl[i] = o[i] < 0 ? 0 : o[i] > 1 ? 1 : o[i]; } vec3 x = convertLinearToSRGB(mk<vec3>(o), g), y = convertLinearToSRGB(mk<vec3>(cl), g); c.group("clamping"); c.eval(hall(3, mk<vec3>(o), g)); float xa[3], ya[3]; get(x, xa); get(y, ya); for (int i = 0; i < 3; ++i) if (!(xa[i] == ya[i])) { c.fail("linear to sRGB does not clamp", str(mk<vec3>(o)) + " gives " + str(x)); break; }
          float o4[4] = {o[0], o[1], o[2], a[3]}; vec4 y4 = convertLinearToSRGB(mk<vec4>(o4), g); float q4[4]; get(y4, q4); c.group("clamping vec4"); c.eval(hall(3, mk<vec4>(o4), g)); for (int i = 0; i < 3; ++i) if (!(q4[i] == ya[i])) { c.fail("linear to sRGB of a vec4 does not clamp", str(mk<vec4>(o4)) + " gives " + str(y4)); break; } if (!same(q4[3], a[3])) c.fail("linear to sRGB clamps alpha", str(mk<vec4>(o4)) + " gives " + str(y4)); }
        { // order is kept by the default form
          float x = float(r.uni(0.002, 1)), y = r.coin() ? std::nextafter(x, 2.0f) : float(r.uni(0.002, 1)); if (y < x) std::swap(x, y); if (x < 0.002f) x = 0.002f; if (y > 1) y = 1; float t[3] = {x, y, x}; vec3 z = convertLinearToSRGB(mk<vec3>(t)); float w[3]; get(z, w); c.group("default is non-decreasing"); c.eval(hall(4, mk<vec3>(t))); if (!(w[1] >= w[0] - 4 * EPS)) c.fail("linear to sRGB default decreases", str(mk<vec3>(t)) + " gives " + str(z)); }
    }
    c.sample("channels around 0.0031308 and 0.04045"); c.sample("every multiple of 1/255"); c.sample("NaN alpha");
}
