// Constants and degree conversion.
#include "common.h"
#include <zcm/constants.hpp>
#include <zcm/angle_and_trigonometry.hpp>
using namespace zcm;
void run(Ctx &c, Rng &r) {
    const long double pi = 3.141592653589793238462643383279502884L, e = 2.718281828459045235360287471352662498L;
    struct { const char *n; float (*f)() noexcept; long double v; } k[] = {
        {"epsilon", epsilon, 1.0L / 8388608}, {"zero", zero, 0}, {"one", one, 1}, {"pi", zcm::pi, pi}, {"two_pi", two_pi, 2 * pi}, {"root_pi", root_pi, sqrtl(pi)}, {"half_pi", half_pi, pi / 2}, {"three_over_two_pi", three_over_two_pi, pi / 2 * 3}, {"quarter_pi", quarter_pi, pi / 4},
        {"one_over_pi", one_over_pi, 1 / pi}, {"one_over_two_pi", one_over_two_pi, 1 / (2 * pi)}, {"two_over_pi", two_over_pi, 2 / pi}, {"four_over_pi", four_over_pi, 4 / pi}, {"two_over_root_pi", two_over_root_pi, 2 / sqrtl(pi)}, {"one_over_root_two", one_over_root_two, 1 / sqrtl(2)}, {"root_half_pi", root_half_pi, sqrtl(pi / 2)},
        {"root_two_pi", root_two_pi, sqrtl(2 * pi)}, {"root_ln_four", root_ln_four, sqrtl(logl(4))}, {"e", zcm::e, e}, {"euler", euler, 0.577215664901532860606512090082402431L}, {"root_two", root_two, sqrtl(2)}, {"root_three", root_three, sqrtl(3)}, {"root_five", root_five, sqrtl(5)}, {"ln_two", ln_two, logl(2)}, {"ln_ten", ln_ten, logl(10)}, {"ln_ln_two", ln_ln_two, logl(logl(2))},
        {"third", third, 1.0L / 3}, {"two_thirds", two_thirds, 2.0L / 3}, {"golden_ratio", golden_ratio, (1 + sqrtl(5)) / 2}};
    for (auto &x : k) for (int rep = 0; rep < 3; ++rep) { float g = x.f(); c.group(x.n); c.eval(rep); if (!same(g, float(x.v))) { c.fail(std::string("constant ") + x.n, "got " + fs(g) + " expected " + fs(float(x.v))); break; } }
    u64 n = c.n(400000);
    for (u64 it = 0; it < n; ++it) { STEP(r)
        float a[4] = {f_any(r), it & 1 ? f_mod(r) : float(int(r.below(1441)) - 720), float(r.uni(-7, 7)), bitsf(uint32_t(r.next() >> 32))};
        if (it % 4 == 3) {   // close to multiples of 15 degrees, 1 degree and their radians
            const int m = int(r.below(97)) - 48, w = int(r.below(3)); const long double unit = w == 0 ? 15.0L : w == 1 ? 1.0L : 90.0L;
            a[0] = bitsf(fbits(float(m * unit)) + (m ? r.below(65) - 32u : 0)); a[2] = bitsf(fbits(float(m * unit * pi / 180)) + (m ? r.below(65) - 32u : 0));
            a[1] = float(m * unit) * float(1 + r.uni(-1, 1) * std::pow(10.0, -1.0 - 6 * r.uni(0, 1))); a[3] = float(m * unit * pi / 180) * float(1 + r.uni(-1, 1) * std::pow(10.0, -1.0 - 6 * r.uni(0, 1))); }
        vec4 v = mk<vec4>(a);
        for (int d = 0; d < 2; ++d) { long double f = d ? pi / 180 : 180 / pi; const char *nm = d ? "radians" : "degrees"; vec4 v4 = d ? radians(v) : degrees(v); float g4[4]; get(v4, g4); vec3 v3 = d ? radians(mk<vec3>(a)) : degrees(mk<vec3>(a)); float g3[3]; get(v3, g3); vec2 v2 = d ? radians(mk<vec2>(a)) : degrees(mk<vec2>(a)); float g2[2]; get(v2, g2);
            c.group(nm); c.eval(hall(d, v));
            for (int i = 0; i < 4; ++i) { float x = a[i], g = d ? radians(x) : degrees(x); auto ok = [&](float got) { if (isnanf_(x)) return isnanf_(got); if (isinff_(x)) return same(got, x); double ref = double(x * f); if (std::fabs(ref) > FLT_MAX) return isinff_(got) && (got > 0) == (x > 0); return std::fabs(got - ref) <= 2 * EPS * std::fabs(ref) + 3e-45; };
                if (!ok(g) || !ok(g4[i]) || (i < 3 && !ok(g3[i])) || (i < 2 && !ok(g2[i]))) { c.fail(nm, fs(x) + " gives " + fs(g) + ", in a vector " + fs(g4[i]) + ", expected " + ds(double(x * f))); break; }
                if (isfin_(x) && std::fabs(x) < 1e30f && std::fabs(x) > 1e-30f) { float b = d ? degrees(g) : radians(g); c.group("there and back"); c.eval(hall(d, x)); if (!(std::fabs(double(b) - x) <= 4 * EPS * std::fabs(double(x)))) { c.fail("degrees and radians do not undo each other", fs(x) + " comes back as " + fs(b)); break; } c.group(nm); } } }
    }
    c.sample("every whole degree from -720 to 720"); c.sample("random float bit patterns");
}
