#define NO_MAIN
#include "c08.h"
void part2(Ctx &c, Rng &r) {
    N = c.n(2500);
    BIN(max, 0, 0) BIN(min, 0, 0) BIN(step, 0, 0) BIN(mod, 1, 1)
    { Fn f{"mod", 1, true}; auto s = [](float a, float b) { return zcm::mod(a, b); }; bins<vec2>(r, f, L2(mod), s); bins<vec3>(r, f, L2(mod), s); bins<vec4>(r, f, L2(mod), s); }
    { Fn f{"clamp", 0, false}; auto s = [](float a, float b, float d) { return zcm::clamp(a, b, d); }; tern<vec2, vec2>(r, f, L3(clamp), s); tern<vec3, vec3>(r, f, L3(clamp), s); tern<vec4, vec4>(r, f, L3(clamp), s); }
    { Fn f{"fma", 0, false}; auto s = [](float a, float b, float d) { return zcm::fma(a, b, d); }; tern<vec2, vec2>(r, f, L3(fma), s); tern<vec3, vec3>(r, f, L3(fma), s); tern<vec4, vec4>(r, f, L3(fma), s); }
    TERN(smoothstep, 4) TERN(mix, 2)
    { Fn f{"mix", 2, true}; auto s = [](float a, float b, float d) { return zcm::mix(a, b, d); }; terns<vec2>(r, f, L3(mix), s); terns<vec3>(r, f, L3(mix), s); terns<vec4>(r, f, L3(mix), s); }
    { Fn f{"mix", 0, false}; auto s = [](float a, float b, bool d) { return zcm::mix(a, b, d); }; tern<vec2, bvec2>(r, f, L3(mix), s); tern<vec3, bvec3>(r, f, L3(mix), s); tern<vec4, bvec4>(r, f, L3(mix), s); }
}
