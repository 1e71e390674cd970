// Comparison-guided workload (compiled in with -DGUIDED, against a library built with gcc's -fsanitize-coverage=trace-cmp).
// The monitors stay what they are; only the choice of inputs changes. Every comparison the library executes reports its two
// operands here, and for each one three goals are kept: left below, equal, above right. The random choices behind one step of
// a monitor (its "tape") that came nearest to an unmet goal are changed a little and replayed until the goal is met or no
// progress is made. So a branch the sampled inputs never enter is searched for, and judged by the same oracles.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <string>
#include <unordered_map>
#include <vector>
namespace guided {
typedef uint64_t u64;
struct Goal { double best = 1e300; std::vector<u64> tape; unsigned hits = 0, tries = 0, stale = 0; int li = -1, pi = -1; u64 ld = 0, pd = 0; std::vector<int> sens; double lo = 1e300, hi = -1;
    void drop() { best = 1e300; tape.clear(); sens.clear(); stale = 0; li = pi = -1; } };  // look for it again from other inputs
struct Site { Goal g[3]; double cur[3] = {1e300, 1e300, 1e300}; bool touched = false; };
struct Phase { std::unordered_map<u64, unsigned> index; std::vector<Site> sites; std::vector<unsigned> touched; u64 steps = 0, rr = 0; };
struct All {
    std::unordered_map<const void *, unsigned> idx; std::vector<Phase *> phases; Phase *cur = nullptr;
    u64 steps = 0, replays = 0, compares = 0; bool on = false;
};
inline All &all() { static All a; return a; }
inline void report(u64 pc, double lt, double eq, double gt) {
    All &a = all(); if (!a.on || !a.cur) return; Phase &p = *a.cur; ++a.compares;
    auto it = p.index.find(pc); unsigned k; if (it == p.index.end()) { if (p.sites.size() > 4000) return; k = unsigned(p.sites.size()); p.index[pc] = k; p.sites.push_back(Site()); } else k = it->second;
    Site &s = p.sites[k]; if (!s.touched) { s.touched = true; s.cur[0] = s.cur[1] = s.cur[2] = 1e300; p.touched.push_back(k); }
    if (lt < s.cur[0]) s.cur[0] = lt; if (eq < s.cur[1]) s.cur[1] = eq; if (gt < s.cur[2]) s.cur[2] = gt;
}
inline void diff(u64 pc, double d) { report(pc, d < 0 ? 0 : d + 1, d < 0 ? -d : d, d > 0 ? 0 : 1 - d); }
inline double ordf(float f) { uint32_t u; std::memcpy(&u, &f, 4); double m = double(u & 0x7fffffffu); return u >> 31 ? -m : m; }
inline double ordd(double f) { u64 u; std::memcpy(&u, &f, 8); double m = double(u & 0x7fffffffffffffffull); return u >> 63 ? -m : m; }
// the choices behind one step, replayed or fresh
struct Tape {
    std::vector<u64> base, cur; size_t at = 0; Goal *goal = nullptr; unsigned gsite = 0, gk = 0; int mi = -1; u64 md = 0; u64 s2 = 0x51ed27; bool live = false, novel = false;
    u64 rnd() { s2 ^= s2 << 13; s2 ^= s2 >> 7; s2 ^= s2 << 17; return s2; }
    void finish() {
        All &a = all(); Phase *p = a.cur; if (!p) return;
        novel = false;
        if (!live) { for (unsigned k : p->touched) p->sites[k].touched = false; p->touched.clear(); return; }
        if (goal && mi >= 0 && p->sites[gsite].touched) {  // one choice was changed: where a straight line through the two distances meets the goal is tried next
            double d0 = goal->best, dn = p->sites[gsite].cur[gk];
            if (dn != d0) {
                if (goal->sens.size() < 48) { bool in = false; for (int x : goal->sens) in |= x == mi; if (!in) goal->sens.push_back(mi); }
                double f = d0 / (rnd() & 1 ? d0 - dn : d0 + dn); if (dn < d0) f -= 1; f *= double(int64_t(md));
                if (f == f && f < 9e18 && f > -9e18) { goal->pi = mi; goal->pd = u64(int64_t(f)); }
            }
        }
        for (unsigned k : p->touched) { Site &s = p->sites[k]; s.touched = false;
            for (int j = 0; j < 3; ++j) { Goal &g = s.g[j]; if (s.cur[j] < g.lo) g.lo = s.cur[j]; if (s.cur[j] > g.hi) g.hi = s.cur[j]; if (s.cur[j] < g.best) { g.best = s.cur[j]; g.tape = cur; g.stale = 0; if (goal && gsite == k && int(gk) == j) { g.li = mi; g.ld = md; } } if (s.cur[j] == 0) { ++g.hits; if (g.hits < 3) novel = true; if (g.hits < 60 && (rnd() & 3) == 0) g.tape = cur; if (g.hits % 12 == 0 && g.hits < 60) g.drop(); } } }
        p->touched.clear(); live = false;
    }
    template <class F> void mark(const void *tag, F raw) {
        finish(); All &a = all(); auto it = a.idx.find(tag); if (it == a.idx.end()) { a.idx[tag] = unsigned(a.phases.size()); a.phases.push_back(new Phase); a.cur = a.phases.back(); } else a.cur = a.phases[it->second];
        Phase &p = *a.cur; a.on = true; live = true; cur.clear(); base.clear(); at = 0; goal = nullptr; ++p.steps; ++a.steps; s2 ^= raw() | 1; if (!s2) s2 = 1;
        if (p.steps < 120 || (rnd() & 7) == 0 || p.sites.empty()) return;
        for (unsigned n = 0; n < p.sites.size() * 3; ++n) { unsigned q = unsigned(p.rr++ % (p.sites.size() * 3)); Goal &g = p.sites[q / 3].g[q % 3];
            if (g.hits >= 60 || g.hi <= g.lo || g.tape.empty()) continue;
            if (g.stale > 1500 && !g.hits) { g.drop(); continue; }  // stuck: start over from other inputs
            p.rr--; if ((rnd() & (g.stale > 40 ? 31 : 255)) == 0) p.rr++;  // stay with one goal for a while, longer while it comes nearer
            ++g.tries; ++g.stale; ++a.replays; goal = &g; gsite = q / 3; gk = q % 3; base = g.tape; mi = -1; if (base.empty()) return;
            if (g.pi >= 0) { int i = g.pi; g.pi = -1; if (size_t(i) < base.size() && g.pd) { mi = i; md = g.pd; base[mi] += md; return; } }
            if (g.li >= 0 && size_t(g.li) < base.size() && (rnd() & 1)) { u64 d = g.ld; switch (rnd() & 3) { case 0: d += d; break; case 1: d = u64(int64_t(d) / 2); break; case 2: d = u64(0) - u64(int64_t(d) / 2); break; default: break; } mi = g.li; md = d; base[mi] += d; return; }
            unsigned ops = 1 + ((rnd() & 3) == 0) + ((rnd() & 7) == 0);
            for (unsigned o = 0; o < ops; ++o) { size_t i = rnd() % base.size(); if (!g.sens.empty() && (rnd() & 3)) { size_t q2 = size_t(g.sens[rnd() % g.sens.size()]); if (q2 < base.size()) i = q2; }
                switch (rnd() % 6) { case 0: base[i] = rnd(); break; case 1: base[i] = base[rnd() % base.size()]; break; case 2: if ((rnd() & 3) == 0) { base.resize(i + 1); break; } // fall through
                default: { u64 d = u64(1) << (11 + rnd() % 53); if (rnd() & 1) d = u64(0) - d; base[i] += d; if (ops == 1) { mi = int(i); md = d; } } } }
            return; }
    }
    template <class F> u64 next(F raw) { u64 v = at < base.size() ? base[at] : raw(); ++at; if (live && cur.size() < 4000) cur.push_back(v); return v; }
};
inline std::string stats() {
    All &a = all(); u64 sites = 0, goals = 0, met = 0; for (Phase *p : a.phases) for (Site &s : p->sites) { ++sites; for (Goal &g : s.g) { ++goals; met += g.hits > 0; } }
    char b[220]; std::snprintf(b, sizeof b, "\"guided\":{\"steps\":%llu,\"replayed tapes\":%llu,\"comparisons observed\":%llu,\"comparison sites\":%llu,\"goals\":%llu,\"goals met\":%llu},", (unsigned long long)a.steps, (unsigned long long)a.replays, (unsigned long long)a.compares, (unsigned long long)sites, (unsigned long long)goals, (unsigned long long)met); return b;
}
}
#define GUIDED_PC u64((uintptr_t)__builtin_return_address(0))
#ifndef NO_MAIN
extern "C" {
void __sanitizer_cov_trace_cmpf(float a, float b) { if (a == a && b == b) guided::diff((uintptr_t)__builtin_return_address(0), guided::ordf(a) - guided::ordf(b)); }
void __sanitizer_cov_trace_cmpd(double a, double b) { if (a == a && b == b) guided::diff((uintptr_t)__builtin_return_address(0), guided::ordd(a) - guided::ordd(b)); }
#define GI(N, T) void __sanitizer_cov_trace_cmp##N(T a, T b) { guided::diff((uintptr_t)__builtin_return_address(0), double(a) - double(b)); } void __sanitizer_cov_trace_const_cmp##N(T a, T b) { guided::diff((uintptr_t)__builtin_return_address(0), double(b) - double(a)); }
GI(2, int16_t) GI(4, int32_t) GI(8, int64_t)
#undef GI
void __sanitizer_cov_trace_cmp1(uint8_t a, uint8_t b) { guided::diff((uintptr_t)__builtin_return_address(0), double(a) - double(b)); }
void __sanitizer_cov_trace_const_cmp1(uint8_t a, uint8_t b) { double d = double(b) - double(a); if (a == 0) guided::report((uintptr_t)__builtin_return_address(0), 1e300, d, d > 0 ? 0 : 1 - d); else if (a == 1 && b <= 1) guided::report((uintptr_t)__builtin_return_address(0), d < 0 ? 0 : d + 1, -d, 1e300); else guided::diff((uintptr_t)__builtin_return_address(0), d); }
void __sanitizer_cov_trace_switch(uint64_t v, uint64_t *c) { for (uint64_t i = 0; i < c[0]; ++i) guided::diff(uintptr_t(__builtin_return_address(0)) * 31 + i + 1, double(int64_t(v)) - double(int64_t(c[2 + i]))); }
void __sanitizer_cov_trace_pc(void) {}
}
#endif
