// Whole-interface monitors: every callable entry of the public interface, found by gen_api.py.
// --mode mem      memory and initialisation (C28)
// --mode pure     purity (C29)
// --mode digest   result log of the seeded workload, one line per entry (C31); --only SIG dumps each case
// --mode threads  concurrent use (C33)
#include "api.h"
#include <atomic>
#include <sched.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>
#include <xmmintrin.h>
#if defined(__SANITIZE_ADDRESS__)
#define ASAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define ASAN 1
#endif
#endif

static std::string key(const char *what, const ApiFn &f) { return std::string(what) + ":" + f.sig; }
static void fail(const char *what, const ApiFn &f, const ArgVals &v, const std::string &more) {
#ifdef MSAN   // the C++ runtime is not instrumented: no string building in this build
    (void)v; (void)more;
    fprintf(stderr, "SUMMARY: MemorySanitizer: %s %s\n", what, f.sig);
    _exit(1);
#endif
    std::string k = key(what, f);
    ctx().fail(k, ctx().failed_enough(k) ? "" : case_str(f, v) + ": " + more);
}
static u64 ohash(const Out &o) { u64 h = 77; for (uint32_t x : o.w) h = ctx().mix(h, x); return h; }

// ------------------------------------------------------------------ memory
struct Arena {   // one page of memory between two pages nobody may touch
    unsigned char *base; size_t page;
    Arena() { page = 4096; base = (unsigned char *)mmap(0, 3 * page, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (base == MAP_FAILED) abort(); mprotect(base, page, PROT_NONE); mprotect(base + 2 * page, page, PROT_NONE); }
    unsigned char *lo() { return base + page; }
    unsigned char *hi(size_t n) { return base + 2 * page - n; }
};
static void mem_guard(const ApiFn &f, const ArgVals &v, Arena *ar, unsigned align_off, unsigned where, Out *ref) {
    // where: 0, 1 guard patterns around the argument, 2 argument ends at an untouchable page, 3 argument begins after one
    void *a[16]; size_t n[16];
    for (int i = 0; i < f.nargs; ++i) {
        n[i] = v.b[i].size();
        unsigned char *lo = ar[i].lo();
        memset(lo, where == 0 ? 0xA5 : where == 1 ? 0x00 : 0xFF, 4096);
        unsigned char *p = where == 2 ? ar[i].hi(n[i]) : where == 3 ? lo : lo + 1024 + align_off * align_of(f.arg[i].code);
        memcpy(p, v.b[i].data(), n[i]);
        a[i] = p;
    }
    Out o;
    f.call(a, o);
    for (int i = 0; i < f.nargs; ++i) {
        unsigned char g = where == 0 ? 0xA5 : where == 1 ? 0x00 : 0xFF, *lo = ar[i].lo(), *p = (unsigned char *)a[i];
        for (unsigned k = 0; k < 4096; ++k)
            if ((lo + k < p || lo + k >= p + n[i]) && lo[k] != g) { fail("writes-outside", f, v, "byte " + std::to_string((long)(lo + k - p)) + " relative to argument " + std::to_string(i) + " (" + std::to_string(n[i]) + " bytes) was changed"); break; }
        if (f.arg[i].mode != 'M' && memcmp(p, v.b[i].data(), n[i])) fail("argument-changed", f, v, "argument " + std::to_string(i) + " was changed");
    }
    collect(f, a, o);
    if (ref->w.empty()) *ref = o;
    else if (ref->w != o.w) fail("depends-on-surroundings", f, v, "result" + out_str(o) + " here," + out_str(*ref) + " with other memory around the arguments");
}
static void mem_blocks(const ApiFn &f, const ArgVals &v, unsigned off, u64 h) {
    void *a[16]; void *blk[16];
    for (int i = 0; i < f.nargs; ++i) {
        size_t n = v.b[i].size();
        size_t d = off * align_of(f.arg[i].code);
        blk[i] = malloc(n + d);
        a[i] = (char *)blk[i] + d;
        memcpy(a[i], v.b[i].data(), n);
    }
    Out o;
    f.call(a, o);
    for (int i = 0; i < f.nargs; ++i)
        if (f.arg[i].mode != 'M' && memcmp(a[i], v.b[i].data(), v.b[i].size())) fail("argument-changed", f, v, "argument " + std::to_string(i) + " was changed");
    collect(f, a, o);
    if (o.poisoned) fail("uninitialised-result", f, v, "part of the result was never written");
    for (int i = 0; i < f.nargs; ++i) free(blk[i]);
    ctx().eval(h);
}
static void mode_mem(Ctx &c, Rng &r) {
    Arena *ar = new Arena[16];
    ArgVals v;
    u64 N = c.n(24);
    for (const ApiFn &f : api()) {
        c.group(f.sig);
        for (u64 k = 0; k < N; ++k) {
            make_case(f, c.seed, k, v);
            u64 h = case_hash(f, v);
            mem_blocks(f, v, k & 1, h);
#if !defined(ASAN) && !defined(MSAN)
            Out ref;
            for (unsigned w = 0; w < 4; ++w) { mem_guard(f, v, ar, r.below(4), w, &ref); c.eval(h ^ w); }
#endif
        }
#ifndef MSAN
        if (c.samples.size() < 6 && r.below(200) == 0) c.sample(case_str(f, v));
#endif
    }
}

// ------------------------------------------------------------------ one plain call
struct Store { alignas(16) unsigned char b[16][64]; };
static void call_in(const ApiFn &f, const ArgVals &v, Store &s, Out &o) {
    void *a[16];
    for (int i = 0; i < f.nargs; ++i) { memcpy(s.b[i], v.b[i].data(), v.b[i].size()); a[i] = s.b[i]; }
    f.call(a, o);
    collect(f, a, o);
}

// ------------------------------------------------------------------ purity
__attribute__((noinline)) static void dirty_stack(unsigned char x) {
    volatile unsigned char junk[6144];
    for (unsigned i = 0; i < sizeof junk; ++i) junk[i] = x;
}
// cases of one function: some independent, some equal to the case before in all but one argument or one component
static std::vector<ArgVals> chain(const ApiFn &f, u64 seed, unsigned n) {
    std::vector<ArgVals> v(n);
    u64 h = 99; for (const char *p = f.sig; *p; ++p) h = ctx().mix(h, *p);
    Rng r(seed * 31 + h);
    for (unsigned k = 0; k < n; ++k) {
        make_case(f, seed, k % 2 ? k + 100000 : k / 2, v[k]);
        if (k % 2 && f.nargs) {
            ArgVals fresh = v[k];
            v[k] = v[k - 1];
            int i = r.below(f.nargs);
            if (r.below(5) == 0) {       // a sparse case, and the same with the signs of some zeros changed
                static const float sp[] = {0.0f, 0.0f, 0.0f, -0.0f, -0.0f, 1.0f, -1.0f, 2.0f, 0.5f, -0.25f};
                for (int q = 0; q < f.nargs; ++q) {
                    if (f.arg[q].policy != 'a' || ty(f.arg[q].code).elem != 'f') continue;
                    for (int e = 0; e < elems(f.arg[q]); ++e) { float z = sp[r.below(10)]; memcpy(v[k - 1].b[q].data() + 4 * e, &z, 4); }
                    v[k].b[q] = v[k - 1].b[q];
                }
                unsigned all = r.below(3);
                for (int q = 0; q < f.nargs; ++q) {
                    if (f.arg[q].policy != 'a' || ty(f.arg[q].code).elem != 'f') continue;
                    for (int e = 0; e < elems(f.arg[q]); ++e) { float z; char *w = (char *)v[k].b[q].data() + 4 * e; memcpy(&z, w, 4); if (z == 0 && (all == 0 || r.coin()) && (all != 2 || q == i)) { z = -z; memcpy(w, &z, 4); } }
                }
            } else if (f.arg[i].policy == 'a' && f.arg[i].code != 'u' && r.coin()) {       // a value very close to the one before
                ApiArg one = f.arg[i]; std::vector<unsigned char> old = v[k].b[i];
                fill_near(r, one, v[k].b[i].data(), old.data());
                if (r.coin()) { size_t es = ty(one.code).esize; int e = r.below(elems(one)); std::vector<unsigned char> nw = v[k].b[i]; v[k].b[i] = old; memcpy(v[k].b[i].data() + e * es, nw.data() + e * es, es); }
            } else if (r.coin() && f.arg[i].code != 'u') { size_t es = ty(f.arg[i].code).esize; int e = r.below(elems(f.arg[i])); memcpy(v[k].b[i].data() + e * es, fresh.b[i].data() + e * es, es); }
            else v[k].b[i] = fresh.b[i];
            fix_case(f, v[k]);
        }
    }
    return v;
}
// zeros of both signs, infinities, NaN, the largest and smallest numbers
static void special(const ApiArg &a, Rng &r, void *p) {
    Ty t = ty(a.code); int n = elems(a); unsigned style = r.below(4);
    for (int k = 0; k < n; ++k) {
        if (t.elem == 'f') { float f = style == 0 ? (r.coin() ? -0.0f : 0.0f) : style == 1 ? (r.below(3) ? fbit(r, 4) : -0.0f) : fbit(r, style == 2 ? 1 : int(r.below(3))); memcpy((char *)p + 4 * k, &f, 4); }
        else if (t.elem == 'i') { int v = i_any(r); memcpy((char *)p + 4 * k, &v, 4); }
    }
}
static void mode_pure(Ctx &c, Rng &r) {
    alignas(64) static unsigned char wide[16 * 256];
    const std::vector<ApiFn> &T = api();
    const unsigned K = unsigned(c.n(12) < 4 ? 4 : c.n(12)), F = unsigned(T.size()), NORD = c.tier == "thorough" ? 10 : 6;
    std::vector<std::vector<ArgVals>> cs(F);
    for (unsigned i = 0; i < F; ++i) cs[i] = chain(T[i], c.seed, K);
    // the same calls in several processes, each in another order: their results must agree case by case
    size_t bytes = size_t(F) * K * 8;
    std::vector<u64 *> res(NORD);
    for (unsigned o = 0; o < NORD; ++o) res[o] = (u64 *)mmap(0, bytes, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    fflush(stdout);
    for (unsigned o = 0; o < NORD; ++o) {
        pid_t p = fork();
        if (p == 0) {
            std::vector<uint32_t> order(size_t(F) * K);
            for (size_t j = 0; j < order.size(); ++j) order[j] = uint32_t(j);
            if (o == 1) std::reverse(order.begin(), order.end());
            else if (o == 2) for (unsigned k = 0, j = 0; k < K; ++k) for (unsigned i = 0; i < F; ++i) order[j++] = i * K + (i + k) % K;       // never two of one function in a row
            else if (o > 2) { Rng q(c.seed * 17 + o); for (size_t j = order.size(); j > 1; --j) std::swap(order[j - 1], order[q.next() % j]); }
            Store *s = new Store[3];
            for (size_t j = 0; j < order.size(); ++j) {
                unsigned i = order[j] / K, k = order[j] % K;
                Out out;
                call_in(T[i], cs[i][k], s[o % 3 ? j % 3 : 0], out);
                res[o][order[j]] = ohash(out);
            }
            _exit(0);
        }
        int st; waitpid(p, &st, 0);
        if (!WIFEXITED(st) || WEXITSTATUS(st)) { c.fail("died", "a process calling every operation in order " + std::to_string(o) + " ended with status " + std::to_string(st)); return; }
    }
    for (unsigned i = 0; i < F; ++i) {
        c.group(T[i].sig);
        for (unsigned k = 0; k < K; ++k) {
            c.eval(case_hash(T[i], cs[i][k]));
            for (unsigned o = 1; o < NORD; ++o)
                if (res[o][i * K + k] != res[0][i * K + k]) { fail("depends-on-history", T[i], cs[i][k], "process 0 (calls in order) and process " + std::to_string(o) + " (another order) got different results"); break; }
        }
    }
    // within one process: repetition, other storage, dirty stack, aliasing, control state
    Store *s = new Store[4];
    const unsigned modes[] = {FE_TONEAREST, FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO};
    for (unsigned i = 0; i < F; ++i) {
        const ApiFn &f = T[i];
        c.group(f.sig);
        for (unsigned k = 0; k < K; ++k) {
            const ArgVals &v = cs[i][k], &w = cs[i][(k + 1 + r.below(K - 1)) % K];
            u64 h = case_hash(f, v);
            u64 ref = res[0][i * K + k];
            Out a, b, d, e;
            Store before;
            dirty_stack(0x00); call_in(f, v, s[0], a);
            if (ohash(a) != ref) fail("depends-on-history", f, v, "other result than in a separate process");
            Out t; call_in(f, w, s[0], t);
            dirty_stack(0xFF); call_in(f, v, s[0], b);
            if (b.w != a.w) fail("depends-on-history", f, v, "second call with the same arguments, after one with others in the same storage:" + out_str(b) + " instead of" + out_str(a));
            call_in(f, v, s[1 + r.below(3)], d);
            if (d.w != a.w) fail("depends-on-storage", f, v, "arguments stored elsewhere:" + out_str(d) + " instead of" + out_str(a));
            // arguments and control state unchanged
            unsigned m = modes[k % 4];
            unsigned ftz = (k % 8) < 4 ? 0 : 0x8040;    // flush-to-zero and denormals-are-zero set by the caller
            unsigned csr0 = _mm_getcsr();
            void *p[16];
            for (int q = 0; q < f.nargs; ++q) { memcpy(s[0].b[q], v.b[q].data(), v.b[q].size()); p[q] = s[0].b[q]; }
            fesetround(m);
            _mm_setcsr((_mm_getcsr() & ~0x8040u) | ftz);
            unsigned csr1 = _mm_getcsr() & ~0x3fu;
            f.call(p, e);
            unsigned csr2 = _mm_getcsr() & ~0x3fu;
            int rm = fegetround();
            fesetround(FE_TONEAREST);
            _mm_setcsr(csr0);
            if (csr1 != csr2 || unsigned(rm) != m) fail("control-state", f, v, "floating-point control word 0x" + std::to_string(csr1) + " became 0x" + std::to_string(csr2));
            for (int q = 0; q < f.nargs; ++q)
                if (f.arg[q].mode != 'M' && memcmp(p[q], v.b[q].data(), v.b[q].size())) fail("argument-changed", f, v, "argument " + std::to_string(q));
            c.evals += 4;
            // every alignment the types allow: 16 places within a cache line and across its end
            for (unsigned z = 0; z < 4; ++z) {
                Out o;
                for (int q = 0; q < f.nargs; ++q) {
                    size_t off = (k * 4 + z + q * r.below(2)) % 16 * (align_of(f.arg[q].code) < 4 ? 1 : 4);
                    p[q] = wide + q * 256 + off % 64 / align_of(f.arg[q].code) * align_of(f.arg[q].code);
                    memcpy(p[q], v.b[q].data(), v.b[q].size());
                }
                f.call(p, o); collect(f, p, o);
                if (o.w != a.w) fail("depends-on-storage", f, v, "arguments at other addresses:" + out_str(o) + " instead of" + out_str(a));
                ++c.evals;
            }
            // one object for two read-only arguments of one type
            for (int q = 1; q < f.nargs; ++q)
                for (int u = 0; u < q; ++u) {
                    if (f.arg[q].code != f.arg[u].code || f.arg[q].mode != 'R' || f.arg[u].mode != 'R' || f.arg[q].policy != f.arg[u].policy) continue;
                    for (unsigned z = 0; z < 2; ++z) {
                        ArgVals x = v;
                        if (z && f.arg[u].policy == 'a') special(f.arg[u], r, x.b[u].data());
                        x.b[q] = x.b[u];
                        Out sep, one;
                        call_in(f, x, s[0], sep);
                        for (int y = 0; y < f.nargs; ++y) { memcpy(s[0].b[y], x.b[y].data(), x.b[y].size()); p[y] = s[0].b[y]; }
                        p[q] = p[u];
                        f.call(p, one); collect(f, p, one);
                        if (sep.w != one.w) fail("aliasing", f, x, "one object for arguments " + std::to_string(u) + " and " + std::to_string(q) + ":" + out_str(one) + ", copies:" + out_str(sep));
                        ++c.evals;
                    }
                }
            // arguments with special values stay as they were
            if (k % 2) {
                ArgVals x = v;
                for (int q = 0; q < f.nargs; ++q) { if (f.arg[q].policy == 'a') special(f.arg[q], r, x.b[q].data()); memcpy(s[0].b[q], x.b[q].data(), x.b[q].size()); p[q] = s[0].b[q]; }
                Out o; f.call(p, o);
                for (int q = 0; q < f.nargs; ++q)
                    if (f.arg[q].mode != 'M' && memcmp(p[q], x.b[q].data(), x.b[q].size())) fail("argument-changed", f, x, "argument " + std::to_string(q));
                ++c.evals;
            }
            (void)h;
        }
        if (c.samples.size() < 8 && r.below(200) == 0) c.sample(case_str(f, cs[i][1]));
    }
    // many calls of random entries one after the other: every ordered pair of entries may meet
    u64 N = c.n(600000), seen = 0;
    std::vector<bool> pair(size_t(F) * F);
    unsigned last = 0;
    for (u64 j = 0; j < N; ++j) {
        unsigned i = r.below(F), k = r.below(K);
        Out o; call_in(T[i], cs[i][k], s[j & 3], o);
        if (ohash(o) != res[0][i * K + k]) fail("depends-on-history", T[i], cs[i][k], std::string("called after ") + T[last].sig);
        if (!pair[size_t(last) * F + i]) { pair[size_t(last) * F + i] = true; ++seen; }
        last = i;
        ++c.evals;
    }
    c.groups["(ordered pairs of entries called one after the other)"] = seen;
    // the same two calls over and over: a result may not depend on how often an operation has been called
    const unsigned H = c.tier == "thorough" ? 300000 : 70000, NP = 4;
    uint32_t *bad = (uint32_t *)mmap(0, F * sizeof(uint32_t), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    fflush(stdout);
    pid_t kid[NP];
    for (unsigned p = 0; p < NP; ++p) {
        kid[p] = fork();
        if (kid[p]) continue;
        for (unsigned i = p; i < F; i += NP) {
            const ApiFn &f = T[i];
            Out want[2], o;
            for (unsigned z = 0; z < 2; ++z) call_in(f, cs[i][z], s[z], want[z]);
            for (unsigned j = 0; j < H; ++j) {
                const ArgVals &v = cs[i][j & 1]; void *a[16];
                for (int q = 0; q < f.nargs; ++q) { a[q] = s[j & 1].b[q]; if (f.arg[q].mode == 'M') memcpy(a[q], v.b[q].data(), v.b[q].size()); }
                o.w.clear(); f.call(a, o); collect(f, a, o);
                if (o.w != want[j & 1].w) { bad[i] = j + 2; break; }
            }
        }
        _exit(0);
    }
    for (unsigned p = 0; p < NP; ++p) { int st; waitpid(kid[p], &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) c.fail("died", "a process repeating every operation ended with status " + std::to_string(st)); }
    for (unsigned i = 0; i < F; ++i) if (bad[i]) fail("depends-on-history", T[i], cs[i][0], "result changed at call " + std::to_string(bad[i]) + " of the same two in turn");
    c.evals += u64(F) * H;
    c.groups["(calls of each entry in a row)"] = H;
}

// ------------------------------------------------------------------ digests
static void mode_digest(Ctx &c, Rng &) {
    FILE *fp = fopen(c.out.c_str(), "w");
    if (!fp) abort();
    u64 N = c.n(64);
    Store s;
    ArgVals v;
    for (const ApiFn &f : api()) {
        if (!c.only.empty() && c.only != f.sig) continue;
        c.group(f.sig);
        u64 h = 3;
        for (u64 k = 0; k < N; ++k) {
            make_case(f, c.seed, k, v);
            Out o; call_in(f, v, s, o);
            h = c.mix(h, ohash(o));
            if (c.only.empty()) c.eval(case_hash(f, v)); else fprintf(fp, "%s ->%s\n", case_str(f, v).c_str(), out_str(o).c_str());
        }
        if (c.only.empty()) fprintf(fp, "%016llx %s\n", (unsigned long long)h, f.sig);
    }
    fclose(fp);
}

// ------------------------------------------------------------------ threads
static void mode_threads(Ctx &c, Rng &r) {
    const std::vector<ApiFn> &T = api();
    const unsigned F = unsigned(T.size()), K = 96, NT = 6;
    std::vector<ArgVals> cs(size_t(F) * K);
    std::vector<Out> ref(size_t(F) * K);
    for (unsigned i = 0; i < F; ++i) { std::vector<ArgVals> v = chain(T[i], c.seed, K); for (unsigned k = 0; k < K; ++k) cs[i * K + k] = v[k]; }
    u64 CALLS = c.n(12000);
    unsigned rounds = 3;
    struct Log { std::vector<std::pair<u64, uint32_t>> bad; u64 overlap = 0; std::vector<bool> met; };
    std::vector<Log> log(NT);
    std::vector<std::atomic<uint32_t>> now(NT);
    // the threads run first, the single-threaded reference afterwards in a process of its own: one-time initialisation races are seen too
    std::vector<std::vector<std::pair<uint32_t, u64>>> got(NT);
    for (unsigned round = 0; round < rounds; ++round) {
        std::atomic<unsigned> ready{0};
        std::vector<std::thread> th;
        for (unsigned t = 0; t < NT; ++t)
            th.emplace_back([&, t] {
                Rng q(c.seed * 1000 + round * 64 + t);
                Store *own = new Store;
                Log &L = log[t];
                if (L.met.empty()) L.met.resize(size_t(F) * F);
                ready.fetch_add(1, std::memory_order_relaxed);
                while (ready.load(std::memory_order_relaxed) < NT) sched_yield();
                u64 M = round == 0 ? u64(F) * (K / (NT / 2)) : CALLS;
                for (u64 j = 0; j < M; ++j) {
                    // round 0: every case of every entry by two threads at about the same time; later: anything
                    unsigned i = round == 0 ? unsigned(j / (K / (NT / 2))) : round == 1 ? unsigned((j / 8 * 131 + q.below(3)) % F) : q.below(F);
                    unsigned k = round == 0 ? unsigned(j % (K / (NT / 2))) * (NT / 2) + t % (NT / 2) : q.below(K);
                    const ApiFn &f = T[i];
                    ArgVals &v = cs[i * K + k];
                    void *a[16];
                    for (int z = 0; z < f.nargs; ++z) {
                        if (f.arg[z].mode == 'M' || f.arg[z].mode == 'V' || q.below(4) == 0) { memcpy(own->b[z], v.b[z].data(), v.b[z].size()); a[z] = own->b[z]; }
                        else a[z] = v.b[z].data();     // the shared object itself
                    }
                    now[t].store(i + 1, std::memory_order_relaxed);
                    Out o; f.call(a, o);
                    unsigned other = (t + 1 + q.below(NT - 1)) % NT;
                    uint32_t w = now[other].load(std::memory_order_relaxed);
                    now[t].store(0, std::memory_order_relaxed);
                    collect(f, a, o);
                    if (w && !L.met[size_t(i) * F + w - 1]) { L.met[size_t(i) * F + w - 1] = true; ++L.overlap; }
                    got[t].push_back({uint32_t(i * K + k), ohash(o)});
                    if (q.below(64) == 0) sched_yield();
                }
                delete own;
            });
        for (auto &x : th) x.join();
    }
    Store s;
    std::vector<u64> want(size_t(F) * K);
    for (unsigned i = 0; i < F; ++i) for (unsigned k = 0; k < K; ++k) { Out o; call_in(T[i], cs[i * K + k], s, o); want[i * K + k] = ohash(o); }
    u64 overlap = 0;
    for (unsigned t = 0; t < NT; ++t) {
        overlap += log[t].overlap;
        for (auto &g : got[t]) {
            unsigned i = g.first / K;
            c.group(T[i].sig);
            c.eval(ctx().mix(g.first, t));
            if (g.second != want[g.first]) fail("differs-under-concurrency", T[i], cs[g.first], "a thread got another result than a call made alone");
        }
    }
    c.groups["(distinct pairs of operations seen in progress at once)"] = overlap;
    for (int k = 0; k < 4; ++k) { unsigned i = r.below(F); c.sample(case_str(T[i], cs[i * K])); }
}

// ------------------------------------------------------------------ looking for inputs that reach rare branches
#ifdef GUIDED
#include <csignal>
static FILE *hunt_out; static const ApiFn *hunt_f; static ArgVals *hunt_v;
static void hunt_put() {
    fprintf(hunt_out, "%s\t", hunt_f->sig);
    for (int i = 0; i < hunt_f->nargs; ++i) { for (unsigned char x : hunt_v->b[i]) fprintf(hunt_out, "%02x", x); fputc(';', hunt_out); }
    fputc('\n', hunt_out); fflush(hunt_out);
}
static void hunt_died(int) { hunt_put(); _exit(3); }
static bool hunt_fits(const ApiArg &a, uint32_t w, char elem) {
    if (elem == 'f') { if (a.policy == 't') { float x = bitsf(w); return x >= 0 && x <= 1; } if (a.policy == 'p') return (w >> 23) >= 120 && (w >> 23) < 130; return a.policy == 'a'; }
    if (elem == 'i') return a.policy == 'a' || (a.policy == 'n' && int(w) != INT32_MIN);
    return elem == 'u' && a.policy == 'a';
}
// every component of the case becomes one choice of the step, so that the search can move them one by one
static void retape(const ApiFn &f, ArgVals &v, Rng &r) {
    for (int i = 0; i < f.nargs; ++i) {
        Ty t = ty(f.arg[i].code); if (t.esize != 4) continue;
        for (int k = 0; k < elems(f.arg[i]); ++k) {
            uint32_t w; memcpy(&w, v.b[i].data() + 4 * k, 4);
            uint32_t z = uint32_t(r.tape.next([w] { return u64(w) << 32; }) >> 32);
            if (hunt_fits(f.arg[i], z, t.elem)) memcpy(v.b[i].data() + 4 * k, &z, 4);
        }
    }
    fix_case(f, v);
}
static void mode_hunt(Ctx &c, Rng &r) {
    hunt_out = fopen(c.out.c_str(), "w"); if (!hunt_out) abort();
    ArgVals v; Store s; Out o; hunt_v = &v;
    for (int g : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL}) signal(g, hunt_died);
    u64 N = c.n(1500), kept = 0; static char direct[4096]; size_t at = 0;
    for (const ApiFn &f : api()) {
        hunt_f = &f; c.group(f.sig); ++at;
        if (!f.nargs) continue;
        // first the choices behind a case are searched, then the argument values themselves
        for (int pass = 0; pass < 2; ++pass) {
            unsigned here = 0; Rng plain(r.raw());
            for (u64 k = 0; k < N && here < 24; ++k) {
                STEPX(r, pass ? (const void *)&direct[at % sizeof direct] : (const void *)&f)
                if (pass) { make_case(f, plain, int(plain.below(16)), v); retape(f, v, r); }
                else make_case(f, r, int(r.below(16)), v);
                o.w.clear(); call_in(f, v, s, o);
                r.tape.finish(); c.eval(case_hash(f, v));
                if (r.tape.novel && k >= 16) { hunt_put(); ++here; ++kept; }
                if (k == 400 && guided::all().cur->sites.empty()) break;   // nothing is ever compared here
            }
        }
    }
    c.groups["(cases kept)"] = kept;
    fclose(hunt_out);
}
#endif

void run(Ctx &c, Rng &r) {
#ifdef GUIDED
    if (c.mode == "hunt") { mode_hunt(c, r); return; }
#endif
    if (c.mode == "mem") mode_mem(c, r);
    else if (c.mode == "pure") mode_pure(c, r);
    else if (c.mode == "digest") mode_digest(c, r);
    else if (c.mode == "threads") mode_threads(c, r);
    else abort();
}
