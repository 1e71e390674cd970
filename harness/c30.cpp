// C30: debug builds stop by an assertion exactly on out-of-range use; release builds never do. One child process per call.
#include "common.h"
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <zcm/quaternion.hpp>
#include <zcm/type_ptr.hpp>
#ifdef NDEBUG
static const bool DEBUG_BUILD = false;
#else
static const bool DEBUG_BUILD = true;
#endif
static unsigned char *edge;   // first byte of a page nobody may touch
static volatile unsigned long sink;

// 0 returned, 1 stopped by an assertion, 2 memory fault, 3 anything else
static int in_child(const std::function<void()> &f, int *st) {
    fflush(stdout);
    pid_t p = fork();
    if (p == 0) {
        int n = open("/dev/null", O_WRONLY);
        dup2(n, 2);
        struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
        f();
        _exit(42);
    }
    waitpid(p, st, 0);
    if (WIFEXITED(*st) && WEXITSTATUS(*st) == 42) return 0;
    if (WIFSIGNALED(*st) && WTERMSIG(*st) == SIGABRT) return 1;
    if (WIFSIGNALED(*st) && (WTERMSIG(*st) == SIGSEGV || WTERMSIG(*st) == SIGBUS)) return 2;
    return 3;
}
static const char *what[] = {"returned", "was stopped by an assertion", "died of a memory fault", "ended otherwise"};
static void judge(const std::string &name, bool valid, const std::string &arg, const std::function<void()> &f) {
    Ctx &c = ctx();
    c.group(name + (valid ? " valid" : " invalid"));
    int st, w = in_child(f, &st);
    u64 h = 7; for (char ch : arg) h = c.mix(h, ch);
    c.eval(h);
    if (valid) { if (w != 0) c.fail("valid-use-stopped:" + name, name + " with " + arg + " " + what[w] + " (status " + std::to_string(st) + ")"); }
    else if (DEBUG_BUILD) { if (w != 1) c.fail("invalid-use-not-stopped:" + name, name + " with " + arg + " " + what[w] + " instead of being stopped by an assertion (status " + std::to_string(st) + ")"); }
    else if (w == 1) c.fail("release-build-stops:" + name, name + " with " + arg + " was stopped by an assertion in a release build");
}

template <class T, class Ix> static void index_type(Rng &r, unsigned size, const char *nm) {
    std::vector<u64> bad;
    for (unsigned k = 0; k < 6; ++k) bad.push_back(size + k);
    for (unsigned k = 0; k < ctx().n(6); ++k) bad.push_back(size + r.below(1000));
    const u64 mx = std::numeric_limits<Ix>::max();
    bad.push_back(mx); bad.push_back(mx - 1); bad.push_back(mx / 2); bad.push_back(mx / 2 + 1); bad.push_back(256); bad.push_back(65536); bad.push_back(mx - size + 1);
    for (unsigned k = 0; k < ctx().n(6); ++k) { u64 v = r.next() >> (r.below(56)); v &= mx; if (v >= size) bad.push_back(v); }
    for (int cst = 0; cst < 2; ++cst) {
        std::string name = std::string(cst ? "const " : "") + nm + "[]";
        for (unsigned fill = 0; fill < 3; ++fill)
            for (unsigned k = 0; k < size; ++k)
                judge(name, true, std::to_string(k) + " over fill " + std::to_string(fill), [&] {
                    unsigned char *p = edge - sizeof(T); memset(p, fill ? 1 : 0, sizeof(T)); if (fill == 2 && sizeof(typename Dim<T>::elem) > 1) memset(p, 0xFF, sizeof(T));
                    T *t = (T *)p;
                    if (cst) { auto &&x = (*(const T *)t)[Ix(k)]; sink = (unsigned long)&x; } else { auto &&x = (*t)[Ix(k)]; sink = (unsigned long)&x; }
                });
        for (u64 k : bad)
            judge(name, false, std::to_string(k), [&] {
                unsigned char *p = edge - sizeof(T); memset(p, 0, sizeof(T));
                T *t = (T *)p;
                if (cst) { auto &&x = (*(const T *)t)[Ix(k)]; sink = (unsigned long)&x; } else { auto &&x = (*t)[Ix(k)]; sink = (unsigned long)&x; }
            });
    }
}
template <class T, class F> static void pointer_type(const char *nm, F f) {
    typedef typename Dim<T>::elem E;
    judge(nm, false, "a null pointer", [&] { T t = f((const E *)0); sink = *(unsigned char *)&t; });
    for (int k = 0; k < 4; ++k)
        judge(nm, true, "a pointer to " + std::to_string(k), [&] {
            E *p = (E *)(edge - (k & 1 ? sizeof(E) * Dim<T>::n : 256));
            for (unsigned i = 0; i < Dim<T>::n; ++i) p[i] = E(k);
            T t = f((const E *)p); sink = *(unsigned char *)&t;
        });
}
void run(Ctx &c, Rng &r) {
    unsigned char *m = (unsigned char *)mmap(0, 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (m == MAP_FAILED) abort();
    mprotect(m + 4096, 4096, PROT_NONE);
    edge = m + 4096;
    using namespace zcm;
    typedef unsigned U;
#define IX(T, N) index_type<T, U>(r, N, #T);
    IX(vec2, 2) IX(vec3, 3) IX(vec4, 4) IX(ivec2, 2) IX(ivec3, 3) IX(ivec4, 4) IX(bvec2, 2) IX(bvec3, 3) IX(bvec4, 4) IX(mat2, 2) IX(mat3, 3) IX(mat4, 4) IX(quat, 4)
#define PT(T) pointer_type<T>("make_" #T, [](const Dim<T>::elem *p) { return make_##T(p); });
    PT(vec2) PT(vec3) PT(vec4) PT(ivec2) PT(ivec3) PT(ivec4) PT(bvec2) PT(bvec3) PT(bvec4) PT(mat2) PT(mat3) PT(mat4) PT(quat)
    // interpolation parameters
    std::vector<std::pair<float, bool>> ts;
    for (float t : {0.0f, -0.0f, 1.0f, 0.5f, 0.99999994f, 1e-45f, 1e-30f, 0.25f}) ts.push_back({t, true});
    for (float t : {-1e-45f, -1e-38f, -1e-7f, -0.5f, -1.0f, -1e30f, 1.00000012f, 1.0000002f, 1.5f, 2.0f, 1e30f, std::numeric_limits<float>::infinity(), -std::numeric_limits<float>::infinity(), bitsf(0x7fc00000), bitsf(0xffc00000), bitsf(0x7f800001), bitsf(0x7fffffff)}) ts.push_back({t, false});
    for (unsigned k = 0; k < c.n(40); ++k) { float t = bitsf(uint32_t(r.next() >> 32)); ts.push_back({t, t >= 0 && t <= 1}); }
    for (unsigned k = 0; k < c.n(40); ++k) { float t = float(r.u01()); ts.push_back({t, true}); }
    for (unsigned k = 0; k < c.n(20); ++k) { float t = float(r.u01() < 0.5 ? 1 + r.logu(1e-6, 1e3) : -r.logu(1e-30, 1e3)); ts.push_back({t, t >= 0 && t <= 1}); }
    for (auto &t : ts)
        for (int kind = 0; kind < 4; ++kind) {
            float q[4][4] = {{0, 0, 0, 1}, {0.5f, 0.5f, 0.5f, 0.5f}, {1, 0, 0, 0}, {-0.5f, 0.5f, -0.5f, 0.5f}};
            quat a = mk<quat>(q[r.below(4)]), b = kind >= 2 ? a : mk<quat>(q[r.below(4)]);
            judge("lerp", t.second, fs(t.first) + " kind " + std::to_string(kind), [&] { quat x = lerp(a, b, t.first); sink = *(unsigned char *)&x; });
            judge("nlerp", t.second, fs(t.first) + " kind " + std::to_string(kind), [&] { quat x = nlerp(a, b, t.first); sink = *(unsigned char *)&x; });
        }
    c.sample("index " + std::to_string(2) + " of vec2 beside an untouchable page, in a child process");
    c.sample("lerp with t = " + fs(ts[8].first));
}
