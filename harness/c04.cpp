// Integer vector ordering: lexicographic, total, and usable as a container key.
#include "common.h"
#include <map>
#include <set>
using namespace zcm;

template <class V> int lex(const V &a, const V &b) { int x[4], y[4]; get(a, x); get(b, y); for (int i = 0; i < Dim<V>::n; ++i) if (x[i] != y[i]) return x[i] < y[i] ? -1 : 1; return 0; }
template <class V> void pairchk(Ctx &c, const V &a, const V &b) {
    const std::string T = Dim<V>::name();
    int e = lex(a, b);
    c.eval(hall(1, a, b));
    std::string in;
    auto bad = [&](const char *k) { c.fail(T + k, str(a) + ", " + str(b)); };
    if ((a < b) != (e < 0)) bad(" <");
    if ((a > b) != (e > 0)) bad(" >");
    if ((a <= b) != (e <= 0)) bad(" <=");
    if ((a >= b) != (e >= 0)) bad(" >=");
    if ((a == b) != (e == 0)) bad(" ==");
    if ((a != b) != (e != 0)) bad(" !=");
    if (int(a < b) + int(a == b) + int(a > b) != 1) bad(" trichotomy");
    if ((a < b) != (b > a) || (a <= b) != (b >= a)) bad(" mirrored");
    if ((a < b) && (b < a)) bad(" asymmetry");
}
template <class V> V near_key(Rng &r) { int x[4]; for (int &i : x) i = int(r.below(3)) - 1; return mk<V>(x); }
template <class V> struct Less { bool operator()(const std::vector<int> &a, const std::vector<int> &b) const { return a < b; } };
template <class V> std::vector<int> key(const V &v) { int x[4]; get(v, x); return std::vector<int>(x, x + Dim<V>::n); }

template <class V> void one(Ctx &c, Rng &r) {
    const std::string T = Dim<V>::name();
    const int N = Dim<V>::n;
    // exhaustive over a small grid, including the extremes
    c.group(T + " grid pairs");
    static const int vals[] = {INT32_MIN, -1, 0, 1, INT32_MAX};
    const int K = N == 4 ? 3 : 5;
    std::vector<V> g;
    u64 tot = 1; for (int i = 0; i < N; ++i) tot *= K;
    for (u64 m = 0; m < tot; ++m) { int x[4]; u64 k = m; for (int i = 0; i < N; ++i) { x[i] = vals[(K == 3 ? 1 : 0) + k % K]; k /= K; } g.push_back(mk<V>(x)); }
    for (auto &a : g) for (auto &b : g) pairchk(c, a, b);
    c.group(T + " random pairs");
    u64 n = c.n(120000);
    for (u64 i = 0; i < n; ++i) { STEP(r)
        V a = ti_any<V>(r), b = ti_any<V>(r);
        int x[4], y[4]; get(a, x); get(b, y);
        int pre = r.below(N + 1);
        for (int k = 0; k < pre; ++k) y[k] = x[k];           // shared prefix
        if (r.chance(1, 3) && pre < N) y[pre] = r.coin() ? (x[pre] == INT32_MAX ? INT32_MIN : x[pre] + 1) : (x[pre] == INT32_MIN ? INT32_MAX : x[pre] - 1);
        b = mk<V>(y);
        pairchk(c, a, b);
        if (i < 2) c.sample(T + " compare " + str(a) + ", " + str(b));
    }
    c.group(T + " transitivity");
    for (u64 i = 0; i < n / 2; ++i) { STEP(r)
        V a = r.coin() ? near_key<V>(r) : ti_any<V>(r), b = r.coin() ? near_key<V>(r) : ti_any<V>(r), d = r.coin() ? near_key<V>(r) : ti_any<V>(r);
        c.eval(hall(2, a, b, d));
        if ((a < b) && (b < d) && !(a < d)) c.fail(T + " < not transitive", sall(a, b, d));
        if ((a <= b) && (b <= d) && !(a <= d)) c.fail(T + " <= not transitive", sall(a, b, d));
    }
    // container histories against a reference keyed by plain integers
    c.group(T + " container histories");
    u64 hs = c.n(60);
    for (u64 h = 0; h < hs; ++h) { STEP(r)
        std::map<V, int, std::less<V>> m; std::set<V> s;
        std::map<std::vector<int>, int> ref;
        std::vector<V> sorted;
        bool wide = r.coin();
        u64 hh = 5;
        for (int step = 0; step < 300; ++step) {
            V k = wide ? ti_any<V>(r) : near_key<V>(r);
            int o = r.below(4);
            hh = hall(hh, k);
            c.eval(hh + o);
            if (o <= 1) { int v = int(r.below(1000)); m[k] = v; ref[key(k)] = v; s.insert(k); sorted.push_back(k); }
            else if (o == 2) { size_t e1 = m.erase(k), e2 = ref.erase(key(k)), e3 = s.erase(k); if (e1 != e2 || e3 != e2) c.fail(T + " map erase", str(k)); }
            else { auto i1 = m.find(k); auto i2 = ref.find(key(k)); if ((i1 == m.end()) != (i2 == ref.end()) || (i2 != ref.end() && i1->second != i2->second) || s.count(k) != (i2 != ref.end())) c.fail(T + " map lookup", str(k)); }
            if (m.size() != ref.size() || s.size() != ref.size()) { c.fail(T + " map size", std::to_string(m.size()) + " instead of " + std::to_string(ref.size())); break; }
        }
        auto j = ref.begin();
        for (auto i = m.begin(); i != m.end() && j != ref.end(); ++i, ++j) if (key(i->first) != j->first || i->second != j->second) { c.fail(T + " map iteration order", str(i->first)); break; }
        std::sort(sorted.begin(), sorted.end());
        for (size_t i = 1; i < sorted.size(); ++i) if (lex(sorted[i - 1], sorted[i]) > 0) { c.fail(T + " sort", str(sorted[i - 1]) + " before " + str(sorted[i])); break; }
    }
}
void run(Ctx &c, Rng &r) { one<ivec2>(c, r); one<ivec3>(c, r); one<ivec4>(c, r); }
