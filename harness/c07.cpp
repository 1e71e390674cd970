// Constructors, conversions, make_*, value_ptr and indexing: where every component goes.
#include "common.h"
#include <zcm/type_ptr.hpp>
using namespace zcm;

static const char *const FULL = "";
template <class T> typename Dim<T>::elem ge(Rng &r);
template <> float ge<vec2>(Rng &r) { return f_any(r); }
template <> float ge<vec3>(Rng &r) { return f_any(r); }
template <> float ge<vec4>(Rng &r) { return f_any(r); }
template <> float ge<quat>(Rng &r) { return f_any(r); }
template <> float ge<mat2>(Rng &r) { return f_any(r); }
template <> float ge<mat3>(Rng &r) { return f_any(r); }
template <> float ge<mat4>(Rng &r) { return f_any(r); }
template <> int32_t ge<ivec2>(Rng &r) { return i_any(r); }
template <> int32_t ge<ivec3>(Rng &r) { return i_any(r); }
template <> int32_t ge<ivec4>(Rng &r) { return i_any(r); }
template <> bool ge<bvec2>(Rng &r) { return r.coin(); }
template <> bool ge<bvec3>(Rng &r) { return r.coin(); }
template <> bool ge<bvec4>(Rng &r) { return r.coin(); }

template <class T> struct Case {
    typedef typename Dim<T>::elem E;
    std::string in;
    E e[16];
};
template <class T> void chk(const char *what, const T &got, const typename Dim<T>::elem *e, u64 h) {
    Ctx &c = ctx();
    std::string k = std::string(Dim<T>::name()) + " " + what;
    c.group(k); c.eval(hsh(got, h));
    T x = mk<T>(e);
    if (!samev(got, x)) expect_same(k.c_str(), got, x, "components expected as shown");
}
// fill n elements with distinguishable values: independent draws, made pairwise different where the type allows
template <class T> void draw(Rng &r, typename Dim<T>::elem *e, int n) { for (int i = 0; i < n; ++i) e[i] = ge<T>(r); }

template <class T> void common_part(Ctx &c, Rng &r) {
    typedef typename Dim<T>::elem E; const int n = Dim<T>::n;
    E e[16], f[16];
    draw<T>(r, e, n); draw<T>(r, f, n);
    T t = mk<T>(e);
    { T u = t; chk("copy construction", u, e, 1); T v = mk<T>(f); v = t; chk("copy assignment", v, e, 2); chk("copy assignment source", t, e, 3); T w(std::move(u)); chk("move construction", w, e, 4); T &self = v; v = self; chk("self assignment", v, e, 5); }
}
// vectors and quaternions: [] is one element
template <class T> void index_part(Ctx &c, Rng &r) {
    typedef typename Dim<T>::elem E; const int n = Dim<T>::n;
    E e[16], f[16];
    draw<T>(r, e, n); draw<T>(r, f, n);
    T t = mk<T>(e); const T k = t;
    std::string nm = Dim<T>::name();
    c.group(nm + " operator[]");
    for (unsigned i = 0; i < unsigned(n); ++i) {
        c.eval(hsh(t, i));
        if (!same(E(t[i]), e[i])) c.fail(nm + " operator[] read", str(t) + " index " + std::to_string(i));
        if (!same(E(k[i]), e[i])) c.fail(nm + " operator[] const read", str(t) + " index " + std::to_string(i));
        T u = t; u[i] = f[i]; E x[16]; for (int j = 0; j < n; ++j) x[j] = e[j]; x[i] = f[i];
        chk("write through operator[]", u, x, 6);
        if (&t[i] != reinterpret_cast<E *>(&t) + i) c.fail(nm + " operator[] storage", "index " + std::to_string(i) + " is not that component's storage");
    }
    for (unsigned i = 0; i < unsigned(n); ++i) { unsigned j = r.below(n); T u = t; u[i] = u[j]; E x[16]; for (int q = 0; q < n; ++q) x[q] = e[q]; x[i] = e[j]; chk("u[i] = u[j]", u, x, 7); }
}
template <class T> void ptr_part(Ctx &c, Rng &r) {
    typedef typename Dim<T>::elem E; const int n = Dim<T>::n;
    E e[16], f[16];
    draw<T>(r, e, n); draw<T>(r, f, n);
    T t = mk<T>(e); const T k = t;
    std::string nm = Dim<T>::name();
    c.group(nm + " value_ptr"); c.eval(hsh(t, 8));
    E *p = value_ptr(t); const E *q = value_ptr(k);
    if ((void *)p != (void *)&t) c.fail(nm + " value_ptr address", "does not point at the first component");
    if ((const void *)q != (const void *)&k) c.fail(nm + " const value_ptr address", "does not point at the first component");
    for (int i = 0; i < n; ++i) { if (!same(p[i], e[i]) || !same(q[i], e[i])) c.fail(nm + " value_ptr read", str(t) + " component " + std::to_string(i)); }
    int i = r.below(n); p[i] = f[i]; e[i] = f[i]; chk("write through value_ptr", t, e, 9);
}
template <class T, class M> void make_part(Ctx &, Rng &r, M m) {
    typedef typename Dim<T>::elem E; const int n = Dim<T>::n;
    E buf[48];
    for (int off = 0; off < 4; ++off) { draw<T>(r, buf, 40); chk("make", m(buf + off), buf + off, 10 + off); }
}
#define E1(...) { E e1_[] = {__VA_ARGS__}; memcpy((void *)e, (void *)e1_, sizeof e1_); }
template <class V2, class V3, class V4> void vec_ctors(Ctx &, Rng &r) {
    typedef typename Dim<V2>::elem E; E e[16], a = ge<V2>(r), b = ge<V2>(r), d = ge<V2>(r), f = ge<V2>(r);
    E ab[2] = {a, b}, bd[2] = {b, d}, df[2] = {d, f}, abd[3] = {a, b, d}, bdf[3] = {b, d, f};
    V2 vab = mk<V2>(ab), vbd = mk<V2>(bd), vdf = mk<V2>(df); V3 vabd = mk<V3>(abd), vbdf = mk<V3>(bdf);
    E1(0, 0, 0, 0) chk("()", V2(), e, 20); chk("()", V3(), e, 20); chk("()", V4(), e, 20); { V2 x{}; V3 y{}; V4 z{}; chk("{}", x, e, 20); chk("{}", y, e, 20); chk("{}", z, e, 20); }
    E1(a, a, a, a) chk("(scalar)", V2(a), e, 21); chk("(scalar)", V3(a), e, 21); chk("(scalar)", V4(a), e, 21);
    E1(a, b, d, f) chk("(components)", V2(a, b), e, 22); chk("(components)", V3(a, b, d), e, 22); chk("(components)", V4(a, b, d, f), e, 22);
    chk("(xy, z)", V3(vab, d), e, 23); chk("(x, yz)", V3(a, vbd), e, 24);
    chk("(xyz, w)", V4(vabd, f), e, 25); chk("(x, yzw)", V4(a, vbdf), e, 26); chk("(xy, zw)", V4(vab, vdf), e, 27);
    chk("(xy, z, w)", V4(vab, d, f), e, 28); chk("(x, yz, w)", V4(a, vbd, f), e, 29); chk("(x, y, zw)", V4(a, b, vdf), e, 30);
}
template <class V, class I> void int_fill(Rng &r) {
    int32_t i = r.chance(1, 2) ? int(r.below(33554433)) - 16777216 : i_any(r);
    float e[4]; for (float &x : e) x = float(i);
    chk("(int)", V(i), e, 31);
    V v = V(i); chk("= (int)", v, e, 32);
}
template <class V> void noinit(Rng &r) { V v{no_init_t()}; typename Dim<V>::elem e[16]; draw<V>(r, e, Dim<V>::n); v = mk<V>(e); chk("(no_init) then assigned", v, e, 33); }
template <class I, class B> void to_bool(Rng &r) {
    int32_t e[4]; bool b[4]; for (int i = 0; i < Dim<I>::n; ++i) { e[i] = r.coin() ? 0 : i_any(r); if (r.chance(1, 6)) e[i] = 1 << r.below(32); b[i] = e[i] != 0; }
    I v = mk<I>(e); B x = v; chk("from integer vector", x, b, hsh(v)); chk("static_cast from integer vector", static_cast<B>(v), b, hsh(v)); chk("integer vector unchanged", v, e, 34);
}
template <class M, class V> void mat_cols(Ctx &c, Rng &r, int n) {
    float e[16], f[4]; draw<M>(r, e, n * n); draw<V>(r, f, n);
    M m = mk<M>(e); const M k = m; std::string nm = Dim<M>::name();
    c.group(nm + " operator[]");
    for (int i = 0; i < n; ++i) {
        c.eval(hsh(m, i));
        chk("column read", V(m[i]), e + i * n, 40); chk("constant column read", V(k[i]), e + i * n, 41);
        M u = m; u[i] = mk<V>(f); float x[16]; memcpy(x, e, sizeof x); memcpy(x + i * n, f, n * sizeof(float)); chk("column write", u, x, 42);
        int j = r.below(n); u = m; u[i][j] = f[0]; memcpy(x, e, sizeof x); x[i * n + j] = f[0]; chk("element write", u, x, 43);
        if (!same(float(k[i][j]), e[i * n + j])) c.fail(nm + " element read", str(m) + " column " + std::to_string(i) + " row " + std::to_string(j));
        if ((void *)&m[i] != (void *)(reinterpret_cast<float *>(&m) + i * n)) c.fail(nm + " column storage", "column " + std::to_string(i) + " is elsewhere");
    }
}
void run(Ctx &c, Rng &r) {
    (void)FULL;
    for (u64 it = 0, n = c.n(6000); it < n; ++it) { STEP(r)
        common_part<vec2>(c, r); common_part<vec3>(c, r); common_part<vec4>(c, r); common_part<ivec2>(c, r); common_part<ivec3>(c, r); common_part<ivec4>(c, r);
        common_part<bvec2>(c, r); common_part<bvec3>(c, r); common_part<bvec4>(c, r); common_part<quat>(c, r); common_part<mat2>(c, r); common_part<mat3>(c, r); common_part<mat4>(c, r);
        index_part<vec2>(c, r); index_part<vec3>(c, r); index_part<vec4>(c, r); index_part<ivec2>(c, r); index_part<ivec3>(c, r); index_part<ivec4>(c, r);
        index_part<bvec2>(c, r); index_part<bvec3>(c, r); index_part<bvec4>(c, r); index_part<quat>(c, r);
        ptr_part<vec2>(c, r); ptr_part<vec3>(c, r); ptr_part<vec4>(c, r); ptr_part<bvec2>(c, r); ptr_part<bvec3>(c, r); ptr_part<bvec4>(c, r); ptr_part<quat>(c, r); ptr_part<mat2>(c, r); ptr_part<mat3>(c, r); ptr_part<mat4>(c, r);
        make_part<vec2>(c, r, make_vec2); make_part<vec3>(c, r, make_vec3); make_part<vec4>(c, r, make_vec4); make_part<ivec2>(c, r, make_ivec2); make_part<ivec3>(c, r, make_ivec3); make_part<ivec4>(c, r, make_ivec4);
        make_part<bvec2>(c, r, make_bvec2); make_part<bvec3>(c, r, make_bvec3); make_part<bvec4>(c, r, make_bvec4); make_part<quat>(c, r, make_quat); make_part<mat2>(c, r, make_mat2); make_part<mat3>(c, r, make_mat3); make_part<mat4>(c, r, make_mat4);
        vec_ctors<vec2, vec3, vec4>(c, r); vec_ctors<ivec2, ivec3, ivec4>(c, r); vec_ctors<bvec2, bvec3, bvec4>(c, r);
        int_fill<vec2, ivec2>(r); int_fill<vec3, ivec3>(r); int_fill<vec4, ivec4>(r);
        noinit<vec2>(r); noinit<vec3>(r); noinit<vec4>(r); noinit<ivec2>(r); noinit<ivec3>(r); noinit<ivec4>(r); noinit<quat>(r); noinit<mat2>(r); noinit<mat3>(r); noinit<mat4>(r);
        to_bool<ivec2, bvec2>(r); to_bool<ivec3, bvec3>(r); to_bool<ivec4, bvec4>(r);
        mat_cols<mat2, vec2>(c, r, 2); mat_cols<mat3, vec3>(c, r, 3); mat_cols<mat4, vec4>(c, r, 4);
        { // quaternions: stored x, y, z, w
            float x = f_any(r), y = f_any(r), z = f_any(r), w = f_any(r), v[3] = {x, y, z}; typedef float E; float e[16]; vec3 u = mk<vec3>(v);
            E1(0, 0, 0, 1) chk("()", quat(), e, 50);
            E1(x, y, z, w) chk("(w, x, y, z)", quat(w, x, y, z), e, 51); chk("wxyz", quat::wxyz(w, x, y, z), e, 52); chk("(scalar, vec3)", quat(w, u), e, 53); chk("(vec3, scalar)", quat(u, w), e, 54);
            quat q = mk<quat>(e); c.group("quat members"); c.eval(hsh(q, 55));
            if (!same(q.x, x) || !same(q.y, y) || !same(q.z, z) || !same(q.w, w)) c.fail("quat members", str(q));
            q.x = y; q.y = z; q.z = w; q.w = x; E1(y, z, w, x) chk("member write", q, e, 56);
        }
        { // matrices
            float e[16], s = f_any(r), a[16]; draw<mat4>(r, a, 16);
            auto diag = [&](int n, float v) { for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) e[i * n + j] = i == j ? v : 0.0f; };
            diag(2, 1); chk("()", mat2(), e, 60); diag(3, 1); chk("()", mat3(), e, 60); diag(4, 1); chk("()", mat4(), e, 60);
            diag(2, s); chk("(scalar)", mat2(s), e, 61); diag(3, s); chk("(scalar)", mat3(s), e, 61); diag(4, s); chk("(scalar)", mat4(s), e, 61);
            chk("(elements)", mat2(a[0], a[1], a[2], a[3]), a, 62); chk("(elements)", mat3(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8]), a, 62);
            chk("(elements)", mat4(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11], a[12], a[13], a[14], a[15]), a, 62);
            chk("(columns)", mat2(mk<vec2>(a), mk<vec2>(a + 2)), a, 63); chk("(columns)", mat3(mk<vec3>(a), mk<vec3>(a + 3), mk<vec3>(a + 6)), a, 63); chk("(columns)", mat4(mk<vec4>(a), mk<vec4>(a + 4), mk<vec4>(a + 8), mk<vec4>(a + 12)), a, 63);
            mat2 m2 = mk<mat2>(a); mat3 m3 = mk<mat3>(a); mat4 m4 = mk<mat4>(a);
            diag(3, 1); e[0] = a[0]; e[1] = a[1]; e[3] = a[2]; e[4] = a[3]; chk("(mat2)", mat3(m2), e, 64);
            diag(4, 1); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) e[i * 4 + j] = a[i * 3 + j]; chk("(mat3)", mat4(m3), e, 65);
            e[0] = a[0]; e[1] = a[1]; e[2] = a[3]; e[3] = a[4]; chk("from mat3", mat2(m3), e, 66); chk("static_cast from mat3", static_cast<mat2>(m3), e, 66);
            for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) e[i * 3 + j] = a[i * 4 + j]; chk("from mat4", mat3(m4), e, 67); chk("static_cast from mat4", static_cast<mat3>(m4), e, 67);
            chk("mat2 unchanged", m2, a, 68); chk("mat3 unchanged", m3, a, 68); chk("mat4 unchanged", m4, a, 68);
        }
    }
    c.sample("make_mat3 from offset 1 of a buffer of 40 random bit patterns"); c.sample("mat3(mat2) keeps the 2x2 part and fills in the identity");
}
