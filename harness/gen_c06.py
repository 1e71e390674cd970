"""Writes the accessor monitor's tables: one small function per accessor name of every vector type. Names come from the
naming scheme (three alphabets), not from the headers, so a missing or misdirected accessor does not disappear from the check."""
import itertools, os, sys
ALPH = ["xyzw", "rgba", "stpq"]
CHUNK = 100


def names(n, ln):
    for idx in itertools.product(range(n), repeat=ln):
        for al in ALPH:
            yield "".join(al[i] for i in idx), idx


def generate(outdir):
    os.makedirs(outdir, exist_ok=True)
    files = {}
    entries = []
    for is_int in (0, 1):
        for n in (2, 3, 4):
            t = ("ivec%d" if is_int else "vec%d") % n
            pre = "ivec" if is_int else "vec"
            head = ['#define NO_MAIN', '#include "common.h"', '#include "c06.h"', 'using namespace zcm;',
                    'typedef %s V; typedef %s E;' % (t, "int32_t" if is_int else "float")]
            o = head + ['static const ScalarT<V, E> kScalars[] = {'] + ['  SCALAR(%s, %d)' % (nm, i) for nm, (i,) in names(n, 1)] + ['};']
            o += ['static const PairT<V, E> kPairs[] = {']
            for i in range(n):
                for j in range(n):
                    for a in range(3):
                        o.append('  PAIR(%s, %d, %s, %d)' % (ALPH[a][i], i, ALPH[(a + i + j) % 3][j], j))
            o += ['};']
            run = 'check_scalars(c, r, n * 4, kScalars, sizeof kScalars / sizeof *kScalars); check_pairs(c, r, n * 4, kPairs, sizeof kPairs / sizeof *kPairs);'
            if is_int:
                o += ['static const BitT<V> kBits[] = {'] + ['  SCALAR_INT(%s, %d)' % (nm, i) for nm, (i,) in names(n, 1)] + ['};']
                run += ' check_bits(c, r, n * 4, kBits, sizeof kBits / sizeof *kBits);'
            o.append('void run_%s(Ctx &c, Rng &r, u64 n) { %s }' % (t, run))
            files["c06_%s.cpp" % t] = o
            entries.append(("run_%s" % t, False))
            for ln in range(2, n + 1):
                chunk = list(names(n, ln))
                for k in range(0, len(chunk), CHUNK):
                    fn = "swz_%s_%d_%d" % (t, ln, k)
                    o = head + ['#ifndef ZCM_DISABLE_SWIZZLE', 'typedef %s%d R;' % (pre, ln), 'static const SwzT<V, R> kSwz[] = {']
                    o += ['  SWZ(R, %s, %d, %s)' % (nm, ln, ", ".join(map(str, idx))) for nm, idx in chunk[k:k + CHUNK]]
                    o += ['};', 'void %s(Ctx &c, Rng &r, u64 n) { check_swz<V, E, R>(c, r, n, kSwz, sizeof kSwz / sizeof *kSwz); }' % fn, '#endif']
                    files["c06_%s.cpp" % fn] = o
                    entries.append((fn, True))
    m = ['#include "common.h"']
    for sw in (False, True):
        if sw:
            m.append('#ifndef ZCM_DISABLE_SWIZZLE')
        m += ['void %s(Ctx &, Rng &, u64);' % f for f, s in entries if s == sw]
    m += ['#endif', 'void run(Ctx &c, Rng &r) {', '  u64 n = c.n(50);']
    m += ['  %s(c, r, n);' % f for f, s in entries if not s]
    m += ['#ifndef ZCM_DISABLE_SWIZZLE'] + ['  %s(c, r, n);' % f for f, s in entries if s] + ['#endif']
    m += ['  c.sample("every named component and swizzle of vec2, vec3, vec4, ivec2, ivec3, ivec4");', '}']
    files["c06_main.cpp"] = m
    src = []
    for name, o in sorted(files.items()):
        p = os.path.join(outdir, name)
        text = "\n".join(o) + "\n"
        if not os.path.exists(p) or open(p).read() != text:
            tmp = p + ".tmp%d" % os.getpid()
            with open(tmp, "w") as f:
                f.write(text)
            os.replace(tmp, p)
        src.append(p)
    return src


if __name__ == "__main__":
    print(generate(sys.argv[1]))
