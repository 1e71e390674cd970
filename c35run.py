"""C35: what tools/combinations.py prints, and what the vector headers declare, against the exact sets of combinations; both are also compiled and run."""
import itertools, os, random, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
import vlib, ast_enum

ALPH = ("xyzw", "rgba", "stpq")


def combos(n, k):
    return set(itertools.product(range(n), repeat=k))


def parse(line):
    """indices and spellings of one printed declaration"""
    m = re.match(r"\s*(?:zcm\s*::\s*)?detail\s*::\s*[A-Za-z]\w*?(\d)\s*<([^>]*)>\s*([\w\s,]*);\s*$", line)
    if not m:
        return None
    targ = [x.strip() for x in m.group(2).split(",")]
    idx = tuple(int(x) for x in targ if re.fullmatch(r"\d+", x))
    ty = [x for x in targ if not re.fullmatch(r"\d+", x)]
    return int(m.group(1)), ty, idx, [x.strip() for x in m.group(3).split(",")]


def tool(args, timeout=60):
    return subprocess.run([sys.executable, vlib.REPO + "/tools/combinations.py"] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1"))


def extra_accessors(res, C, allowed):
    """Members of the vector types that are accessors (declared with the templates the known accessors use) but have none of the expected names."""
    with tempfile.TemporaryDirectory() as d:
        src = d + "/all.cpp"
        open(src, "w").write("".join("#include <zcm/%svec%d.hpp>\n" % (b, n) for b in ("", "i") for n in (2, 3, 4)))
        r = vlib.sh(["clang++", "-std=c++17", "-I", vlib.REPO + "/include", "-fsyntax-only", "-Xclang", "-ast-dump=json", "-Xclang", "-ast-dump-filter=vec", src])
    if r.returncode:
        res.violation("headers-do-not-parse", r.stderr[:2000])
        return
    members = {}

    def visit(node, cls):
        k = node.get("kind")
        if k == "NamespaceDecl":
            for c in node.get("inner", []):
                visit(c, None)
        elif k == "CXXRecordDecl" and node.get("completeDefinition"):
            name = node.get("name")
            if cls is None and name not in allowed:
                return
            if cls is None or name is None:
                for c in node.get("inner", []):
                    visit(c, cls or name)
        elif k == "FieldDecl" and cls and node.get("name"):
            members.setdefault(cls, {})[node["name"]] = node["type"].get("desugaredQualType", node["type"]["qualType"])
    for n in ast_enum.parse(r.stdout):
        visit(n, None)
    for T, names in allowed.items():
        mem = members.get(T, {})
        tmpl = {re.sub(r"<.*", "", t).split("::")[-1] for n, t in mem.items() if n in names and "<" in t}
        for n, t in sorted(mem.items()):
            if "<" in t and re.sub(r"<.*", "", t).split("::")[-1] in tmpl:
                C("accessor member of " + T, n)
                if n not in names:
                    res.violation("extra-accessor:%s:%s" % (T, n), "%s declares an accessor %s (%s), which is no combination of its component names" % (T, n, t))
    res.extra["accessor_members"] = sum(len(m) for m in members.values())


class Count:
    def __init__(self, res):
        self.res, self.seen = res, set()

    def __call__(self, group, what):
        with vlib._lock:
            r = self.res
            r.evals += 1
            r.groups[group] = r.groups.get(group, 0) + 1
            if (group, what) not in self.seen:
                self.seen.add((group, what))
                r.distinct += 1


def run(res, spec, pool, tier):
    C = Count(res)
    rnd = random.Random(res.seed)
    d = tempfile.mkdtemp(prefix="c35-")
    progs = []
    try:
        # ---- what the tool prints
        for n in (2, 3, 4):
            for k in range(1, n + 1):
                r = tool([str(n), str(k)])
                if r.returncode:
                    res.violation("tool-fails:%d:%d" % (n, k), r.stderr[-1500:])
                    continue
                got, names = {}, {}
                lines = [l for l in r.stdout.splitlines() if l.strip()]
                for l in lines:
                    p = parse(l)
                    C("printed declaration %d %d" % (n, k), l)
                    if not p:
                        res.violation("not-a-declaration:%d:%d" % (n, k), "printed: " + l)
                        continue
                    sz, ty, idx, sp = p
                    if sz != n or ty != ["float", "vec%d" % k]:
                        res.violation("wrong-type:%d:%d" % (n, k), "printed: " + l)
                    if idx in got:
                        res.violation("repeated:%d:%d" % (n, k), "combination %s printed twice: %s" % (idx, l))
                    got[idx] = sp
                    want = ["".join(a[i] for i in idx) if all(i < n for i in idx) else "?" for a in ALPH]
                    if sorted(sp) != sorted(want):
                        res.violation("spelling:%d:%d" % (n, k), "printed %s for components %s, expected %s" % (sp, idx, want))
                if set(got) != combos(n, k):
                    res.violation("set:%d:%d" % (n, k), "missing %s, extra %s" % (sorted(combos(n, k) - set(got))[:5], sorted(set(got) - combos(n, k))[:5]))
                # the printed declarations in a program
                if k >= 2:
                    t = ['#include <zcm/vec2.hpp>', '#include <zcm/vec3.hpp>', '#include <zcm/vec4.hpp>', '#include <cstdio>', '#include <cstring>', 'using namespace zcm;',
                         'struct probe { union { float _data[%d];' % n, r.stdout, '}; };', 'int main() { probe p; int bad = 0, all = 0; for (int i = 0; i < %d; ++i) p._data[i] = 1.5f + i;' % n]
                    for idx in sorted(combos(n, k)):
                        for a in ALPH:
                            nm = "".join(a[i] for i in idx)
                            t.append("  { vec%d v = p.%s; float f[%d]; memcpy((void *)f, (void *)&v, sizeof f); ++all; if (%s) { ++bad; printf(\"BAD %s\\n\"); } }" % (k, nm, k, " || ".join("f[%d] != 1.5f + %d" % (j, i) for j, i in enumerate(idx)), nm))
                    t.append('  printf("ALL %d\\n", all); return bad ? 1 : 0; }')
                    progs.append(("printed %d %d" % (n, k), "\n".join(t)))
        for args in ([], ["2"], ["2", "3"], ["3", "4"], ["1", "4"]):
            r = tool(args)
            C("tool called wrongly", str(args))
            if r.returncode == 0:
                res.violation("tool-accepts:%s" % " ".join(args), "arguments %s: status 0, printed %s" % (args, r.stdout[:200]))
            if len(args) == 2 and r.stdout.strip():
                res.violation("tool-prints:%s" % " ".join(args), "arguments %s printed %s" % (args, r.stdout[:200]))
        # ---- what the headers declare: every possible name is either an accessor of the right components or no member at all
        others = []
        for k in (2, 3, 4):
            for _ in range(60 if tier == "quick" else 600):
                s = "".join(rnd.choice("xyzwrgbastpq") for _ in range(k))
                if not any(set(s) <= set(a) for a in ALPH):
                    others.append(s)
        for a in ALPH:
            for _ in range(20):
                others.append("".join(rnd.choice(a) for _ in range(5)))
        extra_accessors(res, C, {"%s%d" % (b, n): {"".join(a[i] for i in idx) for k in range(1, n + 1) for idx in combos(n, k) for a in ALPH} for b in ("vec", "ivec") for n in (2, 3, 4)})
        for base in ("vec", "ivec"):
            for n in (2, 3, 4):
                T, E, V = "%s%d" % (base, n), "float" if base == "vec" else "int32_t", base
                declared = {}
                for k in range(1, n + 1):
                    for idx in combos(n, k):
                        for a in ALPH:
                            declared["".join(a[i] for i in idx)] = idx
                names = set(declared) | set(others)
                for k in (1, 2, 3, 4):
                    for a in ALPH:
                        names |= {"".join(x) for x in itertools.product(a, repeat=k)}
                names = sorted(names)
                t = ["#include <zcm/%s%d.hpp>" % (base, i) for i in (2, 3, 4)] + ["#include <cstdio>", "#include <cstring>", "#include <type_traits>", "using namespace zcm; template <class...> struct mv { typedef void t; };"]
                body = []
                for s in names:
                    t.append("template <class T, class = void> struct h_%s { static const bool v = false; }; template <class T> struct h_%s<T, typename mv<decltype(((T *)0)->%s)>::t> { static const bool v = true; };" % (s, s, s))
                    body.append('  ++all; if (h_%s<%s>::v != %s) { ++bad; printf("DECL %s\\n"); }' % (s, T, "true" if s in declared else "false", s))
                body2 = []
                for s, idx in sorted(declared.items()):
                    k = len(idx)
                    if k == 1:
                        body2.append('  { %s v = p.%s; ++all; if (v != 3 + 2 * %d) { ++bad; printf("BAD %s\\n"); } }' % (E, s, idx[0], s))
                    else:
                        body2.append('  { %s%d v = p.%s; %s f[%d]; memcpy((void *)f, (void *)&v, sizeof f); ++all; if (%s) { ++bad; printf("BAD %s\\n"); } }' % (V, k, s, E, k, " || ".join("f[%d] != 3 + 2 * %d" % (j, i) for j, i in enumerate(idx)), s))
                progs.append(("declared " + T, "\n".join(t + ["int main() { int bad = 0, all = 0;"] + body + ['  printf("ALL %d\\n", all); return bad ? 1 : 0; }'])))
                progs.append(("read " + T, "\n".join(t[:3] + ["#include <cstdio>", "#include <cstring>", "using namespace zcm;", "int main() { int bad = 0, all = 0; %s p; { %s f[%d]; for (int i = 0; i < %d; ++i) f[i] = 3 + 2 * i; memcpy((void *)&p, (void *)f, sizeof f); }" % (T, E, n, n)] + body2 + ['  printf("ALL %d\\n", all); return bad ? 1 : 0; }'])))
        cfgs = ["dbg-asan", "rel-O2"] if tier == "quick" else ["dbg-asan", "rel-O2", "rel-clang", "dbg-O0", "dbg-clang"]

        def go(item):
            (name, text), cfg = item
            p = "%s/%s.cpp" % (d, name.replace(" ", "_"))
            exe, err = vlib.build_exe(cfg, [p], pool)
            if not exe:
                if err[0] == "library":
                    raise vlib.CheckError("the library does not build: " + err[1])
                m = re.search(r"error: (.*)", err[1])
                if name.startswith("printed"):
                    res.violation("printed-does-not-compile:%s" % name, err[1][:3000], config=cfg)
                else:
                    res.violation("%s:does-not-compile:%s" % (name, m.group(1)[:120] if m else ""), err[1][:3000], config=cfg)
                return
            r = vlib.run_exe([exe])
            if r is None or r.returncode not in (0, 1) or "ALL " not in r.stdout:
                res.violation("run:%s" % name, r.stderr[-2000:] if r else "no answer", config=cfg)
                return
            for l in r.stdout.splitlines():
                if l.startswith("ALL"):
                    for k in range(int(l.split()[1])):
                        C("name " + name, k)
                elif l.startswith("BAD"):
                    res.violation("components:%s" % name, "%s: accessor %s reads other components than its name says" % (name, l[4:]), config=cfg)
                elif l.startswith("DECL"):
                    res.violation("declared:%s:%s" % (name, l[5:]), "%s: whether %s is a member is not as the combinations say" % (name, l[5:]), config=cfg)
        with ThreadPoolExecutor(8) as outer:
            # write the sources first: several configurations share them
            for name, text in progs:
                open("%s/%s.cpp" % (d, name.replace(" ", "_")), "w").write(text)
            for f in [outer.submit(go, (p, c)) for p in progs for c in cfgs]:
                f.result()
        res.samples = ["combinations.py 4 3", "probe of every name over %s for vec2..4, ivec2..4" % (ALPH,), "names of no accessor: " + " ".join(others[:8])]
    finally:
        shutil.rmtree(d, ignore_errors=True)
