"""C32: generated programs that include the public headers in every way, compiled, linked and run."""
import os, random, re, shutil, subprocess, tempfile, time
from concurrent.futures import ThreadPoolExecutor
import vlib, ast_enum, gen_api, wholerun

FLAGSETS = {"": [], "nosw": ["-DZCM_DISABLE_SWIZZLE"], "rel": ["-DNDEBUG", "-DZCM_RELEASE_BUILD"], "rel+nosw": ["-DNDEBUG", "-DZCM_RELEASE_BUILD", "-DZCM_DISABLE_SWIZZLE"]}


def err1(log):
    m = re.search(r"error: (.*)", log) or re.search(r"(undefined reference to `[^']*')", log) or re.search(r"(multiple definition of `[^']*')", log)
    return m.group(1)[:140] if m else log[:140]


class Programs:
    def __init__(self, res, pool, d):
        self.res, self.pool, self.d, self.n, self.seen = res, pool, d, 0, set()
        self.futs = []

    def count(self, group, h):
        with vlib._lock:
            self.res.evals += 1
            self.res.groups[group] = self.res.groups.get(group, 0) + 1
            if (group, h) not in self.seen:
                self.seen.add((group, h))
                self.res.distinct += 1

    def check(self, group, key, cc, std, flags, text, cmd_extra=("-fsyntax-only",), quiet=("-w",)):
        self.n += 1
        p = "%s/p%d.cpp" % (self.d, self.n)
        open(p, "w").write(text)

        def go():
            cmd = [cc, "-std=" + std] + list(quiet) + flags + ["-I", vlib.REPO + "/include"] + list(cmd_extra) + [p]
            r = vlib.sh(cmd, timeout=300)
            self.count(group, (cc, std, tuple(flags), text))
            if r.returncode:
                self.res.violation("%s:%s" % (key, err1(r.stderr)), "%s %s %s\nprogram:\n%s\n%s" % (cc, std, " ".join(flags), text[:1500], r.stderr[:2500]), config="%s %s" % (cc, std))
        self.futs.append(self.pool.submit(go))

    def wait(self):
        for f in self.futs:
            f.result()
        self.futs = []

    def program(self, group, key, cfg, std, texts, flags=(), expect=None, lib=None):
        """compile several sources, link them with the library of a configuration and run the program"""
        self.n += 1
        base = "%s/q%d" % (self.d, self.n)
        cc, cf = vlib.CONFIGS[cfg]
        objs = []

        def one(i, t):
            p = "%s_%d.cpp" % (base, i)
            open(p, "w").write(t)
            rc, log = vlib.compile_one(cc, cf + list(flags), p, p + ".o", std)
            return rc, log, p + ".o"
        rs = [one(i, t) for i, t in enumerate(texts)]
        self.count(group, (cfg, std, tuple(flags), tuple(texts)))
        for rc, log, o in rs:
            if rc:
                self.res.violation("%s:compile:%s" % (key, err1(log)), "%s -std=%s %s\n%s" % (cfg, std, flags, log[:3000]), config=cfg)
                return None
            objs.append(o)
        r = vlib.sh([cc] + cf + list(flags) + objs + [lib, "-o", base, "-lpthread"], timeout=300)
        if r.returncode:
            self.res.violation("%s:link:%s" % (key, err1(r.stderr)), r.stderr[-3000:], config=cfg)
            return None
        r = vlib.run_exe([base], 120)
        if r is None or r.returncode:
            self.res.violation("%s:run" % key, "status %s\n%s" % (r.returncode if r else "none", r.stderr[-2000:] if r else ""), config=cfg)
            return None
        for o in objs:
            os.unlink(o)
        os.unlink(base)
        return r.stdout


def addr_program(h, fns, defined):
    """A program that includes one header only and takes the address of every function that header itself brings in."""
    o = ["#include <%s>" % h, "typedef void (*any)();", "template <class F> void use(F f, unsigned long &n) { volatile F g = f; n += g != F(); }", "int main() { unsigned long n = 0;"]
    cnt = 0
    for f in fns:
        if f.mangled not in defined or f.kind == "ctor":
            continue
        ps = ", ".join(f.params)
        t = lambda s: s
        if f.kind == "func":
            nm = "zcm::" + f.name
            o.append("  { using namespace zcm; use(static_cast<%s (*)(%s)>(&%s), n); }" % (f.ret, ps, nm))
        elif f.static:
            o.append("  { using namespace zcm; use(static_cast<%s (*)(%s)>(&zcm::%s::%s), n); }" % (f.ret, ps, f.cls, f.name))
        else:
            o.append("  { using namespace zcm; use(static_cast<%s (zcm::%s::*)(%s)%s>(&zcm::%s::%s), n); }" % (f.ret, f.cls, ps, " const" if f.const else "", f.cls, f.name))
        cnt += 1
    o.append("  return n == %d ? 0 : 3; }" % cnt)
    return "\n".join(o) + "\n", cnt


GUARD = re.compile(r"^[A-Z0-9_]*(_H|_HPP|_INC|_INCLUDED|_GUARD)_*$")


def macros(res, P, heads, outer):
    """Macros a public header leaves defined, or takes away, that are not marked as the library's own."""
    def go(h, cc, std, fl):
        p = "%s/m%s.cpp" % (P.d, abs(hash((h, cc, std, tuple(fl)))))
        open(p, "w").write("#include <%s>\n" % h)
        r = vlib.sh([cc, "-std=" + std, "-w", "-dD", "-E", "-I", vlib.REPO + "/include"] + fl + [p], timeout=300)
        if r.returncode:
            return                       # reported by the header-alone check
        where, mine = "", {}
        root = os.path.realpath(vlib.REPO + "/include")
        n = 0
        for l in r.stdout.splitlines():
            m = re.match(r'#(?:line)? ?\d+ "([^"]*)"', l)
            if m:
                where = m.group(1)
                continue
            m = re.match(r"#\s*(define|undef)\s+(\w+)(.*)", l)
            if not m or not os.path.realpath(where).startswith(root):
                continue
            n += 1
            op, name, body = m.groups()
            if re.match(r"_*zcm", name, re.I) or op == "define" and not body.strip() and GUARD.match(name):
                continue
            if op == "define":
                mine[name] = where
            elif name in mine:
                del mine[name]
            else:
                res.violation("macro-removed:%s" % name, "%s (%s -std=%s %s) undefines %s, which it did not define" % (h, cc, std, fl, name), config=cc)
        P.count("macros of one header", (h, cc, std, tuple(fl)))
        res.extra["macro_events"] = res.extra.get("macro_events", 0) + n
        for name, f in mine.items():
            res.violation("macro:%s" % name, "including <%s> (%s -std=%s %s) leaves the macro %s defined, from %s" % (h, cc, std, fl, name, f), config=cc)
    for h in heads:
        for cc, std, fl in (("g++", "c++14", []), ("clang++", "c++17", []), ("g++", "c++20", FLAGSETS["rel+nosw"])):
            P.futs.append(outer.submit(go, h, cc, std, fl))


def run(res, spec, pool, tier):
    heads = ast_enum.headers()
    rnd = random.Random(res.seed * 7 + 1)
    thorough = tier != "quick"
    d = tempfile.mkdtemp(prefix="c32-")
    outer = ThreadPoolExecutor(6)
    try:
        P = Programs(res, outer, d)
        inc = lambda hs: "".join("#include <%s>\n" % h for h in hs)
        # the declarations of the whole interface, and those that nothing defines
        lib = None
        for cfg in ("rel-O2", "dbg-O0", "rel-clang", "dbg-nosw"):
            one, log = vlib.build_lib(cfg, pool)
            if not one:
                res.violation("library:%s:%s" % (cfg, err1(log)), "the library does not build in configuration %s: %s" % (cfg, log[:3000]), config=cfg)
            lib = lib or one
        if not lib:
            return
        fns, err = ast_enum.enumerate_api()
        if fns is None:
            # every pair of headers, so that the report names the two that do not go together
            for a, b in [(a, b) for a in heads for b in heads if a <= b]:
                P.check("ordered pair", "pair:%s:%s" % (a, b), "clang++", "c++17", [], inc((a, b)) + "int main() { return 0; }\n")
            P.wait()
            res.violation("all-headers:%s" % err1(err), "clang++ -std=c++17 refuses a program that includes all the public headers:\n" + err[:3000])
            return
        src, ents, undefined, skipped = gen_api.generate(os.path.join(vlib.VERIF, "build", "gen", "api-%s" % vlib.tree_hash()[:16]), lib)
        src = src + [os.path.join(vlib.HARN, "whole.cpp")]
        res.extra["declarations_callable"] = len(ents)
        for f in undefined:
            # confirm with a program that uses it
            e = gen_api.entry(f)
            body = e[2] if e else "(void)&zcm::%s;" % f.name
            text = '#include "api.h"\n' + inc(heads) + "void *const *volatile nowhere; void run(Ctx &, Rng &) { Out o; void *const *a = nowhere; if (ctx().seed == 12345) { %s } }\n" % body
            p = "%s/undef%d.cpp" % (d, P.n)
            P.n += 1
            open(p, "w").write(text)
            exe, e2 = vlib.build_exe("rel-O2", [p], pool)
            P.count("undefined declaration", f.sig())
            if not exe:
                res.violation("undefined:%s" % f.name, "a program using %s does not build: %s" % (f.sig(), e2[1][-1500:]))
        # every declaration used in one program, in several standards and configurations; the programs are run
        plan = [("rel-O2", "c++14", ()), ("dbg-O0", "c++20", ()), ("dbg-nosw", "c++17", ())]
        if thorough:
            plan += [("rel-O2", "c++20", ()), ("dbg-O0", "c++14", ()), ("rel-clang", "c++14", ()), ("rel-clang", "c++20", ()), ("dbg-clang", "c++17", ()), ("rel-nosw", "c++20", ()), ("dbg-nosw", "c++14", ())]
        plan = [(c, s, tuple(e)) for c, s, e in plan]

        def whole(c):
            cfg, std, extra = c
            exe, err = vlib.build_exe(cfg, src, pool, extra, std=std, cc_tag=std)
            if not exe:
                res.violation("whole-interface:%s:%s:%s" % (cfg, std, err1(err[1])), err[1][-3000:], config=cfg)
                return
            dd = tempfile.mkdtemp(dir=d)
            cmd = [exe, "--seed", str(res.seed), "--scale", "0.2", "--mode", "digest", "--out", dd + "/o"]
            r = vlib.run_exe(cmd)
            if r is None or r.returncode:
                res.violation("whole-interface-run:%s:%s" % (cfg, std), "%s\n%s" % (cmd, r.stderr[-2000:] if r else "no answer"), config=cfg)
                return
            lines = open(dd + "/o").read().splitlines()
            for l in lines:
                P.count("declaration linked and called (%s %s)" % (cfg, std), l[17:])
        whs = [outer.submit(whole, c) for c in plan]
        # each header on its own
        macros(res, P, heads, outer)
        for h in heads:
            P.check("header alone, later standards' extensions refused", "extension:%s" % h, "clang++", "c++14", ["-Wno-everything"], "#include <%s>\nint main() { return 0; }\n" % h, ("-fsyntax-only", "-Wno-everything", "-Werror=c++17-extensions", "-Werror=c++20-extensions"), quiet=())
        for cc in ("g++", "clang++"):
            for std in ("c++14", "c++17", "c++20") if cc == "g++" or thorough else ("c++17",):
                for fl in FLAGSETS:
                    for h in heads:
                        P.check("header alone", "alone:%s" % h, cc, std, FLAGSETS[fl], "#include <%s>\nint main() { return 0; }\n" % h)
        # pairs and permutations
        pairs = [(a, b) for a in heads for b in heads if a != b]
        rnd.shuffle(pairs)
        for a, b in pairs if thorough else pairs[:120]:
            P.check("ordered pair", "pair:%s:%s" % (a, b), rnd.choice(("g++", "clang++")), rnd.choice(("c++14", "c++17", "c++20")), FLAGSETS[rnd.choice(list(FLAGSETS))], inc((a, b)) + "int main() { return 0; }\n")
        for k in range(400 if thorough else 40):
            hs = heads[:]
            rnd.shuffle(hs)
            hs += rnd.sample(heads, 5)
            P.check("permutation of all headers", "permutation", rnd.choice(("g++", "clang++")), rnd.choice(("c++14", "c++17", "c++20")), FLAGSETS[rnd.choice(list(FLAGSETS))], inc(hs) + "int main() { return 0; }\n")
        # several source files of one program
        cfgs = ["dbg-O0", "rel-O2", "rel-clang", "dbg-nosw"]
        libs = {c: vlib.build_lib(c, pool)[0] for c in cfgs}
        for k in range(24 if thorough else 6):
            cfg = cfgs[k % len(cfgs)]
            if not libs[cfg]:
                res.violation("library:%s" % cfg, "the library does not build in configuration " + cfg, config=cfg)
                continue
            texts = []
            for t in range(3):
                hs = heads[:]
                rnd.shuffle(hs)
                ns = "int part%d() { zcm::vec3 a(1, 2, 3); zcm::mat4 m = zcm::translate(zcm::vec3(a)); zcm::quat q = zcm::quat_identity(); return int(m[3].z + q.w + zcm::dot(a, a) + zcm::abs(-2.0f)); }\n" % t
                ns = "int part%d() { zcm::vec3 a(1, 2, 3); return int(zcm::dot(a, a) + zcm::abs(-2.0f)); }\n" % t
                texts.append(inc(hs) + ns)
            texts.append("int part0(); int part1(); int part2(); int main() { return part0() + part1() + part2() == 48 ? 0 : 4; }\n")
            P.futs.append(outer.submit(P.program, "several source files", "multi", cfg, rnd.choice(("c++14", "c++17", "c++20")), texts, lib=libs[cfg]))
        # what a header declares can be named and linked with that header alone
        defined = ast_enum.defined_symbols(lib)
        total = [0]

        def alone(h, cfg, std):
            fns, err = ast_enum.enumerate_api([h])
            if fns is None:
                return   # reported by the header-alone check
            text, n = addr_program(h, fns, defined)
            with vlib._lock:
                total[0] += n
            if libs[cfg]:
                P.program("declarations of one header linked", "header-program:%s" % h, cfg, std, [text], lib=libs[cfg])
        for h in heads:
            for cfg, std in ((("dbg-O0", "c++17"),) if not thorough else (("dbg-O0", "c++14"), ("rel-O2", "c++17"), ("rel-clang", "c++20"), ("dbg-nosw", "c++17"))):
                P.futs.append(outer.submit(alone, h, cfg, std))
        P.wait()
        for f in whs:
            f.result()
        res.extra["addresses_taken"] = total[0]
        res.extra["headers"] = len(heads)
        res.samples = ["#include <%s> / #include <%s>" % p for p in pairs[:4]] + [e[0] for e in rnd.sample(ents, 4)]
    finally:
        outer.shutdown()
        shutil.rmtree(d, ignore_errors=True)
