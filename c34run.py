"""C34: the benchmark generator run under an event-recording, fault-injecting preload; its projects built by their own scripts and run."""
import glob, hashlib, json, os, random, re, shutil, stat, subprocess, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor
import vlib

NFILES, NFUNCS = 100, 10000
EXPECT = {"file%d.%s" % (i, e) for i in range(NFILES) for e in ("cpp", "h")} | {"main.cpp", "glm-build.sh", "zcm-build.sh"}


def snapshot(root, skip=None):
    out = {}
    for d, ds, fs in os.walk(root):
        if skip and (d == skip or d.startswith(skip + "/")):
            continue
        ds.sort()
        for f in fs + [x for x in ds if os.path.islink(d + "/" + x)]:
            p = d + "/" + f
            st = os.lstat(p)
            out[os.path.relpath(p, root)] = (st.st_mode, st.st_size, st.st_mtime_ns, os.readlink(p) if os.path.islink(p) else hashlib.md5(open(p, "rb").read()).hexdigest() if stat.S_ISREG(st.st_mode) else "")
        for x in ds:
            out[os.path.relpath(d + "/" + x, root) + "/"] = ()
    return out


def read(p):
    with open(p, errors="replace") as f:
        return f.read()


def strip(t):
    t = re.sub(r"/\*.*?\*/", " ", t, flags=re.S)
    return re.sub(r"//[^\n]*", " ", t)


def structure(d):
    """What is wrong with a generated project, judged from its files alone."""
    bad = []
    missing = [f for f in sorted(EXPECT) if not os.path.isfile(d + "/" + f)]
    if missing:
        return ["missing files: " + ", ".join(missing[:5])]
    defs, decls = {}, {}
    for i in range(NFILES):
        s = strip(read("%s/file%d.cpp" % (d, i)))
        h = strip(read("%s/file%d.h" % (d, i)))
        if s.count("{") != s.count("}"):
            bad.append("file%d.cpp is cut short (unbalanced braces)" % i)
        df = re.findall(r"\bvoid\s+(func\d+)\s*\(\s*(?:void)?\s*\)\s*\{", s)
        dc = re.findall(r"\bvoid\s+(func\d+)\s*\(\s*(?:void)?\s*\)\s*;", h)
        for n in df:
            defs.setdefault(n, []).append(i)
        for n in dc:
            decls.setdefault(n, []).append(i)
        if sorted(df) != sorted(dc):
            bad.append("file%d.h does not declare exactly what file%d.cpp defines" % (i, i))
    if len(defs) != NFUNCS:
        bad.append("%d functions defined" % len(defs))
    dup = [n for n, f in defs.items() if len(f) != 1]
    if dup:
        bad.append("%s defined %d times" % (dup[0], len(defs[dup[0]])))
    m = strip(read(d + "/main.cpp"))
    body = m[m.find("main"):]
    calls = re.findall(r"\b(func\d+)\s*\(\s*\)\s*;", body)
    if sorted(calls) != sorted(defs):
        bad.append("main calls %d functions, %d distinct" % (len(calls), len(set(calls))))
    if m.count("{") != m.count("}"):
        bad.append("main.cpp is cut short")
    for v in ("glm", "zcm"):
        sc = read("%s/%s-build.sh" % (d, v))
        named = re.findall(r"(\S+\.cpp)", sc)
        if sorted(named) != sorted(f for f in EXPECT if f.endswith(".cpp")):
            bad.append("%s-build.sh names %d sources" % (v, len(named)))
        if not sc.startswith("#!"):
            bad.append("%s-build.sh has no interpreter line" % v)
    return bad


class Bench:
    def __init__(self, res, pool, tier):
        self.res, self.pool, self.tier = res, pool, tier
        self.d = tempfile.mkdtemp(prefix="c34-")
        self.n = 0
        self.lock = threading.Lock()
        self.faults_hit = 0
        self.events = 0

    def build(self):
        src = sorted(glob.glob(vlib.REPO + "/tools/benchgen/*.cpp"))
        fl = ["g++", "-std=c++17", "-w"]
        self.exe, self.san = self.d + "/benchgen", self.d + "/benchgen-san"
        f = [self.pool.submit(vlib.sh, fl + ["-O1"] + src + ["-o", self.exe, "-lfmt", "-lstdc++fs"]), self.pool.submit(vlib.sh, fl + ["-O1", "-g1"] + vlib.SAN + ["-D_GLIBCXX_ASSERTIONS"] + src + [vlib.HARN + "/rand34.c", "-o", self.san, "-lfmt", "-lstdc++fs"]),
             self.pool.submit(vlib.sh, ["gcc", "-O1", "-w", "-shared", "-fPIC", vlib.HARN + "/shim34.c", "-o", self.d + "/shim.so", "-ldl"]),
             self.pool.submit(vlib.sh, ["g++", "-O1", "-c", vlib.HARN + "/count34.cpp", "-o", self.d + "/count.o"])]
        for k, x in enumerate(f):
            r = x.result()
            if r.returncode:
                raise vlib.CheckError("cannot build the generator or its observers: " + r.stderr[:2000])

    def fresh(self):
        with self.lock:
            self.n += 1
            r = "%s/r%d" % (self.d, self.n)
        os.makedirs(r + "/home/target")
        open(r + "/home/sibling.txt", "w").write("sibling\n")
        open(r + "/file0.cpp", "w").write("outside\n")
        os.makedirs(r + "/cwd")
        open(r + "/cwd/main.cpp", "w").write("bystander\n")
        return r

    def seen(self, group, h, sample=None):
        with vlib._lock:
            self.res.evals += 1
            self.res.groups[group] = self.res.groups.get(group, 0) + 1
            self.hs = getattr(self, "hs", set())
            h = repr(h)
            if (group, h) not in self.hs:
                self.hs.add((group, h))
                self.res.distinct += 1
            if sample and len(self.res.samples) < 10:
                self.res.samples.append(sample)

    def run(self, root, args, time_=None, rand=None, fault=None, san=False, cwd=None, preload=True, user=None):
        env = dict(os.environ, LC_ALL="C")
        env.update(vlib.SANENV)
        log = root + "/events.log"
        if preload and not san:
            env.update(LD_PRELOAD=self.d + "/shim.so", SHIM_LOG=log, SHIM_ROOT=os.path.realpath(root))
            if time_ is not None:
                env["SHIM_TIME"] = str(time_)
            if rand:
                env["SHIM_RAND"] = rand
            if fault:
                env["SHIM_FAULT"] = fault
        if san:
            env["RAND34"] = rand or "r%d" % self.n
        kw = {}
        if user:
            kw = dict(user=user, group=user, extra_groups=[])
        r = subprocess.run([self.san if san else self.exe] + list(args), stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=env, cwd=cwd or root + "/cwd", text=True, errors="replace", timeout=120, **kw)
        ev = []
        if os.path.exists(log):
            ev = [l.split("\t") for l in os.fsdecode(open(log, "rb").read()).split("\n") if "\t" in l]
            os.unlink(log)
        self.events += len(ev)
        return r, ev

    def v(self, key, detail):
        self.res.violation(key, detail)

    def good(self, tag, root, target, args, extra_before=None, **kw):
        """a run that must succeed: complete structure, nothing else touched"""
        out0 = snapshot(root, target)
        in0 = {k: x for k, x in snapshot(target).items() if k.rstrip("/") not in EXPECT}
        r, ev = self.run(root, args, **kw)
        self.seen(tag, (args and args[-1], str(kw), sorted(in0)))
        what = "%s, arguments %s, %s" % (tag, args, {k: x for k, x in kw.items() if x})
        if "runtime error" in r.stderr or "Sanitizer" in r.stderr:
            self.v("sanitizer", what + ": " + r.stderr[-1500:])
            return None
        if r.returncode:
            self.v("fails:" + tag, "%s: status %d, %s" % (what, r.returncode, r.stderr[-300:]))
            return None
        bad = structure(target)
        for b in bad[:3]:
            self.v("structure:%s:%s" % (tag, re.sub(r"\d+", "N", b)[:60]), what + ": " + b)
        out1 = snapshot(root, target)
        if out0 != out1:
            ch = [k for k in set(out0) | set(out1) if out0.get(k) != out1.get(k)]
            self.v("touches-outside", what + ": changed " + ", ".join(sorted(ch)[:5]))
        in1 = {k: x for k, x in snapshot(target).items() if k not in EXPECT}
        if in0 != in1:
            ch = [k for k in set(in0) | set(in1) if in0.get(k) != in1.get(k)]
            self.v("touches-other-files", what + ": created, changed or removed " + ", ".join(sorted(ch)[:5]))
        rt = os.path.realpath(target)
        for op, p in [e for e in ev if e[0] != "fault"]:
            q = os.path.join(os.path.realpath(os.path.dirname(p)), os.path.basename(p))
            if os.path.dirname(q) != rt:
                # devices of the terminal and the like are no files of the user
                if not q.startswith(("/dev/", "/proc/")):
                    self.v("event-outside", "%s: %s %s" % (what, op, p))
        return None if bad else {f: hashlib.md5(open(target + "/" + f, "rb").read()).hexdigest() for f in EXPECT}

    def failing(self, tag, root, args, **kw):
        """a run that must end with a failure status and change nothing"""
        a = snapshot(root)
        r, ev = self.run(root, args, **kw)
        self.seen(tag, str(args) + str(kw))
        if r.returncode == 0:
            self.v("succeeds:" + tag, "%s: arguments %s ended with status 0" % (tag, args))
        for op, p in ev:
            if op == "outside":
                self.v("event-outside", "%s: arguments %s tried to change %s" % (tag, args, p))
        b = snapshot(root)
        if a != b:
            self.v("failing-run-changes:" + tag, "%s: arguments %s changed %s" % (tag, args, sorted(k for k in set(a) | set(b) if a.get(k) != b.get(k))[:5]))

    def faulty(self, tag, root, target, fault, ref, **kw):
        """a run with an injected fault: success only with the complete project"""
        r, ev = self.run(root, [target], fault=fault, **kw)
        hit = any(e[0] == "fault" for e in ev)
        self.seen(tag, fault)
        if hit:
            with self.lock:
                self.faults_hit += 1
        if r.returncode == 0:
            bad = structure(target)
            if not bad and ref:
                ch = [f for f in sorted(EXPECT) if hashlib.md5(open(target + "/" + f, "rb").read()).hexdigest() != ref[f]]
                bad = ["%s differs from an undisturbed run" % ch[0]] if ch else []
            if bad:
                self.v("succeeds-with-fault:" + tag, "fault %s: status 0 but %s" % (fault, bad[0]))
            if hit and fault.split(":")[0] in ("open", "write", "close") and not bad:
                # the file was written all the same (a retry would be fine); anything else is a lost error
                pass
        elif not hit and not fault.startswith("short"):
            self.v("fails:" + tag, "fault %s never happened, yet status %d: %s" % (fault, r.returncode, r.stderr[-300:]))
        elif fault.split(":")[0] in ("short", "eintr"):
            self.v("fails:" + tag, "short or interrupted writes ended with status %d: %s" % (r.returncode, r.stderr[-300:]))

    def compiled(self, tag, target, variant, lib):
        """run the project's own build script and the program it makes"""
        s = tempfile.mkdtemp(prefix="b-", dir=self.d)
        os.makedirs(s + "/bin")
        open(s + "/bin/g++", "w").write("#!/bin/sh\nexec python3 %s/gxx34.py \"$@\"\n" % vlib.HARN)
        os.chmod(s + "/bin/g++", 0o755)
        sc = read("%s/%s-build.sh" % (target, variant))
        if not os.path.exists("/usr/bin/time"):
            sc = sc.replace("/usr/bin/time ", "")
        open(s + "/build.sh", "w").write(sc)
        os.makedirs(s + "/lib")
        shutil.copy(lib, s + "/lib/libbenchzcm.a")
        env = dict(os.environ, PATH=s + "/bin:" + os.environ["PATH"], GXX_SCRATCH=s, GXX_COUNTER=self.d + "/count.o", ZCM_INCLUDE_PATH=vlib.REPO + "/include", ZCM_LIBRARY_PATH=s + "/lib", ZCM_LIBRARY_NAME="benchzcm")
        r = vlib.sh(["sh", s + "/build.sh"], timeout=800, cwd=target, env=env)
        self.seen("%s project built by its script" % variant, tag)
        if r.returncode or not os.path.exists(s + "/prog"):
            rep = json.load(open(s + "/report.json")) if os.path.exists(s + "/report.json") else {"errors": []}
            self.v("does-not-build:%s" % variant, "%s: status %d %s %s" % (tag, r.returncode, rep["errors"][:2], r.stderr[-800:]))
            return
        rep = json.load(open(s + "/report.json"))
        own = set()
        nm = vlib.sh(["nm", "-C"] + rep["objects"])
        gen = set(re.findall(r" T (func\d+)\(\)", nm.stdout))
        env["COUNT_OUT"] = s + "/counts"
        r = subprocess.run([s + "/prog"], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
        if r.returncode:
            self.v("program-fails:%s" % variant, "%s: the built program ended with status %d" % (tag, r.returncode))
            return
        m = vlib.sh(["nm", "-C", s + "/prog"]).stdout
        addr = {int(a, 16): n for a, n in re.findall(r"^([0-9a-f]+) T (.*)$", m, re.M)}
        cnt = [(int(a, 16), int(n)) for a, n in (l.split() for l in read(s + "/counts").splitlines())]
        # the program may be position independent: find the load offset from main
        mainaddr = [a for a, n in addr.items() if n == "main"][0]
        low = {}
        for off in {a - mainaddr for a, n in cnt}:
            if all((a - off) in addr for a, n in cnt[:50]):
                low = {addr[a - off]: n for a, n in cnt if (a - off) in addr}
                break
        calls = {n: low.get(n + "()", 0) for n in gen}
        wrong = sorted(n for n, c in calls.items() if c != 1)
        with vlib._lock:
            self.res.evals += len(calls)
            self.res.groups["%s generated function entered" % variant] = self.res.groups.get("%s generated function entered" % variant, 0) + sum(1 for c in calls.values() if c)
        if len(gen) != NFUNCS or wrong:
            self.v("calls:%s" % variant, "%s: %d generated functions; %d not entered exactly once, for instance %s entered %s times" % (tag, len(gen), len(wrong), wrong[:1], [calls[w] for w in wrong[:1]]))
        shutil.rmtree(s)


def run(res, spec, pool, tier):
    rnd = random.Random(res.seed)
    B = Bench(res, pool, tier)
    big = tier != "quick"
    outer = ThreadPoolExecutor(8)
    try:
        B.build()
        lib, log = vlib.build_lib("rel-O2", pool)
        if not lib:
            raise vlib.CheckError("the library does not build: " + log)
        fs = []
        t0 = 1600000000 + res.seed * 1000
        # undisturbed runs and what they build
        r1 = B.fresh()
        tg1 = r1 + "/home/target"
        ref = B.good("empty directory", r1, tg1, [tg1], time_=t0)
        r2 = B.fresh()
        ref2 = B.good("empty directory", r2, r2 + "/home/target", [r2 + "/home/target"], time_=t0)
        size = {n: os.path.getsize(tg1 + "/" + n) for n in EXPECT if os.path.exists(tg1 + "/" + n)}
        if ref != ref2:
            ref = None     # its random choices do not come from time() and rand(): contents cannot be compared between runs
        if ref:
            fs += [outer.submit(B.compiled, "empty directory", tg1, v, lib) for v in ("zcm", "glm")]
        # random choices
        for k in range(30 if big else 4):
            def g(k=k):
                r = B.fresh()
                B.good("random choices", r, r + "/home/target", [r + "/home/target"], time_=rnd.randrange(2 ** 31))
                shutil.rmtree(r)
            fs.append(outer.submit(g))
        for m in "0Mca":
            def g(m=m):
                r = B.fresh()
                ok = B.good("extreme random numbers", r, r + "/home/target", [r + "/home/target"], rand=m)
                if ok and big:
                    B.compiled("random numbers " + m, r + "/home/target", "zcm", lib)
                    if big:
                        B.compiled("random numbers " + m, r + "/home/target", "glm", lib)
                shutil.rmtree(r)
            fs.append(outer.submit(g))
        # forms of the path
        def path_forms():
            for form in ("relative", "slash", "dot", "symlink", "space", "updir", "deep", "dashes"):
                r = B.fresh()
                t = r + "/home/target"
                cwd = r + "/cwd"
                if form == "space":
                    t = r + "/home/a b\u00e9 'c'"
                    os.makedirs(t)
                if form == "deep":
                    t = r + "/home/" + "/".join("d%d" % i for i in range(30))
                    os.makedirs(t)
                if form == "dashes":
                    t = r + "/cwd/--help"
                    os.makedirs(t)
                a = {"relative": "../home/target", "slash": t + "//", "dot": ".", "symlink": r + "/link", "updir": r + "/home/../home/target/", "dashes": "--help"}.get(form, t)
                if form == "dot":
                    cwd = t
                if form == "symlink":
                    os.symlink(t, r + "/link")
                B.good("path form " + form, r, t, [a], time_=t0 + 5, cwd=cwd)
                shutil.rmtree(r)
            # names made of characters that mean something to a formatter, a shell or a path library
            odd = ["{}", "{0} {", "}{x}", "%s%n%d", "$HOME `id` $(id)", "back\\slash", "*?[a]", "'\"", "-", "...", "file0.cpp", "main.cpp", "~", "#;&|<>!", "n" * 200, "trailing ", " leading", "a,b=c:d", os.fsdecode(b"\xff\xfe\x80"), "\u65e5\u672c", "line\nbreak"]
            for k, name in enumerate(odd):
                r = B.fresh()
                t = r + "/home/" + name
                os.makedirs(t)
                rel = (k + res.seed) % 2
                B.good("directory with an odd name", r, t, [name if rel and name != "-" else t], time_=t0 + 6, cwd=r + "/home" if rel else r + "/cwd", preload="\n" not in name)
                if k % 4 == 0:
                    B.failing("wrong arguments", r, [t + "/{} %s missing"])
                shutil.rmtree(r)
        fs.append(outer.submit(path_forms))
        # under the sanitizers
        def san():
            for k, m in enumerate("zd0Mcar" * (4 if big else 1)):
                r = B.fresh()
                B.good("under AddressSanitizer and UBSan", r, r + "/home/target", [r + "/home/target"], san=True, rand="%s%d" % (m, res.seed * 64 + k))
                shutil.rmtree(r)
        fs.append(outer.submit(san))
        # leftovers
        def leftovers(k):
            q = random.Random(res.seed * 977 + k)
            r = B.fresh()
            t = r + "/home/target"
            kind = k % 6
            names = sorted(EXPECT)
            if kind in (0, 1, 4):
                for n in names if kind == 0 else q.sample(names, q.randrange(1, len(names))):
                    open(t + "/" + n, "w").write("leftover } garbage\n" * q.randrange(0, 20000 if n == "main.cpp" else 600))
            if kind == 5:      # garbage of exactly the length the new file will have
                for n in names if k == 5 else q.sample(names, q.randrange(1, len(names))):
                    open(t + "/" + n, "w").write(("garbage %d } " % k * (size.get(n, 0) // 9 + 1))[:size.get(n, 0)])
            if kind == 2:
                B.run(r, [t], time_=q.randrange(2 ** 31))      # an earlier complete run
            if kind == 3:
                B.run(r, [t], time_=q.randrange(2 ** 31), fault="%s:%d" % (q.choice(("open", "write")), q.randrange(1, 120)))   # an earlier run that failed
            if kind == 4:
                for n in q.sample(names, 20):
                    os.chmod(t + "/" + n, 0o444) if os.path.exists(t + "/" + n) else None
            for n in ("a.out", "notes.txt", "file100.cpp", "file100.h", "file-1.cpp", "file.cpp", "main.cpp.bak", "main.h", "file1.cpp~", "sub/file0.cpp", "file0.o", "build.sh", ".hidden", "xfile1.cpp"):
                os.makedirs(os.path.dirname(t + "/" + n), exist_ok=True)
                open(t + "/" + n, "w").write("mine %d\n" % q.randrange(1000))
            got = B.good("leftovers kind %d" % kind, r, t, [t], time_=t0)
            if ref and got:
                ch = [f for f in names if got[f] != ref[f]]
                if ch:
                    B.v("leftovers-show", "leftovers kind %d: %s differs from the same run in an empty directory" % (kind, ch[:3]))
            shutil.rmtree(r)
        for k in range(60 if big else 12):
            fs.append(outer.submit(leftovers, k))
        # wrong arguments
        def wrong():
            for args in ([], ["a", "b"], ["{t}", "{t}"], ["{t}", "x", "y"], ["{r}/no/such/folder"], [""], ["{r}/file0.cpp"], ["{t}/missing"], ["{r}/dangling"], ["{r}/file0.cpp/x"], ["{r}/fifo"], ["{r}/" + "x" * 3000], ["{r}/" + "y/" * 2500], ["{t}", ""]):
                r = B.fresh()
                os.symlink(r + "/nowhere", r + "/dangling")
                os.mkfifo(r + "/fifo")
                B.failing("wrong arguments", r, [a.replace("{t}", r + "/home/target").replace("{r}", r) for a in args])
                shutil.rmtree(r)
        fs.append(outer.submit(wrong))
        # files it cannot write
        def blocked(k):
            q = random.Random(res.seed * 31 + k)
            names = sorted(EXPECT)
            n = ["main.cpp", "zcm-build.sh", "glm-build.sh"][k] if k < 3 else q.choice(names)
            for how in ("directory", "full"):
                r = B.fresh()
                t = r + "/home/target"
                if how == "directory":
                    os.makedirs(t + "/" + n)
                    open(t + "/" + n + "/keep", "w").write("x")
                else:
                    os.symlink("/dev/full", t + "/" + n)
                p, ev = B.run(r, [t], time_=t0)
                B.seen("blocked by a " + how, n)
                if p.returncode == 0 and (how == "directory" or structure(t) or os.path.islink(t + "/" + n)):
                    B.v("succeeds:blocked", "%s was a %s that cannot be written, yet status 0" % (n, how))
                if not os.path.exists("/dev/full"):
                    raise vlib.CheckError("/dev/full is gone")
                if how == "directory" and not os.path.exists(t + "/" + n + "/keep"):
                    B.v("removes-user-directory", "%s was a directory with a file of the user and was removed" % n)
                shutil.rmtree(r)
        for k in range(40 if big else 6):
            fs.append(outer.submit(blocked, k))
        # a directory the user may not write to
        def readonly():
            if os.geteuid():
                return
            r = B.fresh()
            t = r + "/home/target"
            for p in (B.d, r, r + "/home", t, r + "/cwd"):
                os.chmod(p, 0o755)
            try:
                p, ev = B.run(r, [t], preload=False, user=65534)
            except (PermissionError, subprocess.SubprocessError):
                return
            B.seen("directory without write permission", "1")
            if p.returncode == 0:
                B.v("succeeds:read-only directory", "an unprivileged run in a directory it cannot write ended with status 0")
        readonly()
        # injected faults
        faults = ["short:0"] + ["eintr:%d" % k for k in (1, 2, 77, 203)]
        tot = len(EXPECT)
        if big:
            faults += ["open:%d" % k for k in range(1, tot + 1)] + ["write:%d" % k for k in range(1, tot + 1, 2)] + ["close:%d" % k for k in range(1, tot + 1)]
        else:
            for kind in ("open", "write", "close"):
                faults += ["%s:%d" % (kind, k) for k in [1, 2, tot - 2, tot - 1, tot] + rnd.sample(range(3, tot - 2), 5)]
        def flt(f):
            r = B.fresh()
            B.faulty("injected %s fault" % f.split(":")[0], r, r + "/home/target", f, ref, time_=t0)
            shutil.rmtree(r)
        for f in faults:
            fs.append(outer.submit(flt, f))
        def unl(k):
            r = B.fresh()
            t = r + "/home/target"
            B.run(r, [t], time_=t0 + 9)
            B.faulty("injected unlink fault", r, t, "unlink:%d" % k, ref, time_=t0)
            shutil.rmtree(r)
        for k in range(1, 201, 7 if big else 67):
            fs.append(outer.submit(unl, k))
        for f in fs:
            f.result()
        res.extra.update(faults_injected_and_hit=B.faults_hit, file_events_recorded=B.events)
        if not B.faults_hit and not res.viols:
            raise vlib.CheckError("no injected fault was hit")
        res.samples += ["target directory forms and leftovers of %d runs, fault points %s" % (B.n, faults[:12])]
    finally:
        outer.shutdown()
        shutil.rmtree(B.d, ignore_errors=True)
