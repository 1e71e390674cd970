"""Turns the enumerated public interface into a table of callable entries (api_*.cpp) shared by the whole-interface monitors.
Entries are made from what the headers declare today, so a new overload is covered without editing anything here."""
import os, re
import vlib, ast_enum
CODE = {"float": "f", "int": "i", "int32_t": "i", "unsigned int": "u", "unsigned": "u", "bool": "b", "size_t": "z", "unsigned long": "z"}
for k, t in enumerate(("vec2", "vec3", "vec4")):
    CODE[t] = "234"[k]
    CODE["i" + t] = "ABC"[k]
    CODE["b" + t] = "XYZ"[k]
for t, ch in (("mat2", "m"), ("mat3", "n"), ("mat4", "o"), ("quat", "q")):
    CODE[t] = ch
BOUND = {"2": 2, "3": 3, "4": 4, "A": 2, "B": 3, "C": 4, "X": 2, "Y": 3, "Z": 4, "m": 2, "n": 3, "o": 4, "q": 4}
# integer-valued functions that are defined for every argument
INT_ANY = {"==", "!=", "<", ">", "<=", ">=", "&", "|", "^", "~", "&=", "|=", "^=", "=", "[]", "!", "&&", "||"}
ALPH = "xyzw"
PER_FILE = 130


def base(t):
    t = t.replace("zcm::", "").replace("const ", "").replace("&", "").replace("*", "").strip()
    return t


def arg_policy(fn, k, code, nargs):
    """Which values keep this argument inside the function's domain."""
    op = fn.name[len("operator"):].strip() if fn.name.startswith("operator") else None
    is_method = fn.cls is not None and fn.kind == "method" and not fn.static
    if op == "[]":
        return "x" if k == 1 else "a"
    if code in "iABC":
        if op is None or fn.kind in ("ctor", "conv"):
            if fn.name == "abs":
                return "n"
            if fn.name == "compAdd":
                return "S"          # any order of adding stays inside int
            if fn.name == "compMul":
                return {"A": "k", "B": "K", "C": "L"}.get(code, "s")
            return "a"
        o = op[:-1] if op.endswith("=") and op not in ("==", "!=", "<=", ">=", "=") else op
        if o in ("<<", ">>"):
            return "H" if k == 0 else "h"
        if o in ("/", "%"):
            return "a" if k == 0 else "d"
        if op in INT_ANY or o in INT_ANY:
            return "a"
        if op in ("++", "--") or o in ("+", "-") and nargs == 2:
            return "j"
        if o == "-" and nargs == 1:
            return "n"
        if o == "*":
            return "k"
        return "s"
    if fn.name in ("lerp", "nlerp") and code == "f" and k == nargs - 1:
        return "t"
    if fn.name.startswith("perspective") and k == 1:
        return "p"
    return "a"


def build(outdir, tag_sig=None):
    """Writes the table; returns (sources, functions, undefined)."""
    fns, err = ast_enum.enumerate_api()
    if fns is None:
        raise vlib.CheckError("clang cannot parse the public headers together: " + err[:2000])
    return fns


def entry(fn):
    """(signature, [(code, mode, policy, bound)], C++ body) or None when the entry has no callable form"""
    params, call = [], []
    if fn.kind in ("method", "conv") and not fn.static:
        params.append((CODE[fn.cls], "R" if fn.const else "M", fn.cls, None))
    for k, p in enumerate(fn.params):
        if base(p) == "no_init_t":
            call.append("zcm::no_init_t{}")
            continue
        if fn.kind == "method" and fn.name in ("operator++", "operator--"):
            call.append("0")
            continue
        b = base(p)
        if b not in CODE:
            return None
        mode = "P" if "*" in p else ("R" if p.strip().startswith("const") and "&" in p else "M" if "&" in p else "V")
        n = 1
        if mode == "P":
            m = re.search(r"(mat|quat|vec)(\d?)", fn.name)
            if not m:
                return None
            n = 4 if m.group(1) == "quat" else int(m.group(2)) ** (2 if m.group(1) == "mat" else 1)
        params.append((CODE[b], mode, b, n))
    args, ci = [], 0
    off = 1 if fn.kind in ("method", "conv") and not fn.static else 0
    for k in range(off, len(params)):
        code, mode, b, n = params[k]
        ct = {"f": "float", "i": "int32_t", "u": "unsigned", "b": "bool"}.get(code, "zcm::" + b)
        args.append("(const %s *)a[%d]" % (ct, k) if mode == "P" else "*(%s%s *)a[%d]" % ("" if mode == "M" else "const ", ct, k))
    it = iter(args)
    final = []
    j = 0
    for p in fn.params:
        if base(p) == "no_init_t":
            final.append("zcm::no_init_t{}")
        elif fn.kind == "method" and fn.name in ("operator++", "operator--"):
            final.append("0")
        else:
            final.append(next(it))
    al = ", ".join(final)
    pol = []
    for k, (code, mode, b, n) in enumerate(params):
        pol.append((code, mode, arg_policy(fn, k, code, len(params)), BOUND.get(params[0][0], 0) if arg_policy(fn, k, code, len(params)) == "x" else (n or 0)))
    noinit = any(base(p) == "no_init_t" for p in fn.params)
    ret = fn.ret
    if fn.kind == "ctor":
        body = "zcm::%s r%s; %s" % (fn.cls, "{%s}" % al if False else ("(%s)" % al if al else ""), "(void)r;" if noinit else "ser(o, r);")
        if noinit:
            body = "zcm::%s r%s; (void)r;" % (fn.cls, "(%s)" % al)
    elif fn.kind == "conv":
        b = base(ret)
        if b not in CODE:
            return None
        ct = {"f": "float", "i": "int32_t", "u": "unsigned", "b": "bool"}.get(CODE[b], "zcm::" + b)
        body = "ser(o, (*(const zcm::%s *)a[0]).operator %s());" % (fn.cls, ct)
    else:
        if fn.kind == "method":
            callee = "zcm::%s::%s(%s)" % (fn.cls, fn.name, al) if fn.static else "(*(%szcm::%s *)a[0]).%s(%s)" % ("const " if fn.const else "", fn.cls, fn.name, al)
        else:
            callee = "zcm::%s(%s)" % (fn.name, al)
        if ret == "void":
            body = callee + ";"
        elif ret.endswith("&"):
            body = "{ auto &r = %s; o.off((const char *)&r - (const char *)a[0]); ser(o, r); }" % callee
        elif ret.endswith("*"):
            body = "{ auto p = %s; o.off((const char *)p - (const char *)a[0]); for (int i = 0; i < %d; ++i) ser(o, p[i]); }" % (callee, {"m": 4, "n": 9, "o": 16}.get(params[0][0], BOUND.get(params[0][0], 1)))
        else:
            body = "ser(o, %s);" % callee
    return fn.sig(), pol, body


def accessor_entries():
    out = []
    for is_int in (0, 1):
        for n in (2, 3, 4):
            t = ("ivec%d" if is_int else "vec%d") % n
            e = "int32_t" if is_int else "float"
            c = CODE[t]
            ec = "i" if is_int else "f"
            P = lambda op: ("k" if op == "*=" else "j") if is_int else "a"
            for al in ("xyzw", "rgba", "stpq"):
                for ch in al[:n]:
                    out.append(("%s.%s" % (t, ch), [(c, "R", "a", 0)], "ser(o, (%s)((const zcm::%s *)a[0])->%s);" % (e, t, ch), 0))
                    out.append(("%s.%s = scalar" % (t, ch), [(c, "M", "a", 0), (ec, "V", "a", 0)], "((zcm::%s *)a[0])->%s = *(const %s *)a[1];" % (t, ch, e), 0))
                    out.append(("%s.%s = same name" % (t, ch), [(c, "M", "a", 0), (c, "R", "a", 0)], "((zcm::%s *)a[0])->%s = ((const zcm::%s *)a[1])->%s;" % (t, ch, t, ch), 0))
                    for op in ("+=", "-=", "*="):
                        out.append(("%s.%s %s scalar" % (t, ch, op), [(c, "M", P(op), 0), (ec, "V", P(op), 0)], "((zcm::%s *)a[0])->%s %s *(const %s *)a[1];" % (t, ch, op, e), 0))
                    out.append(("%s.%s /= scalar" % (t, ch), [(c, "M", "a", 0), (ec, "V", "d" if is_int else "a", 0)], "((zcm::%s *)a[0])->%s /= *(const %s *)a[1];" % (t, ch, e), 0))
                    for op in ("++", "--"):
                        out.append(("%s%s.%s" % (op, t, ch), [(c, "M", P(op), 0)], "ser(o, (%s)%s((zcm::%s *)a[0])->%s);" % (e, op, t, ch), 0))
                        out.append(("%s.%s%s" % (t, ch, op), [(c, "M", P(op), 0)], "ser(o, (%s)((zcm::%s *)a[0])->%s%s);" % (e, t, ch, op), 0))
            import itertools
            for ln in range(2, n + 1):
                for idx in itertools.product(range(n), repeat=ln):
                    if ln == 4 and (idx[0] * 64 + idx[1] * 16 + idx[2] * 4 + idx[3]) % 3:
                        continue
                    al = ("xyzw", "rgba", "stpq")[sum(idx) % 3]
                    nm = "".join(al[i] for i in idx)
                    r = ("ivec%d" if is_int else "vec%d") % ln
                    out.append(("%s.%s" % (t, nm), [(c, "R", "a", 0)], "zcm::%s r = ((const zcm::%s *)a[0])->%s; ser(o, r);" % (r, t, nm), 1))
    return out


def generate(outdir, lib, accessors=True):
    """Writes api_*.cpp for every declared function the library (an archive path) defines. Returns (sources, entries, undefined)."""
    fns = build(outdir)
    defined = ast_enum.defined_symbols(lib)
    os.makedirs(outdir, exist_ok=True)
    ents, undefined, skipped = [], [], []
    for f in fns:
        if f.cls is None and f.kind == "method":
            continue
        inline = f.kind in ("ctor", "method") and (f.name == "operator=" or f.defaulted)
        if f.mangled and f.mangled not in defined and f.mangled.replace("C1", "C2", 1) not in defined and not inline:
            undefined.append(f)
            continue
        e = entry(f)
        if e is None:
            skipped.append(f)
            continue
        ents.append(e + (0,))
    for t in CODE:
        if t[0] in "vibmq" and t[-1] in "234t" and t not in ("int", "float", "int32_t", "size_t", "unsigned int", "bool"):
            ents.append(("std::hash<%s>" % t, [(CODE[t], "R", "a", 0)], "o.u64v(std::hash<zcm::%s>()(*(const zcm::%s *)a[0]));" % (t, t), 0))
    if accessors:
        ents += accessor_entries()
    heads = "".join("#include <%s>\n" % h for h in ast_enum.headers())
    src = []
    nfile = (len(ents) + PER_FILE - 1) // PER_FILE
    for k in range(nfile):
        o = ['#define NO_MAIN', '#include "api.h"', heads]
        part = ents[k * PER_FILE:(k + 1) * PER_FILE]
        tab = []
        for i, (sig, pol, body, sw) in enumerate(part):
            if sw:
                o.append("#ifndef ZCM_DISABLE_SWIZZLE")
                tab.append("#ifndef ZCM_DISABLE_SWIZZLE")
            o.append("static void f%d(void *const *a, Out &o) { (void)a; (void)o; %s }" % (i, body))
            tab.append('{"%s", %d, {%s}, f%d},' % (sig, len(pol), ", ".join("{'%s', '%s', '%s', %d}" % p for p in pol), i))
            if sw:
                o.append("#endif")
                tab.append("#endif")
        o.append("static const ApiFn t[] = {\n%s\n};" % "\n".join(tab))
        o.append("const ApiFn *api_begin_%d() { return t; } const ApiFn *api_end_%d() { return t + sizeof t / sizeof *t; }" % (k, k))
        p = os.path.join(outdir, "api_%d.cpp" % k)
        write(p, "\n".join(o) + "\n")
        src.append(p)
    m = ['#define NO_MAIN', '#include "api.h"']
    m += ["const ApiFn *api_begin_%d(); const ApiFn *api_end_%d();" % (k, k) for k in range(nfile)]
    m += ["const std::vector<ApiFn> &api() { static const std::vector<ApiFn> v = [] { std::vector<ApiFn> v;"]
    m += ["  v.insert(v.end(), api_begin_%d(), api_end_%d());" % (k, k) for k in range(nfile)]
    m += ["  return v; }(); return v; }"]
    p = os.path.join(outdir, "api_table.cpp")
    write(p, "\n".join(m) + "\n")
    src.append(p)
    return src, ents, undefined, skipped


def write(p, text):
    if not os.path.exists(p) or open(p).read() != text:
        tmp = p + ".tmp%d" % os.getpid()
        open(tmp, "w").write(text)
        os.rename(tmp, p)
