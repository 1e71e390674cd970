"""Enumerates every function, constructor, operator and conversion the public headers declare, with clang's AST."""
import glob, json, os, subprocess, tempfile
import vlib


def headers():
    return sorted(os.path.relpath(p, vlib.REPO + "/include") for p in glob.glob(vlib.REPO + "/include/zcm/*.hpp"))


def parse(text):
    dec = json.JSONDecoder()
    i, out = 0, []
    while True:
        while i < len(text) and text[i] in " \n\r\t":
            i += 1
        if i >= len(text):
            return out
        o, i = dec.raw_decode(text, i)
        out.append(o)


def split_type(q):
    """'zcm::vec3 (const zcm::vec3 &, float) noexcept' -> return type"""
    depth = 0
    for k, ch in enumerate(q):
        if ch == "<":
            depth += 1
        elif ch == ">":
            depth -= 1
        elif ch == "(" and depth == 0:
            return q[:k].strip()
    return q


class Fn:
    def __init__(self, **kw):
        self.__dict__.update(kw)

    def sig(self):
        o = "%s::" % self.cls if self.cls else ""
        return "%s%s(%s)%s" % (o, self.name, ", ".join(self.params), " const" if self.const else "")


TYPES = {"vec2", "vec3", "vec4", "ivec2", "ivec3", "ivec4", "bvec2", "bvec3", "bvec4", "mat2", "mat3", "mat4", "quat"}
KINDS = {"CXXMethodDecl": "method", "CXXConstructorDecl": "ctor", "CXXConversionDecl": "conv", "FunctionDecl": "func"}


def enumerate_api(hdrs=None, extra=()):
    hdrs = hdrs or headers()
    with tempfile.TemporaryDirectory() as d:
        src = d + "/all.cpp"
        open(src, "w").write("".join("#include <%s>\n" % h for h in hdrs))
        r = vlib.sh(["clang++", "-std=c++17", "-I", vlib.REPO + "/include", "-fsyntax-only", "-Xclang", "-ast-dump=json", "-Xclang", "-ast-dump-filter=zcm", src] + list(extra))
    if r.returncode:
        return None, r.stderr
    fns = {}

    def visit(node, cls, access="public"):
        k = node.get("kind")
        if k == "NamespaceDecl" and node.get("name") in ("zcm", None):
            for c in node.get("inner", []):
                visit(c, None)
        elif k == "LinkageSpecDecl":
            for c in node.get("inner", []):
                visit(c, cls)
        elif k == "CXXRecordDecl" and cls is None and node.get("name") in TYPES and node.get("completeDefinition"):
            acc = "public" if node.get("tagUsed") == "struct" else "private"
            for c in node.get("inner", []):
                if c.get("kind") == "AccessSpecDecl":
                    acc = c.get("access", acc)
                visit(c, node["name"], acc)
        elif k in KINDS:
            if node.get("isImplicit") or node.get("explicitlyDeleted") or access != "public":
                return
            if KINDS[k] == "func" and cls:
                return
            ps = [c["type"]["qualType"] for c in node.get("inner", []) if c.get("kind") == "ParmVarDecl"]
            t = node["type"]["qualType"]
            tail = t[t.rindex(")"):]
            fn = Fn(kind=KINDS[k], cls=cls, name=node["name"], params=ps, ret=split_type(t), const=" const" in tail, static=node.get("storageClass") == "static",
                    mangled=node.get("mangledName", ""), defaulted=bool(node.get("explicitlyDefaulted")), names=[c.get("name", "") for c in node.get("inner", []) if c.get("kind") == "ParmVarDecl"])
            fns.setdefault((fn.cls, fn.kind, fn.name, tuple(ps), fn.const), fn)

    for n in parse(r.stdout):
        visit(n, None)
    return sorted(fns.values(), key=lambda f: (f.cls or "", f.kind, f.name, f.params)), None


def defined_symbols(lib):
    r = vlib.sh(["nm", "--defined-only", "-g", lib])
    out = set()
    for l in r.stdout.splitlines():
        p = l.split()
        if len(p) == 3:
            out.add(p[2])
    return out


if __name__ == "__main__":
    import collections
    f, e = enumerate_api()
    if e:
        print(e)
    print(len(f))
    ty = collections.Counter(p for x in f for p in x.params)
    print(ty)
    print(collections.Counter(x.ret for x in f))
    for x in f:
        print(x.kind, x.ret, x.sig(), x.mangled)
