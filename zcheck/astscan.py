"""queries over the clang syntax tree of the library header (including templates that no
analysed operation instantiates)"""
import json, os, subprocess
from . import harness as HN


def tree(work):
    cpp = os.path.join(work, "ast.cpp")
    with open(cpp, "w") as f:
        f.write('#include "%s"\n' % HN.HEADER)
    out = os.path.join(work, "ast.json")
    with open(out, "w") as f:
        r = subprocess.run([HN.CXX, "-std=c++20", "-stdlib=libc++", "-w", "-fexceptions", "-fsyntax-only", "-Xclang", "-ast-dump=json", "-Xclang", "-ast-dump-filter=zpp", cpp],
                           stdout=f, stderr=subprocess.PIPE, text=True)
    if r.returncode:
        raise RuntimeError(r.stderr[:2000])
    dec = json.JSONDecoder()
    s = open(out).read()
    os.unlink(out)
    i, n = 0, len(s)
    while i < n:
        j = s.find("{", i)
        if j < 0:
            break
        d, i = dec.raw_decode(s, j)
        yield d


def mutable_state(work):
    """variables with static or thread storage duration that are not constants"""
    seen, viol, count, funcs = set(), [], 0, 0
    line = [0]

    def constant(v):
        if v.get("constexpr"):
            return True
        t = v.get("type", {}).get("qualType", "")
        d = v.get("type", {}).get("desugaredQualType", t)
        return any(x.endswith("&") or ("const" in x.rsplit("*", 1)[1] if "*" in x else x.startswith("const ") or x.endswith(" const")) for x in (t, d))

    def walk(n, scope, path):
        nonlocal count, funcs
        k = n.get("kind", "")
        loc = n.get("loc", {})
        l = loc.get("line") or loc.get("expansionLoc", {}).get("line")
        if l:
            line[0] = l
        if k in ("NamespaceDecl", "CXXRecordDecl", "ClassTemplateSpecializationDecl", "ClassTemplatePartialSpecializationDecl"):
            scope = k
        if k in ("FunctionDecl", "CXXMethodDecl", "CXXConstructorDecl", "CXXDestructorDecl", "CXXConversionDecl", "LambdaExpr"):
            scope = "function"
            if n.get("id") not in seen:
                funcs += 1
        if n.get("name") and "Decl" in k:
            path = path + [n["name"]]
        if k in ("VarDecl", "VarTemplateSpecializationDecl", "VarTemplatePartialSpecializationDecl") and n.get("id") not in seen:
            static = n.get("storageClass") == "static" or scope != "function" or n.get("tls")
            if static:
                count += 1
                if n.get("tls") or not constant(n):
                    viol.append(("%s (type %s, line %s)" % ("::".join(path), n.get("type", {}).get("qualType"), line[0])))
        if n.get("id"):
            seen.add(n["id"])
        for c in n.get("inner", ()):
            if isinstance(c, dict):
                walk(c, scope, path)
    import sys
    sys.setrecursionlimit(20000)
    for d in tree(work):
        if d.get("id") in seen:
            continue
        walk(d, "NamespaceDecl" if d.get("kind") != "FunctionDecl" else "function", [])
    return count, funcs, sorted(set(viol))


if __name__ == "__main__":
    import time
    t = time.time()
    print(mutable_state("/tmp/zw"), time.time() - t)
