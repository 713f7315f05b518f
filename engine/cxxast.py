"""Load the clang AST of the repository headers a unit needs.

The headers are included, textually unchanged, inside `namespace VCX { }` after
all standard headers, so that -ast-dump-filter=VCX dumps exactly the
repository's own declarations (the include guards make the standard includes
inside the namespace empty)."""
import json, os, subprocess, tempfile, re

STUB = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "stub")

class Unsupported(Exception):
    """The construct is outside the translated subset (never a violation)."""

def load(repo, headers, extra="", defines=()):
    src = ["#include <bits/stdc++.h>", "#include <tlx/logger.hpp>", "#include <unistd.h>", "#include <sys/time.h>", "#include <sys/resource.h>", "#include <execinfo.h>"]
    src.append("namespace VCX {")
    for h in headers:
        src.append('#include "%s"' % h)
    src.append(extra)
    src.append("}")
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, "tu.cpp")
        open(p, "w").write("\n".join(src) + "\n")
        cmd = ["clang++-18", "-std=c++17", "-DNDEBUG"] + ["-D" + x for x in defines] + \
              ["-I" + STUB, "-I" + os.path.join(repo, "lib"), "-fsyntax-only", "-w",
               "-Xclang", "-ast-dump=json", "-Xclang", "-ast-dump-filter=VCX", p]
        r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0:
        raise Unsupported("clang failed: " + r.stderr[:2000])
    dec = json.JSONDecoder()
    s = r.stdout
    i = 0
    roots = []
    while True:
        j = s.find("{", i)
        if j < 0:
            break
        o, i = dec.raw_decode(s, j)
        roots.append(o)
    return TU(roots)

class TU:
    def __init__(self, roots):
        self.roots = roots
        self.by_id = {}
        self.records = {}      # canonical name -> CXXRecordDecl node (with definition)
        self.functions = {}    # qualified name -> [decl nodes with body]
        self.parent = {}
        self.owner = {}        # decl id -> class name
        self.globals = {}
        for r in roots:
            self.walk(r, [], None)

    def walk(self, n, scope, cls):
        if not isinstance(n, dict) or not n:
            return
        k = n.get("kind")
        if "id" in n:
            old = self.by_id.get(n["id"])
            if old is None or len(n.get("inner", [])) >= len(old.get("inner", [])):
                self.by_id[n["id"]] = n
        if k == "NamespaceDecl":
            nm = n.get("name", "")
            sc = scope if nm == "VCX" else scope + [nm]
            for c in n.get("inner", []):
                self.walk(c, sc, None)
            return
        if k in ("CXXRecordDecl", "ClassTemplateSpecializationDecl"):
            name = n.get("name", "")
            if k == "ClassTemplateSpecializationDecl":
                args = [targ(c) for c in n.get("inner", []) if c.get("kind") == "TemplateArgument"]
                name = "%s<%s>" % (name, ", ".join(args))
            q = "::".join(scope + [name])
            if n.get("completeDefinition"):
                self.records[q] = n
                n["_q"] = q
            for c in n.get("inner", []):
                self.walk(c, scope + [name], q)
            return
        if k == "ClassTemplateDecl":
            for c in n.get("inner", []):
                if c.get("kind") == "CXXRecordDecl":
                    continue  # the uninstantiated pattern
                self.walk(c, scope, cls)
            return
        if k == "FunctionTemplateDecl":
            inner = n.get("inner", [])
            fns = [c for c in inner if c.get("kind") in ("FunctionDecl", "CXXMethodDecl", "CXXConstructorDecl")]
            for c in fns[1:]:
                self.walk(c, scope, cls)
            if len(fns) == 1:
                fns[0]["_pattern"] = True
                if "id" in fns[0]:
                    self.by_id[fns[0]["id"]] = fns[0]
            return
        if k in ("FunctionDecl", "CXXMethodDecl", "CXXConstructorDecl", "CXXDestructorDecl", "CXXConversionDecl"):
            n["_cls"] = cls
            # out-of-line definitions
            if cls is None and "parentDeclContextId" in n:
                p = self.by_id.get(n["parentDeclContextId"])
                if p is not None:
                    n["_cls"] = p.get("_q")
                prev = n.get("previousDecl")
                if prev and prev in self.by_id:
                    n["_cls"] = self.by_id[prev].get("_cls", n["_cls"])
            q = (n["_cls"] + "::" if n["_cls"] else ("::".join(scope) + "::" if scope else "")) + n.get("name", "")
            n["_qn"] = q
            if body(n) is not None:
                self.functions.setdefault(q, []).append(n)
                n["_has_body"] = True
            prev = n.get("previousDecl")
            if prev and body(n) is not None:
                self.by_id[prev] = n
            for c in n.get("inner", []):
                self.walk_inner(c)
            return
        if k == "VarDecl":
            self.globals[n.get("name")] = n
        if k == "LinkageSpecDecl":
            for c in n.get("inner", []):
                self.walk(c, scope, cls)
            return
        for c in n.get("inner", []):
            self.walk(c, scope, cls)

    def walk_inner(self, n):
        if not isinstance(n, dict) or not n:
            return
        if "id" in n:
            old = self.by_id.get(n["id"])
            if old is None or len(n.get("inner", [])) >= len(old.get("inner", [])):
                self.by_id[n["id"]] = n
        if n.get("kind") == "LambdaExpr":
            pass
        for c in n.get("inner", []):
            self.walk_inner(c)

def targ(c):
    t = c.get("type", {})
    if t:
        return clean(t.get("desugaredQualType", t.get("qualType", "?")))
    if "value" in c:
        return str(c["value"])
    return "?"

def body(n):
    for c in n.get("inner", []):
        if c.get("kind") == "CompoundStmt":
            return c
    return None

def params(n):
    return [c for c in n.get("inner", []) if c.get("kind") == "ParmVarDecl"]

def clean(s):
    s = s.replace("VCX::", "")
    s = re.sub(r"\b(struct|class|enum|const|volatile)\s+", "", s)
    return s.strip()
