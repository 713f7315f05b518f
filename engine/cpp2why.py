"""Mechanical translation of C++ function bodies (clang AST) to WhyML.

Semantics: every C++ object is a value (record / vec / int / bool); an lvalue is
a *path* from a mutable root variable through fields and indices, and a write
through a path is a functional update of the root.  Unsigned arithmetic is
wrapped at the width clang computed (u32/u64/...), signed arithmetic carries a
no-overflow obligation, vector accesses carry in-bounds obligations.
Functions that have a contract are called through it; all others are inlined."""
import re, json
from cxxast import Unsupported, body, params, clean

KW = set("""abstract absurd alias any as assert assume at axiom break by check clone coinductive
constant continue diverges do done downto else end ensures epsilon exception exists export false float for
forall fun function ghost goal if import in inductive invariant label lemma let match meta module mutable not
old partial predicate private pure raise raises reads rec ref requires return returns scope so then theory to
true try type use val variant while with writes writes result range length push pop elts""".split())

def san(n):
    n = re.sub(r"[^A-Za-z0-9_]", "_", n)
    if not n:
        n = "anon"
    if n[0].isupper():
        n = n[0].lower() + n[1:] if n[:2] != n[:2].upper() or len(n) < 2 else "c_" + n
    if n[0].isdigit():
        n = "n" + n
    if n in KW:
        n += "_"
    return n

INTS = {
    "unsigned int": (32, False), "int": (32, True), "unsigned long": (64, False), "long": (64, True),
    "unsigned long long": (64, False), "long long": (64, True), "unsigned char": (8, False), "char": (8, True),
    "signed char": (8, True), "short": (16, True), "unsigned short": (16, False),
    "uint32_t": (32, False), "uint64_t": (64, False), "int32_t": (32, True), "int64_t": (64, True),
    "size_t": (64, False), "std::size_t": (64, False), "uint8_t": (8, False), "std::ptrdiff_t": (64, True), "ptrdiff_t": (64, True),
    "unsigned": (32, False),
}

def split_args(s):
    out, d, cur = [], 0, ""
    for ch in s:
        if ch in "<(":
            d += 1
        if ch in ">)":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip()); cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out

class Types:
    def __init__(self, tu, prefixes=None, ghosts=None):
        self.tu = tu
        self.recs = {}       # C++ name -> dict(why=, fields=[(cname, why, ty)], ghosts=[(name, type)])
        self.order = []
        self.fieldnames = {}
        self.ghosts = ghosts or {}
        self.typedefs = {}
        self.opaque = set()
        self.inprog = set()
        for r in tu.roots:
            self._td(r, "")
        for l in tu.functions.values():
            for d in l:
                if d.get("_cls"):
                    for p in params(d):
                        p["_pcls"] = d["_cls"]

    def _td(self, n, scope):
        if not isinstance(n, dict):
            return
        if n.get("kind") in ("TypedefDecl", "TypeAliasDecl"):
            t = n.get("type", {})
            self.typedefs[n.get("name")] = clean(t.get("desugaredQualType", t.get("qualType", "")))
        if n.get("kind") in ("NamespaceDecl",):
            for c in n.get("inner", []):
                self._td(c, scope)

    def of(self, node):
        t = node.get("type", {})
        if "_pcls" in node and "desugaredQualType" not in t:
            return self.parse_in(t.get("qualType", ""), node["_pcls"])
        return self.parse(t.get("desugaredQualType", t.get("qualType", "")))

    def parse(self, s):
        s = clean(s)
        while True:
            s = s.strip()
            if s.endswith("&&"):
                s = s[:-2]
            elif s.endswith("&"):
                s = s[:-1]
            elif s.endswith("const"):
                s = s[:-5]
            else:
                break
        if s.endswith("*"):
            return ("ptr", self.parse(s[:-1]))
        if s in INTS:
            return ("int",) + INTS[s]
        if s in ("bool", "_Bool"):
            return ("bool",)
        if s == "std::_Bit_reference" or s.endswith("_Bit_reference"):
            return ("bool",)
        if s == "void":
            return ("void",)
        if s in ("double", "float"):
            return ("double",)
        if s.startswith("VNullLog"):
            return ("log",)
        m = re.match(r"^([A-Za-z_0-9:]+)<(.*)>$", s)
        if m and s not in self.tu.records:
            h, args = m.group(1), split_args(m.group(2))
            h = h.replace("std::__cxx11::", "std::").replace("std::__1::", "std::")
            if h in ("shared_ptr", "unique_ptr", "vector", "pair", "tuple", "unordered_map", "unordered_set"):
                h = "std::" + h
            cs = "%s<%s>" % (h, ", ".join(self.canon(a) for a in args))
            if cs != s and cs in self.tu.records:
                return self.parse(cs)
            if h in ("std::vector", "std::deque"):
                return ("vec", self.parse(args[0]))
            if h in ("std::shared_ptr", "std::unique_ptr"):
                return ("ptr", self.parse(args[0]))
            if h == "std::pair":
                return self.tuple([self.parse(a) for a in args], "p")
            if h == "std::tuple":
                return self.tuple([self.parse(a) for a in args], "t")
            if h in ("std::unordered_map", "std::map"):
                return ("map", self.parse(args[0]), self.parse(args[1]))
            if h in ("std::unordered_set", "std::set"):
                return ("set", self.parse(args[0]))
            if h == "std::queue":
                return ("queue", self.parse(args[0]))
            if h == "std::stack":
                return ("vec", self.parse(args[0]))
            if h == "__gnu_cxx::__normal_iterator":
                return ("viter",)
            if h == "__gnu_cxx::__alloc_traits" or h.startswith("std::allocator_traits"):
                raise Unsupported("type " + s)
            if h == "std::atomic":
                return self.parse(args[0])
        if s.startswith("std::__detail::_Node_") or s.startswith("std::_Rb_tree_") and "iterator" in s:
            return ("mapit", None)
        if s.endswith("value_type") or "__alloc_traits" in s:
            raise Unsupported("type " + s)
        if s in self.tu.records:
            self.need(s)
            return ("rec", s)
        if s in self.typedefs and self.typedefs[s] != s:
            return self.parse(self.typedefs[s])
        # enums
        for n in self.tu.by_id.values():
            if n.get("kind") == "EnumDecl" and n.get("name") == s:
                return ("int", 32, False)
        self.opaque.add(s)
        return ("opaque", s)

    def parse_in(self, s, cls):
        """parse a type name that may be relative to class cls"""
        b = re.sub(r"\s*[&*]+$", "", clean(s)).strip()
        b = re.sub(r"^const |\sconst$", "", b).strip()
        pre = cls
        while pre:
            if pre + "::" + b in self.tu.records:
                return self.parse(clean(s).replace(b, pre + "::" + b, 1))
            if pre.endswith("::" + b) and pre in self.tu.records:
                return self.parse(clean(s).replace(b, pre, 1))
            pre = pre.rsplit("::", 1)[0] if "::" in pre else None
        return self.parse(s)

    def canon(self, a):
        a = clean(a).strip()
        k = 0
        while a in self.typedefs and self.typedefs[a] != a and k < 9:
            a = self.typedefs[a]
            k += 1
        return a

    def tuple(self, ts, pre):
        name = pre + "_" + "_".join(self.mangle(t) for t in ts)
        if name not in self.recs:
            self.recs[name] = dict(why=name, fields=[("%s%d" % ("_", i), "%s_%d" % (name, i + 1), t) for i, t in enumerate(ts)], ghosts=[])
            self.order.append(name)
        return ("rec", name)

    def mangle(self, t):
        k = t[0]
        if k == "int":
            return ("i" if t[2] else "u") + str(t[1])
        if k == "bool":
            return "b"
        if k == "vec":
            return "v" + self.mangle(t[1])
        if k == "rec":
            return self.recs[t[1]]["why"]
        if k == "ptr":
            return "q" + self.mangle(t[1])
        return san(str(k))

    def need(self, name):
        if name in self.recs or name in self.inprog:
            return
        self.inprog.add(name)
        n = self.tu.records[name]
        fields = []
        def collect(n):
            for b in n.get("bases", []):
                bn = clean(b["type"].get("desugaredQualType", b["type"].get("qualType", "")))
                if bn in self.tu.records:
                    collect(self.tu.records[bn])
            for c in n.get("inner", []):
                if c.get("kind") == "FieldDecl":
                    fields.append((c.get("name", ""), self.of(c)))
        collect(n)
        w = san(re.sub(r"unsigned int", "u32", re.sub(r"unsigned long", "u64", name)).replace("<", "_").replace(">", "").replace("::", "_").replace(" ", ""))
        fl = []
        for cn, ty in fields:
            fl.append([cn, san(cn) if cn.startswith('m_') or cn.endswith('_') else 'f_' + san(cn), ty])
        gh = self.ghosts.get(name, [])
        for f in fl:
            if f[1] in self.fieldnames:
                f[1] = w + "_" + f[1]
            self.fieldnames[f[1]] = name
        self.recs[name] = dict(why=w, fields=[tuple(f) for f in fl], ghosts=gh)
        self.order.append(name)

    def why(self, t):
        k = t[0]
        if k == "int":
            return "int"
        if k == "bool":
            return "bool"
        if k == "void":
            return "unit"
        if k in ("vec", "queue"):
            return "(vec %s)" % self.why(t[1])
        if k == "rec":
            return self.recs[t[1]]["why"] if t[1] in self.recs else san(t[1])
        if k == "ptr":
            return self.why(t[1])
        if k == "map":
            return "(umap %s)" % self.why(t[2])
        if k == "set":
            return "(uset)"
        if k == "opaque":
            return "opaque_t"
        if k == "double":
            return "real"
        raise Unsupported("no WhyML type for %r" % (t,))

    def decls(self):
        out = ["  type opaque_t"]
        for name in self.order:
            r = self.recs[name]
            fs = []
            for cn, w, ty in r["fields"]:
                fs.append("%s: %s" % (w, self.why(ty)))
            for g, gt in r["ghosts"]:
                fs.append("ghost %s: %s" % (g, gt))
            if not fs:
                fs = ["%s_dummy: unit" % r["why"]]
            out.append("  type %s = { %s }" % (r["why"], "; ".join(fs)))
        return "\n".join(out)

    def field(self, recname, cname):
        if recname not in self.tu.records:
            cname = {"first": "_0", "second": "_1"}.get(cname, cname)
        for cn, w, ty in self.recs[recname]["fields"]:
            if cn == cname:
                return w, ty
        raise Unsupported("field %s of %s" % (cname, recname))

    def default(self, t):
        """value-initialisation"""
        k = t[0]
        if k == "int":
            return "0"
        if k == "bool":
            return "false"
        if k in ("vec", "queue"):
            return "(vnew () : %s)" % self.why(t)
        if k == "map":
            return "(umap_empty () : %s)" % self.why(t)
        if k == "set":
            return "(uset_empty ())"
        if k == "rec" and t[1] in self.recs and t[1] not in self.tu.records:
            return "{ %s }" % "; ".join("%s = %s" % (w, self.default(ty)) for _, w, ty in self.recs[t[1]]["fields"])
        return None

class Path:
    def __init__(self, root, ty, steps=()):
        self.root, self.ty, self.steps = root, ty, tuple(steps)
    def f(self, why, ty):
        return Path(self.root, ty, self.steps + (("f", why),))
    def i(self, idx, ty):
        return Path(self.root, ty, self.steps + (("i", idx),))
    def m(self, idx, ty):
        return Path(self.root, ty, self.steps + (("m", idx),))
    def read(self):
        s = self.root
        for k, x in self.steps:
            if k == "f":
                s = "%s.%s" % (s, x)
            elif k == "i":
                s = "(vget %s %s)" % (s, x)
            else:
                s = "(umap_get %s %s)" % (s, x)
        return s
    def write(self, val):
        if not self.steps:
            return "%s <- %s" % (self.root, val)
        return "%s <- %s" % (self.root, self._upd(self.root, self.steps, val))
    def _upd(self, cur, steps, val):
        if not steps:
            return val
        k, x = steps[0]
        if k == "f":
            return "{ %s with %s = %s }" % (cur, x, self._upd("%s.%s" % (cur, x), steps[1:], val))
        if k == "i":
            return "(vset %s %s %s)" % (cur, x, self._upd("(vget %s %s)" % (cur, x), steps[1:], val))
        return "(umap_set %s %s %s)" % (cur, x, self._upd("(umap_get %s %s)" % (cur, x), steps[1:], val))

def tmax(t):
    b, s = t[1], t[2]
    return (1 << (b - 1)) - 1 if s else (1 << b) - 1
def tmin(t):
    return -(1 << (t[1] - 1)) if t[2] else 0
def rng(t, x):
    return "(%s <= %s <= %d)" % ("%d" % tmin(t) if tmin(t) == 0 else "(%d)" % tmin(t), x, tmax(t))

STRIP = {"ExprWithCleanups", "MaterializeTemporaryExpr", "ParenExpr", "CXXBindTemporaryExpr", "ConstantExpr",
         "SubstNonTypeTemplateParmExpr", "CXXFunctionalCastExpr_", "FullExpr"}

def strip(n):
    while n.get("kind") in STRIP:
        n = n["inner"][0]
    return n

def strip_casts(n):
    n = strip(n)
    while n.get("kind") == "ImplicitCastExpr" and n.get("castKind") in ("NoOp", "LValueToRValue", "UncheckedDerivedToBase", "DerivedToBase", "FunctionToPointerDecay", "BuiltinFnToFnPtr"):
        n = strip(n["inner"][0])
    return n

def contains(n, kinds, stop=()):
    if not isinstance(n, dict):
        return False
    if n.get("kind") in kinds:
        return True
    if n.get("kind") in stop:
        return False
    return any(contains(c, kinds, stop) for c in n.get("inner", []))

class FnCtx:
    """translation of one contracted function (with everything inlined into it)"""
    def __init__(self, T, unit, decl, spec):
        self.T, self.unit, self.fdecl, self.spec = T, unit, decl, spec
        self.tmp = 0
        self.pre = []
        self.scope = {}
        self.names = set()
        self.thispath = None
        self.loops = 0
        self.loopvars = {}
        self.loopelems = {}
        self.ownedptr = set()
        self.depth = 0
        self.retstack = []
        self.loopinc = []
        self.dropped = []
        self.inlined = []
        self.locals = []

    def fresh(self, p="t"):
        self.tmp += 1
        return "%s'%d" % (p, self.tmp) if False else "%s__%d" % (p, self.tmp)

    def name(self, cname):
        n = san(cname)
        used = {p.root for p in self.scope.values() if isinstance(p, Path)} | {"this"}
        if self.thispath is not None:
            used.add(self.thispath.root)
        used |= self.names | set(self.T.fieldnames)
        if n in used:
            k = 2
            while "%s_%d" % (n, k) in used:
                k += 1
            n = "%s_%d" % (n, k)
        return n

    def hoist(self, code, p="t"):
        t = self.fresh(p)
        self.pre.append("let %s = %s in" % (t, code))
        return t

    def capture(self, f):
        old, self.pre = self.pre, []
        try:
            r = f()
            pre = self.pre
        finally:
            self.pre = old
        return pre, r

    # ---------------------------------------------------------------- types
    def conv(self, code, ft, tt):
        if tt[0] == "int" and ft[0] == "int":
            if re.match(r"^-?\d+$", code.strip("()")):
                v = int(code.strip("()"))
                w = v & ((1 << tt[1]) - 1)
                if tt[2] and w >= (1 << (tt[1] - 1)):
                    w -= 1 << tt[1]
                return str(w) if w >= 0 else "(%d)" % w
            if tmin(ft) >= tmin(tt) and tmax(ft) <= tmax(tt):
                return code
            return self.wrap(tt, code)
        if tt[0] == "int" and ft[0] == "bool":
            return "(if %s then 1 else 0)" % code
        if tt[0] == "bool" and ft[0] == "int":
            return "(%s <> 0)" % code
        if tt[0] == "double" and ft[0] == "int":
            return "(FromInt.from_int %s)" % code
        if tt[0] == "int" and ft[0] == "double":
            raise Unsupported("float to int")
        if tt[0] == "void":
            return code
        return code

    def wrap(self, t, code):
        if t[2]:
            return "(s%d %s)" % (t[1], code)
        return "(u%d %s)" % (t[1], code)

    def rd(self, path):
        if path.ty[0] == "int" and path.steps:
            return "(rd_%s%d %s)" % ("i" if path.ty[2] else "u", path.ty[1], path.read())
        if path.ty[0] in ("vec",) and False:
            return path.read()
        return path.read()

    # ---------------------------------------------------------------- lvalues
    def lv(self, n):
        n = strip(n)
        k = n.get("kind")
        if k == "ImplicitCastExpr" and n.get("castKind") in ("NoOp", "UncheckedDerivedToBase", "DerivedToBase", "LValueToRValue"):
            return self.lv(n["inner"][0])
        if k == "DeclRefExpr":
            d = n["referencedDecl"]
            b = self.scope.get(d["id"])
            if b is None:
                g = self.globalconst(d)
                if g is not None:
                    v = self.hoist(g[0], "g")
                    return Path(v, g[1])
                raise Unsupported("unknown variable " + d.get("name", "?"))
            return b
        if k == "CXXThisExpr":
            return self.thispath
        if k == "MemberExpr":
            base = n["inner"][0]
            p = self.lv(base) if self.is_lv(base) else self.rvtmp(base)
            if p.ty[0] == "ptr":
                p = Path(p.root, p.ty[1], p.steps)
            if p.ty[0] == "mapent":
                mp = p.ty[1]
                if n.get("name") == "first":
                    return Path(p.root, mp.ty[1], p.steps)
                return mp.m(self.hoist(p.read(), "k"), mp.ty[2])
            if p.ty[0] != "rec":
                raise Unsupported("member of %r" % (p.ty,))
            w, ty = self.T.field(p.ty[1], self.fieldname(n, p.ty[1]))
            return p.f(w, ty)
        if k == "CXXOperatorCallExpr":
            op, args = self.opcall(n)
            if op == "operator[]":
                p = self.lvx(args[0])
                if p.ty[0] == "ptr":
                    p = Path(p.root, p.ty[1], p.steps)
                if p.ty[0] in ("vec", "queue"):
                    i = self.idx(args[1])
                    return p.i(i, p.ty[1])
                if p.ty[0] == "map":
                    i = self.idx(args[1])
                    if True:
                        dv = self.T.default(p.ty[2])
                        if dv is None:
                            raise Unsupported("map default")
                        self.pre.append(p.write("(umap_touch %s %s %s)" % (p.read(), i, dv)) + ";")
                    return p.m(i, p.ty[2])
                raise Unsupported("operator[] on %r" % (p.ty,))
            if op in ("operator*", "operator->"):
                p = self.lvx(args[0])
                if p.ty[0] == "ptr":
                    return Path(p.root, p.ty[1], p.steps)
                if p.ty[0] == "mapit":
                    return Path(p.root, ("mapent", p.ty[1]), p.steps)
                return self.lv_inline(n)
            if op in ("operator=", "operator++", "operator--", "operator+=") :
                self.effect(n)
                return self.lv(args[0])
        if k == "ArraySubscriptExpr":
            p = self.lvx(n["inner"][0])
            i = self.idx(n["inner"][1])
            if p.ty[0] in ("vec",):
                return p.i(i, p.ty[1])
            raise Unsupported("array subscript")
        if k == "CXXMemberCallExpr":
            r = self.membercall(n, want="lv")
            if isinstance(r, Path):
                return r
            raise Unsupported("call as lvalue")
        if k == "CallExpr":
            r = self.call(n, want="lv")
            if isinstance(r, Path):
                return r
            if r[1][0] in ("int", "bool"):      # std::max and the like return a reference
                return Path(self.hoist(r[0], "cv"), r[1])
            raise Unsupported("call as lvalue")
        if k == "UnaryOperator":
            if n["opcode"] == "*":
                p = self.lvx(n["inner"][0])
                if p.ty[0] == "ptr":
                    return Path(p.root, p.ty[1], p.steps)
                if strip(n["inner"][0]).get("kind") == "CXXThisExpr":
                    return p
            if n["opcode"] == "&":
                p = self.lv(n["inner"][0])
                return Path(p.root, ("ptr", p.ty), p.steps)
            if n["opcode"] in ("++", "--") and not n.get("isPostfix"):
                self.effect(n)
                return self.lv(n["inner"][0])
        if k in ("BinaryOperator", "CompoundAssignOperator"):
            self.effect(n)
            return self.lv(n["inner"][0])
        if k in ("CXXStaticCastExpr", "CStyleCastExpr", "CXXConstCastExpr") and n.get("castKind") == "NoOp":
            return self.lv(n["inner"][0])
        raise Unsupported("lvalue %s" % k)

    def fieldname(self, n, rec):
        return n.get("name", "")

    def is_lv(self, n):
        n = strip(n)
        if n.get("kind") == "CXXThisExpr":
            return True
        if n.get("kind") == "ImplicitCastExpr" and n.get("castKind") in ("NoOp", "LValueToRValue", "UncheckedDerivedToBase", "DerivedToBase"):
            return self.is_lv(n["inner"][0])
        if n.get("kind") == "UnaryOperator" and n.get("opcode") == "&":
            return True
        if n.get("kind") == "CXXOperatorCallExpr":
            op, args = self.opcall(n)
            if op in ("operator->", "operator*"):
                return True
        return n.get("valueCategory") in ("lvalue", "xvalue") and n.get("kind") not in ("CXXConstructExpr",)

    def lvx(self, n):
        return self.lv(n) if self.is_lv(n) else self.rvtmp(n)

    def rvtmp(self, n):
        c, t = self.rv(n)
        v = self.fresh("tmp")
        self.pre.append("let ref %s = %s in" % (v, c))
        return Path(v, t)

    def idx(self, n):
        c, t = self.rv(n)
        if re.match(r"^[\w']+$", c) and ("__" in c or c.isdigit()):
            return c
        return self.hoist(c, "ix")

    def opcall(self, n):
        inner = n["inner"]
        f = strip_casts(inner[0])
        op = f.get("referencedDecl", {}).get("name", "?")
        return op, inner[1:]

    def globalconst(self, d):
        if d.get("kind") == "EnumConstantDecl":
            return self.enumval(d), ("int", 32, False)
        g = self.T.tu.by_id.get(d["id"]) or {}
        ty = self.T.of(d)
        v = const_eval(g, self.T.tu)
        if v is not None and ty[0] == "int":
            return self.lit(v, ty), ty
        if v is not None and ty[0] == "bool":
            return ("true" if v else "false"), ty
        return None

    def enumval(self, d):
        v = enum_value(self.T.tu, d["id"])
        if v is None:
            raise Unsupported("enum constant")
        return str(v)

    def lit(self, v, ty):
        return str(v) if v >= 0 else "(%d)" % v

    # ---------------------------------------------------------------- rvalues
    def rv(self, n):
        n0 = n
        n = strip(n)
        k = n.get("kind")
        T = self.T
        if k == "IntegerLiteral":
            return n["value"], T.of(n)
        if k == "CharacterLiteral":
            return str(n["value"]), T.of(n)
        if k == "CXXBoolLiteralExpr":
            return ("true" if n["value"] else "false"), ("bool",)
        if k == "FloatingLiteral":
            return str(n["value"]) + ("" if "." in str(n["value"]) else ".0"), ("double",)
        if k == "CXXDefaultArgExpr":
            if n.get("inner"):
                return self.rv(n["inner"][0])
            raise Unsupported("default argument")
        if k in ("ImplicitCastExpr", "CXXStaticCastExpr", "CStyleCastExpr", "CXXFunctionalCastExpr"):
            ck = n.get("castKind")
            inner = n["inner"][0]
            if ck in ("LValueToRValue",):
                i = strip(inner)
                if i.get("kind") == "DeclRefExpr" and i["referencedDecl"]["id"] not in self.scope:
                    g = self.globalconst(i["referencedDecl"])
                    if g is not None:
                        return g
                if i.get("kind") == "ConditionalOperator":
                    return self.rv(i)
                p = self.lv(inner)
                return self.rd(p), p.ty
            if ck in ("NoOp", "ConstructorConversion", "UserDefinedConversion", "DerivedToBase", "UncheckedDerivedToBase", "ToVoid"):
                if ck == "UserDefinedConversion":
                    c, t = self.rv(inner)
                    return c, t
                if self.is_lv(inner):
                    p = self.lv(inner)
                    return self.rd(p), p.ty
                return self.rv(inner)
            if ck in ("IntegralCast", "IntegralToBoolean", "BooleanToSignedIntegral", "IntegralToFloating", "FloatingCast"):
                c, t = self.rv(inner)
                tt = T.of(n)
                return self.conv(c, t, tt), tt
            if ck == "FloatingToIntegral":
                raise Unsupported("float to int")
            if ck in ("FunctionToPointerDecay", "BuiltinFnToFnPtr", "ArrayToPointerDecay"):
                return self.rv(inner)
            if ck == "PointerToBoolean":
                return "true", ("bool",)
            raise Unsupported("cast " + str(ck))
        if k == "UnaryOperator":
            op = n["opcode"]
            if op == "!":
                c, t = self.rv(n["inner"][0])
                return "(not %s)" % self.conv(c, t, ("bool",)), ("bool",)
            if op == "-":
                c, t = self.rv(n["inner"][0])
                if t[0] == "double":
                    return "(RealInfix.(-.) 0.0 %s)" % c, t
                return self.arith("-", "0", c, T.of(n)), T.of(n)
            if op == "+":
                return self.rv(n["inner"][0])
            if op in ("++", "--"):
                if n.get("isPostfix"):
                    p = self.lv(n["inner"][0])
                    v = self.hoist(self.rd(p), "old")
                    self.incdec(p, op)
                    return v, p.ty
                p = self.lv(n)
                return self.rd(p), p.ty
            if op in ("*", "&"):
                p = self.lv(n)
                return self.rd(p), p.ty
            if op == "~":
                c, t = self.rv(n["inner"][0])
                if not t[2]:
                    return "(%d - %s)" % (tmax(t), c), t
            raise Unsupported("unary " + op)
        if k == "BinaryOperator":
            return self.binop(n)
        if k == "CompoundAssignOperator":
            p = self.lv(n)
            return self.rd(p), p.ty
        if k == "ConditionalOperator":
            c, t = self.cond(n["inner"][0])
            pa, (a, ta) = self.capture(lambda: self.rv(n["inner"][1]))
            pb, (b, tb) = self.capture(lambda: self.rv(n["inner"][2]))
            return "(if %s then %s else %s)" % (c, self.blk(pa, a), self.blk(pb, b)), ta
        if k in ("CXXMemberCallExpr",):
            return self.membercall(n)
        if k == "CXXOperatorCallExpr":
            return self.opcallrv(n)
        if k == "CallExpr":
            return self.call(n)
        if k in ("DeclRefExpr", "MemberExpr", "ArraySubscriptExpr"):
            if k == "DeclRefExpr" and n["referencedDecl"]["id"] not in self.scope:
                g = self.globalconst(n["referencedDecl"])
                if g is not None:
                    return g
            p = self.lv(n)
            return self.rd(p), p.ty
        if k == "CXXThisExpr":
            return self.thispath.read(), self.thispath.ty
        if k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
            return self.construct(n)
        if k == "InitListExpr":
            t = T.of(n)
            return self.initlist(t, n.get("inner", [])), t
        if k == "CXXStdInitializerListExpr":
            return self.rv(n["inner"][0])
        if k in ("CXXScalarValueInitExpr", "ImplicitValueInitExpr"):
            t = T.of(n)
            d = T.default(t)
            if d is None:
                raise Unsupported("value init")
            return d, t
        if k == "UnaryExprOrTypeTraitExpr":
            raise Unsupported("sizeof")
        if k == "CXXNewExpr" and not n.get("isArray") and len(n.get("inner", [])) == 1:
            # the new object is reachable only through the returned pointer
            c, t = self.rv(n["inner"][0])
            return c, ("ptr", t)
        raise Unsupported("expression %s" % k)

    def initlist(self, t, inner):
        if t[0] == "vec" and not inner:
            return self.T.default(t)
        if t[0] == "vec":
            v = "(vnew () : %s)" % self.T.why(t)
            for c in inner:
                e, et = self.rv(c)
                v = "(vpush %s %s)" % (v, self.conv(e, et, t[1]))
            return v
        if t[0] == "rec":
            fs = self.T.recs[t[1]]["fields"]
            vals = []
            for i, (cn, w, ty) in enumerate(fs):
                if i < len(inner):
                    e, et = self.rv(inner[i])
                    vals.append("%s = %s" % (w, self.conv(e, et, ty)))
                else:
                    vals.append("%s = %s" % (w, self.anyval(ty, True)))
            return "{ %s }" % "; ".join(vals)
        if t[0] == "int" and len(inner) == 1:
            e, et = self.rv(inner[0])
            return self.conv(e, et, t)
        raise Unsupported("init list %r" % (t,))

    def anyval(self, t, zero=False):
        if zero:
            d = self.T.default(t)
            if d:
                return d
        if t[0] == "int":
            return "(havoc %s %d)" % ("(%d)" % tmin(t) if tmin(t) < 0 else "0", tmax(t))
        if t[0] in ("vec", "map", "set", "queue"):
            return self.T.default(t)
        if t[0] == "rec":
            return self.defconstruct(t)
        return "(any %s)" % self.T.why(t)

    def blk(self, pre, code):
        if not pre:
            return code
        return "(%s %s)" % (" ".join(pre), code)

    def arith(self, op, a, b, t):
        if t[0] == "double":
            return "(RealInfix.(%s.) %s %s)" % (op, a, b)
        e = "(%s %s %s)" % (a, op, b)
        if t[2]:
            return "(chk_s%d %s)" % (t[1], e)
        return self.wrap(t, e)

    def cond(self, n):
        c, t = self.rv(n)
        return self.conv(c, t, ("bool",)), ("bool",)

    def binop(self, n):
        op = n["opcode"]
        l, r = n["inner"]
        T = self.T
        if op in ("&&", "||"):
            a, ta = self.cond(l)
            pb, (b, tb) = self.capture(lambda: self.cond(r))
            return "(%s %s %s)" % (a, op, self.blk(pb, b)), ("bool",)
        if op == "=":
            p = self.lv(n)
            return self.rd(p), p.ty
        if op == ",":
            self.effect(l)
            return self.rv(r)
        a, ta = self.rv(l)
        b, tb = self.rv(r)
        t = T.of(n)
        if op in ("+", "-", "*"):
            return self.arith(op, a, b, t), t
        if op in ("/", "%"):
            if t[0] == "double":
                return "(RealInfix.(/.) %s %s)" % (a, b), t
            if t[2]:
                return "(cdiv%s %s %s)" % ("" if op == "/" else "mod", a, b), t
            return "(udiv%s %s %s)" % ("" if op == "/" else "mod", a, b), t
        if op in ("<", "<=", ">", ">="):
            if ta[0] == "double":
                return "(RealInfix.(%s.) %s %s)" % (op, a, b), ("bool",)
            return "(%s %s %s)" % (a, op, b), ("bool",)
        if op in ("==", "!="):
            if ta[0] == "bool":
                e = "(beq %s %s)" % (a, b)
                return (e if op == "==" else "(not %s)" % e), ("bool",)
            if ta[0] == "ptr":
                raise Unsupported("pointer comparison")
            return "(%s %s %s)" % (a, "=" if op == "==" else "<>", b), ("bool",)
        if op in (">>", "<<") and re.match(r"^\d+$", b):
            if op == ">>":
                return "(udiv %s %d)" % (a, 1 << int(b)), t
            return self.arith("*", a, str(1 << int(b)), t), t
        raise Unsupported("binary " + op)

    # ---------------------------------------------------------------- effects
    def incdec(self, p, op):
        t = p.ty
        if t[0] == "rec":
            raise Unsupported("++ on record")
        v = self.arith("+" if op == "++" else "-", self.rd(p), "1", t)
        self.pre.append(p.write(v) + ";")
        self.wrote(p)

    def wrote(self, p):
        f = [x for k, x in p.steps if k == "f"]
        if f:
            for g in self.spec.after_write.get(f[0], []):
                self.pre.append(self.subst(g) + ";")

    def effect(self, n):
        """evaluate for side effects; appends to self.pre"""
        n = strip(n)
        k = n.get("kind")
        if k in ("ImplicitCastExpr", "CStyleCastExpr", "CXXStaticCastExpr", "CXXFunctionalCastExpr") and n.get("castKind") in ("ToVoid", "NoOp", "LValueToRValue"):
            return self.effect(n["inner"][0])
        if k == "BinaryOperator" and n["opcode"] == "=":
            p = self.lv(n["inner"][0])
            c, t = self.rv(n["inner"][1])
            self.assign(p, self.conv(c, t, p.ty))
            return
        if k == "BinaryOperator" and n["opcode"] == ",":
            self.effect(n["inner"][0]); self.effect(n["inner"][1]); return
        if k == "CompoundAssignOperator":
            p = self.lv(n["inner"][0])
            c, t = self.rv(n["inner"][1])
            op = n["opcode"][:-1]
            ct = self.T.parse(n["computeResultType"].get("desugaredQualType", n["computeResultType"]["qualType"]))
            a = self.conv(self.rd(p), p.ty, ct)
            if op in ("+", "-", "*"):
                v = self.arith(op, a, c, ct)
            elif op == "/":
                v = "(udiv %s %s)" % (a, c)
            elif op == "%":
                v = "(udivmod %s %s)" % (a, c)
            elif op in ("|", "&") and p.ty[0] == "bool":
                v = "(%s %s %s)" % (a, op * 2, c)
            else:
                raise Unsupported("compound " + op)
            self.assign(p, self.conv(v, ct, p.ty))
            return
        if k == "UnaryOperator" and n["opcode"] in ("++", "--"):
            p = self.lv(n["inner"][0])
            self.incdec(p, n["opcode"])
            return
        if k == "CXXOperatorCallExpr":
            op, args = self.opcall(n)
            if self.islog(n):
                self.dropped.append("logging statement")
                return
            if op == "operator=":
                self.ptr_assign(args)
                p = self.lv(args[0])
                mv = self.moved(args[1])
                if mv is not None:
                    q = self.lv(mv)
                    self.move_assign(p, q)
                    return
                c, t = self.rv(args[1])
                self.assign(p, self.conv(c, t, p.ty))
                return
            if op in ("operator++", "operator--", "operator+="):
                r = self.inline_op(n)
                return
            c, t = self.opcallrv(n)
            self.pre.append("let _ = %s in" % c)
            return
        if k == "CXXMemberCallExpr":
            r = self.membercall(n, want="effect")
            if r is not None and not isinstance(r, Path):
                if r[0] not in ("()",):
                    self.pre.append("let _ = %s in" % r[0])
            return
        if k == "CallExpr":
            r = self.call(n, want="effect")
            if r is not None and not isinstance(r, Path) and r[0] != "()":
                self.pre.append("let _ = %s in" % r[0])
            return
        if k == "ConditionalOperator":
            c, _ = self.cond(n["inner"][0])
            pa, _ = self.capture(lambda: self.effect(n["inner"][1]))
            pb, _ = self.capture(lambda: self.effect(n["inner"][2]))
            self.pre.append("(if %s then (%s ()) else (%s ()));" % (c, " ".join(pa), " ".join(pb)))
            return
        if self.islog(n):
            self.dropped.append("logging statement")
            return
        if k == "CXXDeleteExpr":
            return
        c, t = self.rv(n)
        if re.match(r"^[\w'.()]+$", c):
            return
        self.pre.append("let _ = %s in" % c)

    def islog(self, n):
        try:
            if "VNullLog" in n.get("type", {}).get("qualType", ""):
                return not contains(n, ("CompoundAssignOperator",))
        except Exception:
            pass
        return False

    def moved(self, n):
        n = strip_casts(n)
        if n.get("kind") == "CXXConstructExpr" and len(n.get("inner", [])) == 1:
            n = strip_casts(n["inner"][0])
        if n.get("kind") == "CallExpr":
            f = strip_casts(n["inner"][0])
            if f.get("referencedDecl", {}).get("name") == "move" and len(n["inner"]) == 2:
                return n["inner"][1]
        return None

    def owning(self, t):
        return t[0] in ("vec", "map", "set", "queue") or (t[0] == "rec" and any(self.owning(f[2]) for f in self.T.recs[t[1]]["fields"]))

    def move_assign(self, p, q):
        if self.owning(p.ty):
            # moved-from objects are unspecified, and self-move leaves the
            # object unspecified as well: when both paths may denote one
            # object, its new value is arbitrary in that case
            same = None
            if p.root == q.root and len(p.steps) == len(q.steps):
                same = []
                for (k1, x1), (k2, x2) in zip(p.steps, q.steps):
                    if k1 != k2 or (k1 == "f" and x1 != x2):
                        same = None
                        break
                    if k1 != "f":
                        same.append("%s = %s" % (x1, x2))
            v = self.hoist(q.read(), "mv")
            self.pre.append(q.write("(any %s)" % self.T.why(q.ty)) + ";")
            if same is not None:
                a = self.hoist("(any %s)" % self.T.why(q.ty), "mv")
                self.assign(p, "(if %s then %s else %s)" % (" && ".join(same) or "true", a, v))
            else:
                self.assign(p, v)
        else:
            self.assign(p, self.conv(self.rd(q), q.ty, p.ty))

    def ptr_assign(self, args):
        """shared_ptr assignment is translated as assignment of the object: only right when neither side is shared"""
        try:
            t = self.T.of(strip_casts(args[0]))
        except Unsupported:
            return
        if t[0] != "ptr":
            return
        l = strip_casts(args[0])
        if l.get("kind") == "DeclRefExpr" and l["referencedDecl"]["id"] not in self.ownedptr:
            raise Unsupported("assignment to a pointer that shares its object")
        if self.moved(args[1]) is None and self.is_lv(strip(args[1])):
            raise Unsupported("assignment makes two pointers share an object")

    def assign(self, p, code):
        self.pre.append(p.write(code) + ";")
        self.wrote(p)

    # ---------------------------------------------------------------- calls
    def construct(self, n):
        t = self.T.of(n)
        args = [a for a in n.get("inner", []) if a.get("kind") != "CXXDefaultArgExpr"]
        if t[0] == "ptr":
            if args and self.is_lv(args[0]):
                p = self.lv(args[0])
                return p.read(), p.ty
            if args:
                return self.rv(args[0])
            raise Unsupported("null pointer")
        if t[0] in ("vec", "queue", "map", "set"):
            return self.vecconstruct(t, args), t
        if t[0] == "rec":
            if len(args) == 1:
                at = self.ty_of_arg(args[0])
                if at == t:
                    if self.is_lv(args[0]):
                        p = self.lv(args[0])
                        return p.read(), p.ty
                    return self.rv(args[0])
            vals = [self.rv(a) for a in args]
            return self.recconstruct(t, vals, n), t
        if t[0] in ("int", "bool") and len(args) == 1:
            c, ft = self.rv(args[0])
            return self.conv(c, ft, t), t
        raise Unsupported("construct %r" % (t,))

    def ty_of_arg(self, a):
        if self.is_lv(a):
            try:
                return self.T.of(strip_casts(a))
            except Unsupported:
                return None
        return self.T.of(strip(a))

    def vecconstruct(self, t, args):
        if not args:
            return self.T.default(t)
        ats = [self.ty_of_arg(a) for a in args]
        if len(args) == 1 and ats[0] == t:
            if self.is_lv(args[0]):
                return self.lv(args[0]).read()
            return self.rv(args[0])[0]
        if t[0] == "vec" and ats[0] and ats[0][0] == "int":
            return self.vecfill(t, [self.rv(a) for a in args])
        if t[0] == "set" and strip(args[0]).get("kind") == "CXXStdInitializerListExpr":
            il = strip(strip(args[0])["inner"][0])
            s = "(uset_empty ())"
            for c in il.get("inner", []):
                e, _ = self.rv(c)
                s = "(uset_add %s %s)" % (s, e)
            return s
        if t[0] == "vec" and strip(args[0]).get("kind") == "CXXStdInitializerListExpr":
            il = strip(strip(args[0])["inner"][0])
            return self.initlist(t, il.get("inner", []))
        raise Unsupported("vector constructor")

    def vecfill(self, t, vals):
        n = self.conv(vals[0][0], vals[0][1], ("int", 64, False))
        if len(vals) == 1:
            d = self.T.default(t[1]) or self.defconstruct(t[1])
        else:
            d = self.conv(vals[1][0], vals[1][1], t[1])
        return "(vfill %s %s)" % (n, d)

    def defconstruct(self, t):
        if t[0] == "rec":
            return self.recconstruct(t, [], None)
        return self.anyval(t)

    def recconstruct(self, t, vals, node):
        """inline the constructor of record t chosen by arity"""
        T = self.T
        name = t[1]
        if name not in T.tu.records:      # tuple / pair
            fs = T.recs[name]["fields"]
            if not vals:
                return T.default(t)
            if len(vals) != len(fs):
                raise Unsupported("tuple constructor")
            return "{ %s }" % "; ".join("%s = %s" % (w, self.conv(v, vt, ty)) for (cn, w, ty), (v, vt) in zip(fs, vals))
        short = name.split("<")[0].split("::")[-1]
        cands = []
        seen = set()
        for c in T.tu.records[name].get("inner", []):
            if c.get("kind") == "CXXConstructorDecl" and not c.get("isImplicit"):
                c = T.tu.by_id.get(c.get("id"), c)
                ps = params(c)
                if len(ps) == len(vals) or (len(ps) > len(vals) and all("init" in p for p in ps[len(vals):])):
                    cands.append(c)
        if len(cands) > 1 and vals:
            ex = [c for c in cands if len(params(c)) == len(vals)]
            cands = ex or cands
            ok = []
            for c in cands:
                if all(self.compat(T.of(p), vt) for p, (v, vt) in zip(params(c), vals)):
                    ok.append(c)
            cands = ok or cands
        if not cands:
            if not vals:
                return self.aggdefault(t)
            raise Unsupported("constructor of " + name)
        con = self.unit.contract(cands[0], None)
        if con is not None and con is not self.spec and len(vals) == len(params(cands[0])):
            self.unit.used(con)
            a = ["(%s)" % self.conv(v, vt, T.of(p)) for p, (v, vt) in zip(params(cands[0]), vals)]
            return self.hoist("%s %s" % (con.why, " ".join(a) if a else "()"), "r")
        return self.inline_ctor(cands[0], t, vals)

    def compat(self, a, b):
        if a[0] == b[0] and a[0] in ("int", "bool", "double"):
            return True
        return a == b or (a[0] == "int" and b[0] == "bool")

    def aggdefault(self, t):
        r = self.T.recs[t[1]]
        fs = []
        rec = self.T.tu.records[t[1]]
        inits = {c.get("name"): c for c in rec.get("inner", []) if c.get("kind") == "FieldDecl" and c.get("hasInClassInitializer")}
        for cn, w, ty in r["fields"]:
            if cn in inits:
                e = [c for c in inits[cn].get("inner", [])][-1]
                c, ct = self.rv(e)
                fs.append("%s = %s" % (w, self.conv(c, ct, ty)))
            else:
                fs.append("%s = %s" % (w, self.anyval(ty)))
        for g, gt in r["ghosts"]:
            fs.append("%s = any %s" % (g, gt))
        if not fs:
            fs = ["%s_dummy = ()" % r["why"]]
        return "{ %s }" % "; ".join(fs)

    def inline_ctor(self, c, t, vals):
        T = self.T
        save = dict(self.scope), self.thispath
        self.depth += 1
        if self.depth > 12:
            raise Unsupported("inline depth")
        obj = self.fresh("obj")
        pre0 = self.pre
        self.pre = []
        self.pre.append("let ref %s = %s in" % (obj, self.aggdefault(t)))
        self.thispath = Path(obj, t)
        ps = params(c)
        for i, p in enumerate(ps):
            pt = T.of(p)
            if i < len(vals):
                v, vt = vals[i]
            else:
                v, vt = self.rv(p["inner"][0])
            nm = self.name(p.get("name", "p"))
            self.pre.append("let ref %s = %s in" % (nm, self.conv(v, vt, pt)))
            self.scope[p["id"]] = Path(nm, pt)
        for ini in c.get("inner", []):
            if ini.get("kind") == "CXXCtorInitializer" and "anyInit" in ini:
                w, ty = T.field(t[1], ini["anyInit"].get("name", ""))
                e = ini["inner"][0]
                if strip(e).get("kind") == "CXXConstructExpr" and not strip(e).get("inner") and ty[0] not in ("rec",):
                    v = T.default(ty)
                    if v is None:
                        continue
                elif strip(e).get("kind") in ("ParenListExpr",):
                    raise Unsupported("paren list")
                else:
                    if strip(e).get("kind") == "CXXDefaultInitExpr":
                        continue
                    cc, ct = self.rv(e)
                    v = self.conv(cc, ct, ty)
                self.pre.append(self.thispath.f(w, ty).write(v) + ";")
        b = body(c)
        code = self.inlined_body(b, ("void",)) if b else "()"
        pre = self.pre
        self.pre = pre0
        self.scope, self.thispath = save
        self.depth -= 1
        return self.hoist("(%s %s; %s)" % (" ".join(pre), code, obj), "c")

    def objpath(self, n):
        """path of the object expression of a member call"""
        p = self.lvx(n)
        while p.ty[0] == "ptr":
            p = Path(p.root, p.ty[1], p.steps)
        return p

    def membercall(self, n, want="rv"):
        T = self.T
        me = strip(n["inner"][0])
        while me.get("kind") == "ImplicitCastExpr":
            me = strip(me["inner"][0])
        if me.get("kind") != "MemberExpr":
            raise Unsupported("member call through " + str(me.get("kind")))
        name = me.get("name", "")
        args = n["inner"][1:]
        if self.islog(n):
            return "()", ("void",)
        obj = me["inner"][0]
        if strip(obj).get("kind") == "CXXThisExpr" or True:
            p = self.objpath(obj)
        k = p.ty[0]
        if name.startswith("operator ") or name in ("operator bool", "operator size_type", "operator unsigned long"):
            return self.rd(p), p.ty
        if k in ("vec", "queue", "map", "set"):
            return self.stdcall(p, name, args, n, want)
        if k == "int" or k == "bool":
            # std::atomic
            if name == "load":
                return self.rd(p), p.ty
            if name == "store":
                c, ct = self.rv(args[0])
                self.assign(p, self.conv(c, ct, p.ty))
                return "()", ("void",)
        if k == "rec":
            d = T.tu.by_id.get(me.get("referencedMemberDecl"))
            if d is None or d.get("kind") not in ("CXXMethodDecl", "CXXConversionDecl", "FunctionDecl"):
                d = self.find_method(p.ty[1], name, args)
            if d.get("virtual") and not self.unit.contract(d, p.ty[1]):
                raise Unsupported("virtual call " + name)
            return self.docall(d, p, args, want)
        raise Unsupported("method %s on %r" % (name, p.ty))

    def find_method(self, cls, name, args):
        c = self.T.tu.functions.get(cls + "::" + name, [])
        c = [f for f in c if len(params(f)) == len(args)] or c
        if len(c) != 1:
            raise Unsupported("method lookup %s::%s" % (cls, name))
        return c[0]

    def docall(self, d, objp, args, want):
        T = self.T
        con = self.unit.contract(d, objp.ty[1] if objp is not None and objp.ty[0] == "rec" else None)
        if con is not None:
            return self.contractcall(con, d, objp, args)
        d2 = T.tu.by_id.get(d.get("id"), d)
        if body(d2) is None:
            c = T.tu.functions.get(d2.get("_qn", ""), [])
            c = [f for f in c if len(params(f)) == len(params(d2))]
            if len(c) != 1:
                raise Unsupported("no body for " + d.get("name", "?"))
            d2 = c[0]
        return self.inline(d2, objp, args, want)

    def bindargs(self, d, args):
        T = self.T
        ps = params(d)
        out = []
        for i, p in enumerate(ps):
            q = p["type"]["qualType"]
            dq = p["type"].get("desugaredQualType", q)
            pt = T.of(p)
            a = args[i] if i < len(args) else None
            if a is not None and pt[0] == "ptr":
                # a shared_ptr copied into a by-value parameter still points to the same object
                e = strip(a)
                if e.get("kind") == "CXXConstructExpr" and len(e.get("inner", [])) == 1 and self.is_lv(strip(e["inner"][0])) and self.moved(strip(e["inner"][0])) is None:
                    a = strip(e["inner"][0])
            if a is None or strip(a).get("kind") == "CXXDefaultArgExpr":
                if a is not None and strip(a).get("inner"):
                    v, vt = self.rv(strip(a)["inner"][0])
                else:
                    init = [c for c in p.get("inner", []) if "Expr" in c.get("kind", "") or "Literal" in c.get("kind", "")]
                    if not init:
                        raise Unsupported("default argument")
                    v, vt = self.rv(init[0])
                out.append((p, pt, "val", self.conv(v, vt, pt)))
                continue
            isref = dq.strip().endswith("&")
            isptr = pt[0] == "ptr"
            if (isref or isptr) and self.is_lv(a):
                ap = self.lv(a)
                if pt[0] != "ptr" and ap.ty[0] == "ptr":
                    ap = Path(ap.root, ap.ty[1], ap.steps)
                if ap.ty == pt or (pt[0] == "ptr" and (ap.ty == pt[1] or ap.ty == pt)):
                    const = "const" in dq and pt[0] != "ptr"
                    out.append((p, pt, "lv", ap, const))
                    continue
            v, vt = self.rv(a)
            if pt[0] == "ptr" and vt[0] != "ptr":
                vt = pt
            out.append((p, pt, "val", self.conv(v, vt, pt)))
        return out

    def contractcall(self, con, d, objp, args):
        T = self.T
        ba = self.bindargs(d, args)
        actual, post = [], []
        if objp is not None:
            if con.thisref:
                if not objp.steps:
                    actual.append("&" + objp.root)
                else:
                    tv = self.fresh("o")
                    self.pre.append("let ref %s = %s in" % (tv, objp.read()))
                    actual.append("&" + tv)
                    post.append(objp.write(tv) + ";")
            else:
                actual.append(objp.read())
        for x in ba:
            p, pt = x[0], x[1]
            refp = con.refparam(p.get("name", ""))
            if x[2] == "lv" and refp:
                ap = x[3]
                if not ap.steps:
                    actual.append("&" + ap.root)
                else:
                    tv = self.fresh("o")
                    self.pre.append("let ref %s = %s in" % (tv, ap.read()))
                    actual.append("&" + tv)
                    post.append(ap.write(tv) + ";")
            elif x[2] == "lv":
                actual.append(self.rd(x[3]))
            elif refp:
                tv = self.fresh("o")
                self.pre.append("let ref %s = %s in" % (tv, x[3]))
                actual.append("&" + tv)
            else:
                actual.append("(%s)" % x[3])
        for g in con.ghostparams:
            actual.append(self.spec.ghostargs.get(con.why, {}).get(g[0], g[0]))
        rt = self.rettype(d)
        code = "%s %s" % (con.why, " ".join(actual) if actual else "()")
        self.unit.used(con)
        if rt[0] == "void":
            self.pre.append(code + ";")
            self.pre.extend(post)
            for g in self.spec.after_call.get(d.get("name", ""), []):
                self.pre.append(self.subst(g) + ";")
            return "()", ("void",)
        r = self.hoist(code, "r")
        self.pre.extend(post)
        for g in self.spec.after_call.get(d.get("name", ""), []):
            self.pre.append(self.subst(g.replace("$result", r)) + ";")
        return r, rt

    def rettype(self, d):
        q = d["type"].get("desugaredQualType") or d["type"]["qualType"]
        return self.T.parse_in(ret_of(q, d), d.get("_cls"))

    def inline(self, d, objp, args, want):
        T = self.T
        self.depth += 1
        if self.depth > 12:
            raise Unsupported("inline depth (recursion without contract): " + d.get("name", "?"))
        self.inlined.append(d.get("_qn") or d.get("name", "?"))
        ba = self.bindargs(d, args)
        save = dict(self.scope), self.thispath
        for x in ba:
            p, pt = x[0], x[1]
            if x[2] == "lv":
                ap = x[3]
                if pt[0] == "ptr" and ap.ty[0] != "ptr":
                    ap = Path(ap.root, pt, ap.steps)
                self.scope[p["id"]] = ap
            else:
                nm = self.name(p.get("name", "") or "p")
                self.pre.append("let ref %s = %s in" % (nm, x[3]))
                self.scope[p["id"]] = Path(nm, pt)
        self.thispath = objp
        b = body(d)
        rt = None
        try:
            rt = self.rettype(d)
        except Unsupported:
            rt = None
        stm = [s for s in b.get("inner", []) if s.get("kind") != "NullStmt"]
        try:
            if len(stm) >= 1 and stm[-1].get("kind") == "ReturnStmt" and not any(contains(s, ("ReturnStmt",), ("LambdaExpr",)) for s in stm[:-1]) and all(s.get("kind") in ("DeclStmt",) for s in stm[:-1]):
                for s in stm[:-1]:
                    self.decl(s)
                rs = stm[-1]
                if not rs.get("inner"):
                    return "()", ("void",)
                e = rs["inner"][0]
                if want == "lv" and self.is_lv(e):
                    return self.lv(e)
                if want == "lv":
                    return self.rvtmp(e)
                c, t = self.rv(e)
                if rt is not None and rt[0] != "ptr":
                    c, t = self.conv(c, t, rt), rt
                return c, t
            if rt is None:
                rt = self.auto_ret(b)
            code = self.inlined_body(b, rt)
            if rt[0] == "void":
                self.pre.append("(%s);" % code)
                return "()", rt
            r = self.hoist("(%s)" % code, "r")
            if want == "lv":
                return Path(r, rt)
            return r, rt
        finally:
            self.scope, self.thispath = save
            self.depth -= 1

    def auto_ret(self, b):
        raise Unsupported("deduced return type")

    def inlined_body(self, b, rt):
        stm = b.get("inner", [])
        loops = self.loopinc
        self.loopinc = []
        try:
            if self.tail_ok(stm):
                self.retstack.append(("tail", rt))
                code = self.stmts(stm)
                self.retstack.pop()
                return code
            ex = "Ret%s" % self.fresh("")
            self.retstack.append(("exc", rt, ex))
            code = self.stmts(stm)
            self.retstack.pop()
            if rt[0] == "void":
                return "let exception %s in (try %s with %s -> () end)" % (ex, code, ex)
            return "let exception %s %s in (try (%s; absurd) with %s r__ -> r__ end)" % (ex, self.T.why(rt), code, ex)
        finally:
            self.loopinc = loops

    # tail-position analysis: every return is in tail position
    def always_ret(self, s):
        k = s.get("kind")
        if k == "ReturnStmt":
            return True
        if k == "CompoundStmt":
            return bool(s.get("inner")) and self.always_ret(s["inner"][-1])
        if k == "IfStmt":
            i = s["inner"]
            return s.get("hasElse", False) and self.always_ret(i[-1]) and self.always_ret(i[-2])
        return False

    def tail_ok(self, stm):
        for j, s in enumerate(stm):
            if not contains(s, ("ReturnStmt",), ("LambdaExpr",)):
                continue
            k = s.get("kind")
            if k == "ReturnStmt":
                return True
            if k == "CompoundStmt":
                if j == len(stm) - 1 or self.always_ret(s):
                    if not self.tail_ok(s.get("inner", [])):
                        return False
                    continue
                return False
            if k == "IfStmt":
                i = s["inner"]
                els = i[-1] if s.get("hasElse") else None
                thn = i[-2] if s.get("hasElse") else i[-1]
                for b in (thn, els):
                    if b is not None and contains(b, ("ReturnStmt",), ("LambdaExpr",)):
                        if not self.tail_ok([b] if b.get("kind") != "CompoundStmt" else b.get("inner", [])):
                            return False
                        if not self.always_ret(b) and j != len(stm) - 1:
                            return False
                continue
            return False
        return True

    def lv_inline(self, n):
        op, args = self.opcall(n)
        f = strip_casts(n["inner"][0])
        d = self.T.tu.by_id.get(f["referencedDecl"]["id"])
        if d is None:
            raise Unsupported("operator " + op)
        p = self.objpath(args[0])
        r = self.docall(d, p, args[1:], "lv")
        if isinstance(r, Path):
            return r
        v = self.hoist(r[0], "v")
        return Path(v, r[1])

    def inline_op(self, n):
        op, args = self.opcall(n)
        f = strip_casts(n["inner"][0])
        d = self.T.tu.by_id.get(f["referencedDecl"]["id"])
        if d is None:
            raise Unsupported("operator " + op)
        p = self.objpath(args[0])
        return self.docall(d, p, args[1:], "effect")

    def opcallrv(self, n):
        op, args = self.opcall(n)
        if op == "operator()" :
            return self.lambdacall(args[0], args[1:])
        if op in ("operator[]", "operator*", "operator->"):
            p = self.lv(n)
            return self.rd(p), p.ty
        if op in ("operator==", "operator!=", "operator<", "operator>", "operator<=", "operator>="):
            f = strip_casts(n["inner"][0])
            d = self.T.tu.by_id.get(f["referencedDecl"]["id"])
            if d is not None and body(d) is not None:
                if d.get("kind") == "CXXMethodDecl":
                    p = self.objpath(args[0])
                    return self.docall(d, p, args[1:], "rv")
                return self.docall(d, None, args, "rv")
            if op in ("operator==", "operator!=") and len(args) == 2:
                a, ta = self.rv(args[0])
                b, tb = self.rv(args[1])
                if ta[0] == tb[0] == "mapit":
                    return "(%s %s %s)" % (a, "=" if op == "operator==" else "<>", b), ("bool",)
            raise Unsupported("comparison operator on std type")
        if op in ("operator-", "operator+") and len(args) == 2 and ("normal_iterator" in json.dumps(args[0].get("type", {}))):
            a, ta = self.rv(args[0])
            b, tb = self.rv(args[1])
            if ta[0] == "viter" and tb[0] == "viter" and op == "operator-":
                return "(%s - %s)" % (a, b), ("int", 64, True)
            if ta[0] == "viter" and tb[0] == "int":
                return "(%s %s %s)" % (a, op[-1], b), ta
        if op == "operator=":
            p = self.lv(n)
            return self.rd(p), p.ty
        if op in ("operator++", "operator--") and len(args) == 1:
            p = self.lv(n)
            return self.rd(p), p.ty
        f = strip_casts(n["inner"][0])
        d = self.T.tu.by_id.get(f["referencedDecl"]["id"])
        if d is not None and body(d) is not None:
            if d.get("kind") == "CXXMethodDecl":
                p = self.objpath(args[0])
                return self.docall(d, p, args[1:], "rv")
            return self.docall(d, None, args, "rv")
        raise Unsupported("operator call " + op)

    def purely(self, e, binds):
        """a logic formula for the body `return e;` of a comparison"""
        save = dict(self.scope)
        self.scope.update(binds)
        pre, (c, t) = self.capture(lambda: self.rv(e))
        self.scope = save
        # single-assignment prelude only
        for l in reversed(pre):
            m = re.match(r"^let (?:ref )?([\w']+) = (.*) in$", l)
            if not m:
                raise Unsupported("comparison with effects")
            c = re.sub(r"(?<![\w.'])%s(?![\w'])" % re.escape(m.group(1)), lambda _: "(%s)" % m.group(2), c)
        c = re.sub(r"\brd_\w+ ", "", c)
        if re.search(r"\b(vget|any|chk_|begin|raise)\b", c):
            raise Unsupported("comparison is not a plain expression")
        return c, t

    def lambdabody(self, n):
        n = strip(n)
        if n.get("kind") == "DeclRefExpr":
            p = self.scope.get(n["referencedDecl"]["id"])
            if p is not None and p.ty[0] == "lambda":
                n = p.ty[1]
        if n.get("kind") != "LambdaExpr":
            raise Unsupported("comparison object")
        best = None
        def walk(x):
            nonlocal best
            if x.get("kind") == "CXXMethodDecl" and x.get("name") == "operator()" and body(x) is not None and "auto" not in x["type"]["qualType"].split("(", 1)[1]:
                best = x
            for c in x.get("inner", []):
                if isinstance(c, dict) and c.get("kind") in ("CXXRecordDecl", "FunctionTemplateDecl", "CXXMethodDecl"):
                    walk(c)
        walk(n)
        if best is None:
            raise Unsupported("lambda body")
        st = [x for x in body(best).get("inner", []) if x.get("kind") != "NullStmt"]
        if len(st) != 1 or st[0].get("kind") != "ReturnStmt":
            raise Unsupported("lambda body")
        return params(best), st[0]["inner"][0]

    def lowerbound(self, args):
        """std::lower_bound: first position whose element does not satisfy cmp(element, value); the range must be partitioned"""
        a, ta = self.rv(args[0])
        b, tb = self.rv(args[1])
        if ta[0] != "viter" or tb[0] != "viter":
            raise Unsupported("lower_bound range")
        v = self.hoist(ta[1].read(), "rg")
        lo, hi = self.hoist(a, "lo"), self.hoist(b, "hi")
        et = ta[1].ty[1]
        val, vt = self.rv(args[2])
        val = self.hoist(val, "key")
        def pred(i):
            el = Path("%s[%s]" % (v, i), et)
            if len(args) == 3:
                return "(%s < %s)" % (el.root, val)
            ps, e = self.lambdabody(args[3])
            c, t = self.purely(e, {ps[0]["id"]: el, ps[1]["id"]: Path(val, vt)})
            return c
        self.pre.append("assert { [@expl:lower_bound on a partitioned range] forall i__ j__. %s <= i__ <= j__ < %s -> %s -> %s };" % (lo, hi, pred("j__"), pred("i__")))
        r = self.hoist("any_int ()", "lb")
        self.pre.append("assume { %s <= %s <= %s /\\ (forall i__. %s <= i__ < %s -> %s) /\\ (forall i__. %s <= i__ < %s -> not %s) };" % (lo, r, hi, lo, r, pred("i__"), r, hi, pred("i__")))
        return r, ta

    def lambdacall(self, obj, args):
        raise Unsupported("lambda call")

    def numlim(self, n):
        return None

    def call(self, n, want="rv"):
        T = self.T
        f = strip_casts(n["inner"][0])
        args = n["inner"][1:]
        if f.get("kind") == "MemberExpr":
            # static member function called through an object
            d = T.tu.by_id.get(f.get("referencedMemberDecl"))
            if d is None:
                raise Unsupported("static call")
            return self.docall(d, None, args, want)
        if f.get("kind") != "DeclRefExpr":
            raise Unsupported("indirect call %s at %s" % (f.get("kind"), json.dumps(f)[:600]))
        rd = f["referencedDecl"]
        name = rd.get("name", "")
        d = T.tu.by_id.get(rd["id"])
        if d is not None and d.get("kind") in ("FunctionDecl", "CXXMethodDecl"):
            con = self.unit.contract(d, d.get("_cls"))
            if con is not None:
                return self.contractcall(con, d, None, args)
            b = T.tu.by_id.get(d["id"], d)
            if body(b) is None:
                c = [x for x in T.tu.functions.get(b.get("_qn", ""), []) if len(params(x)) == len(params(b))]
                if len(c) == 1:
                    b = c[0]
            if body(b) is not None:
                return self.inline(b, None, args, want)
        ty = None
        if name == "lower_bound" and len(args) in (3, 4):
            return self.lowerbound(args)
        if name in ("max", "min") and len(args) == 2:
            a, ta = self.rv(args[0])
            b, tb = self.rv(args[1])
            if ta[0] == "double":
                raise Unsupported("float max")
            return "(c%s %s %s)" % (name, a, b), ta
        if name in ("max", "min", "lowest") and not args:
            ty = T.parse(ret_of(rd["type"]["qualType"], rd))
            if ty[0] == "int":
                v = tmax(ty) if name == "max" else tmin(ty)
                return self.lit(v, ty), ty
        if name in ("move", "forward", "cref", "ref") and len(args) == 1:
            if want == "lv" and self.is_lv(args[0]):
                return self.lv(args[0])
            if self.is_lv(args[0]):
                p = self.lv(args[0])
                return self.rd(p), p.ty
            return self.rv(args[0])
        if name in ("make_tuple", "make_pair"):
            vs = [self.rv(a) for a in args]
            t = T.of(n)
            fs = T.recs[t[1]]["fields"]
            return "{ %s }" % "; ".join("%s = %s" % (w, self.conv(v, vt, ty)) for (cn, w, ty), (v, vt) in zip(fs, vs)), t
        if name == "swap" and len(args) == 2:
            p, q = self.lv(args[0]), self.lv(args[1])
            v1 = self.hoist(self.rd(p), "sw")
            v2 = self.hoist(self.rd(q), "sw")
            self.assign(p, v2)
            self.assign(q, v1)
            return "()", ("void",)
        if name in ("exit", "abort", "_exit"):
            self.pre.append("cpp_exit ();")
            self.dropped.append("process exit treated as divergence")
            return "()", ("void",)
        if name == "make_shared":
            t = T.of(n)
            vals = [self.rv(a) for a in args]
            return self.recconstruct(t[1], vals, None), t
        if name in ("operator<<",):
            return "()", ("void",)
        if name == "get" and len(args) == 1:
            p = self.lvx(args[0])
            ta = [c for c in f.get("inner", [])]
            raise Unsupported("std::get")
        if name in ("max_element", "min_element") and len(args) == 2:
            a, ta = self.rv(args[0])
            b, tb = self.rv(args[1])
            if ta[0] != "viter" or tb[0] != "viter" or ta[1].ty[1][0] != "int":
                raise Unsupported(name)
            v = self.hoist(ta[1].read(), "rg")
            lo, hi = self.hoist(a, "lo"), self.hoist(b, "hi")
            op = "<=" if name == "max_element" else ">="
            self.pre.append("assert { [@expl:range of %s] %s <= %s };" % (name, lo, hi))
            r = self.hoist("any_int ()", "me")
            self.pre.append("assume { (%s = %s /\\ %s = %s) \\/ (%s <= %s < %s /\\ (forall i__. %s <= i__ < %s -> %s[i__] %s %s[%s]) /\\ (forall i__. %s <= i__ < %s -> %s[i__] <> %s[%s])) };"
                            % (lo, hi, r, hi, lo, r, hi, lo, hi, v, op, v, r, lo, r, v, v, r))
            return r, ta
        raise Unsupported("call to " + name)

    def stdcall(self, p, name, args, n, want):
        T = self.T
        t = p.ty
        k = t[0]
        U = ("void",)
        u64 = ("int", 64, False)
        if k in ("vec", "queue"):
            if name == "size":
                return "(vsize %s)" % p.read(), u64
            if name == "empty":
                return "(vsize %s = 0)" % p.read(), ("bool",)
            if name in ("push_back", "push"):
                c, ct = self.rv(args[0])
                self.assign(p, "(vpush %s %s)" % (p.read(), self.conv(c, ct, t[1])))
                return "()", U
            if name in ("emplace_back", "emplace"):
                vals = [self.rv(a) for a in args]
                et = t[1]
                if len(vals) == 1 and vals[0][1] == et:
                    v = vals[0][0]
                elif et[0] == "int" and len(vals) == 1:
                    v = self.conv(vals[0][0], vals[0][1], et)
                elif et[0] == "int" and not vals:
                    v = "0"
                elif et[0] == "bool":
                    v = self.conv(vals[0][0], vals[0][1], et) if vals else "false"
                elif et[0] == "vec":
                    v = self.vecfill(et, vals) if vals else T.default(et)
                elif et[0] == "rec":
                    v = self.recconstruct(et, vals, None)
                elif et[0] == "ptr":
                    v = vals[0][0]
                else:
                    raise Unsupported("emplace_back")
                self.assign(p, "(vpush %s %s)" % (p.read(), v))
                return "()", U
            if k == "vec" and name in ("begin", "cbegin"):
                return "0", ("viter", p)
            if k == "vec" and name in ("end", "cend"):
                return "(vsize %s)" % p.read(), ("viter", p)
            if k == "queue" and name == "pop" or name == "pop_front":
                self.assign(p, "(vshift %s)" % p.read())
                return "()", U
            if name in ("pop_back", "pop"):
                self.assign(p, "(vpop %s)" % p.read())
                return "()", U
            if name in ("back", "top"):
                i = self.hoist("(vlast %s)" % p.read(), "ix")
                q = p.i(i, t[1])
                return q if want == "lv" else (self.rd(q), q.ty)
            if name == "front":
                q = p.i("0", t[1])
                return q if want == "lv" else (self.rd(q), q.ty)
            if name == "at":
                i = self.idx(args[0])
                q = p.i(i, t[1])
                return q if want == "lv" else (self.rd(q), q.ty)
            if name == "clear":
                self.assign(p, T.default(t))
                return "()", U
            if name in ("reserve", "shrink_to_fit"):
                return "()", U
            if name == "resize":
                c, ct = self.rv(args[0])
                c = self.conv(c, ct, u64)
                if len(args) > 1:
                    d, dt = self.rv(args[1])
                    d = self.conv(d, dt, t[1])
                else:
                    d = T.default(t[1]) or self.defconstruct(t[1])
                self.assign(p, "(vresize %s %s %s)" % (p.read(), c, d))
                return "()", U
            if name == "assign" and len(args) == 2:
                c, ct = self.rv(args[0])
                d, dt = self.rv(args[1])
                self.assign(p, "(vfill %s %s)" % (self.conv(c, ct, u64), self.conv(d, dt, t[1])))
                return "()", U
            if name == "swap":
                q = self.lv(args[0])
                v1 = self.hoist(p.read(), "sw")
                v2 = self.hoist(q.read(), "sw")
                self.assign(p, v2)
                self.assign(q, v1)
                return "()", U
        if k == "map" and t[1][0] == "int" and not t[1][2] and name in ("find", "end", "cend"):
            # an iterator is the key it points to, end() is -1 (keys are unsigned)
            if name != "find":
                return "(-1)", ("mapit", p)
            c, ct = self.rv(args[0])
            kk = self.hoist(self.conv(c, ct, t[1]), "k")
            return "(if umap_mem %s %s then %s else (-1))" % (p.read(), kk, kk), ("mapit", p)
        if k == "map":
            if name == "clear":
                self.assign(p, T.default(t))
                return "()", U
            if name == "erase":
                c, ct = self.rv(args[0])
                if ct[0] != "mapit":
                    c = self.conv(c, ct, t[1])
                self.assign(p, "(umap_remove %s %s)" % (p.read(), c))
                return "()", U
            if name == "at":
                c, ct = self.rv(args[0])
                q = p.m(self.hoist(self.conv(c, ct, t[1]), "k"), t[2])
                return q if want == "lv" else (self.rd(q), q.ty)
            if name == "count":
                c, ct = self.rv(args[0])
                return "(if umap_mem %s %s then 1 else 0)" % (p.read(), self.conv(c, ct, t[1])), u64
            if name == "emplace":
                kk, kt = self.rv(args[0])
                kk = self.hoist(self.conv(kk, kt, t[1]), "k")
                v, vt = self.rv(args[1])
                v = self.convtuple(v, vt, t[2])
                v = self.hoist(v, "mvl")
                self.pre.append(p.write("(umap_touch %s %s %s)" % (p.read(), kk, v)) + ";")
                return "()", U
        if k == "set":
            if name == "count":
                c, ct = self.rv(args[0])
                return "(if uset_mem %s %s then 1 else 0)" % (p.read(), self.conv(c, ct, t[1])), u64
            if name in ("insert", "emplace"):
                c, ct = self.rv(args[0])
                self.assign(p, "(uset_add %s %s)" % (p.read(), self.conv(c, ct, t[1])))
                return "()", U
        raise Unsupported("%s.%s" % (k, name))

    def convtuple(self, v, vt, tt):
        if vt == tt or vt[0] != "rec" or tt[0] != "rec":
            return self.conv(v, vt, tt)
        x = self.hoist(v, "tp")
        a, b = self.T.recs[vt[1]]["fields"], self.T.recs[tt[1]]["fields"]
        return "{ %s }" % "; ".join("%s = %s" % (w2, self.conv("%s.%s" % (x, w1), t1, t2)) for (_, w1, t1), (_, w2, t2) in zip(a, b))

    # ---------------------------------------------------------------- statements
    def flush(self, f):
        pre, r = self.capture(f)
        return pre, r

    def subst(self, code):
        def r(m):
            k = int(m.group(1))
            if k not in self.loopvars:
                raise Unsupported("loop counter $%d not available" % k)
            return self.loopvars[k]
        def e(m):
            k = int(m.group(1))
            if k not in self.loopelems:
                raise Unsupported("elements of loop $E%d not available" % k)
            return self.loopelems[k]
        return re.sub(r"\$(\d+)", r, re.sub(r"\$E(\d+)", e, code))

    def stmts(self, L):
        """code for a statement list; type unit, or the return type in tail mode"""
        L = [s for s in L if s.get("kind") not in ("NullStmt",)]
        if not L:
            return "()"
        s, rest = L[0], L[1:]
        k = s.get("kind")
        if k == "AttributedStmt":
            return self.stmts([s["inner"][-1]] + rest)
        if k == "CompoundStmt":
            if not rest:
                return self.stmts(s.get("inner", []))
            sv = dict(self.scope)
            c = self.stmts(s.get("inner", []))
            self.scope = sv
            if self.mode() == "tail" and self.always_ret(s):
                return c
            return "(%s);\n%s" % (c, self.stmts(rest))
        if k == "DeclStmt":
            pre, _ = self.capture(lambda: self.decl(s))
            return "%s\n%s" % ("\n".join(pre), self.stmts(rest))
        if k == "ReturnStmt":
            pre, c = self.capture(lambda: self.retexpr(s))
            return "(%s\n%s)" % ("\n".join(pre), c)
        if k == "IfStmt":
            return self.ifstmt(s, rest)
        if k == "DoStmt":
            c = strip_casts(s["inner"][1])
            if c.get("kind") == "ImplicitCastExpr":
                c = strip(c["inner"][0])
            zero = c.get("kind") == "CXXBoolLiteralExpr" and not c["value"] or c.get("kind") == "IntegerLiteral" and c["value"] == "0"
            if zero and not contains(s["inner"][0], ("BreakStmt", "ContinueStmt", "ReturnStmt"), ("ForStmt", "WhileStmt", "CXXForRangeStmt")):
                return self.stmts([s["inner"][0]] + rest)
        if k in ("ForStmt", "WhileStmt", "DoStmt", "CXXForRangeStmt"):
            c = self.loop(s)
            return "(%s);\n%s" % (c, self.stmts(rest))
        if k == "BreakStmt":
            return "break"
        if k == "ContinueStmt":
            if not self.loopinc:
                raise Unsupported("continue")
            inc = self.loopinc[-1]()
            return "(%s continue)" % inc
        if k == "SwitchStmt":
            raise Unsupported("switch")
        pre, _ = self.capture(lambda: self.effect(s))
        return "%s\n%s" % ("\n".join(pre), self.stmts(rest))

    def mode(self):
        return self.retstack[-1][0] if self.retstack else "tail"

    def retexpr(self, s):
        m = self.retstack[-1]
        rt = m[1]
        if s.get("inner"):
            e = s["inner"][0]
            if rt[0] == "rec" and strip(e).get("kind") == "InitListExpr":
                c, t = self.rv(e)
            else:
                c, t = self.rv(e)
            if rt[0] not in ("ptr",):
                c = self.conv(c, t, rt)
            c = "(%s : %s)" % (c, self.T.why(rt)) if rt[0] != "void" else c
        else:
            c = "()"
        if m[0] == "tail":
            return c
        if rt[0] == "void":
            return "raise %s" % m[2]
        return "raise (%s %s)" % (m[2], c)

    def ifstmt(self, s, rest):
        inner = list(s["inner"])
        if s.get("isConstexpr"):
            ce = inner[0]
            if ce.get("kind") == "ConstantExpr" and ce.get("value") in ("true", "false"):
                if ce["value"] == "true":
                    return self.stmts([inner[1]] + rest)
                if s.get("hasElse"):
                    return self.stmts([inner[2]] + rest)
                return self.stmts(rest)
        if s.get("hasInit") or s.get("hasVar"):
            d = inner.pop(0)
            pre0, _ = self.capture(lambda: self.decl(d))
        else:
            pre0 = []
        cnd = inner[0]
        thn = inner[1]
        els = inner[2] if s.get("hasElse") else None
        pre, (c, _) = self.capture(lambda: self.cond(cnd))
        pre = pre0 + pre
        sv = dict(self.scope)
        lst = lambda b: (b.get("inner", []) if b.get("kind") == "CompoundStmt" else [b])
        def branch(b, more):
            self.scope = dict(sv)
            r = self.stmts(lst(b) + more) if b is not None else self.stmts(more)
            self.scope = dict(sv)
            return r
        hasret = self.mode() == "tail" and (contains(thn, ("ReturnStmt",), ("LambdaExpr",)) or (els is not None and contains(els, ("ReturnStmt",), ("LambdaExpr",))))
        hasbrk = False
        if hasret:
            ta = self.always_ret(thn)
            ea = els is not None and self.always_ret(els)
            a = branch(thn, [] if ta else rest)
            b = branch(els, [] if ea else rest)
            code = "if %s then begin\n%s\nend else begin\n%s\nend" % (c, a, b)
            self.scope = sv
            return "%s\n%s" % ("\n".join(pre), code)
        if not rest and False:
            pass
        a = branch(thn, [])
        b = branch(els, []) if els is not None else "()"
        self.scope = sv
        code = "if %s then begin\n%s\nend else begin\n%s\nend" % (c, a, b)
        if not rest:
            return "%s\n%s" % ("\n".join(pre), code)
        return "%s\n(%s);\n%s" % ("\n".join(pre), code, self.stmts(rest))

    def decl(self, s):
        for d in s.get("inner", []):
            k = d.get("kind")
            if k in ("TypedefDecl", "TypeAliasDecl", "StaticAssertDecl", "UsingDecl", "CXXRecordDecl", "EmptyDecl"):
                continue
            if k == "DecompositionDecl":
                self.decomp(d)
                continue
            if k != "VarDecl":
                raise Unsupported("declaration " + str(k))
            self.vardecl(d)

    def vardecl(self, d, nm=None):
        T = self.T
        q = d["type"]["qualType"]
        dq = d["type"].get("desugaredQualType", q)
        name = d.get("name", "v")
        inits = [c for c in d.get("inner", []) if c.get("kind") not in ("TypedefDecl",) and not c.get("kind", "").endswith("Attr") and not c.get("kind", "").endswith("Comment")]
        init = inits[-1] if inits and "init" in d else None
        if "VNullLog" in dq or "timer" == clean(dq) or clean(dq).endswith("::timer"):
            self.scope[d["id"]] = Path("()", ("log",))
            return
        if init is not None and strip(init).get("kind") == "LambdaExpr":
            self.scope[d["id"]] = Path("()", ("lambda", strip(init)))
            return
        if dq.strip().endswith("&") or dq.strip().endswith("&&"):
            if self.is_lv(init):
                p = self.lv(init)
                self.scope[d["id"]] = p
                return
            p = self.rvtmp(init)
            self.scope[d["id"]] = p
            return
        t = T.of(d)
        if t[0] == "ptr" and init is not None:
            i = strip(init)
            e = i
            if e.get("kind") == "CXXConstructExpr" and len(e.get("inner", [])) == 1:
                e = strip(e["inner"][0])
            if self.is_lv(e) and self.moved(e) is None:
                p = self.lv(e)
                self.scope[d["id"]] = Path(p.root, t, p.steps)
                return
        w = nm or self.name(name)
        self.locals.append((name, w, t))
        if init is None:
            c = self.anyval(t)
        else:
            i = strip(init)
            if i.get("kind") == "CXXConstructExpr" and not [a for a in i.get("inner", []) if a.get("kind") != "CXXDefaultArgExpr"] and t[0] not in ("rec", "ptr"):
                c = T.default(t)
            else:
                cc, ct = self.rv(init)
                if t[0] == "mapit":
                    c, t = cc, ct
                elif t[0] == "ptr":
                    c = cc
                else:
                    c = self.conv(cc, ct, t)
        self.pre.append("let ref %s = %s in" % (w, c))
        self.scope[d["id"]] = Path(w, t)
        self.ownedptr.add(d["id"])
        for g in self.spec.after_decl.get(name, []):
            self.pre.append(self.subst(g) + ";")

    def decomp(self, d):
        T = self.T
        inner = d.get("inner", [])
        init = [c for c in inner if c.get("kind") != "BindingDecl"]
        binds = [c for c in inner if c.get("kind") == "BindingDecl"]
        q = d["type"].get("desugaredQualType", d["type"]["qualType"])
        e = init[0]
        if q.strip().endswith("&") and self.is_lv(e):
            p = self.lv(e)
        else:
            es = strip(e)
            if es.get("kind") == "CXXConstructExpr" and len(es.get("inner", [])) == 1:
                es = es["inner"][0]
            if self.is_lv(es):
                q0 = self.lv(es)
                v = self.fresh("dc")
                self.pre.append("let ref %s = %s in" % (v, q0.read()))
                p = Path(v, q0.ty)
            else:
                p = self.rvtmp(es)
        if p.ty[0] != "rec":
            raise Unsupported("structured binding of %r" % (p.ty,))
        fs = T.recs[p.ty[1]]["fields"]
        for b, (cn, w, ty) in zip(binds, fs):
            path = p.f(w, ty)
            self.scope[b["id"]] = path
            for sub in b.get("inner", []):
                if sub.get("kind") == "VarDecl":
                    self.scope[sub["id"]] = path
            # give the binding a name for the specifications
            self.locals.append((b.get("name", ""), None, ty))

    # ---------------------------------------------------------------- loops
    def loop(self, s):
        self.loops += 1
        no = self.loops
        sp = self.spec.loops.get(no)
        k = s.get("kind")
        sv = dict(self.scope)
        try:
            if k == "ForStmt":
                return self.forloop(s, no, sp)
            if k == "WhileStmt":
                inner = s["inner"]
                if s.get("hasVar"):
                    raise Unsupported("while with declaration")
                return self.emit_loop(no, sp, [], inner[0], None, inner[-1], None)
            if k == "DoStmt":
                return self.doloop(s, no, sp)
            return self.rangeloop(s, no, sp)
        finally:
            self.scope = sv

    def forloop(self, s, no, sp):
        init, var, cnd, inc, bd = (s["inner"] + [{}] * 5)[:5]
        pre = []
        if init:
            def f():
                if init.get("kind") == "DeclStmt":
                    self.decl(init)
                else:
                    self.effect(init)
            pre, _ = self.capture(f)
            # loop counter = first declared / assigned int variable
            if init.get("kind") == "DeclStmt":
                for d in init.get("inner", []):
                    if d.get("kind") == "VarDecl":
                        p = self.scope.get(d["id"])
                        if p is not None and not p.steps and p.ty[0] == "int":
                            self.loopvars[no] = p.root
                            break
        if no not in self.loopvars and inc:
            i = strip(inc)
            if i.get("kind") in ("UnaryOperator", "CompoundAssignOperator"):
                try:
                    _, p = self.capture(lambda: self.lv(i["inner"][0]))
                    self.loopvars[no] = p.read()
                except Unsupported:
                    pass
        incf = None
        if inc:
            def incf():
                pr, _ = self.capture(lambda: self.effect(inc))
                return " ".join(pr)
        return self.emit_loop(no, sp, pre, cnd or None, incf, bd, None)

    def autoframe(self, full, scope, lab):
        """fields of a record (and lengths of vectors) the loop never assigns stay as they were"""
        out = []
        roots = {}
        for p in list(scope.values()):
            if isinstance(p, Path):
                roots.setdefault(p.root, p.ty if not p.steps else None)
                if not p.steps:
                    roots[p.root] = p.ty
        if self.thispath is not None:
            roots["this" if self.thispath.root == "this" else self.thispath.root] = self.thispath.ty if not self.thispath.steps else roots.get(self.thispath.root)
        for r, ty in sorted(roots.items()):
            if ty is None or not re.match(r"^[\w']+$", r):
                continue
            rr = re.escape(r)
            if re.search(r"&%s(?![\w'])" % rr, full):
                continue
            ws = [full[m.end():m.end() + 200] for m in re.finditer(r"(?<![\w.'])%s <- " % rr, full)]
            if not ws:
                continue
            if ty[0] == "ptr":
                ty = ty[1]
            if ty[0] == "vec":
                if all(w.startswith("(vset %s " % r) for w in ws):
                    out.append("invariant { length %s = length (%s at %s) }" % (r, r, lab))
            elif ty[0] == "rec" and ty[1] in self.T.recs:
                written = {}
                ok = True
                for w in ws:
                    m = re.match(r"\{ %s with (.*)" % rr, w, re.S)
                    if not m:
                        ok = False; break
                    fs = re.match(r"([\w']+) = (.*)", m.group(1), re.S)
                    if not fs:
                        ok = False; break
                    written.setdefault(fs.group(1), []).append(fs.group(2))
                    # further fields of a multi-field ghost update
                    seg = full
                if not ok:
                    continue
                for m in re.finditer(r"\{ %s with ([^{}]*?;[^{}]*)\}" % rr, full):
                    for x in re.findall(r";\s*([\w']+) =", m.group(1)):
                        written.setdefault(x, []).append("")
                rec = self.T.recs[ty[1]]
                for cn, w, fty in rec["fields"]:
                    if w not in written:
                        out.append("invariant { %s.%s = (%s at %s).%s }" % (r, w, r, lab, w))
                    elif fty[0] == "vec" and all(x.startswith("(vset %s.%s " % (r, w)) for x in written[w]):
                        out.append("invariant { length %s.%s = length (%s at %s).%s }" % (r, w, r, lab, w))
                for g, _ in rec["ghosts"]:
                    if g not in written:
                        out.append("invariant { %s.%s = (%s at %s).%s }" % (r, g, r, lab, g))
        return out

    def specclauses(self, sp, no):
        out = []
        if sp is None:
            return out
        for kind, code in sp.clauses:
            out.append("%s { %s }" % (kind, self.subst(code)))
        return out

    def emit_loop(self, no, sp, pre, cnd, incf, bd, bodypre, condcode=None):
        if condcode is not None:
            c = condcode
        elif cnd is None:
            c = "true"
        else:
            p, (cc, _) = self.capture(lambda: self.cond(cnd))
            c = self.blk(p, cc)
        ghost_end = ""
        if sp is not None and sp.ghost_end:
            ghost_end = self.subst(sp.ghost_end) + ";"
        def incs():
            return "%s %s" % (ghost_end, incf() if incf else "")
        self.loopinc.append(incs)
        m = None
        sv = dict(self.scope)
        stm = (bd.get("inner", []) if bd.get("kind") == "CompoundStmt" else [bd])
        self.retstack.append(self.loopmode())
        bp = bodypre() if bodypre else ""
        code = self.stmts(stm)
        self.retstack.pop()
        self.loopinc.pop()
        self.scope = sv
        inc = incs()
        cl = self.specclauses(sp, no)
        full = code + inc
        # machine ranges of every integer variable the loop assigns
        auto = []
        allint = set()
        for p in list(sv.values()):
            if isinstance(p, Path) and p.ty[0] == "int" and not p.steps:
                if re.search(r"(?<![\w.])%s <- " % re.escape(p.root), full):
                    allint.add((p.root, p.ty))
        for r, t in sorted(allint):
            auto.append("invariant { %s }" % rng(t, r))
        before = self.subst(sp.before) + ";\n" if sp is not None and sp.before else ""
        after = ";\n" + self.subst(sp.after) if sp is not None and sp.after else ""
        gb = self.subst(sp.ghost_begin) + ";\n" if sp is not None and sp.ghost_begin else ""
        lab = "L%d__%d" % (no, self.tmp)
        ilab = "I%d__%d" % (no, self.tmp)
        self.tmp += 1
        auto += self.autoframe(full + c + gb + bp, sv, lab)
        r = "%s\n%slabel %s in\nwhile %s do\n%s\n%s%s(%s);\n%s ()\ndone%s" % (
            "\n".join(pre), before, lab, c, "\n".join(auto + cl), ("label %s in\n" % ilab if "$I" in gb + code + inc else "") + gb, bp, code, inc, after)
        return r.replace("$L", lab).replace("$I", ilab)

    def loopmode(self):
        """inside a loop, returns must be exceptions"""
        m = self.retstack[-1] if self.retstack else None
        if m is not None and m[0] == "exc":
            return m
        return ("noret", m[1] if m else ("void",), None)

    def doloop(self, s, no, sp):
        bd, cnd = s["inner"][0], s["inner"][1]
        if contains(bd, ("ContinueStmt",), ("ForStmt", "WhileStmt", "CXXForRangeStmt", "DoStmt")):
            raise Unsupported("continue in do-while")
        self.loopinc.append(lambda: "")
        sv = dict(self.scope)
        self.retstack.append(self.loopmode())
        stm = bd.get("inner", []) if bd.get("kind") == "CompoundStmt" else [bd]
        code = self.stmts(stm)
        self.retstack.pop()
        self.loopinc.pop()
        self.scope = sv
        p, (cc, _) = self.capture(lambda: self.cond(cnd))
        c = self.blk(p, cc)
        cl = self.specclauses(sp, no)
        auto = []
        for q in sv.values():
            if isinstance(q, Path) and q.ty[0] == "int" and not q.steps and re.search(r"(?<![\w.])%s <- " % re.escape(q.root), code + c):
                auto.append("invariant { %s }" % rng(q.ty, q.root))
        ge = (self.subst(sp.ghost_end) + ";") if sp is not None and sp.ghost_end else ""
        gb = (self.subst(sp.ghost_begin) + ";\n") if sp is not None and sp.ghost_begin else ""
        bf = (self.subst(sp.before) + ";\n") if sp is not None and sp.before else ""
        lab = "L%d__%d" % (no, self.tmp)
        self.tmp += 1
        auto = sorted(set(auto)) + self.autoframe(code + c + gb + ge, sv, lab)
        return ("%slabel %s in\nwhile true do\n%s\n%s(%s);\n%s (if %s then () else break)\ndone" % (bf, lab, "\n".join(auto + cl), gb, code, ge, c)).replace("$L", lab)

    def rangeloop(self, s, no, sp):
        inner = [c for c in s["inner"] if c]
        # [init?], range decl, begin decl, end decl, cond, inc, loopvar decl, body
        decls = [c for c in inner if c.get("kind") == "DeclStmt"]
        rng_d, beg_d, end_d, var_d = decls[0], decls[1], decls[2], decls[3]
        bd = inner[-1]
        nd = [c for c in inner if c.get("kind") != "DeclStmt"]
        cnd, inc = nd[0], nd[1]
        rv = rng_d["inner"][0]
        rinit = rv["inner"][-1]
        pre, p = self.capture(lambda: self.lvx(rinit))
        t = p.ty
        if t[0] == "ptr":
            t = t[1]
        vd = var_d["inner"][0]
        vname = vd.get("name", "x")
        if t[0] in ("vec", "set"):
            if t[0] == "set":
                el = self.fresh("elems")
                pre.append("let ref %s = uset_elems %s in" % (el, p.read()))
                p = Path(el, ("vec", t[1]))
                t = p.ty
                self.loopelems[no] = el
            it = self.name("it_" + vname)
            ln = self.name("len_" + vname)
            pre.append("let ref %s = 0 in" % it)
            pre.append("let %s = vsize %s in" % (ln, p.read()))
            self.loopvars[no] = it
            itp = Path(it, ("int", 64, False))
            self.scope["it%d" % no] = itp
            condcode = "(%s <> %s)" % (it, ln)
            incf = lambda: "%s <- (u64 (%s + 1));" % (it, it)
            path = p.i(it, t[1])
            def bodypre():
                out = ["assert { [@expl:range-for over a vector of constant length] length %s = %s };" % (self.lspec(p), ln)]
                ix = self.fresh("ix")
                out.append("let %s = %s in" % (ix, it))
                pth = p.i(ix, t[1])
                q = vd["type"].get("desugaredQualType", vd["type"]["qualType"]).strip()
                if vd.get("kind") == "DecompositionDecl":
                    binds = [c for c in vd["inner"] if c.get("kind") == "BindingDecl"]
                    if q.endswith("&"):
                        src = pth
                    else:
                        v = self.fresh("dc")
                        out.append("let ref %s = %s in" % (v, pth.read()))
                        src = Path(v, t[1])
                    for b, (cn, w, ty) in zip(binds, self.T.recs[t[1][1]]["fields"]):
                        self.scope[b["id"]] = src.f(w, ty)
                        for sub in b.get("inner", []):
                            if sub.get("kind") == "VarDecl":
                                self.scope[sub["id"]] = src.f(w, ty)
                elif q.endswith("&"):
                    self.scope[vd["id"]] = pth
                else:
                    w = self.name(vname)
                    vt = self.T.of(vd)
                    out.append("let ref %s = %s in" % (w, self.conv(self.rd(pth), t[1], vt) if vt[0] == "int" else self.rd(pth)))
                    self.scope[vd["id"]] = Path(w, vt if vt[0] != "opaque" else t[1])
                return "\n".join(out) + "\n"
            return self.emit_loop(no, sp, pre, None, incf, bd, bodypre, condcode)
        if t[0] == "rec":
            # class with begin()/end(): inline its iterator
            self.scope[rv["id"]] = Path(p.root, t, p.steps)
            bv, ev = beg_d["inner"][0], end_d["inner"][0]
            itn = self.name("it_" + vname)
            enn = self.name("end_" + vname)
            pb, _ = self.capture(lambda: self.vardecl(bv, itn))
            pe, _ = self.capture(lambda: self.vardecl(ev, enn))
            bt = self.scope[bv["id"]].ty
            fs = self.T.recs[bt[1]]["fields"] if bt[0] == "rec" else []
            if len(fs) == 1:
                self.loopvars[no] = "%s.%s" % (itn, fs[0][1])
            def incf():
                pr, _ = self.capture(lambda: self.effect(inc))
                return " ".join(pr)
            def bodypre():
                pr, _ = self.capture(lambda: self.vardecl(vd))
                return "\n".join(pr) + "\n"
            # machine range of the iterator field
            sp2 = sp
            self._itrange = None
            code = self.emit_loop(no, sp2, pre + pb + pe, cnd, incf, bd, bodypre)
            if len(fs) == 1 and fs[0][2][0] == "int":
                code = code.replace(" do\n", " do\ninvariant { %s }\n" % rng(fs[0][2], "%s.%s" % (itn, fs[0][1])), 1)
            return code
        raise Unsupported("range-for over %r" % (t,))

    def lspec(self, p):
        s = p.root
        for k, x in p.steps:
            if k == "f":
                s = "%s.%s" % (s, x)
            elif k == "i":
                s = "%s[%s]" % (s, x)
            else:
                raise Unsupported("map path in spec")
        return s

def ret_of(q, d):
    """return type string of a function type 'R (args)'"""
    q = q.strip()
    # 'auto (..) const -> R' prints as 'R (..) const' for instantiated auto
    depth = 0
    for i in range(len(q) - 1, -1, -1):
        if q[i] == ")":
            depth += 1
        elif q[i] == "(":
            depth -= 1
            if depth == 0:
                return q[:i].strip()
    raise Unsupported("function type " + q)

def const_eval(n, tu):
    """value of a constant initialiser, or None"""
    if not isinstance(n, dict):
        return None
    k = n.get("kind")
    if k == "VarDecl":
        ini = [c for c in n.get("inner", []) if not c.get("kind", "").endswith("Attr")]
        q = n.get("type", {}).get("qualType", "")
        if "init" in n and ini and ("const" in q or n.get("constexpr")):
            return const_eval(ini[-1], tu)
        return None
    if k == "IntegerLiteral":
        return int(n["value"])
    if k == "CXXBoolLiteralExpr":
        return 1 if n["value"] else 0
    if k == "ConstantExpr" and "value" in n:
        try:
            return int(n["value"])
        except ValueError:
            return {"true": 1, "false": 0}.get(n["value"])
    if k in ("ImplicitCastExpr", "ParenExpr", "CXXStaticCastExpr", "CStyleCastExpr", "ExprWithCleanups", "ConstantExpr"):
        v = const_eval(n["inner"][0], tu)
        if v is None:
            return None
        t = clean(n["type"].get("desugaredQualType", n["type"]["qualType"]))
        if t in INTS:
            b, s = INTS[t]
            v &= (1 << b) - 1
            if s and v >= 1 << (b - 1):
                v -= 1 << b
        return v
    if k == "BinaryOperator" and n["opcode"] in ("+", "-", "*"):
        a, b = const_eval(n["inner"][0], tu), const_eval(n["inner"][1], tu)
        if a is None or b is None:
            return None
        v = a + b if n["opcode"] == "+" else a - b if n["opcode"] == "-" else a * b
        t = clean(n["type"].get("desugaredQualType", n["type"]["qualType"]))
        if t in INTS and not INTS[t][1]:
            v &= (1 << INTS[t][0]) - 1
        return v
    if k == "UnaryOperator" and n["opcode"] == "-":
        a = const_eval(n["inner"][0], tu)
        return None if a is None else -a
    if k == "DeclRefExpr":
        d = n["referencedDecl"]
        if d.get("kind") == "EnumConstantDecl":
            return enum_value(tu, d["id"])
        return const_eval(tu.by_id.get(d["id"], {}), tu)
    if k == "CallExpr":
        f = strip_casts(n["inner"][0])
        nm = f.get("referencedDecl", {}).get("name")
        t = clean(n["type"].get("desugaredQualType", n["type"]["qualType"]))
        if len(n["inner"]) == 1 and nm in ("max", "min", "lowest") and t in INTS:
            tt = ("int",) + INTS[t]
            return tmax(tt) if nm == "max" else tmin(tt)
    return None

def enum_value(tu, did):
    for n in tu.by_id.values():
        if n.get("kind") == "EnumDecl":
            v = -1
            for c in n.get("inner", []):
                if c.get("kind") != "EnumConstantDecl":
                    continue
                if c.get("inner"):
                    e = const_eval(c["inner"][0], tu)
                    v = e if e is not None else v + 1
                else:
                    v += 1
                if c["id"] == did:
                    return v
    return None
