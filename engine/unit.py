"""A verification unit: a .spec file (contracts) over functions of /repo.

 Unit.generate()  -> WhyML text (mechanically extracted bodies + contracts)
 Unit.prove()     -> Why3 obligations, discharged by z3 / cvc5 in parallel"""
import os, re, subprocess, tempfile, time, json, shutil, hashlib
from concurrent.futures import ThreadPoolExecutor
import cxxast
from cxxast import Unsupported, body, params, clean
import cpp2why
from cpp2why import Types, FnCtx, Path, san, rng, contains

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SPECS = os.path.join(VERIF, "specs")

TOP = ("include", "extra", "class", "prelude", "fn", "assume", "import", "text", "define", "use", "types")
FNK = ("requires", "ensures", "variant", "invariant", "at_entry", "at_exit", "loop", "before", "after", "begin", "end",
       "after_write", "after_call", "after_decl", "ghostparam", "ghostarg", "diverges", "reason", "returns", "writes", "ghostresult", "byvalue")

class LoopSpec:
    def __init__(self):
        self.clauses = []
        self.before = self.after = self.ghost_begin = self.ghost_end = ""

class FnSpec:
    def __init__(self, name):
        self.name = name
        self.sig = None
        self.why = None
        self.assumed = False
        self.reason = ""
        self.requires, self.ensures, self.variant = [], [], []
        self.loops = {}
        self.at_entry = self.at_exit = ""
        self.after_write, self.after_call, self.after_decl = {}, {}, {}
        self.ghostparams, self.ghostargs = [], {}
        self.diverges = False
        self.thisref = True
        self.decl = None
        self.refparams = {}
        self.origin = None
        self.byvalue = set()
        self.pnames = []
    def pname(self, i, p):
        """the contract may name parameters by position, independent of the code's names"""
        if i < len(self.pnames):
            return self.pnames[i]
        return san(p.get("name", "") or "p")
    def refparam(self, n):
        return self.refparams.get(n, False)

class Spec:
    def __init__(self, path):
        self.path = path
        self.includes, self.extra, self.defines = [], [], []
        self.ghosts = {}
        self.classes = []
        self.items = []     # ('text', str) | ('fn', FnSpec)
        self.imports = []
        self.uses = []
        self.types = []
        self.parse(open(path).read())

    def parse(self, src):
        lines = src.split("\n")
        i = 0
        cur = None
        curloop = None
        curcls = None
        def block(i, first):
            """text of a clause: rest of the line + following lines"""
            out = [first]
            while i < len(lines):
                l = lines[i]
                w = l.split()
                if w and (w[0] in TOP or w[0] in FNK or w[0] == "ghost") and not l.startswith("      "):
                    break
                if l.strip().startswith("#"):
                    i += 1
                    continue
                out.append(l)
                i += 1
            return i, "\n".join(out).strip()
        while i < len(lines):
            l = lines[i]
            i += 1
            w = l.split()
            if not w or w[0].startswith("#"):
                continue
            kw = w[0]
            rest = l.strip()[len(kw):].strip()
            if kw == "include":
                self.includes.append(rest)
            elif kw == "extra":
                self.extra.append(rest)
            elif kw == "define":
                self.defines.append(rest)
            elif kw == "import":
                self.imports.append(rest)
            elif kw == "use":
                self.uses.append(rest)
            elif kw == "types":
                self.types.append(rest)
            elif kw == "class":
                curcls = rest
                self.classes.append(rest)
                cur = None
            elif kw == "ghost" and cur is None:
                n, t = rest.split(":", 1)
                self.ghosts.setdefault(curcls, []).append((n.strip(), t.strip()))
            elif kw in ("prelude", "text"):
                out = []
                assert rest == "{{{", l
                while lines[i].strip() != "}}}":
                    out.append(lines[i])
                    i += 1
                i += 1
                self.items.append(("text", "\n".join(out)))
            elif kw in ("fn", "assume"):
                if kw == "assume":
                    rest = rest[2:].strip()
                m = re.match(r'(.+?)(?:\s+sig\s+"([^"]*)")?(?:\s+as\s+(\w+)(?:\(([^)]*)\))?)?$', rest)
                cur = FnSpec(m.group(1).strip())
                cur.sig = m.group(2)
                cur.why = m.group(3)
                cur.pnames = [x.strip() for x in (m.group(4) or "").split(",") if x.strip()]
                cur.assumed = kw == "assume"
                curloop = None
                self.items.append(("fn", cur))
            elif kw == "loop":
                curloop = LoopSpec()
                cur.loops[int(rest)] = curloop
            elif kw in FNK and cur is not None:
                i, t = block(i, rest)
                if kw == "requires":
                    cur.requires.append(t)
                elif kw == "ensures":
                    cur.ensures.append(t)
                elif kw == "variant":
                    if curloop is not None:
                        curloop.clauses.append(("variant", t))
                    else:
                        cur.variant.append(t)
                elif kw == "invariant":
                    curloop.clauses.append(("invariant", t))
                elif kw == "before":
                    curloop.before = t
                elif kw == "after":
                    curloop.after = t
                elif kw == "begin":
                    curloop.ghost_begin = t
                elif kw == "end":
                    curloop.ghost_end = t
                elif kw == "at_entry":
                    cur.at_entry = t; curloop = None
                elif kw == "at_exit":
                    cur.at_exit = t; curloop = None
                elif kw in ("after_write", "after_call", "after_decl"):
                    n, c = t.split(None, 1)
                    getattr(cur, kw).setdefault(n, []).append(c)
                elif kw == "ghostparam":
                    n, ty = t.split(":", 1)
                    cur.ghostparams.append((n.strip(), ty.strip()))
                elif kw == "ghostarg":
                    f, n, c = t.split(None, 2)
                    cur.ghostargs.setdefault(f, {})[n] = c
                elif kw == "diverges":
                    cur.diverges = True
                elif kw == "reason":
                    cur.reason = t
                elif kw == "byvalue":
                    cur.byvalue |= set(t.split())
            else:
                raise SyntaxError("%s:%d: %s" % (self.path, i, l))

class Unit:
    def __init__(self, name, repo="/repo"):
        self.name = name
        self.repo = repo
        self.spec = Spec(os.path.join(SPECS, name + ".spec"))
        self.imported = []
        self.allspecs = []
        self._collect(self.spec, [])
        self.usedset = set()
        self.info = {}

    def _collect(self, sp, seen):
        for im in sp.imports:
            p = os.path.join(SPECS, im + ".spec")
            if p in seen:
                continue
            seen.append(p)
            s = Spec(p)
            self._collect(s, seen)
            for k, it in s.items:
                if k == "fn" and not it.assumed:
                    it.assumed = True
                    it.origin = im
                    it.reason = "verified in unit " + im
            self.allspecs.append(s)
        if sp is self.spec:
            self.allspecs.append(sp)

    def assumed_list(self):
        out = []
        for s in self.allspecs:
            for k, it in s.items:
                if k == "fn" and it.assumed:
                    out.append("contract of %s assumed in unit %s: %s" % (it.name, self.name, it.reason))
        return out

    # ----------------------------------------------------------------
    def load(self):
        inc, ext, dfs = [], [], []
        for s in self.allspecs:
            inc += [x for x in s.includes if x not in inc]
            ext += [x for x in s.extra if x not in ext]
            dfs += [x for x in s.defines if x not in dfs]
        self.tu = cxxast.load(self.repo, inc, "\n".join(ext), dfs)
        gh = {}
        for s in self.allspecs:
            for c, g in s.ghosts.items():
                gh.setdefault(c, []).extend(g)
        self.T = Types(self.tu, ghosts=gh)
        for s in self.allspecs:
            for t in s.types:
                self.T.parse(t)
            for c in s.classes:
                if c not in self.tu.records:
                    raise Unsupported("class %s not found" % c)
                self.T.need(c)
        self.contracts = {}
        self.fns = []
        for s in self.allspecs:
            for k, it in s.items:
                if k == "fn":
                    self.resolve(it)
                    self.fns.append(it)

    def resolve(self, f):
        c = self.tu.functions.get(f.name, [])
        if not c:
            # declared only (abstract method)
            for n in self.tu.by_id.values():
                if n.get("kind") in ("CXXMethodDecl", "FunctionDecl") and n.get("_qn") == f.name:
                    c = [n]
        if f.sig and f.sig.startswith("#"):
            c = [d for d in c if len(params(d)) == int(f.sig[1:])]
        elif f.sig and f.sig.startswith("~"):
            c = [d for d in c if f.sig[1:] in sigof(d)]
        elif f.sig:
            c = [d for d in c if sigof(d) == f.sig.replace(" ", "")]
        c = [d for d in c if not d.get("_pattern")]
        uniq = {}
        for d in c:
            uniq[d["id"]] = d
        c = list(uniq.values())
        if len(c) != 1:
            raise Unsupported("function %s: %d candidates (%s)" % (f.name, len(c), [sigof(d) for d in c]))
        f.decl = c[0]
        d = f.decl
        if not f.why:
            f.why = san(f.name.split("::")[-1])
            if f.why in [g.why for g in self.fns]:
                f.why = san(f.name.replace("::", "_"))
        q = d["type"]["qualType"]
        f.isctor = d.get("kind") == "CXXConstructorDecl"
        f.static = d.get("storageClass") == "static"
        f.const = q.rstrip().endswith("const")
        f.cls = d.get("_cls")
        f.hasthis = d.get("kind") in ("CXXMethodDecl",) and not f.static
        f.thisref = f.hasthis and not f.const
        for p in params(d):
            dq = p["type"].get("desugaredQualType", p["type"]["qualType"])
            t = self.T.of(p)
            isref = (dq.strip().endswith("&") and "const" not in dq.split("<")[0].split("&")[0]) or t[0] == "ptr"
            if p.get("name", "") in f.byvalue:
                isref = False
            f.refparams[p.get("name", "")] = isref
        self.contracts[d["id"]] = f
        if d.get("previousDecl"):
            self.contracts[d["previousDecl"]] = f
        for i, n in list(self.tu.by_id.items()):
            if n is d:
                self.contracts[i] = f
        self.contracts[(f.name, sigof(d))] = f

    def contract(self, d, cls):
        c = self.contracts.get(d.get("id"))
        if c is None:
            c = self.contracts.get((d.get("_qn"), sigof(d)))
        return c

    def used(self, con):
        self.usedset.add(con.why)
        if con is self.current:
            self.selfrec = True

    # ----------------------------------------------------------------
    def signature(self, f):
        T = self.T
        ps = []
        auto = []
        if f.hasthis:
            t = T.why(("rec", f.cls))
            ps.append("(ref this: %s)" % t if f.thisref else "(this: %s)" % t)
        for i, p in enumerate(params(f.decl)):
            t = T.of(p)
            n = f.pname(i, p)
            ps.append("(%s%s: %s)" % ("ref " if f.refparam(p.get("name", "")) else "", n, T.why(t)))
            if t[0] == "int":
                auto.append("requires { %s }" % rng(t, n))
        for g, gt in f.ghostparams:
            ps.append("(ghost %s: %s)" % (g, gt))
        if not ps:
            ps = ["()"]
        if f.isctor:
            rt = ("rec", f.cls)
        else:
            q = f.decl["type"].get("desugaredQualType") or f.decl["type"]["qualType"]
            rt = T.parse_in(cpp2why.ret_of(q, f.decl), f.cls)
        return ps, auto, rt

    def emit_val(self, f):
        ps, auto, rt = self.signature(f)
        wr = []
        if f.thisref:
            wr.append("this")
        for i, p in enumerate(params(f.decl)):
            if f.refparam(p.get("name", "")):
                wr.append(f.pname(i, p))
        out = ["  val %s %s : %s" % (f.why, " ".join(ps), self.T.why(rt))]
        out += ["    " + a for a in auto]
        out += ["    requires { %s }" % r for r in f.requires]
        if wr:
            out.append("    writes { %s }" % ", ".join(wr))
        out += ["    ensures { %s }" % e for e in f.ensures]
        if rt[0] == "int":
            out.append("    ensures { %s }" % rng(rt, "result"))
        return "\n".join(out)

    def emit_fn(self, f, smoke):
        T = self.T
        ps, auto, rt = self.signature(f)
        d = f.decl
        ctx = FnCtx(T, self, d, f)
        self.current, self.selfrec = f, False
        if f.hasthis:
            ctx.thispath = Path("this", ("rec", f.cls))
        entry = []
        for i, p in enumerate(params(d)):
            n = f.pname(i, p)
            t = T.of(p)
            if not f.refparam(p.get("name", "")):
                entry.append("let ref %s = %s in" % (n, n))
            ctx.scope[p["id"]] = Path(n, t)
        if f.isctor:
            ctx.pre = []
            vals = [(f.pname(i, p), T.of(p)) for i, p in enumerate(params(d))]
            code0 = ctx.inline_ctor(d, ("rec", f.cls), vals)
            code = "%s\n%s" % ("\n".join(ctx.pre), code0)
            if f.at_exit:
                code = "let ref this = (%s) in\n%s;\nthis" % (code, f.at_exit)
            rt = ("rec", f.cls)
        else:
            code = ctx.inlined_body(body(d), rt)
            if f.at_exit:
                code = "let result__ = (%s) in\n%s;\nresult__" % (code, f.at_exit.replace("$result", "result__"))
        if smoke:
            code = "let result__s = (%s) in\ncheck { smoke__ };\nresult__s" % code
        want = set(f.loops)
        if want - set(range(1, ctx.loops + 1)):
            raise Unsupported("%s: contract has %d loops, code has %d" % (f.name, max(want), ctx.loops))
        for n in list(f.after_write):
            pass
        pre = "label Init in\n" + "\n".join(entry) + "\n" + (f.at_entry + ";\n" if f.at_entry else "")
        out = ["  let%s %s %s : %s" % (" rec" if self.selfrec else "", f.why, " ".join(ps), T.why(rt))]
        out += ["    " + a for a in auto]
        out += ["    requires { %s }" % r for r in f.requires]
        out += ["    ensures { %s }" % e for e in f.ensures]
        if rt[0] == "int":
            out.append("    ensures { %s }" % rng(rt, "result"))
        out += ["    variant { %s }" % v for v in f.variant] if self.selfrec else []
        if f.diverges:
            out.append("    diverges")
        out.append("  = " + pre + code)
        self.info[f.why] = dict(name=f.name, loops=ctx.loops, inlined=sorted(set(ctx.inlined)), dropped=sorted(set(ctx.dropped)))
        return "\n".join(out)

    def guard_ghost(self):
        """specification text neither assumes anything nor calls a program operation of the model: those promise facts
        (a size is not negative, a stored number is in the range of its type) that hold of the program's values only"""
        prog = set(re.findall(r"(?m)^\s*val (?:ghost )?(\w+)", open(os.path.join(HERE, "cpp.mlw")).read()))
        fns = {it.why for s in self.allspecs for k, it in s.items if k == "fn"}
        bad = prog | fns | {"axiom", "assume", "val", "any"}
        def look(where, t):
            t = re.sub(r"\(\*.*?\*\)", " ", t, flags=re.S)
            for w in re.findall(r"(?<![\w.'])[A-Za-z_]\w*", t):
                if w in bad and not re.search(r"\b%s\s*:" % w, t):
                    raise Unsupported("%s: specification text uses %s" % (where, w))
        for s in self.allspecs:
            for k, it in s.items:
                if k == "text":
                    # a client, an ordinary program of operations under contract, may call them but is not called by ghost code
                    for x in re.split(r"(?m)^  (?=\w)", it):
                        m = re.match(r"let (?:rec )?(\w+)", x)
                        if m and m.group(1) not in ("ghost", "lemma", "function", "predicate"):
                            bad.add(m.group(1))
                        else:
                            look("text", x)
                    continue
                for t in [it.at_entry, it.at_exit] + [str(x) for h in (it.after_write, it.after_call, it.after_decl) for x in h.values()]:
                    look(it.name, t or "")
                for l in it.loops.values():
                    for x in vars(l).values():
                        for t in (x if isinstance(x, list) else [x]):
                            if isinstance(t, str):
                                look(it.name, t)

    def generate(self, smoke=False):
        if not hasattr(self, "tu"):
            self.load()
        self.guard_ghost()
        items = []
        uses = []
        for s in self.allspecs:
            uses += [u for u in s.uses if u not in uses]
            for k, it in s.items:
                if k == "text":
                    items.append(it)
                elif it.assumed:
                    items.append(self.emit_val(it))
                else:
                    items.append(self.emit_fn(it, smoke))
        hdr = ["module U", "  use int.Int", "  use int.EuclideanDivision", "  use map.Map", "  use vec.Vec", "  use vec.Umap", "  use cpp.Cpp"]
        hdr += ["  use " + u for u in uses]
        if re.search(r": real\b|real\)", self.T.decls()) and "real.RealInfix" not in uses:
            hdr.append("  use real.RealInfix")
        return "\n".join(hdr) + "\n" + self.T.decls() + "\n" + "\n\n".join(items) + "\nend\n"

def sigof(d):
    return ",".join(clean(p["type"].get("desugaredQualType", p["type"]["qualType"])).replace(" ", "") for p in params(d))

# ------------------------------------------------------------------ proving
SOLVERS = {
    "z3": lambda f, t, s: ["z3-new", "-T:%d" % t, "smt.random_seed=%d" % s, f],
    "z3s": lambda f, t, s: ["z3-new", "-T:%d" % t, "smt.random_seed=%d" % s, "smt.solve_eqs=false", f],
    "z3m": lambda f, t, s: ["z3-new", "-T:%d" % t, "smt.random_seed=%d" % s, "smt.solve_eqs=false", "smt.mbqi=false", f],
    "cvc5": lambda f, t, s: ["cvc5", "-q", "--tlimit=%d" % (t * 1000), "--seed=%d" % s, f],
    "z3old": lambda f, t, s: ["z3", "-T:%d" % t, "smt.random_seed=%d" % s, f],
    "cvc5e": lambda f, t, s: ["cvc5", "-q", "--tlimit=%d" % (t * 1000), "--enum-inst", "--full-saturate-quant", "--seed=%d" % s, f],
    "z3n": lambda f, t, s: ["z3-new", "-T:%d" % t, "smt.random_seed=%d" % s, "smt.arith.solver=2", "smt.mbqi=false", f],
    "z3q": lambda f, t, s: ["z3-new", "-T:%d" % t, "smt.random_seed=%d" % s, "smt.auto_config=false", "smt.mbqi=false", f],
    "cvc5q": lambda f, t, s: ["cvc5", "-q", "--tlimit=%d" % (t * 1000), "--seed=%d" % s, f],
}

def opaque(t):
    """predicates with quantifiers become uninterpreted symbols with their definition as an axiom (an equivalent problem)"""
    out = []
    for x in sexp(t):
        if isinstance(x, list) and x and x[0] == "define-fun" and x[3] == "Bool" and x[2]:
            s = unsexp(x[4])
            if "(forall " in s or "(exists " in s:
                app = "(%s %s)" % (x[1], " ".join(a[0] for a in x[2]))
                out.append("(declare-fun %s (%s) Bool)" % (x[1], " ".join(unsexp(a[1]) for a in x[2])))
                out.append("(assert (forall %s (! (= %s %s) :pattern (%s))))" % (unsexp(x[2]), app, s, app))
                continue
        out.append(unsexp(x))
    return "\n".join(out) + "\n"

def run_solver(name, f, t, seed=0):
    t0 = time.time()
    if name.endswith("q"):
        q = f + ".q.smt2"
        if not os.path.exists(q):
            with open(q, "w") as o:
                o.write(opaque(open(f).read()))
        f = q
    try:
        r = subprocess.run(SOLVERS[name](f, t, seed), capture_output=True, text=True, timeout=t + 10)
        o = r.stdout.strip().split("\n")[0] if r.stdout.strip() else "none"
    except subprocess.TimeoutExpired:
        o = "timeout"
    if o.startswith("(error") or o == "none":
        o = "error: " + (r.stdout + r.stderr)[:200] if o != "timeout" else o
    return o, time.time() - t0

class Goal:
    def __init__(self, idx, fz, fc, fn, line, label):
        self.idx, self.fz, self.fc, self.fn, self.line, self.label = idx, fz, fc, fn, line, label
        self.status, self.solver, self.time, self.tries = "open", None, 0.0, []
        self.hint, self.last = None, 0.0
        self.key = ""
    def attempt(self, solver, t, seed=0):
        f = self.fc if solver.startswith("cvc5") else self.fz
        o, dt = run_solver(solver, f, t, seed)
        self.time += dt
        self.tries.append((solver, t, o[:60]))
        if o == "unsat":
            self.status, self.solver, self.last = "proved", solver, dt
            self.won = (solver, seed)
        return self.status == "proved"

POOL = ThreadPoolExecutor(8)
HINTS = os.path.join(SPECS, "hints.json")

def load_hints(unit):
    """which solver discharged a goal of this exact text last time: only the order of attempts depends on it"""
    return json.load(open(HINTS)).get(unit, {}) if os.path.exists(HINTS) else {}

def save_hints(unit, goals):
    h = json.load(open(HINTS)) if os.path.exists(HINTS) else {}
    h[unit] = {g.key: [g.won[0], max(1, int(g.last + 1)), g.won[1]] for g in goals
               if g.status == "proved" and (g.solver != "z3" or g.last > 1.0 or g.won[1] != 0)}
    json.dump(h, open(HINTS, "w"), indent=0, sort_keys=True)

def sexp(t):
    """s-expression of a text as nested lists of tokens"""
    st = [[]]
    for m in re.finditer(r';[^\n]*|\(|\)|\|[^|]*\||"[^"]*"|[^\s()]+', t):
        k = m.group(0)
        if k[0] == ";":
            continue
        if k == "(":
            st.append([])
        elif k == ")":
            x = st.pop(); st[-1].append(x)
        else:
            st[-1].append(k)
    return st[0]

def unsexp(x):
    return x if isinstance(x, str) else "(" + " ".join(unsexp(y) for y in x) + ")"

BOOLEAN = {"and", "or", "not", "=>", "forall", "exists", "<", "<=", ">", ">="}
def splitgoal(x):
    """formulas whose conjunction is equivalent to x"""
    if isinstance(x, str) or not x:
        return [x]
    h = x[0]
    if h == "and":
        return [z for y in x[1:] for z in splitgoal(y)]
    if h == "=>" and len(x) == 3:
        return [["=>", x[1], z] for z in splitgoal(x[2])]
    if h in ("forall", "let") and len(x) == 3:
        b = x[2]
        if isinstance(b, list) and b and b[0] == "!":
            b = b[1]
        return [[h, x[1], z] for z in splitgoal(b)]
    if h == "=" and len(x) == 3 and any(isinstance(y, list) and y and y[0] in BOOLEAN for y in x[1:]):
        return [["=>", x[1], z] for z in splitgoal(x[2])] + [["=>", x[2], z] for z in splitgoal(x[1])]
    return [x]

def split_goal_files(fs):
    """split the goal of an SMT file (one per solver dialect) into one file per conjunct"""
    parts = []
    for f in fs:
        t = open(f).read()
        k = t.rfind("\n(assert")
        e = t.rfind("(check-sat)")
        g = sexp(t[k:e])
        if len(g) != 1 or g[0][0] != "assert" or g[0][1][0] != "not":
            return
        parts.append((t[:k], splitgoal(g[0][1][1]), t[e:]))
    n = len(parts[0][1])
    if n < 2 or any(len(p[1]) != n for p in parts):
        return
    for f, (a, gs, b) in zip(fs, parts):
        r, x = os.path.splitext(f)
        for i, g in enumerate(gs):
            with open("%s.%03d%s" % (r, i, x), "w") as o:
                o.write("%s\n(assert\n  (not\n  %s))\n%s" % (a, unsexp(g), b))
        os.unlink(f)

def why3_goals(mlw, d, cvc=True):
    """split the WhyML file into SMT goals for z3 and cvc5"""
    outz, outc = os.path.join(d, "z"), os.path.join(d, "c")
    os.mkdir(outz); os.mkdir(outc)
    procs = []
    for drv, o in (("vc_z3.drv", outz), ("vc_cvc5.drv", outc))[:2 if cvc else 1]:
        procs.append(subprocess.Popen(["why3", "prove", "-L", HERE, "-D", os.path.join(HERE, drv), "-a", "split_vc", "-a", "inline_goal", "-o", o, mlw, "-T", "U"],
                                      stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True))
    for p in procs:
        o, e = p.communicate()
        if p.returncode != 0:
            raise Unsupported("why3: " + "\n".join(l for l in (o + e).split("\n") if not l.startswith("Warning"))[:1500])
    src = open(mlw).read().split("\n")
    goals = []
    for f in os.listdir(outz):
        split_goal_files([os.path.join(o, f) for o in ((outz, outc) if cvc else (outz,)) if os.path.exists(os.path.join(o, f))])
    for f in sorted(os.listdir(outz)):
        txt = open(os.path.join(outz, f)).read()
        if cvc and not os.path.exists(os.path.join(outc, f)):
            raise Unsupported("why3: goal sets differ")
        m = re.search(r';; Goal "(.*?)"\n;; File "(.*?)", line (\d+)', txt)
        if not m:
            m2 = re.search(r';; Goal "(.*?)"', txt)
            gname, line = (m2.group(1) if m2 else f), 0
        else:
            gname, line = m.group(1), int(m.group(3))
        key = hashlib.sha1(re.sub(r"(?m)^\s*;;.*\n", "", txt).encode()).hexdigest()[:16]
        fn = gname.replace("'vc", "").replace("'refn", "")
        lab = src[line - 1].strip()[:200] if line else ""
        if lab.startswith("let ") or not lab:
            k = txt.rfind("(assert")
            lab = re.sub(r"\s+", " ", re.sub(r";;.*", "", txt[k:]))[:300]
        goals.append(Goal(len(goals), os.path.join(outz, f), os.path.join(outc, f), fn, line, lab))
        goals[-1].key = key
    return goals

def discharge(goals, plan, log=None, deadline=None, hints=None, stop=None):
    """try the portfolio; stop() ends it early"""
    open_ = [g for g in goals if g.status != "proved"]
    over = lambda: (deadline and time.time() > deadline) or (stop and stop())
    def one(g, s, t, seed):
        if not over():
            g.attempt(s, t, seed)
    if hints:
        fs = [POOL.submit(one, g, hints[g.key][0], 3 * hints[g.key][1] + 5, hints[g.key][2]) for g in open_ if g.key in hints]
        [f.result() for f in fs]
        open_ = [g for g in open_ if g.status != "proved"]
    for solver, t, seed in plan:
        if not open_ or over():
            break
        [f.result() for f in [POOL.submit(one, g, solver, t, seed) for g in open_]]
        open_ = [g for g in open_ if g.status != "proved"]
        if log:
            log("  after %s/%ds: %d open of %d" % (solver, t, len(open_), len(goals)))
    return open_

QUICK = [("z3", 2, 0), ("z3m", 2, 0), ("z3q", 2, 0), ("cvc5", 5, 0), ("z3q", 8, 0), ("cvc5q", 8, 0), ("z3", 10, 1), ("cvc5e", 15, 0), ("z3old", 10, 0), ("z3", 30, 2), ("cvc5", 40, 1)]
THOROUGH = QUICK + [("cvc5", 120, 2), ("z3", 120, 3), ("cvc5e", 120, 1), ("z3n", 60, 0)]
RETRY = [("cvc5", 60, 3), ("z3", 60, 4), ("cvc5e", 60, 2), ("z3n", 60, 1), ("cvc5", 120, 5)]
