#!/usr/bin/env python3
"""check.py PROPERTY: decide one property of /repo's current tree.

1. Generate WhyML from the real C++ (clang AST of /repo's headers), attach the
   contracts of specs/*.spec, let Why3 produce the verification conditions and
   discharge every one of them with the SMT portfolio.
2. Vacuity guard: for each function a predicate nothing is known about must NOT be
   provable at the end of its body.
3. Run the native harness (labelled bounded, never counted as proved) compiled
   from the same tree: it replays, and searches a failing input when an
   obligation fails.
Exit 0: no violation.  Exit 1: VIOLATION line.  Exit 3: the check itself broke.
"""
import sys, os, time, json, subprocess, tempfile, shutil, hashlib, threading, traceback, re
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "engine")); sys.path.insert(0, HERE)
import unit
from cxxast import Unsupported
from props import PROPS
REPO = os.environ.get("VERIF_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
T0 = time.time()
LIMIT = 800 if TIER == "quick" else 3300

def log(*a):
    print(*a, flush=True)

# ------------------------------------------------------------------ native
CXX = ["g++", "-std=c++17", "-O1", "-g", "-fopenmp", "-D_GLIBCXX_ASSERTIONS", "-DVIECUT_VERIF", "-w"]
class Native:
    def __init__(self, name, work, prop):
        self.name, self.work, self.prop = name, work, prop
        self.bin = os.path.join(work, "native_" + name)
        self.built, self.err = False, ""
        self.stats, self.failing = None, None
        self.runs = 0
    def build(self):
        src = os.path.join(HERE, "native", self.name + ".cpp")
        flags = ["-fsanitize=address"]
        head = open(src).read(3000)
        m = re.search(r"//\s*FLAGS:(.*)", head)
        if m:
            flags = m.group(1).split()
        cmd = CXX + flags + ["-I", os.path.join(HERE, "native"), "-I", os.path.join(HERE, "stub"), "-I", os.path.join(REPO, "lib"), src, "-o", self.bin]
        r = subprocess.run(cmd, capture_output=True, text=True)
        self.built = r.returncode == 0
        self.err = r.stderr[:2000]
        return self.built
    def run(self, seed, budget):
        out = os.path.join(self.work, "native_%s_%d.out" % (self.name, seed))
        if os.path.exists(out):
            os.unlink(out)
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:exitcode=2", OMP_NUM_THREADS="4",
                   VERIF_KNOWN=",".join(known_keys(self.prop)))
        try:
            r = subprocess.run([self.bin, str(seed), str(budget), out], capture_output=True, text=True, timeout=budget + 120,
                               env=env, cwd=self.work, errors="replace")
            rc, so, se = r.returncode, r.stdout, r.stderr
        except subprocess.TimeoutExpired as e:
            rc, so, se = -1, "", "the harness did not end"
        self.runs += 1
        if rc == 0:
            for l in so.split("\n"):
                if l.startswith("STATS "):
                    s = json.loads(l[6:])
                    if self.stats:
                        s["evaluations"] += self.stats["evaluations"]; s["nontrivial"] += self.stats["nontrivial"]
                        s["known"] = sorted(set(s["known"] + self.stats["known"]))
                    self.stats = s
                    return None
            rc = 3
            so += "\n(no STATS line)"
        why = open(out, errors="replace").read() if os.path.exists(out) else ""
        self.failing = "harness %s seed %d (exit %s)\n%s\n--- stdout\n%s\n--- stderr\n%s\n" % (self.name, seed, rc, why, so[-3000:], se[-4000:])
        return self.failing

def known_keys(prop):
    ks = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+)", l)
            if m and m.group(1) == prop:
                ks.append(m.group(2))
    return ks

# ------------------------------------------------------------------ proof
class Proof:
    def __init__(self, name, work, only=None):
        self.name, self.work, self.only = name, work, only
        self.broken = None
        self.stop = lambda: False
        self.goals, self.open_, self.vacuous = [], [], []
        self.smoke_n = 0
        self.info = {}
        self.same = None
    def run(self):
        d = os.path.join(self.work, "unit_" + self.name)
        os.makedirs(d)
        try:
            U = unit.Unit(self.name, REPO)
            U.only = self.only
            txt = U.generate(False)
            self.info = U.info
            self.assumed = U.assumed_list()
            self.hash = hashlib.sha256(txt.encode()).hexdigest()
            self.same = baseline().get(self.name) == self.hash
            m = os.path.join(d, "u.mlw")
            open(m, "w").write(txt)
            self.goals = unit.why3_goals(m, d)
            if not self.goals:
                raise Unsupported("no obligations were generated")
        except Unsupported as e:
            self.broken = str(e)
            return
        except Exception as e:           # the translator met something it does not know
            self.broken = "translator: %s" % traceback.format_exc()[-800:]
            return
        plan = unit.QUICK if TIER == "quick" else unit.THOROUGH
        st = threading.Thread(target=self.smoke, args=(U,)); st.start()
        self.open_ = unit.discharge(self.goals, plan, deadline=T0 + LIMIT * 0.55, hints=unit.load_hints(self.name), stop=self.stop)
        if self.open_ and self.same and not self.stop():     # unchanged text: give the solvers more time
            self.open_ = unit.discharge(self.open_, unit.RETRY, deadline=T0 + LIMIT * 0.75, stop=self.stop)
        st.join()
    def smoke(self, U):
        """vacuity: `false` at the end of each body must stay unprovable"""
        ds = os.path.join(self.work, "smoke_" + self.name)
        os.makedirs(ds)
        m = os.path.join(ds, "u.mlw")
        open(m, "w").write(U.generate(True))
        sg = [g for g in unit.why3_goals(m, ds) if re.search(r"\(not\s+smoke__", open(g.fz).read()[-400:])]
        self.smoke_n = len(sg)
        unit.discharge(sg, [("z3", 2, 0), ("cvc5", 2, 0)] if TIER == "quick" else [("z3", 10, 0), ("cvc5", 20, 0), ("cvc5e", 20, 0), ("z3q", 10, 0)], stop=self.stop)
        byfn = {}
        for g in sg:
            byfn.setdefault(g.fn, []).append(g.status != "proved")
        self.vacuous = [f for f, l in byfn.items() if not any(l)]

def baseline():
    p = os.path.join(HERE, "specs", "baseline.json")
    return json.load(open(p)) if os.path.exists(p) else {}

# ------------------------------------------------------------------ driver
def main(prop):
    cfg = PROPS[prop]
    work = tempfile.mkdtemp(prefix="vp_%s_" % prop, dir=os.environ.get("TMPDIR", "/tmp"))
    try:
        return decide(prop, cfg, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)

def decide(prop, cfg, work):
    nb = cfg.get("nbudget", 10) * (1 if TIER == "quick" else 12)
    natives = [Native(n, work, prop) for n in cfg.get("native", [])]
    def go():
        ts = []
        for n in natives:
            def one(n=n):
                if n.build():
                    n.run(SEED, nb)
            t = threading.Thread(target=one); t.start(); ts.append(t)
        for t in ts:
            t.join()
    th = threading.Thread(target=go); th.start()
    proofs = [Proof(u, work) for u in cfg.get("units", [])]
    for p in proofs:
        p.stop = lambda: any(n.failing for n in natives)
    sem = threading.Semaphore(4)
    def prove(p):
        with sem:
            p.run()
    ts = [threading.Thread(target=prove, args=(p,)) for p in proofs]
    [t.start() for t in ts]; [t.join() for t in ts]
    for p in proofs:
        u = p.name
        log("unit %s: %s" % (u, "NOT TRANSLATED: " + p.broken if p.broken else "%d obligations, %d discharged, text %s" % (
            len(p.goals), len(p.goals) - len(p.open_), "as recorded" if p.same else "changed")))
        for g in p.open_:
            log("  open: %s: %s" % (g.fn, g.label))
    th.join()
    bad = [p for p in proofs if p.open_]
    broken = [p for p in proofs if p.broken]
    undecided = [p for p in bad if p.same]
    fail = next((n.failing for n in natives if n.failing), None)
    if not fail and (bad or broken):
        # search for a concrete failing input with more seeds
        budget = min(cfg.get("search", 60), max(10, LIMIT - (time.time() - T0) - 60))
        jobs = []
        for n in natives:
            if n.built:
                for s in range(max(1, 6 // max(1, len(natives)))):
                    jobs.append((n, SEED * 1000 + s + 1))
        def one(j):
            j[0].run(j[1], budget)
        ts = [threading.Thread(target=one, args=(j,)) for j in jobs]
        [t.start() for t in ts]; [t.join() for t in ts]
        fail = next((n.failing for n in natives if n.failing), None)
    for n in natives:
        log("native %s: %s" % (n.name, "did not build: " + n.err[:300] if not n.built else "failing input found" if n.failing else "%s cases, no failure" % (n.stats or {}).get("evaluations")))
    alarm = bool(fail) or any(not p.same for p in bad)
    replay = os.path.join(HERE, "evidence", prop + ".replay.txt")
    os.makedirs(os.path.dirname(replay), exist_ok=True)
    if os.path.exists(replay):
        os.unlink(replay)
    # ---- evidence
    obl = sum(len(p.goals) for p in proofs); op = sum(len(p.open_) for p in proofs)
    fns, solvers, stime = {}, {}, 0.0
    for p in proofs:
        for g in p.goals:
            f = fns.setdefault("%s:%s" % (p.name, g.fn), [0, 0])
            f[0] += 1; f[1] += g.status == "proved"
            stime += g.time
            if g.solver:
                solvers[g.solver] = solvers.get(g.solver, 0) + 1
    cov = dict(obligations=obl, discharged=obl - op,
               checker_cmd="why3 prove (split_vc, WhyML generated from /repo by engine/cpp2why.py) + z3-new 5.3.2 / cvc5 1.1.2 / z3 4.8.12",
               trusted_base=TRUST + sorted({a for p in proofs if not p.broken for a in p.assumed}),
               functions_under_contract={k: "%d/%d" % (v[1], v[0]) for k, v in sorted(fns.items())},
               inlined_into_them=sorted({i for p in proofs for v in p.info.values() for i in v["inlined"]}),
               dropped_by_extraction=sorted({i for p in proofs for v in p.info.values() for i in v["dropped"]}),
               by_solver=solvers, solver_seconds=round(stime, 1),
               vacuity_goals=sum(p.smoke_n for p in proofs), vacuous_functions=[f for p in proofs for f in p.vacuous],
               units_not_translated={p.name: p.broken[:400] for p in broken},
               open_obligations=["%s: %s" % (g.fn, g.label) for p in proofs for g in p.open_][:20],
               bounded=[dict(harness=n.name, built=n.built, runs=n.runs, **({} if not n.stats else dict(
                   evaluations=n.stats["evaluations"], distinct_nontrivial=n.stats["nontrivial"], rule=n.stats["rule"], samples=n.stats["samples"])))
                   for n in natives])
    ass = list(cfg.get("assumptions", []))
    if broken:
        ass.append("the proof was NOT re-established for unit(s) %s (translator or contract does not fit the changed code); only the bounded harness decided" % ", ".join(p.name for p in broken))
    if undecided:
        ass.append("solver gave up on an obligation of unchanged text; undecided, not reported")
    ev = dict(property=prop, tier=TIER, seed=SEED, level=cfg.get("level", "proof"), coverage=cov, assumptions=ass,
              wall_s=round(time.time() - T0, 1), violations=1 if alarm else 0)
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    for n in natives:
        for k in (n.stats or {}).get("known", []):
            log("KNOWN-FINDING: property=%s %s" % (prop, k))
    if alarm:
        with open(replay, "w") as f:
            f.write("property %s\n" % prop)
            for p in bad:
                for g in p.open_:
                    f.write("failed obligation: unit %s function %s: %s\n  verifier output: %s\n" % (p.name, g.fn, g.label, g.tries))
            for p in broken:
                f.write("unit %s could not be translated: %s\n" % (p.name, p.broken))
            f.write("\nconcrete failing input on the real code:\n" + fail if fail else "\nno failing input found by the bounded search\n")
        log("VIOLATION property=%s replay=%s%s" % (prop, replay, "" if fail else " no-failing-input-found"))
        return 1
    if any(p.vacuous and p.same for p in proofs):
        log("vacuous contract: %s" % [p.vacuous for p in proofs])
        return 3
    if (broken or not proofs) and not any(n.built for n in natives):
        log("neither the proof nor the harness could be built")
        return 3
    return 0

TRUST = ["engine/cpp2why.py translation (C++ AST to WhyML) and clang 18's AST", "Why3 1.6.0 VC generation; z3, cvc5",
         "value semantics of std containers as modelled in engine/cpp.mlw (vector, unordered_map, unordered_set, queue)",
         "allocation never fails, containers stay below 2^60 elements, logging (LOG*) has no effect"]

if __name__ == "__main__":
    if sys.argv[1] == "--baseline":
        b = baseline()
        for u in sys.argv[2:] or sorted({u for c in PROPS.values() for u in c.get("units", [])}):
            txt = unit.Unit(u, REPO).generate(False)
            h = hashlib.sha256(txt.encode()).hexdigest()
            if "prove" in os.environ.get("VERIF_BASE", "prove") and (h != b.get(u) or u in sys.argv[2:]):
                d = tempfile.mkdtemp(prefix="vp_base_")
                open(os.path.join(d, "u.mlw"), "w").write(txt)
                gs = unit.why3_goals(os.path.join(d, "u.mlw"), d)
                op = unit.discharge(gs, unit.QUICK, hints=unit.load_hints(u))
                if op:
                    op = unit.discharge(op, unit.RETRY)
                unit.save_hints(u, gs)
                shutil.rmtree(d)
                log("%s: %d goals, %d open" % (u, len(gs), len(op)))
                for g in op:
                    log("   open: %s: %s" % (g.fn, g.label))
            b[u] = h
        json.dump(b, open(os.path.join(HERE, "specs", "baseline.json"), "w"), indent=1, sort_keys=True)
        sys.exit(0)
    if sys.argv[1] == "--setup":
        for t in ("why3", "z3-new", "cvc5", "z3", "clang++-18", "g++"):
            if not shutil.which(t):
                print("missing", t); sys.exit(1)
        print("tools present"); sys.exit(0)
    try:
        sys.exit(main(sys.argv[1]))
    except SystemExit:
        raise
    except Exception:
        traceback.print_exc()
        sys.exit(3)
