#!/usr/bin/env python3
"""tools/mkbug.py DIR: DIR/edit.py-style description -> seeded/<id>.
Reads a python file defining ID, PROP, NEEDS, BREAKS, FILE, OLD, NEW (or EDITS list), DEMO (C++ source),
makes patch.diff, demo.sh, meta.json, then confirms: applies, builds, tests pass, demo 0 / nonzero."""
import sys, os, subprocess, json, shutil, runpy, tempfile
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
for fn in sys.argv[1:]:
    g = runpy.run_path(fn)
    edits = g.get("EDITS") or [(g["FILE"], g["OLD"], g["NEW"])]
    w = tempfile.mkdtemp(prefix="bug_", dir="/tmp")
    r = os.path.join(w, "repo")
    sh("cp -a /repo %s" % r)
    for f, o, n in edits:
        p = os.path.join(r, f); s = open(p).read()
        assert s.count(o) >= 1, ("not found", f, o)
        assert s.count(o) == 1, ("ambiguous", f, o)
        open(p, "w").write(s.replace(o, n))
    d = "/verif/seeded/" + g["ID"]
    os.makedirs(d, exist_ok=True)
    diff = sh("git -C %s diff" % r).stdout
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.cpp", "w").write(g["DEMO"])
    if not os.path.isdir(d + "/stub"):
        sh("mkdir -p %s/stub/tlx; cp /verif/stub/tlx/* %s/stub/tlx/" % (d, d))
    open(d + "/demo.sh", "w").write("""#!/bin/bash
# run with cwd = the repository; exit 0 iff the behaviour is right
here="$(cd "$(dirname "$0")" && pwd)"
w="$(mktemp -d)"
trap 'rm -rf "$w"' EXIT
g++ -std=c++17 -O1 -g -fopenmp -w %s -I "$here/stub" -I lib "$here/demo.cpp" -o "$w/demo" -pthread || exit 99
cd "$w" && timeout 120 ./demo
""" % g.get("FLAGS", ""))
    os.chmod(d + "/demo.sh", 0o755)
    json.dump(dict(property=g["PROP"], needs=g["NEEDS"], what_it_breaks=g["BREAKS"]), open(d + "/meta.json", "w"), indent=1)
    a = sh("bash %s/demo.sh" % d, cwd="/repo").returncode
    b = sh("bash %s/demo.sh" % d, cwd=r)
    # the project's stable tests and header compile check on the patched copy
    t = sh("g++ -std=c++17 -O1 -fopenmp -w -I %s/lib %s/tests/union_find_test.cpp -lgtest -lgtest_main -pthread -o %s/ut && %s/ut" % (r, r, w, w)).returncode
    for hd in ["common/configuration.h", "common/definitions.h", "data_structure/union_find.h", "tools/timer.h"] + ["data_structure/priority_queues/%s.h" % x for x in ("bucket_pq", "maxNodeHeap", "node_bucket_pq", "vecMaxNodeHeap")]:
        t |= sh("g++ -std=c++17 -fsyntax-only -fopenmp -w -I %s/lib -x c++ %s/lib/%s" % (r, r, hd)).returncode
    ok = t == 0 and a == 0 and b.returncode not in (0, 99)
    print(g["ID"], "OK" if ok else "BAD", "clean:", a, "tests:", t, "patched:", b.returncode, b.stdout[-200:], b.stderr[-300:] if not ok else "")
    shutil.rmtree(w)
