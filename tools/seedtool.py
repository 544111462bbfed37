#!/usr/bin/env python3
"""Plant and try bugs. `seed(...)` writes /verif/seeded/<id>/; `seedtool.py try ID [check-args]` applies it to /repo, builds, runs demo and check, and undoes it."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); S = V + "/seeded"
DEMO = r'''#!/bin/bash
# run with cwd /repo after the build: compiles demo.cpp against the objects of the test build
d=$(cd "$(dirname "$0")" && pwd); r=$PWD; w=$(mktemp -d); trap 'rm -rf "$w"' EXIT
g++ -std=gnu++20 -msse4.2 -g -fsanitize=address -fno-access-control -w -DTESTING -DFLASHMQ_VERSION='"1.0.0"' -DOPENSSL_API_COMPAT=0x10100000L -I"$r" "$d/demo.cpp" -o "$w/demo" "$r"/_build/tests/CMakeFiles/flashmq-tests.dir/repo/*.o -rdynamic -lpthread -ldl -lssl -lcrypto -lresolv -lanl || exit 2
mkdir "$w/scratch"; cd "$w/scratch" || exit 2
ASAN_OPTIONS=detect_leaks=0 timeout 200 "$w/demo"
'''
def sh(*a, **k): return subprocess.run(a, capture_output=True, text=True, **k)
def seed(id, prop, file, edits, needs, breaks, demo):
    d = S + "/" + id; os.makedirs(d, exist_ok=True)
    assert not sh("git", "-C", "/repo", "status", "--porcelain").stdout, "dirty /repo"
    try:
        es = [(file, a, b) if len(e) == 2 else tuple(e) for e in edits for a, b in [e[-2:]]]
        for f, a, b in es:
            p = "/repo/" + f; t = open(p).read(); assert t.count(a) == 1, (id, f, t.count(a), a); open(p, "w").write(t.replace(a, b))
        open(d + "/patch.diff", "w").write(sh("git", "-C", "/repo", "diff").stdout)
    finally: sh("git", "-C", "/repo", "checkout", "--", ".")
    open(d + "/demo.cpp", "w").write(demo); open(d + "/demo.sh", "w").write(DEMO); os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
def trial(id, *args):
    m = json.load(open(S + "/%s/meta.json" % id)); out = []
    n = sh("ninja", "-C", "/repo/_build/tests"); r0 = sh("bash", S + "/%s/demo.sh" % id, cwd="/repo"); out.append("clean demo rc=%d" % r0.returncode + ("" if r0.returncode == 0 else r0.stdout[-500:] + r0.stderr[-1500:]))
    a = sh("git", "-C", "/repo", "apply", S + "/%s/patch.diff" % id)
    try:
        if a.returncode: print(id, "patch does not apply", a.stderr); return
        n = sh("ninja", "-C", "/repo/_build/tests"); 
        if n.returncode: out.append("BUILD FAILS " + n.stdout[-1500:])
        r = sh("bash", S + "/%s/demo.sh" % id, cwd="/repo"); out.append("patched demo rc=%d %s" % (r.returncode, (r.stdout + r.stderr)[-200:]))
        c = sh(V + "/run.py", m["property"], *args); out.append("check rc=%d\n%s" % (c.returncode, "\n".join(l[:300] for l in c.stdout.splitlines()[-6:])))
    finally: sh("git", "-C", "/repo", "checkout", "--", "."); sh("ninja", "-C", "/repo/_build/tests")
    print("=====", id, m["property"]); print("\n".join(out), flush=True)
if __name__ == "__main__" and len(sys.argv) > 2 and sys.argv[1] == "try":
    ids = [a for a in sys.argv[2:] if not a.startswith("-") and os.path.isdir(S + "/" + a)]
    for i in ids: trial(i)
