#!/usr/bin/env python3
"""Plants one bug: plant.py SPEC.py [nocheck]. SPEC sets id, property, needs, breaks, edits=[(file,old,new)...], demo (C source).
Works in a scratch copy /tmp/pb.<id>; keeps the bug in seeded/<id>/ when it builds, passes the stable tests and its demo tells the trees apart.
Then runs the property's quick check against the scratch copy and says whether it was caught."""
import json, os, subprocess, sys, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = {}
exec(open(sys.argv[1]).read(), spec)
id_ = spec["id"]; S = "/tmp/pb." + id_
D = os.path.join(V, "seeded", id_)
def sh(cmd, **k): return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)
DEMO = '''#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
/usr/bin/clang -g -w -std=gnu99 -DLINUX_VERSION -I_build/src "$d/demo.c" -o "$t/demo" _build/src/libo.a -lm -lpthread || exit 3
cd "$t" && timeout 60 ./demo
'''
def main():
    sh(f"rsync -a --delete /repo/ {S}/; cd {S} && git checkout -q -- . ")
    sc = os.path.join("/tmp", "pbs." + id_); os.makedirs(sc, exist_ok=True)
    for n in ("build.sh", "test.sh"):
        t = open("/opt/vp/" + n).read().replace("/repo", S).replace("/opt/vp/build.sh", sc + "/build.sh")
        open(sc + "/" + n, "w").write(t)
    os.makedirs(D, exist_ok=True)
    open(D + "/demo.c", "w").write(spec["demo"].lstrip())
    open(D + "/demo.sh", "w").write(DEMO); os.chmod(D + "/demo.sh", 0o755)
    json.dump({"property": spec["property"], "needs": spec["needs"], "what_it_breaks": spec["breaks"]}, open(D + "/meta.json", "w"), indent=1)
    b = sh(f"bash {sc}/build.sh")
    if b.returncode: print("BASE BUILD FAILED", b.stdout[-1500:], b.stderr[-1500:]); return 1
    r = sh(f"bash {D}/demo.sh", cwd=S)
    if r.returncode: print("DEMO FAILS ON CLEAN TREE", r.returncode, r.stdout[-800:], r.stderr[-2000:]); return 1
    for f, old, new in spec["edits"]:
        p = os.path.join(S, f); t = open(p).read()
        if t.count(old) != 1: print("EDIT", f, "matches", t.count(old)); return 1
        open(p, "w").write(t.replace(old, new))
    d = sh("git diff", cwd=S).stdout
    open(D + "/patch.diff", "w").write(d)
    t = sh(f"bash {sc}/test.sh {sc}/out.json")
    try: o = json.load(open(sc + "/out.json"))
    except Exception as e: print("TEST", e); return 1
    base = json.load(open("/opt/vp/BASELINE.json")); base = base if isinstance(base, list) else base["stable"]
    missing = [x for x in base if x not in o["passed"]]
    if missing: print("TESTS FAIL", len(missing), missing[:3], t.stdout[-500:]); return 1
    r = sh(f"bash {D}/demo.sh", cwd=S)
    if r.returncode in (0, 3): print("DEMO DOES NOT FAIL WITH PATCH", r.returncode, r.stdout[-500:]); return 1
    print(f"{id_}: valid (demo rc {r.returncode})", flush=True)
    if "nocheck" not in sys.argv:
        props = [spec["property"]] + [a for a in sys.argv[2:] if a.startswith("L")]
        for p in props:
            r = sh(f"REPO={S} SIM_BUILD={sc}/b {V}/check {p} quick", cwd=V)
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION") or "violation" in l.lower()]
            print(f"  {p}: rc {r.returncode}", "CAUGHT" if r.returncode == 1 and any(l.startswith("VIOLATION property=%s" % p) for l in r.stdout.splitlines()) else "MISSED", v[:1], r.stderr[-300:] if r.returncode not in (0, 1) else "")
    return 0
rc = main()
shutil.rmtree(S, ignore_errors=True); shutil.rmtree("/tmp/pbs." + id_, ignore_errors=True)
if rc and not os.environ.get("KEEP"): shutil.rmtree(D, ignore_errors=True)
sys.exit(rc)
