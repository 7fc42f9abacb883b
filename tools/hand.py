#!/usr/bin/env python3
"""Tries hand-written changes: hand.py SPECS.py [LANES]. SPECS sets bugs = [(name, property, [(file, old, new)...])...]. Each is applied in a scratch
copy, kept when it builds and passes the stable tests, and the property's quick check says CAUGHT or MISSED. Nothing depends on it."""
import json, os, subprocess, sys, shutil, threading
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = {}; exec(open(sys.argv[1]).read(), spec)
LANES = int(sys.argv[2]) if len(sys.argv) > 2 else 4
ONLY = sys.argv[3:]
def sh(cmd, **k): return subprocess.run(cmd, shell=True, capture_output=True, text=True, errors="replace", **k)
base = json.load(open("/opt/vp/BASELINE.json")); base = base if isinstance(base, list) else base["stable"]
it = iter([b for b in spec["bugs"] if not ONLY or b[0] in ONLY]); lock = threading.Lock()
def lane(k):
    S = f"/tmp/hand{os.getpid()}_{k}"; sc = f"/tmp/hands{os.getpid()}_{k}"; os.makedirs(sc, exist_ok=True)
    sh(f"rsync -a --delete /repo/ {S}/; mkdir -p {sc}/evidence {sc}/replays; cp {V}/known_findings.txt {sc}/")
    for n in ("build.sh", "test.sh"):
        open(f"{sc}/{n}", "w").write(open("/opt/vp/" + n).read().replace("/repo", S).replace("/opt/vp/build.sh", sc + "/build.sh"))
    env = dict(os.environ, REPO=S, SIM_BUILD=sc + "/b", SIM_WORKERS=os.environ.get("W", "2"), SIM_MIN=os.environ.get("SIM_MIN", "0"), LC_ALL="C.UTF-8", SIM_ROOT=sc)
    while True:
        with lock:
            try: name, prop, edits = next(it)
            except StopIteration: break
        bad = None
        for f, old, new in edits:
            p = f"{S}/{f}"; t = open(p, errors="surrogateescape").read()
            if t.count(old) != 1: bad = f"{f}: {t.count(old)} matches"; break
            open(p, "w", errors="surrogateescape").write(t.replace(old, new))
        res = bad
        if not bad:
            if sh(f"timeout 120 bash {sc}/build.sh").returncode: res = "nobuild"
        if not res:
            sh(f"timeout 120 bash {sc}/test.sh {sc}/out.json")
            try: o = json.load(open(sc + "/out.json"))["passed"]
            except Exception: o = []
            if any(x not in set(o) for x in base): res = "tests fail"
        if not res:
            r = sh(f"mkdir -p {sc}/b/src; rsync -rlc --delete --exclude=/.git --exclude=/_build --exclude='*.[oad]' --exclude='/osc_*parser.[ch]' --exclude='/osc_*scanner.[ch]' --exclude='/doc*' --exclude='/test/data' {S}/ {sc}/b/src/ && make -s -j3 -f sim/Makefile B={sc}/b {'all' if 'L14' in prop else sc + '/b/sim'}", cwd=V, env=env)
            if r.returncode: res = "nosim " + r.stderr[-300:]
        if not res:
            res = ""
            for q in prop.split():
                r = sh(f"timeout 900 {sc}/b/sim{'m' if q == 'L14' else ''} check {q} quick", cwd=sc, env=env)
                c = r.returncode == 1 and "VIOLATION property=" + q in r.stdout
                cl = [l for l in r.stdout.splitlines() if l.startswith("violation class")]
                run = [l for l in r.stdout.splitlines() if "runs" in l]
                res += f" {q}:{'CAUGHT ' + cl[0][17:] + ' ' + run[-1].split(' runs')[0].split()[-1] if c else 'MISSED rc%d' % r.returncode}"
                if c: break
        with lock: print(f"{name}: {res}", flush=True)
        sh("git checkout -q -- .", cwd=S)
    shutil.rmtree(S, ignore_errors=True); shutil.rmtree(sc, ignore_errors=True)
T = [threading.Thread(target=lane, args=(k,)) for k in range(LANES)]
[t.start() for t in T]; [t.join() for t in T]
