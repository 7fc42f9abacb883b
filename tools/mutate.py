#!/usr/bin/env python3
"""Finds what the checks do not see: mutate.py N SEED [LANES] [FILE…]. Makes N small random changes to the library in scratch copies,
keeps those that build and pass the stable tests, runs every check (fewer runs each) and lists the survivors. Nothing depends on it."""
import json, os, random, re, subprocess, sys, shutil, threading
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
N, SEED = int(sys.argv[1]), int(sys.argv[2])
LANES = int(sys.argv[3]) if len(sys.argv) > 3 else 4
OUT = os.environ.get("MUT_OUT", "/tmp/w/mut")
MAP = {"osc_match.c": "L13 L09 L10", "osc_expr.c": "L15 L16", "osc_expr_parser.y": "L15 L16", "osc_expr_scanner.l": "L15 L16", "osc_expr_builtins.c": "L15 L16",
 "osc_parser.y": "L17", "osc_scanner.l": "L17", "osc_strfmt.c": "L17", "osc_timetag.c": "L12 L17", "osc_hashtab.c": "L11", "osc_linkedlist.c": "L11",
 "osc_rset.c": "L10", "osc_query.c": "L10", "osc_dispatch.c": "L09", "osc_vtable.c": "L09", "osc_serial.c": "L13", "osc_bundle_u.c": "L06 L01 L18 L05",
 "osc_bundle_s.c": "L07 L01 L18 L02", "osc_message_u.c": "L08 L06 L01", "osc_message_s.c": "L02 L01 L08", "osc_atom_u.c": "L08 L01 L17", "osc_atom_s.c": "L02 L01 L08 L17 L05",
 "osc_array.c": "L11 L05 L15", "osc_atom_array_s.c": "L05 L08 L17", "osc_atom_array_u.c": "L05 L08 L15", "osc_bundle_iterator_s.c": "L07 L02", "osc_bundle_iterator_u.c": "L06", "osc_expr_rec.c": "L15 L04 L16",
 "osc_message_iterator_s.c": "L08 L02", "osc_message_iterator_u.c": "L08", "osc_typetag.c": "L08 L15", "osc_util.c": "L02 L07 L08 L01", "osc_mem.c": "L07 L08 L06 L02 L01"}
ALL = "L13 L07 L06 L08 L01 L02 L11 L12 L18 L09 L10 L17 L15 L16 L05 L04 L03".split()
RUNS = {"L04": 1500, "L03": 2000, "L16": 6000, "L15": 8000}
files = sys.argv[4:] or sorted(set(list(MAP) + "osc_array.c osc_atom_array_s.c osc_atom_array_u.c osc_bundle_iterator_s.c osc_bundle_iterator_u.c osc_expr_rec.c osc_message_iterator_s.c osc_message_iterator_u.c osc_typetag.c osc_util.c osc_mem.c".split()))
files = [f for f in files if os.path.exists("/repo/" + f)]
def sh(cmd, **k): return subprocess.run(cmd, shell=True, capture_output=True, text=True, errors="replace", **k)
def ops(line):
    r = []
    def sub(pat, rep, name):
        for m in re.finditer(pat, line):
            r.append((name, line[:m.start()] + m.expand(rep) + line[m.end():]))
    if '"' in line: quoted = [(m.start(), m.end()) for m in re.finditer(r'"(\\.|[^"\\])*"', line)]
    else: quoted = []
    sub(r'(?<![<>=!-])<(?![<=])', '<=', 'lt'); sub(r'<=', '<', 'le'); sub(r'(?<![->=])>(?![>=])', '>=', 'gt'); sub(r'>=', '>', 'ge')
    sub(r'==', '!=', 'eq'); sub(r'!=', '==', 'ne'); sub(r'&&', '||', 'and'); sub(r'\|\|', '&&', 'or')
    sub(r'\+ 1\b', '+ 2', 'p1'); sub(r'\+ 1\b', '', 'p1d'); sub(r'- 1\b', '', 'm1'); sub(r'\b(\d+)\b(?!\.)', lambda m: str(int(m.group(1)) + 1), 'const') if False else None
    for m in re.finditer(r'(?<![\w.\[])(\d+)(?![\w.])', line):
        n = int(m.group(1)); r.append(('const', line[:m.start()] + str(n + random.choice([1, -1] if n else [1])) + line[m.end():]))
    sub(r'(?<!\+)\+(?![+=])', '-', 'plus'); sub(r'(?<!-)-(?![-=>])', '+', 'minus'); sub(r'\+=', '-=', 'pe'); sub(r'\+\+', '', 'inc')
    m = re.match(r'^(\s*)(\}?\s*(?:else )?if\()(.*)(\)\{?\s*)$', line)
    if m: r.append(('neg', f"{m[1]}{m[2]}!({m[3]}){m[4]}")); r.append(('iffalse', f"{m[1]}{m[2]}0 && ({m[3]}){m[4]}"))
    if re.match(r'^\s+[\w>.\[\]*()-]+(\s*[-+|&]?=\s*[^=].*|\(.*\));\s*$', line) and not re.match(r'^\s+(t_|int |long |char |uint|return|const|struct|double|float|size_t)', line): r.append(('del', re.match(r'^\s*', line)[0] + ';'))
    if re.match(r'^\s+(break|continue);\s*$', line): r.append(('delbr', ';'))
    if re.match(r'^\s+return [^;]*;\s*$', line) and 'return;' not in line: pass
    return [(n, t) for n, t in r if not any(a <= first_diff(line, t) < b for a, b in quoted)]
def first_diff(a, b):
    i = 0
    while i < len(a) and i < len(b) and a[i] == b[i]: i += 1
    return i
def candidates():
    c = []
    for f in files:
        L = open("/repo/" + f, errors="replace").read().split("\n")
        depth = 0; com = False; inif0 = 0
        for i, l in enumerate(L):
            s = l.strip()
            if '/*' in s and '*/' not in s: com = True
            if '*/' in s: com = False; continue
            if re.match(r'#if 0', s): inif0 += 1
            elif inif0 and re.match(r'#if', s): inif0 += 1
            elif inif0 and re.match(r'#(endif|else)', s): inif0 -= 1
            if com or inif0 or s.startswith(('//', '#', '*')): continue
            if not l[:1].isspace(): continue
            if re.match(r'^\s*(static |const )?.*documentation|^\s*"|^\s*\{"', s): continue
            if l.lstrip().startswith('"') or '_doc' in l or 'NULL, NULL' in l: continue
            c.append((f, i))
    return c
random.seed(SEED)
C = candidates()
byfile = {}
for f, i in C: byfile.setdefault(f, []).append(i)
jobs = []
while len(jobs) < N:
    # files by the square root of their size, so that small ones get a share
    f = random.choices(list(byfile), [len(v) ** 0.6 for v in byfile.values()])[0]
    i = random.choice(byfile[f])
    l = open("/repo/" + f, errors="replace").read().split("\n")[i]
    o = ops(l)
    if not o: continue
    n, t = random.choice(o)
    if t == l: continue
    jobs.append((f, i, n, l, t))
lock = threading.Lock(); it = iter(list(enumerate(jobs)))
base = json.load(open("/opt/vp/BASELINE.json")); base = base if isinstance(base, list) else base["stable"]
tally = {}
def lane(k):
    S = f"/tmp/mut{k}"; sc = f"/tmp/muts{k}"; os.makedirs(sc, exist_ok=True)
    sh(f"rsync -a --delete /repo/ {S}/; mkdir -p {sc}/evidence {sc}/replays")
    for n in ("build.sh", "test.sh"):
        open(f"{sc}/{n}", "w").write(open("/opt/vp/" + n).read().replace("/repo", S).replace("/opt/vp/build.sh", sc + "/build.sh"))
    env = dict(os.environ, REPO=S, SIM_BUILD=sc + "/b", SIM_WORKERS=os.environ.get("W", "2"), SIM_WALL="60", SIM_MIN="0", LC_ALL="C.UTF-8", SIM_ROOT=sc)
    while True:
        with lock:
            try: j, (f, i, n, l, t) = next(it)
            except StopIteration: break
        p = f"{S}/{f}"; L = open("/repo/" + f, errors="surrogateescape").read().split("\n"); L[i] = t
        open(p, "w", errors="surrogateescape").write("\n".join(L))
        res = "?"
        try:
            b = sh(f"timeout 120 bash {sc}/build.sh")
            if b.returncode: res = "nobuild"; continue
            try: os.unlink(sc + "/out.json")
            except OSError: pass
            sh(f"timeout 120 bash {sc}/test.sh {sc}/out.json")
            try: o = json.load(open(sc + "/out.json"))
            except Exception: res = "tests"; continue
            if any(x not in set(o["passed"]) for x in base): res = "tests"; continue
            # quiet compile-equivalent changes
            r = sh(f"mkdir -p {sc}/b/src; rsync -rlc --delete --exclude=/.git --exclude=/_build --exclude='*.[oad]' --exclude='/osc_*parser.[ch]' --exclude='/osc_*scanner.[ch]' --exclude='/doc*' --exclude='/test/data' {S}/ {sc}/b/src/ && make -s -j3 -f sim/Makefile B={sc}/b {sc}/b/sim", cwd=V, env=env)
            if r.returncode: res = "nosim " + r.stderr[-300:]; continue
            order = MAP.get(f, "").split(); order += [x for x in (ALL if os.environ.get("MUT_ALL") or not order else ["L03"]) if x not in order]
            res = "SURVIVED"
            for q in order:
                e = dict(env, SIM_RUNS=str(RUNS.get(q, 5000)))
                r = sh(f"timeout 200 {sc}/b/sim check {q} quick", cwd=sc, env=e)
                if r.returncode == 1 and "VIOLATION" in r.stdout:
                    m = re.search(r'violation class: (.*)', r.stdout); res = f"caught {q} {m[1] if m else ''}"; break
                if r.returncode != 0: res = f"rc{r.returncode} {q} {r.stdout[-200:]}{r.stderr[-200:]}"; break
        finally:
            with lock:
                tally[res.split()[0]] = tally.get(res.split()[0], 0) + 1
                with open(OUT + f"/log.{SEED}", "a") as g: g.write(f"{res}\t{f}:{i+1}\t{n}\n\t- {l.strip()}\n\t+ {t.strip()}\n")
            shutil.copy("/repo/" + f, p)
    shutil.rmtree(S, ignore_errors=True); shutil.rmtree(sc, ignore_errors=True)
T = [threading.Thread(target=lane, args=(k,)) for k in range(LANES)]
[t.start() for t in T]; [t.join() for t in T]
print(tally)
