#!/usr/bin/env python3
# coverage.py EDGEPCS... : which basic blocks of the library no run reached (files written by SIM_EDGEPCS=FILE check ...)
import sys, subprocess, collections, re, os
exe = os.path.join(os.path.dirname(__file__), '..', 'build', 'sim')
pcs = sorted({l.strip() for f in sys.argv[1:] for l in open(f)})
hit = collections.defaultdict(set)
def sym(pcs):
    out = subprocess.run(['llvm-symbolizer', '--obj=' + exe, '--no-inlines', '--output-style=GNU'], input='\n'.join(pcs), text=True, capture_output=True).stdout.split('\n')
    r = []
    for i in range(0, len(out) - 1, 2):
        f, l = out[i + 1].rsplit(':', 1)
        r.append((out[i], os.path.basename(f), int(re.match(r'\d*', l).group() or 0)))
    return r
# every guard call site in the executable
allpcs = []
d = subprocess.run(['objdump', '-d', '--no-show-raw-insn', exe], text=True, capture_output=True).stdout
nxt = False
base = 0
for l in d.split('\n'):
    m = re.match(r'\s*([0-9a-f]+):\s', l)
    if not m: continue
    if nxt: allpcs.append('0x%x' % (int(m.group(1), 16) - 1)); nxt = False
    if 'call' in l and '<__sanitizer_cov_trace_pc_guard>' in l: nxt = True
H = set(sym(pcs)) and set(zip(pcs, sym(pcs)))
hits = {p for p, _ in H}
A = list(zip(allpcs, sym(allpcs)))
byf = collections.OrderedDict()
for p, (fn, fi, ln) in A:
    if fi.startswith('osc_expr_u') : continue
    byf.setdefault((fi, fn), []).append((ln, p in hits))
only = os.environ.get('ONLY')
tot = collections.Counter(); got = collections.Counter()
for (fi, fn), v in byf.items():
    n = len(v); h = sum(x[1] for x in v)
    tot[fi] += n; got[fi] += h
    if only and only not in fi: continue
    if not h: print('%-28s %-45s never entered (%d)' % (fi, fn, n))
    elif h < n and only: print('%-28s %-45s %d/%d missed lines %s' % (fi, fn, h, n, sorted({x[0] for x in v if not x[1]})))
for f in tot: print('%-28s %d/%d' % (f, got[f], tot[f]))
