#!/usr/bin/env python3
"""Development tool: runs `verif.py judge` on copies of /repo with each mutation of mutants.py, or the check of its property for each
planted bug.  usage: run.py OUT [name...] | run.py OUT seeded [id...]"""
import sys, os, subprocess, shutil, re
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from mutants import M
W = '/tmp/mut'
def sh(c): return subprocess.run(c, shell=True, capture_output=True, text=True)
if not os.path.exists(f'{W}/verif'):
    os.makedirs(W, exist_ok=True)
    sh(f'cp -a /verif {W}/verif')
if not os.path.exists(f'{W}/repo'):
    sh(f'mkdir -p {W}/repo && cp -a /repo/. {W}/repo/ && rm -rf {W}/repo/target')
sh(f"cd {W}/verif && git -C /verif archive HEAD spec tools harness/src harness/Cargo.toml harness/Cargo.lock | tar x; cp /verif/spec/*.qnt spec/; cp /verif/tools/*.py tools/; cp /verif/harness/src/*.rs harness/src/; sed -i 's#\"/repo#\"{W}/repo#g; s#= .\\.\\./\\.\\./repo#= \"{W}/repo#' harness/Cargo.toml; sed -i \"s#^REPO = .*#REPO = '{W}/repo'#\" tools/verif.py")
sh(f'mkdir -p {W}/verif/work && cp -au /verif/work/corpus /verif/work/small {W}/verif/work/; cp -a /verif/spec/small {W}/verif/spec/')
out = open(sys.argv[1], 'a')
if sys.argv[2:3] == ['seeded']:
    import json
    for sid in sys.argv[3:] or sorted(os.listdir('/verif/seeded')):
        pid = json.load(open(f'/verif/seeded/{sid}/meta.json'))['property']
        r = sh(f'cd {W}/repo && git checkout -q -- . && git apply /verif/seeded/{sid}/patch.diff && cd {W}/verif && time python3 tools/verif.py check {pid}')
        v = f'VIOLATION property={pid}' in r.stdout
        print(f'{sid}: {pid} {"caught" if r.returncode == 1 and v else "MISSED rc=%d" % r.returncode} {r.stdout.splitlines()[:1]} {re.findall("real.*", r.stderr)}', file=out, flush=True)
    sh(f'cd {W}/repo && git checkout -q -- .')
    sys.exit()
names = sys.argv[2:]
for m in M:
    name, exp, f, old, new = m[:5]
    if names and name not in names: continue
    sh(f'cd {W}/repo && git checkout -q -- .')
    p = f'{W}/repo/{f}'
    t = open(p).read()
    if old not in t:
        print(name, 'NOT APPLICABLE', file=out, flush=True); continue
    open(p, 'w').write(t.replace(old, new, 1))
    r = sh(f'cd {W}/verif && python3 tools/verif.py judge')
    div = [l for l in r.stdout.split('\n') if l.startswith('divergence')]
    j = [l for l in r.stdout.split('\n') if l.startswith('judged')]
    got = set(re.findall(r'(C\d\d)=', j[0])) if j else None
    if got is None:
        print(f'{name}: ERROR {r.stderr[-1500:]}', file=out, flush=True)
    else:
        miss = [e for e in exp.split() if e not in got]
        print(f'{name}: {"MISSED " + " ".join(miss) if miss else "ok"} | {j[0]} | {len(div)} kinds, {re.findall("([0-9]+) diverged", r.stderr)}', file=out, flush=True)
sh(f'cd {W}/repo && git checkout -q -- .')
