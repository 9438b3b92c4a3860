#!/usr/bin/env python3
"""Development tool: systematic mutation of /repo's sources.  Each mutant of a random sample is built in a copy and replayed until the first divergence
from the specification; survivors are written down for inspection.
usage: auto.py OUT SEED MINUTES [THREADS]"""
import sys, os, re, random, subprocess, time, json, glob
OUT, SEED, MIN = sys.argv[1], int(sys.argv[2]), float(sys.argv[3])
J = sys.argv[4] if len(sys.argv) > 4 else '8'
W = '/tmp/am'
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
if not os.path.exists(f'{W}/harness'):
    os.makedirs(W, exist_ok=True)
    sh(f"mkdir -p {W}/repo && cp -a /repo/. {W}/repo/ && rm -rf {W}/repo/target && cp -a /verif/harness {W}/harness && sed -i 's#\"/repo#\"{W}/repo#g' {W}/harness/Cargo.toml")
sh(f'cp -a /verif/harness/src/. {W}/harness/src/; cd {W}/repo && git checkout -q -- .')
SWAPS = [('minimum', 'maximum'), ('maximum', 'minimum'), ('base', 'quote'), ('quote', 'base'), ('total_deposit_fee', 'total_deposit'), ('total_deposit', 'total_deposit_fee'),
         ('start_time', 'end_time'), ('end_time', 'start_time'), ('safe_add', 'safe_sub'), ('safe_sub', 'safe_add'), ('Rounding::Up', 'Rounding::Down'), ('Rounding::Down', 'Rounding::Up'),
         ('.min(', '.max('), ('.max(', '.min('), ('&&', '||'), ('||', '&&'), (' < ', ' <= '), (' <= ', ' < '), (' > ', ' >= '), (' >= ', ' > '), ('true', 'false'), ('false', 'true'),
         (' - ', ' + '), (' + ', ' - '), ('safe_mul', 'safe_add'), (' == ', ' != '), (' != ', ' == '), ('u128', 'u64'), ('U256', 'u128'), ('.ceil', '.floor'), ('div_ceil', 'safe_div'),
         ('total_claimed_token', 'total_refunded_quote_token'), ('pending_claim_token', 'total_claimed_token'), ('total_claimed_token', 'pending_claim_token'), ('lock_', 'vest_'), ('vest_', 'lock_'),
         ('presale_supply', 'total_deposit'), ('deposit_cap', 'total_deposit'), ('is_some()', 'is_none()'), ('Completed', 'Failed'), ('Failed', 'Completed'), ('Ongoing', 'NotStarted'),
         ('mut,', ''), ('if !', 'if '), ('(0)', '(1)'), (' 0', ' 1'), ('0;', '1;'), ('1;', '2;')]
muts = []
for f in sorted(glob.glob('/repo/programs/presale/src/**/*.rs', recursive=True) + glob.glob('/repo/merkle-tree/src/*.rs')):
    ls = open(f).read().split('\n')
    end = next((i for i, l in enumerate(ls) if '#[cfg(test)]' in l), len(ls))
    for i, l in enumerate(ls[:end]):
        t = l.strip()
        if not t or t.startswith(('//', 'use ', 'pub use', 'mod ', 'pub mod', '#[error', '#[msg', '#[derive', 'msg!', '}', '"')) or f.endswith(('errors.rs', 'const_pda.rs', 'macros.rs')): continue
        for a, b in SWAPS:
            for m in re.finditer(re.escape(a), l):
                if re.match(r'\w', a) and m.start() and re.match(r'\w', l[m.start() - 1]) and a in ('true', 'false', 'base', 'quote'): pass
                muts.append((f, i, i, l[:m.start()] + b + l[m.end():]))
        if re.match(r'(has_one|constraint|address|close|seeds|bump|token::|associated_token::|owner)\b', t) and t.endswith(','): muts.append((f, i, i, ''))
        if re.match(r'[\w.\[\]*]+ [-+]?= .*;$', t) or re.match(r'(self|presale|escrow|[a-z_]+)\.[a-z_.]+\(.*\)\??;$', t): muts.append((f, i, i, ''))
        if t.startswith(('require!(', 'emit_cpi!(')) :
            j = i
            while not ls[j].rstrip().endswith(');'): j += 1
            muts.append((f, i, j, ''))
            if j > i + 1 and t == 'require!(': muts.append((f, i + 1, i + 1, '        !(' + ls[i + 1].strip().rstrip(',') + '),')) if ls[i + 1].rstrip().endswith(',') else None
        if t.startswith('return ') and t.endswith(';') : muts.append((f, i, i, ''))
random.Random(SEED).shuffle(muts)
print(len(muts), 'mutants', flush=True)
done = set()
if os.path.exists(OUT): done = {tuple(json.loads(l)[:4]) for l in open(OUT)}
out = open(OUT, 'a')
T = time.time() + MIN * 60
files = sorted(glob.glob('/verif/work/corpus/*/1/*.jsonl'), key=lambda x: (x.split('-')[-1], x))
graphs = sorted(glob.glob('/verif/work/small/*/L0.graph'), key=os.path.getmtime)[-1:]
env = '. /opt/vp/env.sh; export CARGO_INCREMENTAL=0 RUST_BACKTRACE=0 CARGO_TARGET_DIR=%s/harness/target; ' % W
n = {}
for f, i, j, new in muts:
    if time.time() > T: break
    if (f, i, j, new) in done: continue
    g = f.replace('/repo', W + '/repo')
    src = open(f).read(); ls = src.split('\n')
    open(g, 'w').write('\n'.join(ls[:i] + [new] + ls[j + 1:]))
    r = sh(env + f'cd {W}/harness && cargo build --offline 2>&1', executable='/bin/bash')
    if r.returncode: k = 'nocompile'
    else:
        try:
            r = sh(f'cd {W} && RUST_BACKTRACE=0 timeout 400 harness/target/debug/presale-conformance replay o.json {J} 0 {" ".join(files + graphs)} >/dev/null', executable='/bin/bash')
            o = json.load(open(f'{W}/o.json')) if r.returncode == 0 else None
            k = f'error {r.returncode} {r.stderr[-200:]}' if o is None else 'killed' if o['diverged'] or o['small_diverged'] else 'SURVIVED'
        except Exception as e: k = 'error ' + repr(e)
    open(g, 'w').write(src)
    n[k] = n.get(k, 0) + 1
    print(json.dumps([f, i, j, new, k, ls[i:j + 1]]), file=out, flush=True)
print(n)
