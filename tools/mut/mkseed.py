#!/usr/bin/env python3
"""Development tool: makes /verif/seeded/<id> from a patch: confirms that the patched tree builds and passes the
stable tests, looks for a diverging behaviour in the corpus (or takes a hand-written one), minimises it against
both builds and writes demo files.  usage: mkseed.py ID PATCH META.json [BEHAVIOUR.jsonl]"""
import sys, os, json, subprocess, shutil, glob
W = '/tmp/seed'
sid, patch, meta = sys.argv[1:4]
hand = sys.argv[4] if len(sys.argv) > 4 else None
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
ENV = '. /opt/vp/env.sh; '
if not os.path.exists(f'{W}/repo'):
    os.makedirs(W, exist_ok=True)
    sh(f'cp -a /repo {W}/repo')
os.makedirs(f'{W}/h', exist_ok=True)
sh(f'cp -a /verif/harness/src /verif/harness/Cargo.toml /verif/harness/Cargo.lock {W}/h/')
sh(f'sed -i "s#/repo/#{W}/repo/#" {W}/h/Cargo.toml')
if not os.path.exists(f'{W}/h/target'):
    sh(f'cp -a /verif/harness/target {W}/h/target')
def build(dst):
    r = sh(ENV + f'cd {W}/h && cargo clean --offline -p presale -p merkle-tree -p presale-conformance; CARGO_INCREMENTAL=0 cargo build --offline')
    if r.returncode: print(r.stderr[-3000:]); sys.exit('does not build')
    shutil.copy(f'{W}/h/target/debug/presale-conformance', dst)
sh(f'cd {W}/repo && git checkout -q -- . && git clean -fdq programs merkle-tree && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD')
key = sh('git -C /repo rev-parse HEAD; cat /verif/harness/src/*.rs | sha256sum').stdout
if not os.path.exists(f'{W}/orig') or not os.path.exists(f'{W}/orig.key') or open(f'{W}/orig.key').read() != key:
    build(f'{W}/orig'); open(f'{W}/orig.key', 'w').write(key)
r = sh(f'cd {W}/repo && git apply {os.path.abspath(patch)}')
if r.returncode: sys.exit(r.stderr)
t = sh(ENV + f'cd {W}/repo && cargo test --workspace --lib --bins --no-fail-fast --locked --offline -- --test-threads 8 2>&1')
ts = [l for l in t.stdout.split('\n') if l.startswith('test result') or 'FAILED' in l or 'error' in l]
print('\n'.join(ts))
if t.returncode: sys.exit('tests fail')
build(f'{W}/mut')
def rec(bin, bs):
    with open(f'{W}/in.jsonl', 'w') as f:
        for b in bs: f.write(json.dumps(b) + '\n')
    r = sh(f'{bin} record {W}/out.json {W}/in.jsonl >/dev/null')
    return json.load(open(f'{W}/out.json'))
def strip(b): return [(s['ok'], s['ev'], s['rent'], s['d']) for s in b['steps']]
def differ(bs):
    a, c = rec(f'{W}/orig', bs), rec(f'{W}/mut', bs)
    out = []
    for x, y in zip(a, c):
        d = [i for i, (p, q) in enumerate(zip(strip(x), strip(y))) if p != q]
        out.append(d[0] if d else None)
    return out
if hand:
    cands = [json.loads(l) for l in open(hand)]
else:
    fs = sorted(glob.glob(max(glob.glob('/verif/work/corpus/*/1'), key=os.path.getmtime) + '/*.jsonl'))
    sh(f'{W}/mut replay {W}/rep.json 8 600 ' + ' '.join(fs))
    rep = json.load(open(f'{W}/rep.json'))
    print('diverged', rep['diverged']); [print('  ', k, n) for k, n in rep['clusters'].items()]
    obs = sorted(rep['observed'], key=lambda b: b['first'])
    cands = [{'id': b['id'], 's0': b['s0'], 'steps': b['steps'][:b['first'] + 1]} for b in obs[:24]]
    for c in cands:
        for s in c['steps']: s.pop('d', None)
if not cands: sys.exit('no divergence: write a history by hand')
ds = differ(cands)
hits = [(c, d) for c, d in zip(cands, ds) if d is not None]
if not hits: sys.exit('the two builds agree on these histories')
b, d = hits[0]
b['steps'] = b['steps'][:d + 1]
if not hand:
    changed = True
    while changed:
        changed = False
        i = len(b['steps']) - 2
        while i >= 0:
            idx = list(range(i, max(-1, i - 8), -1))
            bs = [dict(b, steps=b['steps'][:k] + b['steps'][k + 1:]) for k in idx]
            ds = differ(bs)
            hit = [(k, c, dd) for k, c, dd in zip(idx, bs, ds) if dd is not None]
            if hit:
                k, c, dd = hit[0]
                c['steps'] = c['steps'][:dd + 1]
                b = c; changed = True
                i = min(k - 1, len(b['steps']) - 2)
            else:
                i = idx[-1] - 1
final = rec(f'{W}/orig', [b])[0]
print('history:', ' '.join(s['op']['kind'] for s in final['steps']))
D = f'/verif/seeded/{sid}'
shutil.rmtree(D, ignore_errors=True)
os.makedirs(f'{D}/kit')
sh(f'cp -a /verif/harness/src /verif/tools/mut/kit/deps.toml {D}/kit/; cp /verif/tools/mut/kit/demo.sh {D}/')
shutil.copy(patch, f'{D}/patch.diff')
shutil.copy(meta, f'{D}/meta.json')
json.dump(final, open(f'{D}/history.json', 'w'), separators=(',', ':'))
os.chmod(f'{D}/demo.sh', 0o755)
sh(f'cd {W}/repo && git checkout -q -- .')
print('written', D)
