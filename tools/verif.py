#!/usr/bin/env python3
"""Checks of the presale specification (spec/*.qnt) and of the program against it.

  verif.py setup                 build the replayer, generate the behaviours
  verif.py check ID [--tier T]   decide one property (exit 0 / 1 + VIOLATION line / 2 no answer)
  verif.py judge FILE            evaluate every property on recorded behaviours (prints them)
"""
import fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time, zipfile
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
SPEC = f'{V}/spec'
WORK = f'{V}/work'
TARGET = f'{V}/harness/target'
BIN = f'{TARGET}/debug/presale-conformance'
CPUS = min(8, os.cpu_count() or 1)
PROFILES = list(range(14))
STEPS = 50
T0 = time.time()

LIMIT = float('inf')      # no judging beyond this time

def log(*a):
    print(f'[{time.time()-T0:6.1f}s]', *a, file=sys.stderr, flush=True)

def seed():
    try:
        return int(os.environ.get('VERIF_SEED', '1') or '1')
    except ValueError:
        return 1

# ---------------------------------------------------------------- files and hashes
def digest(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.replace(V, '').replace(REPO, '').encode() + b'\0')
        with open(p, 'rb') as f:
            h.update(f.read())
        h.update(b'\0')
    return h.hexdigest()[:20]

def repo_files():
    out = []
    for d, ds, fs in os.walk(REPO):
        ds[:] = [x for x in ds if x not in ('target', '.git', 'node_modules', 'tests', 'audits')]
        for f in fs:
            if f.endswith(('.rs', '.toml', '.lock', '.json')):
                out.append(os.path.join(d, f))
    return out

def spec_hash():
    return digest([f'{SPEC}/{m}.qnt' for m in ('params', 'types', 'math', 'merkle', 'presale', 'gen', 'sim')])

class Lock:
    def __init__(self, name):
        os.makedirs(WORK, exist_ok=True)
        self.f = open(f'{WORK}/{name}.lock', 'w')
    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)
    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)

# ---------------------------------------------------------------- build
def build():
    """Replayer linked with the program as it is in /repo now."""
    with Lock('build'):
        hs = [p for p in glob.glob(f'{V}/harness/src/*.rs')] + [f'{V}/harness/Cargo.toml', f'{V}/harness/Cargo.lock']
        stamp = digest(repo_files()) + digest(hs)
        sf = f'{TARGET}/verif.stamp'
        if os.path.exists(BIN) and os.path.exists(sf) and open(sf).read() == stamp:
            log('replayer is up to date')
            return True
        env = dict(os.environ)
        if os.path.exists('/opt/vp/env.sh'):
            out = subprocess.run(['bash', '-c', '. /opt/vp/env.sh >/dev/null 2>&1; env -0'], capture_output=True).stdout
            env = dict(x.split('=', 1) for x in out.decode().split('\0') if '=' in x)
        env.update(CARGO_INCREMENTAL='0', CARGO_TARGET_DIR=TARGET)
        if os.path.exists(sf):
            os.remove(sf)
        # content decides, not timestamps
        subprocess.run(['cargo', 'clean', '--offline', '-p', 'presale', '-p', 'merkle-tree', '-p', 'presale-conformance'],
                       cwd=f'{V}/harness', env=env, capture_output=True)
        r = subprocess.run(['cargo', 'build', '--offline'], cwd=f'{V}/harness', env=env, capture_output=True, text=True)
        if r.returncode != 0:
            print(r.stderr[-4000:], file=sys.stderr)
            return False
        with open(sf, 'w') as f:
            f.write(stamp)
        log('replayer built')
        return True

# ---------------------------------------------------------------- behaviours of the specification
def quint_run(main, init, samples, traces, sd, out, invariant=None, steps=STEPS, timeout=900, cwd=SPEC, extra=()):
    cmd = ['quint', 'run', main, f'--init={init}', f'--max-steps={steps}', f'--max-samples={samples}',
           f'--n-traces={traces}', f'--seed={sd}', f'--out-itf={out}', '--verbosity=1', *extra]
    if invariant:
        cmd.append(f'--invariant={invariant}')
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, timeout=timeout)

def init_name(p):
    return 'init' if p == 0 else f'init{p}'

def chunk_file(cdir, p, c):
    return f'{cdir}/p{p}-{c}.jsonl'

def gen_chunk(cdir, p, c, n, sd):
    dst = chunk_file(cdir, p, c)
    if os.path.exists(dst):
        return dst
    tmp = tempfile.mkdtemp(dir=WORK)
    try:
        r = quint_run('sim.qnt', init_name(p), n, n, 1 + sd * 100003 + p * 1009 + c, f'{tmp}/t_{{seq}}.itf.json')
        fs = sorted(glob.glob(f'{tmp}/*.itf.json'))
        if not fs:
            log('no behaviours', p, c, r.stdout[-500:], r.stderr[-500:])
            return None
        subprocess.run([BIN, 'pack', dst + '.tmp', f's{sd}p{p}c{c}'] + fs, check=True)
        os.rename(dst + '.tmp', dst)
        return dst
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

CHUNK = 240      # behaviours per simulator run
QUICK = 3        # runs per profile in the quick tier
def corpus(sd, chunks, n=CHUNK, deadline=None):
    """chunks per profile, n behaviours each; only what is missing is generated."""
    cdir = f'{WORK}/corpus/{spec_hash()}/{sd}'
    with Lock('corpus'):
        os.makedirs(cdir, exist_ok=True)
        todo = [(p, c) for c in range(chunks) for p in PROFILES]
        missing = [x for x in todo if not os.path.exists(chunk_file(cdir, *x))]
        if missing:
            log(f'generating {len(missing)} chunks of behaviours')
        def one(x):
            if deadline and time.time() > deadline:
                return
            try:
                gen_chunk(cdir, x[0], x[1], n, sd)
            except subprocess.TimeoutExpired:
                log('generation timed out', x)
        with ThreadPoolExecutor(CPUS) as ex:
            list(ex.map(one, missing))
    return [chunk_file(cdir, *x) for x in todo if os.path.exists(chunk_file(cdir, *x))]

def replay(files, maxdiv=600, out=None):
    out = out or tempfile.mktemp(dir=WORK, suffix='.replay.json')
    r = subprocess.run([BIN, 'replay', out, str(CPUS), str(maxdiv)] + files, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
    if r.returncode != 0:
        print(r.stderr[-3000:], file=sys.stderr)
        return None
    d = json.load(open(out))
    os.remove(out)
    return d

# ---------------------------------------------------------------- small scope, exhaustively (TLC)
APALACHE_JAR = '/opt/veriftools/apalache-0.58.0/lib/apalache.jar'
def small_hash():
    return digest([f'{SPEC}/{m}.qnt' for m in ('types', 'math', 'merkle', 'presale', 'props', 'small', 'smallmenu', 'small/params')]
                  + [f'{V}/tools/ir2tla.py'])

def small_dir():
    return f'{WORK}/small/{small_hash()}'

def sh(cmd, cwd, timeout, **kw):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, timeout=timeout, **kw)

def small(level, budget, pid=None):
    """Explores the small instances completely with TLC, evaluating the properties (or one) on every transition.  Returns a dict with the
    numbers, the violated properties and the file with the state graph; None if it could not be done in time."""
    d = small_dir()
    name = f'L{level}' + (f'-{pid}' if pid else '')
    with Lock('small' + name):
        if os.path.exists(f'{d}/{name}.json'):
            r = json.load(open(f'{d}/{name}.json'))
            r['graph'] = f'{d}/L{level}.graph'
            r['counterexample'] = f'{d}/{name}.counterexample.txt'
            return r
        os.makedirs(d, exist_ok=True)
        end = time.time() + budget
        left = lambda: max(1, end - time.time())
        w = tempfile.mkdtemp(dir=WORK, prefix='small')
        try:
            for m in ('types', 'math', 'merkle', 'presale', 'props', 'small'):
                shutil.copy(f'{SPEC}/{m}.qnt', w)
            ps = open(f'{SPEC}/small/params.qnt').read()
            assert 'LEVEL: int = 0' in ps
            open(f'{w}/params.qnt', 'w').write(ps.replace('LEVEL: int = 0', f'LEVEL: int = {level}'))
            if pid:
                s = open(f'{w}/small.qnt').read()
                assert 'violated(x, sgh, h)' in s
                open(f'{w}/small.qnt', 'w').write(s.replace('violated(x, sgh, h)', f'(if ({pid}(x, r, sgh, h)) Set() else Set("{pid}"))'))
            with open(f'{w}/s.qnt.json', 'w') as f:      # (a pipe would cut its output short)
                subprocess.run(['quint', 'compile', '--target', 'json', 'small.qnt', '--main', 'small'], cwd=w, stdout=f, stderr=subprocess.DEVNULL, timeout=left())
            r = sh(['apalache-mc', 'parse', '--output=ir.json', 's.qnt.json'], w, left())
            if not os.path.exists(f'{w}/ir.json'):
                log('apalache parse failed', r.stdout[-800:], r.stderr[-800:])
                return None
            sh([sys.executable, f'{V}/tools/ir2tla.py', 'ir.json', 'small', 'small.tla'], w, left(), check=True)
            with zipfile.ZipFile(APALACHE_JAR) as z:
                for n in ('Apalache', 'Variants'):
                    open(f'{w}/{n}.tla', 'wb').write(z.read(f'tla2sany/StandardModules/{n}.tla'))
            open(f'{w}/small.cfg', 'w').write('INIT Init_init\nNEXT step\nINVARIANT safe\nCHECK_DEADLOCK FALSE\n')
            graph = not pid and not os.path.exists(f'{d}/L{level}.graph')
            cmd = ['tlc', '-workers', str(CPUS), '-config', 'small.cfg', '-metadir', f'{w}/meta'] \
                + (['-dump', 'dot,actionlabels', 'g.dot'] if graph else []) + ['small.tla']
            r = sh(cmd, w, left())
            m = re.search(r'([\d,]+) states generated, ([\d,]+) distinct states found, 0 states left', r.stdout)
            v = re.findall(r'sbad = \{([^}]+)\}', r.stdout)
            if not m and not v:
                log('TLC failed', r.stdout[-1500:], r.stderr[-500:])
                return None
            res = dict(level=level, transitions=int(m.group(1).replace(',', '')) if m else 0, states=int(m.group(2).replace(',', '')) if m else 0,
                       violated=sorted(set(re.findall(r'C\d\d', ' '.join(v)))))
            if v:
                open(f'{d}/{name}.counterexample.txt', 'w').write(r.stdout)
            if graph and m:
                r = quint_run('smallmenu.qnt', 'initMenus', 1, 1, 1, f'{w}/menus.itf.json', steps=1, extra=['--step=stepMenus'])
                subprocess.run([BIN, 'packgraph', f'{w}/x.graph', f'{w}/menus.itf.json', f'{w}/g.dot'], check=True)
                os.rename(f'{w}/x.graph', f'{d}/L{level}.graph')
            with open(f'{d}/{name}.json.tmp', 'w') as f:
                json.dump(res, f)
            os.rename(f'{d}/{name}.json.tmp', f'{d}/{name}.json')
            res['graph'] = f'{d}/L{level}.graph'
            res['counterexample'] = f'{d}/{name}.counterexample.txt'
            return res
        except subprocess.TimeoutExpired:
            log('exhaustive exploration did not finish in time')
            return None
        finally:
            shutil.rmtree(w, ignore_errors=True)

# ---------------------------------------------------------------- recorded behaviours as Quint
def q(v):
    """Quint literal of an ITF value."""
    if isinstance(v, bool):
        return 'true' if v else 'false'
    if isinstance(v, int):
        return str(v) if v >= 0 else f'({v})'
    if isinstance(v, str):
        return '"' + v.replace('"', "'").replace('\\', '/') + '"'
    if isinstance(v, list):
        return '[' + ', '.join(map(q, v)) + ']'
    if '#bigint' in v:
        return v['#bigint'] if not v['#bigint'].startswith('-') else f"({v['#bigint']})"
    if '#tup' in v:
        return '(' + ', '.join(map(q, v['#tup'])) + ')'
    if '#set' in v:
        return 'Set(' + ', '.join(map(q, v['#set'])) + ')'
    if '#map' in v:
        return 'Map(' + ', '.join(f'{q(a)} -> {q(b)}' for a, b in v['#map']) + ')'
    return '{ ' + ', '.join(f'{k}: {q(x)}' for k, x in v.items()) + ' }'

OP0 = dict(kind='', p='', who='', own='', dest='', acc='', acc2='', txt='', slot='', sub='', hook='auto',
           reg={'#bigint': '0'}, amt={'#bigint': '0'}, ver={'#bigint': '0'}, cap={'#bigint': '0'}, num={'#bigint': '0'},
           proof=[], leaves=[])
def q_op(op):
    return '{ ...noOp' + ''.join(f', {k}: {q(v)}' for k, v in op.items() if k == 'kind' or v != OP0.get(k)) + ' }'

def judge_module(name, behaviours, ids):
    """A state machine that walks through recorded behaviours and evaluates the properties."""
    steps = []     # (reset state or None, delta, op, ok, ev, rent)
    for b in behaviours:
        for k, st in enumerate(b['steps']):
            steps.append((b['s0'] if k == 0 else None, st['d'], st))
    o = [f'module {name} {{', 'import types.* from "./types"', 'import presale.* from "./presale"', 'import props.* from "./props"', 'import promise.* from "./promise"']
    resets = [i for i, s in enumerate(steps) if s[0] is not None]
    for i in resets:
        o.append(f'pure val z{i}: State = {q(steps[i][0])}')
    o.append('pure val zero: State = z0')
    for i, (_, d, st) in enumerate(steps):
        upd = 'x' if not d else '{ ...x' + ''.join(f', {k}: {q(v)}' for k, v in d.items()) + ' }'
        o.append(f'pure def u{i}(x: State): State = {upd}')
        o.append(f'pure val o{i}: (Op, bool, Event, str) = ({q_op(st["op"])}, {q(st["ok"])}, {q(st["ev"])}, {q(st["rent"])})')
    def tree(lo, hi, f):
        if hi - lo == 1:
            return f(lo)
        m = (lo + hi) // 2
        return f'(if (i < {m}) {tree(lo, m, f)} else {tree(m, hi, f)})'
    n = len(steps)
    o.append(f'pure def upd(i: int, x: State): State = {tree(0, n, lambda k: f"u{k}(x)")}')
    o.append(f'pure def opAt(i: int): (Op, bool, Event, str) = {tree(0, n, lambda k: f"o{k}")}')
    o.append(f'pure def resetAt(i: int, x: State): State = {"".join(f"if (i == {i}) z{i} else " for i in resets)}x')
    o.append(f'pure val resets = Set({", ".join(map(str, resets))})')
    cases = ', '.join(f'("{c}", {c}(x, e, g, h))' for c in ids)
    o.append('pure def broken(x: Tr, e: Res, g: Ghost, h: Ghost): Set[str] = '
             f'Set({cases}).filter(v => not(v._2)).map(v => v._1)')
    o.append('''var i: int
var s: State
var g: Ghost
var m: Promise
var g2: Ghost
var bad: Set[str]
action init = all { i' = 0, s' = zero, g' = ghost0, m' = promise0, g2' = ghost0, bad' = Set() }
action step = {
  val a = resetAt(i, s)
  val fresh = i.in(resets)
  val g0 = if (fresh) ghost0 else g
  val k0 = if (fresh) ghost0 else g2
  val m0 = if (fresh) promise0 else m
  val o = opAt(i)
  val t = upd(i, a)
  val x: Tr = { s: a, op: o._1, ok: o._2, ev: o._3, rent: o._4, t: t }
  val e = apply(a, x.op)
  val h = advance(g0, x)
  // once more, with what was promised in place of what was stored, and true totals
  val a2 = summedUp(asPromised(a, m0), g0)
  val e2 = if (a2 == a) e else apply(a2, x.op)
  val m1 = promised(m0, x.op, x.ok, e2)
  val t2 = summedUp(asPromised(t, m1), h)
  val same = a2 == a and t2 == t and k0 == g0
  val y: Tr = if (same) x else { ...x, s: a2, t: t2 }
  val h2 = if (same) h else advance(k0, y)
  all { i < ''' + str(n) + ''', i' = i + 1, s' = t, g' = h, m' = m1, g2' = h2,
    bad' = broken(x, e, g0, h).union(if (same) Set() else broken(y, e2, k0, h2)) }
}
}''')
    return '\n'.join(o), [(bi, si) for bi, b in enumerate(behaviours) for si in range(len(b['steps']))]

def judge(behaviours, ids, tag):
    """Violations of the properties `ids` on recorded behaviours: list of (behaviour index, step, id); None on error."""
    if not behaviours:
        return []
    text, where = judge_module('judge', behaviours, ids)
    d = tempfile.mkdtemp(dir=WORK, prefix='judge')
    try:
        for m in ('params', 'types', 'math', 'merkle', 'presale', 'props', 'promise'):
            shutil.copy(f'{SPEC}/{m}.qnt', d)
        with open(f'{d}/judge.qnt', 'w') as f:
            f.write(text)
        try:
            r = quint_run('judge.qnt', 'init', 1, 1, 1, f'{d}/o.itf.json', steps=len(where), cwd=d,
                          timeout=max(20, min(400, LIMIT - time.time())))
        except subprocess.TimeoutExpired:
            log('judging timed out')
            return None
        if not os.path.exists(f'{d}/o.itf.json'):
            log('judging failed', r.stdout[-1500:], r.stderr[-1500:])
            if os.environ.get('VERIF_KEEP'):
                shutil.copy(f'{d}/judge.qnt', f'{WORK}/judge-failed.qnt')
            return None
        t = json.load(open(f'{d}/o.itf.json'))
        out = []
        for st in t['states'][1:]:
            bi, si = where[int(st['i']['#bigint']) - 1]
            for c in st['bad']['#set']:
                out.append((bi, si, c))
        if len(t['states']) - 1 != len(where):
            log(f'judged only {len(t["states"])-1} of {len(where)} transitions')
        return out
    finally:
        shutil.rmtree(d, ignore_errors=True)

def judge_all(behaviours, ids, per=6, stop=None, deadline=None):
    """judge() in parallel batches.  Returns (violations [(behaviour, step, id)], behaviours judged)."""
    groups = [behaviours[i:i + per] for i in range(0, len(behaviours), per)]
    found, judged = [], 0
    i = 0
    while i < len(groups):
        if deadline and time.time() > deadline:
            break
        wave = groups[i:i + CPUS]
        i += CPUS
        with ThreadPoolExecutor(CPUS) as ex:
            rs = list(ex.map(lambda gr: judge(gr, ids, ''), wave))
        for gr, r in zip(wave, rs):
            if r is None and time.time() > LIMIT:
                continue
            if r is None:      # one behaviour at a time
                with ThreadPoolExecutor(CPUS) as ex:
                    r1 = list(ex.map(lambda b: judge([b], ids, ''), gr))
                for b, x in zip(gr, r1):
                    if x is not None:
                        judged += 1
                        found += [(b, si, c) for _, si, c in x]
                continue
            judged += len(gr)
            found += [(gr[bi], si, c) for bi, si, c in r]
        if stop and stop(found):
            break
    return found, judged

def state_at(b, k):
    """the state after step k - 1 of a recorded behaviour"""
    s = dict(b['s0'])
    for st in b['steps'][:k]:
        s.update(st['d'])
    return s

# ---------------------------------------------------------------- properties
# relevant instructions, and the generator profiles that exercise the property most
REL = {
 'C01': ('deposit withdraw withdrawRemaining creatorWithdraw collectFee donate', (0, 3, 11, 9)),
 'C02': ('initPresale claim unsold creatorWithdraw donate', (0, 4, 1, 9)),
 'C03': ('deposit withdraw claim refresh withdrawRemaining closeEscrow creatorWithdraw collectFee unsold', (8, 0, 12, 6)),
 'C04': ('withdraw claim withdrawRemaining closeEscrow creatorWithdraw collectFee createRoot closeRoot createMeta closeMeta closeFixedArgs revokeOperator createEscrowByOperator', (8, 12, 6, 0)),
 'C05': ('deposit withdraw claim withdrawRemaining creatorWithdraw collectFee unsold closeEscrow createRoot createMeta closeRoot createEscrow createEscrowByOperator createEscrowByProof', (0, 11, 12, 3)),
 'C06': ('deposit', (0, 1, 2, 10)),
 'C07': ('deposit', (0, 1, 3, 9)),
 'C08': ('deposit withdraw initPresale initFixedArgs claim', (1, 10, 4, 0)),
 'C09': ('deposit', (2, 1, 4, 0)),
 'C10': ('withdraw', (3, 1, 0, 9)),
 'C11': ('claim refresh', (4, 1, 2, 3)),
 'C12': ('claim refresh closeEscrow', (4, 3, 5, 6)),
 'C13': ('withdrawRemaining closeEscrow', (11, 0, 3, 9)),
 'C14': ('withdrawRemaining closeEscrow', (3, 9, 6, 10)),
 'C15': ('creatorWithdraw', (0, 11, 3, 9)),
 'C16': ('collectFee', (0, 3, 2, 9)),
 'C17': ('unsold', (1, 5, 6, 9)),
 'C18': ('closeEscrow', (4, 3, 11, 0)),
 'C19': ('createEscrow createEscrowByOperator createEscrowByProof', (5, 6, 12, 0)),
 'C20': ('createEscrowByProof createRoot', (5, 8, 12, 10)),
 'C21': ('createOperator revokeOperator createEscrowByOperator', (6, 12, 8, 0)),
 'C22': ('tree', (5, 12, 0, 8)),
 'C23': ('initPresale initFixedArgs', (7, 10, 9, 1)),
 'C24': ('initPresale initFixedArgs', (7, 9, 10, 1)),
 'C25': ('deposit withdraw claim withdrawRemaining closeEscrow createEscrow', (0, 3, 5, 6)),
 'C26': ('deposit withdraw claim withdrawRemaining creatorWithdraw collectFee unsold initPresale', (9, 9, 9, 0)),
 'C27': ('deposit withdraw claim refresh withdrawRemaining closeEscrow creatorWithdraw collectFee unsold initPresale createEscrow', (0, 9, 12, 3)),
 'C28': ('refresh', (4, 3, 1, 0)),
 'C29': ('deposit withdraw claim refresh withdrawRemaining closeEscrow creatorWithdraw collectFee unsold', (0, 2, 4, 12)),
 'C30': ('claim withdrawRemaining creatorWithdraw collectFee unsold closeEscrow refresh', (3, 4, 11, 10)),
 'C31': ('createRoot closeRoot createMeta closeMeta initFixedArgs closeFixedArgs', (12, 12, 8, 5)),
 'C32': ('createEscrow createEscrowByOperator createEscrowByProof', (5, 6, 0, 12)),
 'C33': ('deposit withdraw claim withdrawRemaining creatorWithdraw collectFee unsold initPresale closeEscrow', (10, 10, 10, 10)),
 'C34': ('deposit withdraw claim withdrawRemaining creatorWithdraw collectFee unsold initPresale', (9, 9, 9, 9)),
}

def spec_check(pid, samples, profiles, sd, budget):
    """Random behaviours of the specification with the property evaluated on every transition.
    Returns dict(behaviours, transitions, violating ITF files)."""
    d = tempfile.mkdtemp(dir=WORK, prefix='spec')
    for m in ('params', 'types', 'math', 'merkle', 'presale', 'props', 'gen'):
        shutil.copy(f'{SPEC}/{m}.qnt', d)
    t = open(f'{SPEC}/simprops.qnt').read()
    assert 'violated(x, g, h)' in t
    t = t.replace('violated(x, g, h)', f'(if ({pid}(x, r, g, h)) Set() else Set("{pid}"))')
    with open(f'{d}/simprops.qnt', 'w') as f:
        f.write(t)
    res = dict(behaviours=0, transitions=0, bad=[], errors=[])
    def one(k):
        p = profiles[k]
        out = f'{d}/v{k}.itf.json'
        try:
            r = quint_run('simprops.qnt', init_name(p), samples, 1, 1 + sd * 7919 + k * 104729 + int(pid[1:]) * 31, out,
                          invariant='safe', cwd=d, timeout=budget)
        except subprocess.TimeoutExpired:
            return ('timeout', p, out)
        if 'No violation found' in r.stdout:
            return ('ok', p, out)
        if os.path.exists(out):
            return ('bad', p, out)
        return ('error', p, (r.stdout + r.stderr)[-800:])
    with ThreadPoolExecutor(len(profiles) if len(profiles) < CPUS else CPUS) as ex:
        for st, p, out in ex.map(one, range(len(profiles))):
            if st == 'ok':
                res['behaviours'] += samples
                res['transitions'] += samples * STEPS
            elif st == 'bad':
                keep = f'{WORK}/violations/{pid}-spec-p{p}.itf.json'
                os.makedirs(os.path.dirname(keep), exist_ok=True)
                shutil.copy(out, keep)
                res['bad'].append(keep)
            elif st == 'error':
                res['errors'].append(out)
    shutil.rmtree(d, ignore_errors=True)
    return res

def samples_of(files, kinds, n=3):
    out = []
    for f in files:
        for line in open(f):
            b = json.loads(line)
            for i, st in enumerate(b['steps']):
                if st['op']['kind'] in kinds and st['ok']:
                    op = {k: v for k, v in st['op'].items() if k == 'kind' or (k != 'args' and v != OP0.get(k))}
                    out.append({'behaviour': b['id'], 'step': i, 'instruction': plain(op), 'event': plain(st['ev'])})
                    break
            if len(out) >= n:
                return out
    return out

def plain(v):
    if isinstance(v, dict):
        if '#bigint' in v:
            i = int(v['#bigint'])
            return i if abs(i) < 2**53 else v['#bigint']
        if '#tup' in v:
            return plain(v['#tup'])
        return {k: plain(x) for k, x in v.items()}
    if isinstance(v, list):
        return [plain(x) for x in v]
    return v

def known_findings(pid):
    f = f'{V}/known-findings.txt'
    out = []
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r'known: property=(\S+) (.*)', l)
            if m and m.group(1) == pid:
                out.append(m.group(2).strip())
    return out

def check(pid, tier):
    global LIMIT
    sd = seed()
    os.makedirs(WORK, exist_ok=True)
    os.makedirs(f'{V}/evidence', exist_ok=True)
    quick = tier == 'quick'
    deadline = T0 + (600 if quick else 6 * 3600)
    if quick:
        LIMIT = T0 + 800
    kinds, profs = REL[pid]
    kinds = kinds.split()
    pool = ThreadPoolExecutor(1)
    if quick:
        fut = pool.submit(spec_check, pid, 25, list(profs), sd, 240)
    else:
        fut = pool.submit(spec_check, pid, 400, list(profs) * 2 + PROFILES, sd, 3600)
    if not build():
        print('the replayer does not build with this tree', file=sys.stderr)
        return 2
    files = corpus(sd, QUICK if quick else 30, deadline=T0 + (420 if quick else 3 * 3600))
    if not files:
        print('no behaviours', file=sys.stderr)
        return 2
    sm = small(0, 240)
    graphs = [sm['graph']] if sm and not sm['violated'] else []
    if not quick:
        sm1 = small(1, 3 * 3600, pid)
        g1 = small(1, 3 * 3600)
        if sm1:
            sm = sm1
        if g1 and not g1['violated']:
            graphs = [g1['graph']]
    rep = replay(files + graphs)
    if rep is None:
        print('the replayer failed', file=sys.stderr)
        return 2
    log(f"replayed {rep['behaviours']} behaviours, {rep['steps']} transitions, {rep['diverged']} diverged; small instances {rep['small_states']} states, {rep['small_steps']} transitions, {rep['small_diverged']} diverged")
    spec = fut.result()
    for e in spec['errors']:
        log('specification run failed:', e)
    log(f"specification: {spec['behaviours']} behaviours, {len(spec['bad'])} violating")
    violations, judged = [], 0
    todo = rep['observed']
    if spec['bad']:
        # the specification itself breaks the property; it counts if the program follows it there
        x = f'{WORK}/violations/{pid}-spec.jsonl'
        subprocess.run([BIN, 'pack', x, f'{pid}spec'] + spec['bad'], check=True)
        todo = replay_log(x) + todo
    if todo:
        violations, judged = judge_all(todo, [pid], stop=lambda f: len(f) > 0, deadline=deadline)
        for k, n in rep['clusters'].items():
            log('divergence', k, n)
    rc = 0
    path = ''
    if violations:
        b, si, _ = violations[0]
        path = f'{WORK}/violations/{pid}.json'
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, 'w') as f:
            json.dump({'property': pid, 'behaviour': b['id'], 'step': si,
                       'before': plain(state_at(b, si)),
                       'instruction': plain(b['steps'][si]['op']), 'accepted': b['steps'][si]['ok'],
                       'event': plain(b['steps'][si]['ev']), 'after': plain(state_at(b, si + 1)),
                       'history': [plain(s['op']) for s in b['steps'][:si]]}, f, indent=1)
        rc = 1
    if sm and pid in sm['violated'] and not rc:
        rc, path = 1, sm['counterexample']      # the program follows the specification, which breaks the property in small scope
    ntriv = sum(v for k, v in rep['counts'].items() if k.split()[0].rstrip('~') in kinds)
    acc = sum(v for k, v in rep['counts'].items() if k.split()[0] in kinds and k.endswith('accepted'))
    ev = {'property': pid, 'tier': tier, 'seed': sd, 'level': 'model_checking', 'wall_s': round(time.time() - T0, 1),
          'violations': len(violations),
          'coverage': {
              'states': rep['distinct'] + rep['small_states'], 'transitions': rep['steps'] + rep['small_steps'],
              'traces_validated_against_impl': rep['behaviours'] - rep['diverged'],
              'samples': samples_of(files, kinds),
              'small_scope': {'states': sm['states'], 'transitions': sm['transitions'], 'property_violated_by_specification': pid in sm['violated'],
                              'states_replayed_in_the_program': rep['small_states'], 'transitions_replayed_in_the_program': rep['small_steps'],
                              'diverged': rep['small_diverged']} if sm else 'not explored',
              'behaviours_diverged': rep['diverged'], 'diverged_behaviours_judged': judged,
              'relevant_transitions_replayed': ntriv, 'relevant_accepted': acc,
              'specification_behaviours_with_property_evaluated': spec['behaviours'],
              'specification_transitions_with_property_evaluated': spec['transitions'],
              'rule': 'random behaviours of the Quint specification (14 generator profiles) and every transition of the state graphs of the small instances (TLC), replayed in the real program; '
                      'relevant: transitions whose instruction is one of ' + ' '.join(kinds)},
          'assumptions': ['SPL Token, Token-2022 and the Solana runtime behave as in LiteSVM 0.6.1',
                          'SHA-256 is collision free (whitelist trees use a perfect hash in the specification)']}
    with open(f'{V}/evidence/{pid}.json', 'w') as f:
        json.dump(ev, f, indent=1)
    for k in known_findings(pid):
        print(f'KNOWN-FINDING: property={pid} {k}')
    if rc == 1 and not violations:
        print(f'VIOLATION property={pid} replay={path}')
    elif rc == 1:
        b, si, _ = violations[0]
        op = b['steps'][si]['op']
        print(f"{pid}: {op['kind']} ({'accepted' if b['steps'][si]['ok'] else 'rejected'}) at step {si} of {b['id']}")
        print(f'VIOLATION property={pid} replay={path}')
    elif todo and judged == 0:
        print('divergent behaviours could not be judged', file=sys.stderr)
        return 2
    else:
        print(f'{pid} held: {rep["behaviours"]} behaviours replayed, {rep["diverged"]} diverged without violating it')
    return rc

def replay_log(f):
    out = tempfile.mktemp(dir=WORK, suffix='.log.json')
    subprocess.run([BIN, 'record', out, f], stdout=subprocess.DEVNULL, check=True)
    d = json.load(open(out))
    os.remove(out)
    return d

def setup():
    os.makedirs(WORK, exist_ok=True)
    if not build():
        return 1
    sm = small(0, 600)
    log('small instances:', sm and {k: sm[k] for k in ('states', 'transitions', 'violated')})
    fs = corpus(seed(), QUICK, deadline=T0 + 1200)
    log(f'{len(fs)} chunks of behaviours')
    return 0

def main():
    a = sys.argv[1:]
    if a[0] == 'setup':
        return setup()
    if a[0] == 'check':
        tier = a[a.index('--tier') + 1] if '--tier' in a else os.environ.get('VERIF_TIER', 'quick')
        return check(a[1], tier)
    if a[0] == 'judge':
        # divergences of the current tree and the properties they violate
        if not build():
            return 2
        files = corpus(seed(), int(a[1]) if len(a) > 1 else QUICK)
        sm = small(0, 600)
        rep = replay(files + ([sm['graph']] if sm else []))
        log(f"replayed {rep['behaviours']} behaviours, {rep['steps']} transitions, {rep['diverged']} diverged; small instances {rep['small_states']} states, {rep['small_steps']} transitions, {rep['small_diverged']} diverged")
        todo = rep['observed']
        for k, n in rep['clusters'].items():
            print('divergence', k, n)
        lim = int(a[2]) if len(a) > 2 else 48
        v, n = judge_all(todo[:lim], sorted(REL))
        c = {}
        for b, si, p in v:
            c.setdefault(p, set()).add(b['id'])
        print(f'judged {n}:', ' '.join(f'{p}={len(x)}' for p, x in sorted(c.items())))
        return 0
    print(__doc__)
    return 2

if __name__ == '__main__':
    sys.exit(main())
