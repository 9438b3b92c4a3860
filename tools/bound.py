#!/usr/bin/env python3
"""Development tool: how often is each instruction offered at a boundary second of its presale?  usage: bound.py FILE..."""
import sys, json, collections
def I(v): return int(v['#bigint']) if isinstance(v, dict) else int(v)
C = collections.Counter()
for f in sys.argv[1:]:
    for line in open(f):
        b = json.loads(line); now = I(b['s0']['now']); P = {}
        for st in b['steps']:
            o, ok = st['op'], st['ok']; k, p = o['kind'], o['p']
            if k == 'tick': now += I(o['amt']); continue
            i = P.get(p)
            if i and not o['slot']:
                for n, t in i['t'].items():
                    for d in (-1, 0, 1):
                        if now == t + d: C[(k, n, d, ok)] += 1
            if not ok: continue
            if k == 'initPresale':
                a = o['args']; e = I(a['end']); l = I(a['lock']); v = I(a['vest'])
                P[p] = dict(mode=I(a['mode']), dis=I(a['disEarly']), maxc=I(a['maxCap']), tot=0, e=e,
                            t=dict(start=max(now, I(a['start'])), end=e, imm=I(a['immTs']) or e, vs=e + l, ve=e + l + v))
            elif k == 'deposit':
                i['tot'] += I(st['ev']['nums'][0])
                if i['mode'] != 1 and not i['dis'] and i['tot'] >= i['maxc']:
                    d = i['e'] - now; i['e'] = now
                    for n in ('end', 'imm', 'vs', 've'): i['t'][n] -= d
            elif k == 'withdraw': pass
rows = sorted({(k, n) for k, n, _, _ in C})
for k, n in rows: print('%-24s %-6s' % (k, n), ' '.join('%+d: %5d ok %5d no |' % (d, C[(k, n, d, True)], C[(k, n, d, False)]) for d in (-1, 0, 1)))
