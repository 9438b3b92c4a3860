#!/usr/bin/env python3
"""Development tool: how often do the behaviours of a corpus contain rare combinations?  usage: features.py FILE..."""
import sys, json, collections
def I(v): return int(v['#bigint']) if isinstance(v, dict) else int(v)
C = collections.Counter()
nb = 0
for f in sys.argv[1:]:
    for line in open(f):
        b = json.loads(line); nb += 1
        feats = set()
        P = {}   # presale -> info
        fargs = {}
        esc = {}
        now = 1700000000
        for st in b['steps']:
            o, ok, ev = st['op'], st['ok'], st['ev']
            k, p = o['kind'], o['p']
            if k == 'tick': now += I(o['amt'])
            if not ok: continue
            if k == 'initFixedArgs':
                if p in fargs and fargs[p] == 'closed': feats.add('fargs-recreated' + ('-after-presale' if p in P else ''))
                fargs[p] = 'open'
            if k == 'closeFixedArgs':
                fargs[p] = 'closed'; feats.add('fargs-closed' + ('-after-presale' if p in P else ''))
            if k == 'initPresale':
                a = o['args']
                P[p] = dict(n=len(a['regs']), mode=I(a['mode']), wl=I(a['wl']), maxc=I(a['maxCap']), minc=I(a['minCap']), start=max(now, I(a['start'])), end=I(a['end']), dis=I(a['disEarly']), fee=[I(r['feeBps']) for r in a['regs']], dep={}, tot=0, done=False, own=o['own'], claims=collections.Counter(), lock=I(a['lock']), vest=I(a['vest']), imm=I(a['immBps']))
                feats.add('n%d' % len(a['regs']))
            i = P.get(p)
            key = (p, o['own'], I(o['reg']))
            if k == 'deposit':
                a = I(ev['nums'][0]); i['dep'][key[2]] = i['dep'].get(key[2], 0) + a; i['tot'] += a
                esc.setdefault(key, dict(d=0, w=0, closed=0)); e = esc[key]
                if e.get('emptied'): feats.add('redeposit-after-emptying')
                e['d'] += a
                if i['mode'] != 1 and i['tot'] >= i['maxc']:
                    feats.add('filled-m%d-dis%d' % (i['mode'], i['dis']))
                    if i['dis']: i['filled'] = True
                    if i.get('wafter'): feats.add('refilled')
                r = [x for x in i['dep'] if i['dep'][x] > 0]
                for x in (2, 3, 4, 5):
                    if len(r) >= x: feats.add('deposits-in-%d-registries-m%d' % (x, i['mode']))
                if i['mode'] == 1 and i['tot'] > i['maxc']:
                    i['over'] = True; feats.add('oversub')
                    if len(r) >= 3: feats.add('oversub-3regs')
                if e.get('reborn'): feats.add('deposit-after-close-and-recreate')
            if k == 'withdraw':
                a = I(o['amt']); e = esc[key]
                left = I(ev['nums'][1]); a = e['d'] - left; e['d'] = left; i['dep'][key[2]] -= a; i['tot'] -= a
                if left == 0: e['emptied'] = True
                if i.get('filled'): i['wafter'] = True; feats.add('withdraw-after-filled')
                if i['dep'][key[2]] == 0: feats.add('registry-emptied')
            if k == 'closeEscrow':
                e = esc.setdefault(key, dict(d=0, w=0)); e['closed'] = 1
                feats.add('close')
            if k.startswith('createEscrow'):
                kk = (p, o['own'], 0 if k == 'createEscrow' else I(o['reg']))
                if kk in esc and esc[kk].get('closed'): esc[kk]['reborn'] = True; esc[kk]['d'] = 0; feats.add('recreated')
                if p != 'P1' and 'P1' in P and P['P1']['own'] == i['own']: feats.add('two-presales-one-owner-escrow')
            if k == 'claim':
                i['claims'][key] += 1
                if i['claims'][key] >= 3: feats.add('claims3')
                if i['claims'][key] >= 5: feats.add('claims5')
                if I(ev['nums'][0]) > 0: feats.add('claim>0')
            if k == 'withdrawRemaining':
                i.setdefault('ref', set()).add(key)
                if i.get('over') and I(ev['nums'][0]) > 0:
                    feats.add('excess-refund')
                    if len(i['ref']) >= 3: feats.add('excess-refund-3')
                    if len({x[2] for x in i['ref']}) >= 3: feats.add('excess-refund-3regs')
            if k == 'collectFee' and I(ev['nums'][0]) > 0:
                feats.add('fee-collected-m%d' % i['mode'])
                if i.get('over'): feats.add('fee-collected-oversub'); 
                if i.get('over') and i.get('ref'): feats.add('fee-after-refund')
                if i.get('over') and len([x for x in i['dep'] if i['dep'][x] > 0]) >= 3: feats.add('fee-oversub-3regs')
            if k == 'unsold': feats.add('unsold-m%d-%s' % (i['mode'], I(ev['nums'][1])) + ('-n%d' % i['n'] if i['n'] > 2 else ''))
            if k == 'revokeOperator': b.setdefault('rev', set()).add((o['acc'], o['acc2']))
            if k == 'createOperator' and (o['who'], o['own']) in b.get('rev', ()): feats.add('operator-reappointed')
            if k == 'closeRoot': b.setdefault('rc', set()).add((p, I(o['ver'])))
            if k == 'createRoot' and (p, I(o['ver'])) in b.get('rc', ()): feats.add('root-recreated')
            if k == 'closeMeta': b.setdefault('mc', set()).add(p)
            if k == 'createMeta' and p in b.get('mc', ()): feats.add('meta-recreated')
            if k in ('creatorWithdraw',): feats.add('cw-%s' % o['txt'])
        if len([p for p in P if P[p]['tot'] > 0]) == 2: feats.add('both-presales-funded')
        C.update(feats)
print(nb)
for k, v in sorted(C.items(), key=lambda x: -x[1]): print(f'{v:6d} {k}')
