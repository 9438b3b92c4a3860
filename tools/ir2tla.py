#!/usr/bin/env python3
"""Prints Apalache's JSON form of a Quint module as TLA+ that TLC reads (every operator application in parentheses; the printer of
`quint compile --target tlaplus` leaves LET-IN unparenthesised inside infix operators).  usage: ir2tla.py IR.json NAME OUT.tla"""
import json, sys, re
src, name, dst = sys.argv[1:4]
mod = json.load(open(src))['modules'][0]
INFIX = {'EQ': '=', 'NE': '/=', 'PLUS': '+', 'MINUS': '-', 'MULT': '*', 'DIV': '\\div', 'MOD': '%', 'POW': '^', 'LT': '<', 'LE': '<=', 'GT': '>',
         'GE': '>=', 'IMPLIES': '=>', 'EQUIV': '<=>', 'SET_IN': '\\in', 'SET_NOT_IN': '\\notin', 'SET_UNION2': '\\union', 'SET_INTERSECT': '\\intersect',
         'SET_MINUS': '\\', 'SET_SUBSET_EQ': '\\subseteq', 'INT_RANGE': '..', 'Sequences!Concat': '\\o', 'Apalache!:=': '='}
PRIMES = True
SCOPE = []      # TLA+ has no shadowing: every local name gets its own number
COUNT = [0]
def ident(n):
    for s in reversed(SCOPE):
        if n in s:
            return s[n]
    return re.sub(r'[^A-Za-z0-9_]', '_', n)
def bind(names):
    COUNT[0] += 1
    SCOPE.append({n: re.sub(r'[^A-Za-z0-9_]', '_', n) + f'_{COUNT[0]}' for n in names})
def unbind():
    SCOPE.pop()
def scoped(names, f):
    bind(names)
    r = f()
    unbind()
    return r
def e(x):
    k = x['kind']
    if k == 'NameEx':
        return ident(x['name'])
    if k == 'ValEx':
        v = x['value']
        if v['kind'] == 'TlaStr':
            return json.dumps(v['value'])
        if v['kind'] == 'TlaInt':
            i = int(v['value']); return str(i) if i >= 0 else f'(0 - {-i})'
        if v['kind'] == 'TlaBool':
            return 'TRUE' if v['value'] else 'FALSE'
        raise SystemExit(v)
    if k == 'LetInEx' and len(x['decls']) == 1 and x['body']['kind'] == 'NameEx' and x['body']['name'] == x['decls'][0]['name'] \
            and x['decls'][0]['formalParams']:
        d = x['decls'][0]
        return scoped([p['name'] for p in d['formalParams']],
                      lambda: 'LAMBDA ' + ', '.join(ident(p['name']) for p in d['formalParams']) + ': ' + e(d['body']))
    if k == 'LetInEx':
        return scoped([d['name'] for d in x['decls']],
                      lambda: '(LET ' + '\n'.join(decl(d) for d in x['decls']) + '\nIN ' + e(x['body']) + ')')
    if k != 'OperEx':
        raise SystemExit(k)
    o, a = x['oper'], x['args']
    if o == 'OPER_APP':
        f = e(a[0])
        return f if len(a) == 1 else f + '(' + ', '.join(map(e, a[1:])) + ')'
    if o in INFIX and len(a) == 2:
        return f'({e(a[0])} {INFIX[o]} {e(a[1])})'
    if o in ('AND', 'OR'):
        if not a:
            return 'TRUE' if o == 'AND' else 'FALSE'
        return '(' + (' /\\ ' if o == 'AND' else ' \\/ ').join(map(e, a)) + ')'
    if o == 'NOT':
        return f'(~{e(a[0])})'
    if o == 'UNARY_MINUS':
        return f'(0 - {e(a[0])})'
    if o == 'IF_THEN_ELSE':
        return f'(IF {e(a[0])} THEN {e(a[1])} ELSE {e(a[2])})'
    if o == 'FUN_APP':
        return f'{e(a[0])}[{e(a[1])}]'
    if o == 'EXCEPT':
        ix = a[1]
        assert ix['kind'] == 'OperEx' and ix['oper'] == 'TUPLE' and len(ix['args']) == 1
        return f'[{e(a[0])} EXCEPT ![{e(ix["args"][0])}] = {e(a[2])}]'
    if o == 'DOMAIN':
        return f'(DOMAIN {e(a[0])})'
    if o == 'PRIME':
        return e(a[0]) + ("'" if PRIMES else '')
    if o == 'TUPLE':
        return '<<' + ', '.join(map(e, a)) + '>>'
    if o == 'SET_ENUM':
        return '{' + ', '.join(map(e, a)) + '}'
    if o == 'RECORD':
        return '[' + ', '.join(f'{a[i]["value"]["value"]} |-> {e(a[i+1])}' for i in range(0, len(a), 2)) + ']'
    if o in ('FORALL3', 'EXISTS3'):
        dom = e(a[1])
        return scoped(names(a[0]), lambda: f'({chr(92)}{"A" if o[0] == "F" else "E"} {e(a[0])} \\in {dom}: {e(a[2])})')
    if o == 'SET_FILTER':
        dom = e(a[1])
        return scoped(names(a[0]), lambda: f'{{{e(a[0])} \\in {dom}: {e(a[2])}}}')
    if o == 'SET_MAP':
        dom = e(a[2])
        return scoped(names(a[1]), lambda: f'{{{e(a[0])}: {e(a[1])} \\in {dom}}}')
    if o == 'FUN_CTOR':
        dom = e(a[2])
        return scoped(names(a[1]), lambda: f'[{e(a[1])} \\in {dom} |-> {e(a[0])}]')
    if '!' in o:
        return o.split('!')[1] + '(' + ', '.join(map(e, a)) + ')'
    raise SystemExit(f'operator {o}')
def names(x):
    return [x['name']] if x['kind'] == 'NameEx' else [n for y in x['args'] for n in names(y)]
def decl(d):
    s = ident(d['name'])
    return scoped([p['name'] for p in d['formalParams']], lambda: decl1(d, s))
def decl1(d, s):
    ps = d['formalParams']
    if ps:
        s += '(' + ', '.join(ident(p['name']) + ('(' + ', '.join('_' * p['arity']) + ')' if p['arity'] else '') for p in ps) + ')'
    return f'{s} == {e(d["body"])}'
o = [f'---- MODULE {name} ----', 'EXTENDS Integers, Sequences, FiniteSets, TLC, Apalache']
for d in mod['declarations']:
    if d['kind'] == 'TlaVarDecl':
        o.append(f'VARIABLE {ident(d["name"])}')
for d in mod['declarations']:
    if d['kind'] == 'TlaOperDecl':
        o.append(decl(d))
# the initial action as a predicate over unprimed variables
PRIMES = False
o += ['Init_' + decl(d) for d in mod['declarations'] if d['kind'] == 'TlaOperDecl' and d['name'] == 'init']
o.append('====')
open(dst, 'w').write('\n\n'.join(o) + '\n')
