#!/usr/bin/env python3
import json,sys,collections
c=collections.Counter()
prog=collections.Counter()
for f in sys.argv[1:]:
    t=json.load(open(f))
    for st in t['states'][1:]:
        o=st['op']
        c[(o['kind'],('T' if o['slot'] else ''),st['ok'])]+=1
for k in sorted(c): print(k,c[k])
