#!/bin/bash
# developer loop: build, replay work/a.jsonl, summarise
. /opt/vp/env.sh; export CARGO_INCREMENTAL=0 CARGO_TARGET_DIR=/verif/harness/target
cd /verif/harness && cargo build --offline 2>&1 | grep -E '^error' -A8
cd /verif/work && time $CARGO_TARGET_DIR/debug/presale-conformance replay out.json 8 10000 ${1:-a.jsonl} >/dev/null
python3 - <<'P'
import json,collections
r=json.load(open('/verif/work/out.json'))
print(r['behaviours'],r['steps'],r['diverged'])
c=collections.Counter()
for o in r['observed']:
    s=o['steps'][o['first']]; c[(s['op']['kind'],s['op']['slot'],s['op']['sub'],s['ok'],s['op']['hook'])]+=1
for k,v in c.most_common(): print(k,v)
P
