#!/bin/bash
# gentest.sh N SEED PROFILES... : generate N behaviours per profile into work/a.jsonl
N=$1; SEED=$2; shift 2
rm -rf /verif/work/t; mkdir -p /verif/work/t; cd /verif/spec
for i in "$@"; do echo $i; done | xargs -P 8 -I{} sh -c 'i={}; [ $i = 0 ] && s= || s=$i; quint run sim.qnt --init=init$s --max-steps=50 --max-samples='$N' --n-traces='$N' --seed=$(('$SEED'+i)) --out-itf=/verif/work/t/p${i}_{seq}.itf.json --verbosity=1 >/verif/work/t/log$i 2>&1'
tail -qn1 /verif/work/t/log*
cd /verif/work && /verif/harness/target/debug/presale-conformance pack a.jsonl t t/*.itf.json
