#!/bin/bash
# dev.sh CHECK [args...]: build one harness and run it with sane defaults (development aid)
n=$1; shift
o=$(python3 /verif/tools/build.py $n) || { echo "$o"; exit 2; }
b=$(echo "$o" | tail -1 | cut -d' ' -f2)
for kv in $(echo "$o" | tail -1 | cut -d' ' -f3-); do export "PROG_$(echo ${kv%%=*} | tr a-z A-Z)=${kv#*=}"; done
d=$(mktemp -d); mkdir $d/s
$b --prop $n --seed ${SEED:-1} --cases ${CASES:-20000} --time ${T:-20} --workers 8 --keep-going --out $d/o.json --scratch $d/s --replay-dir /tmp/r "$@"
echo rc $?
python3 - $d/o.json ${N:-900} <<'P'
import json,sys
d=json.load(open(sys.argv[1])); print(d['evaluations'],d['distinct_nontrivial'],'discards',d['discards'],'known',d.get('known_hits'),'unrep',d.get('unreproduced'),d.get('labels'), d.get('wall_s'))
for f in d['failures']: print('##',f['sub'],f['tag'],f['replay'],f['msg'][:int(sys.argv[2])])
P
rm -rf "$d"
