#!/bin/bash
# dbg.sh KEEPDIR UNIT.ENTRY [SECS]: rerun one entry with debugging output
u=${2%%.*}; e=${2#*.}; c=$(mktemp); python3 - "$1/$u.vs_entry_$e.cfg" $c $3 <<'P'
import json,sys
c=json.load(open(sys.argv[1])); c['debug']=1
if len(sys.argv)>3: c['time']=int(sys.argv[3])
json.dump(c,open(sys.argv[2],'w'))
P
python3-vt /verif/engine/run_entry.py $1/$u.json vs_entry_$e $c /tmp/dbg.out; rm -f $c
python3 -c "
import json;r=json.load(open('/tmp/dbg.out'))
print(json.dumps(r.get('obl'),indent=1)[:3000]); print(r['error'], r.get('tb','')); print(r.get('undecided')); print(json.dumps(r.get('cex'))[:2000]); print(r.get('stats'), r.get('bounded'), r.get('covers')); print(r.get('assumed')); print(r.get('loops'))"
