#!/bin/bash
# local.sh ID [count] [seed]: run an oracle against a scratch copy of /repo (development aid)
S=/tmp/rtsrc; mkdir -p $S
if [ ! -d $S/trackeddy ] || [ "$REFRESH" ]; then
 rm -rf /tmp/rtsrc/trackeddy; cp -a /repo/trackeddy $S/
fi
PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 /opt/venv/bin/python /verif/rt/run.py $1 --src $S --seed ${3:-1} --count ${2:-100} --out /tmp/rtsrc/$1.json
python3 -c "
import json;d=json.load(open('/tmp/rtsrc/$1.json'));f=d.pop('failure');print(str(d)[:300])
if f: print(f['case'],f['message']); print({k:v[:600] for k,v in f.get('input',{}).items()})"
