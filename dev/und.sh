#!/bin/bash
# undecided entries of property $1 in the last evidence that match $2
python3 - "$@" <<'P'
import json,sys
d=json.load(open("/verif/evidence/%s.json"%sys.argv[1]))["coverage"]["undecided"]
for k,v in sorted(d.items()):
    if len(sys.argv)<3 or sys.argv[2] in k: print(k[:200],"=>",str(v)[:300])
P
