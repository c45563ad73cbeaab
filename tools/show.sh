#!/bin/sh
# show the label distribution of an evidence file
python3 - "$@" <<'P'
import json,sys
for p in sys.argv[1:]:
    d=json.load(open('/verif/evidence/%s.json'%p)); c=d['coverage']
    for k,v in c['subs'].items(): print(p, k, v['evaluations'], v['distinct_nontrivial'], v['labels'])
P
