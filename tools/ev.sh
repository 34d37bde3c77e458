python3 - $1 <<'P'
import json,sys
d=json.load(open('evidence/%s.json'%sys.argv[1]))
for s in d['coverage']['scenarios']: print(s['name'],s['variant'],s['units_done'],s['executions'],s['steps'],s['nontrivial'])
P
