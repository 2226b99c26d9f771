#!/bin/sh
# show a replay file compactly
python3 - "$1" <<'P'
import json,sys
r=json.load(open(sys.argv[1]));t=r['trace']
print(r['code'],r['detail'][:3000])
for k,v in sorted(t.items()):
    if k=='feed' or (isinstance(v,dict) and any(isinstance(x,dict) and 'rows' in x for x in v.values())):
        for n,tb in v.items(): print(' ',k,n,tb['cols'],tb['rows'])
    else: print(k,json.dumps(v)[:1500])
print('\n'.join((r.get('log_tail') or [])[-20:]))
P
