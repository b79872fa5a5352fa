#!/usr/bin/env python3
import json, sys
r = json.load(open(sys.argv[1]))
cl = lambda e: {k: (v if len(str(v)) < 400 else str(v)[:150] + '...') for k, v in e.items()}
print(r['what'])
for x in r.get('session', [])[-int(sys.argv[2]) if len(sys.argv) > 2 else -4:]:
    print(cl(x))
