"""Print what differs in a replay file (sfh events)."""
import json, sys

sys.path.insert(0,'/verif/harness')
r=json.load(open(sys.argv[1]))
print(r['op'],r['clauses'],r['count'])
for e in r['events']:
    print(json.dumps({k:v for k,v in e.items()})[:1500])
