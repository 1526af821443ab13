import json,sys
r=json.load(open(sys.argv[1]))
print({k:r[k] for k in ('paths','queries','integer_queries','unknown','solver_s','wall_s','reach','incomplete')})
print({k:v for k,v in r['asserts'].items()})
for v in r['violations'][:4]: print(str(v)[:400])
