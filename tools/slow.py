import json,sys
r=json.load(open(sys.argv[1]))
obs=[(o['time'],h['harness'],o['label'],o['backend']) for h in r['results'] for o in h['obligations']]
for o in sorted(obs,reverse=True)[:int(sys.argv[2]) if len(sys.argv)>2 else 8]: print(o)
