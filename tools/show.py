import json,sys,glob
f=sorted(glob.glob('/verif/replays/'+sys.argv[1]+'*'))[-1]
d=json.load(open(f)); sc=d['scenario']
n=int(sys.argv[2]) if len(sys.argv)>2 else 12
print(f); print(json.dumps(sc)[:2500])
for v in d['viol']: print(v)
for t in d['trace'][-n:]: print(t)
