import collections
from try_ import *
P=setup()
C=collections.Counter(); W=collections.defaultdict(set)
for path,b in sorted(P.bodies.items()):
    if '{closure' in path or 'promoted[' in path: continue
    E=Engine(P)
    try: s=E.run(b)
    except Exception as e: print('ERR',human(b),e); continue
    seen=set()
    for c in E.calls:
        seen.add(c['name'])
    for n in seen: C[n]+=1; W[n].add(human(b))
for n,k in sorted(C.items(), key=lambda x:str(x[0])): print(k,n,'|',sorted(W[n])[0])
