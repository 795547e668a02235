import sys,time,traceback,collections
from try_ import *
P=setup()
tot=collections.Counter()
errs=[]
only=sys.argv[1:]
for path,b in sorted(P.bodies.items()):
    if '{closure' in path or 'promoted[' in path: continue
    if b.kind not in ('fn','method','assoc_fn','Fn','AssocFn') and not b.argc and False: continue
    h=human(b)
    if only and not any(o in h for o in only): continue
    t=time.time()
    try:
        E=Engine(P); E.run(b); tot['ok']+=1
    except Unsupported as e:
        tot['unsup']+=1; errs.append((h,'UNSUP '+str(e)))
    except RecursionError as e:
        tot['rec']+=1; errs.append((h,'RECERR'))
    except Exception as e:
        tot['crash']+=1; errs.append((h,repr(e)+' '+traceback.format_exc().splitlines()[-3].strip()))
    dt=time.time()-t
    if dt>2: print('SLOW',h,round(dt,1))
print(tot)
for e in errs: print(*e)
