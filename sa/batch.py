"""batch.py: compare all pairs listed in a file / obligations (debug aid)"""
import sys
from cmp_ import *
import time
pairs=[l.split() for l in sys.stdin if l.strip() and not l.startswith('#')]
for p in pairs:
    t=time.time()
    try: go("sp_spec::"+p[0],"sp_spec::"+p[1],p[2] if len(p)>2 else 'all',False,p[3] if len(p)>3 else ())
    except Exception as e: print(p,'EXC',type(e).__name__,str(e)[:200])
    sys.stdout.flush()
    if time.time()-t>5: print('   %.1fs'%(time.time()-t))
