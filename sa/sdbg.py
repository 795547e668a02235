"""compare the state roots"""
from diffdbg import *
a=sys.argv[1:]
eq=[tuple(x.split('=')) for x in a[3].split(',')] if len(a)>3 else ()
oa,ob=outcome(P,P.fn(a[0]),eqlen=eq),outcome(P,P.fn(a[1]),eqlen=eq)
for k in oa.roots: print(k); dbg(oa.roots[k],ob.roots.get(k,UNDEF))
