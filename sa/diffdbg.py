"""print the innermost differing pair, descending below atoms"""
import sys
from cmp_ import *
import compare
def dbg(a,b,depth=0,care=T):
    pad='  '*depth
    if compare.differ(a,b,care) is None: return
    if a.k=='ite' or b.k=='ite':
        at_a,at_b=atoms(a),atoms(b)
        oa=[x for x in at_a if x not in at_b]; ob=[x for x in at_b if x not in at_a]
        print(pad,'ATOMS only-got',[show(x,0,6)[:150] for x in oa],'only-want',[show(x,0,6)[:150] for x in ob], 'common',len(set(at_a)&set(at_b)))
        if not oa and not ob:
            print(pad,'got ',show(a,0,7)[:600]);print(pad,'want',show(b,0,7)[:600])
        for x in oa:
            for y in ob:
                if x.k==y.k and (x.k!='app' or x.a[0]==y.a[0]): dbg(x,y,depth+1)
        return
    if a.k!=b.k or len(a.a)!=len(b.a):
        print(pad,'GOT ',show(a,0,8)[:500]); print(pad,'WANT',show(b,0,8)[:500]); return
    for x,y in zip(a.a,b.a):
        if isinstance(x,V) and isinstance(y,V):
            if x is not y: dbg(x,y,depth+1)
        elif isinstance(x,tuple) and isinstance(y,tuple):
            for p,q in zip(x,y): 
                if isinstance(p,V) and p is not q: dbg(p,q,depth+1)
        elif x!=y: print(pad,'GOT ',show(a,0,8)[:500]); print(pad,'WANT',show(b,0,8)[:500])
if __name__=='__main__':
    a=sys.argv[1:]
    eq=[tuple(x.split('=')) for x in a[3].split(',')] if len(a)>3 else ()
    oa,ob=outcome(P,P.fn(a[0]),eqlen=eq),outcome(P,P.fn(a[1]),eqlen=eq)
    k=a[2] if len(a)>2 else 'all'
    if k=='ok':
        print('accept:'); dbg(is_ok(oa.ret),is_ok(ob.ret)); print('payload:'); dbg(unok(oa.ret),unok(ob.ret))
    else: dbg(oa.ret,ob.ret)
