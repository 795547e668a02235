"""cmp_.py code_fn spec_fn [kind]"""
import sys
from try_ import *
from compare import *
from dag import dag
P = setup()
def go(a,b,kind='all',show_=True,eqlen=()):
    if isinstance(eqlen,str): eqlen=[tuple(x.split('=')) for x in eqlen.split(',')]
    ba,bb=P.fn(a),P.fn(b)
    oa,ob=outcome(P,ba,eqlen=eqlen),outcome(P,bb,eqlen=eqlen)
    d=compare_outcomes(oa,ob,kind)
    if d is not None:
        align(oa,ob); d=compare_outcomes(oa,ob,kind)
    print(a,'~',b,kind,'EQUAL' if d is None else 'DIFFER at '+d[0])
    if d and show_: print(dag([('got',d[1]),('want',d[2])]))
if __name__=='__main__':
    a=sys.argv[1:]; go(a[0],a[1],a[2] if len(a)>2 else 'all',True,a[3] if len(a)>3 else ())
