import sys
from extract import extract
from program import *
from engine import *
from dag import dag
def setup():
    res,h=extract()
    return Program(res)
if __name__=='__main__':
    P=setup()
    for nm in sys.argv[1:]:
        for b in P.fns(nm):
            print('==',human(b),b.span)
            E=Engine(P)
            s=E.run(b)
            L=[('RET '+str(i),x) for i,gl in enumerate(leaves(s.retval())) for x in gl] if len(leaves(s.retval()))<12 else [('RET',s.retval())]
            for k,v in s.st.env.items():
                if k=='W' or (isinstance(k,tuple) and k[0]=='root'): L.append((str(k),v))
            for p in E.panics: L.append(('PANIC %s %s %s'%(p['kind'],p['span'],p['name']),p['guard']))
            print(dag(L))
            for l in E.loops: print('  WHILE',l['names'],'cond',l['cond'],'\n    inits',l['inits'],'\n    nexts',l['nexts'],'\n   exits',[(t,g) for t,g,_ in l['exits']])
