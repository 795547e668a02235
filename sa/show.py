import sys, json
from extract import extract
def op(o):
    if 'c' in o: return pl(o['c'])
    if 'm' in o: return 'move '+pl(o['m'])
    if 'k' in o:
        k=o['k']
        if 'fn' in k:
            f=k['fn']; return f.get('resname') or f['name']
        for x in ('int','bytes','mem','bits'):
            if x in k: return 'const %s'%k[x]
        return 'const '+json.dumps({a:b for a,b in k.items() if a!='ty'})
    return '?'
def pl(p):
    s='_%d'%p[0]
    for e in p[1:]:
        if e=='*': s='(*%s)'%s
        elif e[0]=='f': s+='.%d'%e[1]
        elif e[0]=='v': s+=' as v%d'%e[1]
        elif e[0]=='i': s+='[_%d]'%e[1]
        else: s+=str(e)
    return s
def rv(r):
    if r[0]=='use': return op(r[1])
    if r[0]=='ref': return '&%s %s'%(r[1],pl(r[2]))
    if r[0]=='discr': return 'discr(%s)'%pl(r[1])
    if r[0]=='agg': return '%s(%s)'%(r[1],', '.join(map(op,r[2])))
    if r[0]=='bin': return '%s(%s,%s)'%(r[1],op(r[2]),op(r[3]))
    if r[0]=='un': return '%s(%s)'%(r[1],op(r[2]))
    if r[0]=='cast': return '%s as %s [%s]'%(op(r[2]),r[3],r[1])
    return str(r)
if __name__=='__main__':
    res,h=extract()
    for c,d in res.items():
        for b in d['bodies']:
            if len(sys.argv)<2: print(b['path'],b['kind'],b['span']); continue
            if sys.argv[1] in b['path'] :
                T=d['types']
                print('##',b['path'],b['kind'],b['span'],'argc',b['argc'])
                for i,l in enumerate(b['locals']): print('   _%d %s: %s'%(i,l.get('n',''),T[l['ty']]['s']))
                if b['upvars']: print('   upv',b['upvars'])
                for i,bb in enumerate(b['blocks']):
                    if bb['cl']: continue
                    print('  bb%d'%i)
                    for s in bb['s']:
                        if s[0]=='=': print('     %s = %s'%(pl(s[1]),rv(s[2])))
                        else: print('    ',s)
                    t=bb['t']
                    if t[0]=='call': print('     %s = %s(%s) -> %s   // %s'%(pl(t[3]),op(t[1]),', '.join(map(op,t[2])),t[4],t[5]))
                    elif t[0]=='switch': print('     switch %s %s else %s'%(op(t[1]),t[2],t[3]))
                    elif t[0]=='drop': print('     drop %s -> %s'%(pl(t[1]),t[2]))
                    else: print('    ',t)
