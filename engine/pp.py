import json,sys
d=json.load(open(sys.argv[1]))
T=d['types']
def pl(p):
    s='_%d'%p[0]
    for e in p[1]:
        if e=='*': s='(*%s)'%s
        elif e[0]=='f': s+='.%d'%e[1]
        elif e[0]=='v': s='(%s as %d)'%(s,e[1])
        else: s+=str(e)
    return s
def k(c):
    if c['k']=='fn':
        f=c['f']; return f['p']+'<'+','.join(T[a]['s'] if isinstance(a,int) else str(a) for a in f['a'] if a is not None)+'>'+(' => '+f['res']['p'] if 'res' in f else '')
    return json.dumps({x:c[x] for x in c if x!='t'})[:200]
def op(o):
    if o[0] in('cp','mv'): return ('move ' if o[0]=='mv' else '')+pl(o[1])
    if o[0]=='k': return 'const '+k(o[1])
    return str(o)
def rv(r):
    if r[0]=='use': return op(r[1])
    if r[0]=='ref': return ('&mut ' if r[2] else '&')+pl(r[1])
    if r[0]=='agg': return str(r[1][:3])+'('+', '.join(map(op,r[2]))+')'
    if r[0]=='discr': return 'discr '+pl(r[1])
    if r[0]=='cast': return 'cast %s %s as %s'%(r[1],op(r[2]),T[r[3]]['s'])
    if r[0]=='bin': return '%s(%s,%s)'%(r[1],op(r[2]),op(r[3]))
    return str(r)
for b,v in d['bodies'].items():
    if sys.argv[2] in b:
        print('==',b,v['path'],'argc',v['argc'])
        print([(n,pl(p)) for n,p in v['vars']])
        for i,bb in enumerate(v['blocks']):
            if bb['c']: continue
            print(' bb%d:'%i)
            for s in bb['s']:
                if s[0]=='=': print('    ',pl(s[1]),'=',rv(s[2]))
                elif s[0]=='setd': print('    ',s)
            t=bb['t']
            if t[0]=='call': print('    ',pl(t[3]),'= CALL',op(t[1]),'(',', '.join(map(op,t[2])),') ->',t[4])
            elif t[0]=='switch': print('     switch',op(t[1]),t[2],t[3])
            elif t[0]=='drop': print('     drop',pl(t[1]),t[2])
            else: print('    ',t[:5])
