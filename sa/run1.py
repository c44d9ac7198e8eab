import sys, json, time
sys.path.insert(0,'/verif/sa')
from engine import chars
from engine.interp import Interp
from engine.models import install
from engine.core import *
def load(path='/verif/build/all.json', uni='/verif/build/unicode.json'):
    D=json.load(open(path))
    singles=set()
    def walk(o):
        if isinstance(o,dict):
            for k,v in o.items():
                if k=='c' and isinstance(v,int): singles.add(v)
                elif k=='s' and isinstance(v,str): singles.update(map(ord,v)) if len(v)<200 else None
                else: walk(v)
        elif isinstance(o,list):
            for v in o: walk(v)
    for f in D['fns']:
        if f['local']: walk(f.get('blocks'))
    A=chars.load(uni,singles)
    E=Interp(D,A); install(E)
    return E
if __name__=='__main__':
    t=time.time(); E=load(); print('load',time.time()-t, 'atoms',E.A.n)
    name=sys.argv[1]
    roots=[r for r in E.D['roots'] if (r['path']==name or name in r['path']+' '+r.get('impl_self',''))]
    for r in roots[:1]:
        f=E.F[r['inst']]; print(f['path'])
        st=State(); args=[]
        for i in range(f['argc']):
            v=('top',f['locals'][i+1]); v=E.deep_expand(st,v); args.append(v)
        t=time.time()
        res=E.run_body(f,st,args)
        print('time',time.time()-t,'steps',E.steps,'outs',len(res))
        for s,v in res:
            if v[0]=='s':
                i=E.S(s,v); print('  ret str cl',E.lb(s,i.cl),E.ub(s,i.cl),'bl',E.lb(s,i.bl),E.ub(s,i.bl),E.A.show(i.cs,30),'k',i.k)
            else: print('  ret',v)
        print('sites',len(E.sites),'alarms',len(E.alarms))
        for a in E.alarms.values(): print('  ALARM',a['kind'],a['what'],a['fn'],a['line'],'<-',a['chain'])
        for n,s in E.notes.items(): print('  note',n,s)
