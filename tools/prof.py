import sys; sys.path.insert(0,'/verif')
import importlib, time, traceback, collections
import vc.eng as E
orig=E.Eng.solve
acc=collections.Counter(); cnt=collections.Counter()
def solve(self,st,goal,rl,extra=()):
    t=time.time(); r=orig(self,st,goal,rl,extra); d=time.time()-t
    fs=[f.name for f in traceback.extract_stack()[:-1]]
    k='>'.join(fs[-4:])+' '+str(rl)
    acc[k]+=d; cnt[k]+=1
    if d>5: print('%.1f'%d, k, getattr(self,'curline',None), type(r).__name__, str(goal)[:300].replace('\n',' '))
    return r
E.Eng.solve=solve
from vc.verify import verify
mod=importlib.import_module('contracts.'+sys.argv[1])
e=mod.env(); c=e.contracts[sys.argv[2]]
v=verify(c,e)
for k,d in acc.most_common(12): print('%.1f %d %s'%(d,cnt[k],k))
