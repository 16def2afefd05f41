import os,sys
if os.environ.get('PYTHONHASHSEED')!='0':
    os.environ['PYTHONHASHSEED']='0'; os.execv(sys.executable,[sys.executable]+sys.argv)
import sys; sys.path.insert(0,'/verif')
import importlib, time
from vc.verify import verify
mod=importlib.import_module('contracts.'+sys.argv[1])
names=sys.argv[2:]
e=mod.env()
for n,c in list(e.contracts.items()):
    if c.extern or (names and n not in names): continue
    t=time.time()
    v=verify(c,e)
    bad=[o for o in v.obls if o.status!='proved']
    print(n,'unsup' if v.unsupported else '',v.unsupported or '', len(v.obls),'obl',len(bad),'bad %.1fs q=%d'%(time.time()-t,v.queries))
    for o in bad[:12]:
        print('   ',o.status,o.line,o.name)
        print('\n'.join('        '+x for x in o.detail.split('\n')[:int(__import__('os').environ.get('DET','3'))]))
