# usage: wb.sh harness secs
cd /verif; export PYTHONHASHSEED=0; python3-vt - "$@" <<'P'
import sys; sys.path.insert(0,'/verif'); sys.argv=['x']+sys.argv[1:]
import os; os.environ.setdefault('VERIF_TIER','quick')
import check,tempfile,shutil
w=tempfile.mkdtemp(prefix='wb_')
h=check.Harness(sys.argv[1],w)
import time; t=time.time()
if not h.build(): print(h.error); sys.exit()
print('built %.1f'%(time.time()-t))
secs=float(sys.argv[2]) if len(sys.argv)>2 else 5
c,f=h.run(secs,int(sys.argv[3]) if len(sys.argv)>3 else 1,8)
print('cases',c)
if f: print(f['why'],'\n',f['seed'],f['case'],f['input'][-1500:],'\n',f['sanitizer'][:2500])
shutil.rmtree(w)
P
