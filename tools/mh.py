"""mh.py HARNESS SECS FILE: mutations read from stdin, separated by lines '====', each 'old\n----\nnew'"""
import sys, os, shutil, tempfile, subprocess
import os; os.environ.setdefault('PYTHONHASHSEED','0')
sys.path.insert(0, '/verif')
hn, secs, f = sys.argv[1:4]
muts = sys.stdin.read().split('\n====\n')
for m in muts:
    a, b = m.strip('\n').split('\n----\n') if '\n----\n' in m else (m.strip('\n').replace('\n----', ''), '')
    d = tempfile.mkdtemp(prefix='mh_')
    shutil.copytree('/repo/src', d + '/src')
    p = d + '/' + f; s = open(p).read()
    if s.count(a) < 1: print('NO MATCH', a[:80]); continue
    open(p, 'w').write(s.replace(a, b, 1))
    code = '''
import sys; sys.path.insert(0,'/verif')
import check
w=%r
h=check.Harness(%r,w)
if not h.build(): print('build error', h.error[-300:])
else:
    c,f=h.run(%s,1,8)
    print('caught: '+f['why'][:110] if f else 'MISSED (%%d cases)'%%c)
''' % (d, hn, secs)
    r = subprocess.run(['python3-vt', '-c', code], capture_output=True, text=True, env=dict(os.environ, SDRV_REPO=d))
    print((a.strip().replace('\n', ' ')[:60] + ' => ' + b.strip().replace('\n', ' ')[:60]).ljust(124), r.stdout.strip(), r.stderr[-300:], flush=True)
    shutil.rmtree(d)
