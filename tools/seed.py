#!/usr/bin/env python3
"""seed.py make DIR       : DIR/seed.py holds PROPERTY, NEEDS, BREAKS, EDITS=[(file,old,new)]; writes patch.diff, meta.json, demo.sh if missing
   seed.py test ID [check] : demo on clean tree, build+tests+demo with the patch, then (check) the property's check; always restores /repo"""
import sys, os, json, subprocess, runpy
S = '/verif/seeded'
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def clean(): sh('git -C /repo checkout -- .')
def make(i, prop, needs, breaks, edits):
    d = os.path.join(S, i); os.makedirs(d, exist_ok=True)
    assert not sh('git -C /repo status --porcelain').stdout.strip(), 'dirty /repo'
    try:
        for f, a, b in edits:
            p = os.path.join('/repo', f); s = open(p).read()
            assert s.count(a) == 1, (f, a, s.count(a))
            open(p, 'w').write(s.replace(a, b))
        open(os.path.join(d, 'patch.diff'), 'w').write(sh('git -C /repo diff').stdout)
    finally:
        clean()
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
def test(i, check=True, tests=True):
    d = os.path.join(S, i); meta = json.load(open(d + '/meta.json'))
    assert not sh('git -C /repo status --porcelain').stdout.strip(), 'dirty /repo'
    out = [i, meta['property']]
    try:
        if sh('bash /opt/vp/build.sh').returncode: print('clean build fails'); return
        r = sh('bash %s/demo.sh' % d, cwd='/repo', timeout=300); out.append('clean demo=%d' % r.returncode)
        if r.returncode: print(r.stdout[-1500:], r.stderr[-1500:])
        a = sh('git -C /repo apply %s/patch.diff' % d)
        if a.returncode: print('does not apply', a.stderr); return
        if sh('bash /opt/vp/build.sh').returncode: print('patched build fails'); return
        r = sh('bash %s/demo.sh' % d, cwd='/repo', timeout=300); out.append('patched demo=%d' % r.returncode)
        if tests:
            sh('bash /opt/vp/test.sh /tmp/seedt.json')
            j = json.load(open('/tmp/seedt.json')); b = json.load(open('/opt/vp/BASELINE.json'))
            stable = b.get('stable') or b.get('passed') or b
            miss = [t for t in stable if t not in j['passed']] if isinstance(stable, list) else '?'
            out.append('tests missing=%s' % miss)
        if check:
            r = sh('python3-vt check.py %s' % meta['property'], cwd='/verif')
            v = [l for l in r.stdout.split('\n') if 'VIOLATION' in l or 'failing input' in l]
            out.append('check=%d %s' % (r.returncode, ' | '.join(v)[:400]))
            if r.returncode not in (0, 1): print(r.stdout[-2000:], r.stderr[-2000:])
    finally:
        clean(); sh('bash /opt/vp/build.sh')
    print(*out, flush=True)
if __name__ == '__main__':
    if sys.argv[1] == 'test':
        for i in sys.argv[2].split(','):
            test(i, 'nocheck' not in sys.argv[3:], 'notests' not in sys.argv[3:])
