#!/usr/bin/env python3-vt
"""Decide one property: check.py ID [--tier quick|thorough]

1. verify every function the property rests on against its contract (8 processes), from the current /repo/src;
2. where an obligation fails, or a contract cannot be attached to changed code, search for a failing input of
   the real code (native build with sanitizers) - and always run the bounded checks of the functions no
   contract reaches;
3. write the evidence file, print KNOWN-FINDING / VIOLATION lines, exit 0 or 1.
"""
import os, sys, json, time, importlib, signal, hashlib, subprocess, shutil, tempfile, re, traceback
import multiprocessing as mp
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'          # the same obligations, in the same order, on every run
    os.execv(sys.executable, [sys.executable] + sys.argv)
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
os.chdir(HERE)
from props import PROPS

REPO = os.environ.get('SDRV_REPO', '/repo')
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
WALL = {'quick': 800, 'thorough': 3400}
NPROC = 8


class Timeout(Exception):
    pass


def job(task):
    mod, fn, cap = task
    res = dict(module=mod, func=fn, obligations=[], unsupported=None, wall=0, solver=0, queries=0, inlined=[], calls=[], externs=[], assumptions=[], loops=[])

    def onalarm(s, f):
        raise Timeout()
    signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(int(cap))
    t0 = time.time()
    try:
        from vc.verify import verify
        m = importlib.import_module('contracts.' + mod)
        e = m.env()
        con = e.contracts[fn]
        v = verify(con, e)
        signal.alarm(0)
        res['obligations'] = [(o.name, o.kind, str(o.line), o.status, (o.detail or '')[:1500]) for o in v.obls]
        res['unsupported'] = v.unsupported
        res.update(solver=v.solver_time, queries=v.queries, inlined=sorted(v.inlined), calls=sorted(v.contract_calls), externs=sorted(v.externs),
                   assumptions=sorted(v.assumptions))
    except Timeout:
        res['unsupported'] = 'time budget of %d s used up' % cap
    except Exception as ex:
        res['unsupported'] = 'verifier could not process the function: %s' % ex
        res['trace'] = traceback.format_exc()[-1500:]
    signal.alarm(0)
    res['wall'] = time.time() - t0
    return res


# ------------------------------------------------------------------ native part
def sources():
    out = []
    for d, _, fs in os.walk(os.path.join(REPO, 'src')):
        for f in fs:
            if f.endswith(('.c', '.h')):
                out.append(os.path.join(d, f))
    return sorted(out)


def literals(files, path):
    vals = set()
    for f in files:
        try:
            s = open(f, errors='replace').read()
        except OSError:
            continue
        for m in re.finditer(r'(?<![\w.])(0[xX][0-9a-fA-F]+|\d+)[uUlL]*(?![\w.])', s):
            try:
                v = int(m.group(1), 0)
            except ValueError:
                v = int(m.group(1), 10) if m.group(1).isdigit() else None
            if v is not None and 2 < v < (1 << 40):
                vals.add(v)
    open(path, 'w').write(' '.join(str(v) for v in sorted(vals)[:4000]) + '\n')


_pc = {}


def pkg(*a):
    if a not in _pc:
        r = subprocess.run(['pkg-config'] + list(a), capture_output=True, text=True)
        _pc[a] = r.stdout.split()
    return _pc[a]


class Harness:
    def __init__(self, name, work, prop=None):
        self.prop = prop
        self.name = name
        self.path = os.path.join(HERE, 'witness', name + '.c')
        self.work = work
        txt = open(self.path).read()

        def hdr(k):
            m = re.search(r'^// %s:(.*)$' % k, txt, re.M)
            return m.group(1).split() if m else []
        self.src = [os.path.join(REPO, s) for s in hdr('SRC')]
        self.wrap = hdr('WRAP')
        self.cflags = hdr('CFLAGS')
        self.dictsrc = [os.path.join(REPO, s) for s in hdr('DICT')] or self.src
        self.exe = os.path.join(work, name)
        self.dict = os.path.join(work, name + '.dict')
        self.max = int((hdr('MAX') or ['0'])[0])
        self.secs = int((hdr('SECS') or ['0'])[0])
        self.error = None

    def command(self):
        return (['gcc', '-std=gnu99', '-D_GNU_SOURCE', '-g', '-O1', '-w', '-fsanitize=address,undefined', '-fsanitize-trap=undefined', '-fno-omit-frame-pointer',
                 '-fno-sanitize=shift-base,nonnull-attribute', '-I', os.path.join(REPO, 'src'), '-I', os.path.join(HERE, 'witness')]
                + pkg('--cflags', 'volk', 'libconfig', 'libprotobuf-c', 'libiio') + self.cflags + [self.path] + self.src
                + (['-Wl,' + ','.join('--wrap=' + w for w in self.wrap)] if self.wrap else [])
                + ['-o', self.exe] + pkg('--libs', 'volk', 'libconfig', 'libprotobuf-c') + ['-lm', '-ldl', '-lpthread'])

    def build(self):
        literals(self.dictsrc, self.dict)
        r = subprocess.run(self.command(), capture_output=True, text=True)
        if r.returncode:
            self.error = r.stderr[-2000:]
        return r.returncode == 0

    def environ(self):
        e = dict(os.environ)
        if self.prop:
            e['W_PROP'] = self.prop
        e.update(W_DICT=self.dict, W_STDERR=os.path.join(self.work, self.name + '.err'), W_SCRATCH=self.work,
                 ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:max_allocation_size_mb=4096:handle_segv=1', UBSAN_OPTIONS='print_stacktrace=1')
        return e

    def run(self, secs, seed, nproc):
        ps = []
        for i in range(nproc):
            cmd = [self.exe, '--seed', str(seed), '--secs', str(secs), '--from', str(i), '--stride', str(nproc)]
            if self.max:
                cmd += ['--max', str((self.max + nproc - 1) // nproc)]
            env = self.environ()
            env['W_STDERR'] += str(i)
            scratch = os.path.join(self.work, '%s_%d' % (self.name, i))
            os.makedirs(scratch, exist_ok=True)
            env['W_SCRATCH'] = scratch
            ps.append((subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env, cwd=scratch, start_new_session=True), i))
        cases = 0; fail = None
        end = time.time() + secs + 60
        for p, i in ps:
            try:
                out, _ = p.communicate(timeout=max(1, end - time.time()))
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                out, _ = p.communicate()
                out += b'\nstopped by the driver\n'
                continue
            out = out.decode(errors='replace')
            m = re.findall(r'CASES (\d+)', out)
            cases += int(m[-1]) if m else 0
            if not m and 'FAIL' not in out:
                sys.stderr.write('%s process %d ended without a result (%s)\n' % (self.name, i, p.returncode))
            if p.returncode and p.returncode > 0 and fail is None and 'FAIL' in out:
                err = ''
                try:
                    err = open(os.path.join(self.work, self.name + '.err' + str(i)), errors='replace').read()[-6000:]
                except OSError:
                    pass
                mm = re.search(r'FAIL seed=(\d+) case=(\d+) input: (.*)', out)
                w = re.search(r'WHY: (.*)', out)
                fail = dict(harness=self.name, seed=mm.group(1), case=mm.group(2), input=mm.group(3)[:4000], why=w.group(1) if w else '', sanitizer=err)
        return cases, fail


def known():
    out = []
    try:
        for l in open(os.path.join(HERE, 'known-findings.txt')):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', l.strip())
            if m:
                out.append(m.groups())
    except OSError:
        pass
    return out


def closure(P, cenvs):
    todo = list(P.get('funcs', []))
    return todo


def main():
    global TIER
    t0 = time.time()
    pid = sys.argv[1]
    if pid == '--selftest':
        import z3, shutil as sh
        for t in ('clang', 'gcc', 'pkg-config'):
            assert sh.which(t), t
        from vc import verify, exec as _e
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        print('ready: z3', z3v())
        return
    if '--tier' in sys.argv:
        TIER = sys.argv[sys.argv.index('--tier') + 1]
    P = PROPS[pid]
    rd = os.path.join(HERE, 'evidence')
    os.makedirs(rd, exist_ok=True)
    if TIER == 'thorough':
        os.environ['SDRV_RL'] = '4'
    work = tempfile.mkdtemp(prefix='sdrv_')
    try:
        code = decide(pid, P, t0, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.stdout.flush()
    os._exit(code)


def decide(pid, P, t0, work):
    cap = P.get('cap', 560) if TIER == 'quick' else 3000
    todo = list(P.get('funcs', []))
    done = {}
    ctx = mp.get_context('fork')
    always = [(n, 'bounded') for n in P.get('always', [])]
    # static preload, so that every worker shares it
    for mod in sorted({m for m, _ in todo}):
        try:
            importlib.import_module('contracts.' + mod)
        except Exception:
            pass
    results = []
    with ctx.Pool(NPROC, maxtasksperchild=1) as pool:
        pend = {}
        seen = set()

        def submit(m, f):
            if (m, f) in seen:
                return
            seen.add((m, f))
            pend[(m, f)] = pool.apply_async(job, ((m, f, cap),))
        for m, f in todo:
            submit(m, f)
        while pend:
            for k in list(pend):
                if pend[k].ready():
                    r = pend.pop(k).get()
                    results.append(r)
                    for c in r['calls']:
                        mod = importlib.import_module('contracts.' + k[0])
                        tgt = getattr(mod, 'HOME', {}).get(c, k[0])
                        submit(tgt, c)
            time.sleep(0.02)
    results.sort(key=lambda r: (r['module'], r['func']))
    failed = []; unsup = []
    nob = nok = 0
    for r in results:
        bad = [o for o in r['obligations'] if o[3] != 'proved']
        nob += len(r['obligations']); nok += len(r['obligations']) - len(bad)
        if bad:
            failed.append((r, bad))
        elif r['unsupported']:
            unsup.append(r)
    kf = [k for k in known() if k[0] == pid]
    # ---- native search
    need = bool(failed or unsup)
    names = list(P.get('always', []))
    if need or TIER == 'thorough':
        names += [w for w in P.get('witness', []) if w not in names]
    native = []; witness = None; builderr = []
    left = WALL[TIER] - (time.time() - t0)
    hs = [Harness(n, work, pid) for n in names]
    if hs:
        with mp.pool.ThreadPool(NPROC) as tp:
            ok = tp.map(lambda h: h.build(), hs)
        hs2 = [h for h, o in zip(hs, ok) if o]
        builderr = ['%s: %s' % (h.name, h.error) for h, o in zip(hs, ok) if not o]
        for h in hs2:
            if need and h.name in P.get('witness', []):
                secs = h.secs or 60
            else:
                secs = h.secs or 15
            if TIER == 'thorough':
                secs *= 4
            left = WALL[TIER] - (time.time() - t0) - 5
            secs = max(2, min(secs, left / max(1, len(hs2))))
            tw = time.time()
            cases, fail = h.run(secs, SEED, NPROC)
            native.append(dict(harness=h.name, cases=cases, seconds=round(time.time() - tw, 1), failing=bool(fail)))
            if fail:
                witness = fail
                break
    # ---- verdict
    viol = 0
    lines = []
    for k in kf:
        lines.append('KNOWN-FINDING: property=%s %s' % (pid, k[2]))
    if failed or witness:
        viol = 1
        rdir = os.path.join(HERE, 'evidence', 'replay')
        os.makedirs(rdir, exist_ok=True)
        rp = os.path.join(rdir, '%s.json' % pid)
        h = None
        doc = dict(property=pid, title=P['title'], tier=TIER, seed=SEED,
                   failed_obligations=[dict(function=r['func'], file=r['module'], obligation=o[0], line=o[2], status=o[3], verifier_output=o[4]) for r, bad in failed for o in bad][:40],
                   not_attached=[dict(function=r['func'], reason=r['unsupported']) for r in unsup])
        if witness:
            hh = [x for x in hs if x.name == witness['harness']][0]
            doc['failing_input'] = witness
            doc['replay'] = dict(build=' '.join(hh.command()).replace(work, '/tmp'), run='W_PROP=' + pid + ' W_DICT=<the integer literals of the sources> /tmp/%s --seed %s --case %s' % (hh.name, witness['seed'], witness['case']),
                                 dict=open(hh.dict).read().strip())
        json.dump(doc, open(rp, 'w'), indent=1)
        tail = '' if witness else ' no-failing-input-found'
        lines.append('VIOLATION property=%s replay=%s%s' % (pid, os.path.relpath(rp, HERE), tail))
    # ---- evidence
    stat = lambda r: 'proved' if not r['unsupported'] and all(o[3] == 'proved' for o in r['obligations']) else ('not attached: ' + r['unsupported'] if r['unsupported'] else 'failed')
    cov = dict(obligations=nob, discharged=nok,
               checker_cmd='python3-vt check.py %s (sdrv verification-condition generator over the clang AST of /repo/src; z3 %s discharges)' % (pid, z3v()),
               trusted_base=TRUST + sorted({'external: ' + x for r in results for x in r['externs']}),
               functions_under_contract=[dict(function=r['func'], module=r['module'], obligations=len(r['obligations']), discharged=sum(o[3] == 'proved' for o in r['obligations']),
                                              status=stat(r), solver_s=round(r['solver'], 2), wall_s=round(r['wall'], 2), queries=r['queries'], inlined=r['inlined'], callee_contracts=r['calls']) for r in results],
               solver_time_s=round(sum(r['solver'] for r in results), 1),
               bounded_native=native,
               bounded_note='bounded_native entries are bounded searches on the real code; they are not counted as proved')
    if builderr:
        cov['native_build_errors'] = builder = builderr
    ev = dict(property=pid, tier=TIER, seed=SEED, level=P.get('level', 'proof'), coverage=cov,
              assumptions=sorted(set(P.get('assumptions', [])) | {a for r in results for a in r['assumptions']}),
              wall_s=round(time.time() - t0, 1), violations=viol)
    if ev['level'] != 'proof':
        cov['evaluations'] = sum(n['cases'] for n in native)
        cov['distinct_nontrivial'] = sum(n['cases'] for n in native)
        cov['rule'] = 'one case per seed and case number; every case drives the real functions with a different generated input and compares with an independent oracle'
        cov['samples'] = native
        cov['explanation'] = P.get('note', '')
    json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1)
    for r in results:
        print('%-10s %-44s %3d/%3d obligations  %6.1fs  %s' % (r['module'], r['func'], sum(o[3] == 'proved' for o in r['obligations']), len(r['obligations']), r['wall'], stat(r)))
    for r, bad in failed:
        for o in bad[:6]:
            print('   %s obligation: %s:%s %s' % (o[3], r['func'], o[2], o[0]))
    for n in native:
        print('bounded    %-44s %d cases %.1fs %s' % (n['harness'], n['cases'], n['seconds'], 'FAILS' if n['failing'] else 'ok'))
    for b in builderr:
        print('harness does not build:', b[:600])
    if witness:
        print('failing input:', witness['why'], '|', witness['input'][:500])
    for l in lines:
        print(l)
    print('%s %s: %d/%d obligations, %.1f s' % (pid, 'VIOLATED' if viol else 'holds', nok, nob, time.time() - t0))
    return 1 if viol else 0


def z3v():
    import z3
    return z3.get_version_string()


TRUST = ['the sdrv verification-condition generator (/verif/vc)', 'z3', 'the clang 18 front end (parsing and typing of /repo/src)',
         'the C memory model of sdrv: objects are disjoint, one map per scalar type (effective-type rule)',
         'floating-point arithmetic is uninterpreted unless a contract says otherwise']

if __name__ == '__main__':
    main()
