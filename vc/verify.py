"""Verification of one function against its contract."""
import z3, time, os, traceback
from .sym import *
from .cast import *
from .eng import *
from .spec import Ctx, View, Env, Contract, imp
from .calls import Calls, Monitor
from . import cast


class Verifier(Calls):
    def __init__(self, con, env):
        super().__init__(con.name, env)
        self.reals = env.reals
        self.axioms += env.axioms
        self.con = con
        self.vars = {}; self.addr_taken = set(); self.lobjs = {}; self.okterms = {}; self.brkprev = {}
        self.inquant = 0; self.sink = None; self.tu = None; self.copts = con.opts
        self.unrollmemo = {}; self.loopplans = {}; self.loopcands = {}; self.loopidx = {}; self.loopdelta = {}
        self.cur_contract = con; self.top_args = {}; self.top_tu = None; self.top_pre = None
        self.moninst = []
        self.kinds = con.opts.get('kinds') or env.kinds or KINDS
        self.paramobjs = set()

    def run(self):
        con = self.con
        t0 = time.time()
        tu, fn = (None, None)
        if con.file:
            tu = cast.load(con.file)
            fn = tu.funcs.get(con.name)
        if fn is None:
            tu, fn = cast.find_function(con.name)
        if fn is None:
            raise Unsupported('function %s not found' % con.name)
        self.cenv = self.cenv.copy()
        # a function is checked against its callees' contracts, and against its own when recursive
        st = self.initial()
        st.ghost = {}
        for g, so in self.cenv.ghosts.items():
            st.ghost[g] = z3.Const('g0_' + g, so)
        if len(con.args) != len(fn['_params']):
            raise Unsupported('contract of %s does not fit its signature' % con.name)
        args = []
        argmap = {}
        for nm, p in zip(con.args, fn['_params']):
            t = tu.qt(p)
            v = self.param(st, nm, t)
            args.append(v)
            argmap[nm] = (v, t)
        self.top_args = argmap; self.top_tu = tu
        self.tu = tu
        self.uses_errno = self.cenv.uses_errno
        if self.uses_errno:
            self.errno_obj(st)
        pre0 = Ctx(self, st, argmap, tu)
        self.sink = st
        if con.setup:
            con.setup(self, st, pre0)
        for nm, r in con.requires:
            st.assume(r(pre0))
        pre = st.clone()
        cpre = Ctx(self, pre, argmap, tu)
        self.top_pre = cpre
        for mon, getq in con.monitors:
            self.moninst.append((mon, getq(pre0)))
        # vacuity: the precondition must be satisfiable as far as the solver can tell
        self.vacuity(st, 'precondition')
        brk0 = st.brk
        rets = self.run_body(fn, tu, args, st)
        rt = tu.qt({'type': {'qualType': fn['type']['qualType'].split('(')[0].strip()}}) if '(' in fn['type']['qualType'] else VOID
        live = 0
        for s, v in rets:
            if s.dead:
                continue
            live += 1
            self.tu = tu
            self.finish(con, s, v, rt, argmap, tu, cpre, brk0)
        if live == 0 and not con.opts.get('noreturn'):
            o = Obl(self.fname, 'some return is reachable', None, 'vacuity'); o.status = 'failed'
            self.obls.append(o)
        self.wall = time.time() - t0
        return self.obls

    def param(self, st, nm, t):
        if t.k == 'int':
            v = z3.Const(nm, I)
            lo, hi = rng(t)
            st.facts.append(band(v >= lo, v <= hi))
            return v
        if t.k == 'float':
            return z3.Const(nm, F)
        if t.k == 'cfloat':
            return z3.Const(nm, C)
        if t.k == 'ptr':
            o = z3.Const(nm + '_o', I)
            st.facts.append(band(o >= 0, o < st.brk))
            self.paramobjs.add(nm + '_o')
            HEAPIDS_P.add(nm + '_o')
            if t.to.k == 'struct' or t.to.k == 'func' or nm in self.con.opts.get('start', ()):   # (the precondition says so too)
                off = iv(0)
            else:
                sz = 1
                try:
                    sz = t_size(t.to) or 1
                except Unsupported:
                    pass
                i = z3.Const(nm + '_i', I)
                st.facts.append(i >= 0)
                off = mul(i, iv(sz))
            return P(o, off)
        if t.k == 'struct':
            return self.arb(st, t, nm)
        raise Unsupported('parameter type %r' % t)

    def vacuity(self, st, what):
        s = z3.SimpleSolver()
        s.set('rlimit', RL_HOU)
        for a in self.axioms:
            s.add(a)
        for f in st.facts:
            s.add(f)
        for p in st.pc:
            s.add(p)
        if s.check() == z3.unsat:
            o = Obl(self.fname, 'the %s is satisfiable' % what, None, 'vacuity'); o.status = 'failed'
            self.obls.append(o)

    def finish(self, con, s, v, rt, argmap, tu, cpre, brk0):
        line = self.curline
        if con.on_return:
            con.on_return(self, s, Ctx(self, s, argmap, tu, ret=(v, rt), pre=cpre))
        c = Ctx(self, s, argmap, tu, ret=(v, rt), pre=cpre)
        self.sink = s
        for nm, e in con.ensures:
            g = e(c)
            self.oblige(s, g, 'postcondition: ' + nm, 'post', line)
        # locks released
        for k, L in s.locks.items():
            if L.get('held'):
                self.oblige(s, FALSE, 'every mutex is released at return', 'lock', line)
        if not con.frame:
            return
        regs = self.regions(cpre, con.modifies(cpre))
        o = self.fresh('fo'); i = self.fresh('fi')
        err = self.statics.get('errno')
        base = [o > -1000, o < brk0, o != 0]
        if err is not None:
            base.append(o != err)
        for k in self.kinds:
            if s.mem[k].eq(cpre.st.mem[k]):
                continue
            g = z3.Implies(band(*base, bnot(self.in_regions(regs, k, o, i))),
                           z3.Select(z3.Select(s.mem[k], o), i) == z3.Select(z3.Select(cpre.st.mem[k], o), i))
            self.oblige(s, g, 'nothing outside the modifies clause is written (%s)' % k, 'frame', line)
        for g_ in self.cenv.ghosts:
            if not any(r[0] == 'ghost' and r[1] == g_ for r in regs):
                if not s.ghost[g_].eq(cpre.st.ghost[g_]):
                    self.oblige(s, s.ghost[g_] == cpre.st.ghost[g_], 'ghost %s is unchanged' % g_, 'frame', line)
        frees = con.frees(cpre) if con.frees else []
        inf = bor(*[f[1](o) if isinstance(f, tuple) else o == (f.p.obj if isinstance(f, View) else f) for f in frees])
        if not s.alive.eq(cpre.st.alive):
            g = z3.Implies(band(*base, bnot(inf)), z3.Select(s.alive, o) == z3.Select(cpre.st.alive, o))
            self.oblige(s, g, 'no object outside the frees clause is released', 'frame', line)
            if con.leak is not None or not con.allocs:
                keep = con.leak(c) if con.leak else []
                kp = bor(*[f[1](o) if isinstance(f, tuple) else o == (f.p.obj if isinstance(f, View) else f) for f in keep])
                g = z3.Implies(band(o >= brk0, z3.Select(s.alive, o)), kp)
                self.oblige(s, g, 'no allocation is leaked', 'leak', line)


def verify(con, env):
    kinds = set(con.opts.get('kinds') or ('po', 'pf')) | set(env.kinds or ())
    t0 = time.time()
    for _ in range(20):
        v = Verifier(con, env)
        v.kinds = [k for k in KINDS if k in kinds]
        v.unsupported = None
        try:
            v.run()
        except NeedKind as e:
            kinds.add(str(e))
            if os.environ.get('SDRV_KINDS'):
                print('kind', con.name, str(e), '%.1f' % (time.time() - t0))
            continue
        except GiveUp:
            pass
        except Unsupported as e:
            v.unsupported = str(e)
            if os.environ.get('SDRV_TRACE'):
                traceback.print_exc()
        break
    v.wall = time.time() - t0
    return v
