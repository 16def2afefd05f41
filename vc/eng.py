import z3, time, struct, os, re
from .sym import *
from .cast import *
from . import cast

RL_OBL = 6_000_000      # z3 rlimit per obligation attempt (deterministic, unlike a timeout)
RL_HOU = 1_200_000      # per Houdini candidate
RL_RANGE = 150_000       # per "does this conversion wrap" question

UF = {}


class NeedKind(Exception):
    pass


class GiveUp(Exception):
    """enough obligations of this function have failed"""



def uf(name, *sorts):
    key = (name,) + tuple(s.name() for s in sorts)
    if key not in UF:
        UF[key] = z3.Function(name, *sorts)
    return UF[key]


def tsize(e, lim=60):
    n = 0
    stack = [e]
    while stack and n < lim:
        x = stack.pop()
        n += 1
        stack.extend(x.children())
    return n


def has_var(e):
    seen = set(); stack = [e]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_var(x):
            return True
        if z3.is_quantifier(x):
            return True
        stack.extend(x.children())
    return False


FCONST = {}


def fconst(v, size):
    if size == 4:
        v = struct.unpack('f', struct.pack('f', v))[0]
    key = ('%r' % float(v))
    if key not in FCONST:
        FCONST[key] = (z3.Const('fl_' + key, F), float(v))
    return FCONST[key][0]


_FV = None


def fval(e):
    if z3.is_const(e) and e.decl().name().startswith('fl_'):
        return float(e.decl().name()[3:])
    return None


def line_of(n):
    r = n.get('range', {}).get('begin', {})
    for k in (r, r.get('expansionLoc', {}), r.get('spellingLoc', {}), n.get('loc', {})):
        if 'line' in k:
            return k['line']
    return None


class Eng:
    def __init__(self, fname, env):
        self.fname = fname
        self.cenv = env                  # contract environment (spec.Env)
        self.obls = []
        self.dry = 0
        self.n = 0
        self.wlogs = []
        self.lobj = -1001
        self.lobjsize = {}
        self.statics = {}
        self.globals_seen = set()
        self.constglobals = {}
        self.funids = {}
        self.strs = {}
        self.curline = None
        self.linemap = {}
        self.axioms = []
        self.stack = []
        self.solver_time = 0.0
        self.queries = 0
        self.inlined = set()
        self.contract_calls = set()
        self.externs = set()
        self.rangecache = {}
        self.clean = set()
        self.framed = {}
        self.loopinfo = []
        self.retstack = []
        self.noobl = 0
        self.assumptions = set()
        self.quiet_kinds = set()
        self.nfail = 0
        self.maxfail = int(os.environ.get('SDRV_MAXFAIL', '4'))

    # ------------------------------------------------------------ solver
    def fresh(self, name, sort=I, heap=False):
        self.n += 1
        nm = '%s!%d' % (name, self.n)
        if heap:
            HEAPIDS.add(nm)
        return z3.Const(nm, sort)

    def solve(self, st, goal, rl, extra=()):
        """True proved / None unknown / model when refuted"""
        goal = z3.simplify(goal) if not (z3.is_true(goal) or z3.is_false(goal)) else goal
        if z3.is_true(goal):
            return True
        t0 = time.time()
        self.queries += 1
        last = None
        for cfg in ((), (('smt.mbqi', False), ('smt.arith.solver', 2)), (('smt.mbqi', False), ('auto_config', False)),):
            s = z3.SimpleSolver()
            s.set('rlimit', rl)
            s.set('timeout', 120000)
            for k, v in cfg:
                s.set(k, v)
            if os.environ.get('SDRV_DUMP'):
                s2 = z3.Solver(); s2.add(*self.axioms, *st.facts, *st.pc, *extra, z3.Not(goal)); open(os.environ['SDRV_DUMP'], 'w').write(s2.to_smt2())
            for a in self.axioms:
                s.add(a)
            for f in st.facts:
                s.add(f)
            for p in st.pc:
                s.add(p)
            for e in extra:
                s.add(e)
            s.add(z3.Not(goal))
            r = s.check()
            if r == z3.unsat:
                self.solver_time += time.time() - t0
                return True
            if r == z3.sat:
                self.solver_time += time.time() - t0
                return s.model()
            last = s.reason_unknown()
            if rl <= RL_HOU and not self.copts.get('all_configs'):
                break
        self.solver_time += time.time() - t0
        return None

    def solve_seed(self, st, goal, seed):
        """one more attempt with another order of exploration"""
        t0 = time.time()
        self.queries += 1
        s = z3.SimpleSolver()
        for k, v in (('rlimit', RL_OBL), ('timeout', 120000), ('smt.random_seed', seed), ('smt.phase_selection', 5), ('smt.mbqi', False), ('auto_config', False)):
            s.set(k, v)
        s.add(*self.axioms, *st.facts, *st.pc, z3.Not(z3.simplify(goal)))
        r = s.check()
        self.solver_time += time.time() - t0
        return True if r == z3.unsat else None

    def feasible(self, st):
        """False only when the state is certainly unreachable"""
        if st.dead:
            return False
        for p in st.pc:
            if z3.is_false(p):
                return False
        if self.dry:
            return True
        r = self.solve(st, FALSE, RL_RANGE)
        return r is not True

    def entailed(self, st, goal):
        """certainly true in this state (for models that distinguish cases)"""
        return self.solve(st, goal, RL_RANGE) is True

    def oblige(self, st, goal, name, kind='assert', line=None):
        if self.dry or self.noobl:
            st.assume(goal)
            return
        if kind in self.quiet_kinds:
            st.assume(goal)
            return
        if z3.is_and(goal):
            for i, g in enumerate(goal.children()):
                self.oblige(st, g, name, kind, line)
            return
        o = Obl(self.fname, name, line or self.curline, kind)
        t0 = time.time()
        r = True
        for sg in self.split_goal(goal):
            r = self.solve(st, sg, RL_OBL // 3)
            if r is None:
                if self.solve_split(st, sg) is True:
                    r = True
                else:
                    r = self.solve(st, sg, RL_OBL)
                    for seed in (7, 23, 101):
                        if r is not None or self.nfail >= 3:
                            break
                        r = self.solve_seed(st, sg, seed)
            if r is not True:
                goal_ = sg
                break
        o.time = time.time() - t0
        if r is not True:
            full, goal = goal, goal_
        if r is True:
            o.status = 'proved'
        elif r is None:
            o.status = 'unknown'
            o.detail = 'solver could not decide: %s' % goal.sexpr()[:1500]
        else:
            o.status = 'failed'
            o.detail = self.model_text(r, goal)
        o.goal = None
        self.obls.append(o)
        if o.status != 'proved':
            self.nfail += 1
            if self.nfail >= self.maxfail:
                raise GiveUp()
        st.assume(goal)

    def ite_conds(self, es):
        """if-then-else conditions in the assertions, most frequent first"""
        cnt = {}
        seen = set()
        stack = list(es)
        while stack:
            x = stack.pop()
            i = x.get_id()
            if i in seen:
                continue
            seen.add(i)
            if z3.is_quantifier(x):
                stack.append(x.body())
                continue
            if not z3.is_app(x):
                continue
            if x.decl().kind() == z3.Z3_OP_ITE:
                c = x.arg(0)
                while z3.is_not(c):
                    c = c.arg(0)
                if not has_var(c):
                    for a in (c.children() if z3.is_and(c) or z3.is_or(c) else [c]):
                        while z3.is_not(a):
                            a = a.arg(0)
                        k = a.get_id()
                        cnt[k] = (cnt.get(k, (0, a))[0] + 1, a)
            stack.extend(x.children())
        return [a for n, a in sorted(cnt.values(), key=lambda t: (tsize(t[1]), -t[0]))]

    def solve_split(self, st, goal, depth=8):
        """case split on the path conditions that occur inside terms, substituting each outcome"""
        base = [z3.simplify(x) for x in list(self.axioms) + list(st.facts) + list(st.pc) + [z3.Not(goal)]]
        t0 = time.time()
        budget = [80]

        def check(es, rl):
            budget[0] -= 1
            s = z3.SimpleSolver()
            s.set('rlimit', rl)
            s.set('timeout', 60000)
            s.set('smt.mbqi', False)
            s.set('auto_config', False)
            for e in es:
                s.add(e)
            return s.check()

        def rec(es, d):
            if budget[0] <= 0:
                return False
            if d < depth - 1:
                r = check(es, RL_OBL // 2 if d == 0 else RL_OBL // 12)
                if r == z3.unsat:
                    return True
            cs = [] if d == 0 else self.ite_conds(es[-1:]) or self.ite_conds(es)
            if not cs:
                if os.environ.get('SDRV_LEAF'):
                    s = z3.Solver()
                    s.add(*es)
                    open(os.environ['SDRV_LEAF'], 'w').write(s.to_smt2())
                    print('leaf goal', es[-1].sexpr()[:1500])
                return False
            c = cs[0]
            if os.environ.get('SDRV_LEAF'):
                print(d, 'cond', c.sexpr()[:200].replace('\n', ' '), len(cs))
            for val in (TRUE, FALSE):
                sub_ = []
                dead = False
                prs = [(c, val)]
                if z3.is_eq(c):
                    prs.append((c.arg(1) == c.arg(0), val))
                if z3.is_le(c):
                    prs.append((c.arg(1) >= c.arg(0), val))
                elif z3.is_ge(c):
                    prs.append((c.arg(1) <= c.arg(0), val))
                for e in es:
                    e2 = z3.simplify(z3.substitute(e, *prs))
                    if z3.is_false(e2):
                        dead = True
                        break
                    if not z3.is_true(e2):
                        sub_.append(e2)
                if dead:
                    continue
                if not rec([c if z3.is_true(val) else z3.Not(c)] + sub_, d - 1):
                    return False
            return True
        r = rec(base, depth)
        self.solver_time += time.time() - t0
        return r

    def split_goal(self, g, depth=0):
        """conjunctive pieces of a goal, universal quantifiers replaced by fresh constants"""
        if depth > 6:
            return [g]
        if z3.is_quantifier(g) and g.is_forall():
            cs = [self.fresh('sk_' + g.var_name(i).split('?')[0], g.var_sort(i)) for i in range(g.num_vars())]
            out = self.split_goal(z3.substitute_vars(g.body(), *reversed(cs)), depth + 1)
            seeds = []
            for i in range(g.num_patterns()):
                for t in g.pattern(i).children():
                    t = z3.substitute_vars(t, *reversed(cs))
                    seeds.append(uf('seed_' + str(t.sort()), t.sort(), B)(t))
            return [z3.Implies(z3.And(seeds), x) for x in out] if seeds else out
        if z3.is_and(g):
            out = []
            for x in g.children():
                out += self.split_goal(x, depth + 1)
            return out
        if z3.is_implies(g):
            ys = self.split_goal(g.arg(1), depth + 1)
            return [z3.Implies(g.arg(0), y) for y in ys]
        if z3.is_eq(g) and g.arg(0).sort() == B and not z3.is_quantifier(g.arg(0)):
            return [z3.Implies(g.arg(0), g.arg(1)), z3.Implies(g.arg(1), g.arg(0))]
        return [g]

    def model_text(self, m, goal):
        out = ['goal: ' + goal.sexpr()[:1200], 'counterexample:']
        for d in sorted(m.decls(), key=lambda d: d.name()):
            if d.arity() == 0 and d.range() in (I, B):
                out.append('  %s = %s' % (d.name(), m[d]))
            if len(out) > 80:
                break
        return '\n'.join(out)

    # ------------------------------------------------------------ state helpers
    def initial(self):
        s = St()
        s.env = {}
        s.mem = {}
        for k in KINDS:
            s.mem[k] = z3.Const('M_%s!0' % k, z3.ArraySort(I, z3.ArraySort(I, SORT[k])))
            self.clean.add('M_%s!0' % k)
        s.alive = z3.Const('alive!0', z3.ArraySort(I, B))
        s.size = z3.Const('size!0', z3.ArraySort(I, I))
        s.brk = z3.Const('brk!0', I)
        HEAPIDS.add('brk!0')
        s.facts = [s.brk >= 1, z3.Not(z3.Select(s.alive, iv(0)))]
        o = z3.Const('o', I)
        s.facts.append(fa([o], z3.Implies(o >= s.brk, z3.Not(z3.Select(s.alive, o))), patterns=[z3.Select(s.alive, o)]))
        s.facts.append(fa([o], z3.Select(s.size, o) >= 0, patterns=[z3.Select(s.size, o)]))
        s.pc = []
        s.ghost = {}
        s.locks = {}
        s.root = None
        s.dead = False
        return s

    def merge(self, states):
        states = [s for s in states if s is not None and not s.dead]
        if not states:
            return None
        r = states[0]
        for s in states[1:]:
            r = self.merge2(r, s)
        return r

    def merge2(self, a, b):
        n = 0
        while n < len(a.pc) and n < len(b.pc) and a.pc[n].eq(b.pc[n]):
            n += 1
        ca = a.pc[n:]; cb = b.pc[n:]
        if not ca:
            # a is unconditional relative to b: cannot discriminate with a; use b
            sel_ = bnot(band(*cb)) if cb else TRUE
        else:
            sel_ = band(*ca)
        if len(ca) == 1 and len(cb) >= 1 and bnot(ca[0]).eq(cb[0]):
            sel_ = ca[0]
            common = [] if len(cb) == 1 else [bor(ca[0], band(*cb))]
        elif len(cb) == 1 and len(ca) >= 1 and bnot(cb[0]).eq(ca[0]):
            sel_ = bnot(cb[0])
            common = [] if len(ca) == 1 else [bor(band(*ca), cb[0])]
        else:
            common = [bor(band(*ca), band(*cb))]
            if z3.is_true(common[0]):
                common = []
        r = St()
        r.dead = False
        r.pc = a.pc[:n] + common
        m = 0
        fa = a.facts; fb = b.facts
        while m < len(fa) and m < len(fb) and (fa[m] is fb[m] or fa[m].eq(fb[m])):
            m += 1
        r.facts = fa + fb[m:]
        r.env = {}
        for k in a.env:
            if k in b.env:
                r.env[k] = self.mergeval(sel_, a.env[k], b.env[k])
        r.mem = {}
        for k in KINDS:
            r.mem[k] = ite(sel_, a.mem[k], b.mem[k])
        r.alive = ite(sel_, a.alive, b.alive)
        r.size = ite(sel_, a.size, b.size)
        r.brk = ite(sel_, a.brk, b.brk)
        if not (r.brk.eq(a.brk)):
            nb = self.fresh('brk', heap=True)
            self.brkprev[nb.decl().name()] = [a.brk, b.brk]
            r.facts.append(nb == r.brk)
            r.brk = nb
        r.root = a.root if a.root is None else ite(sel_, a.root, b.root)
        r.ghost = {}
        for k in set(a.ghost) | set(b.ghost):
            if k in a.ghost and k in b.ghost:
                x, y = a.ghost[k], b.ghost[k]
                if isinstance(x, z3.ExprRef) and isinstance(y, z3.ExprRef):
                    r.ghost[k] = ite(sel_, x, y)
                elif x is y or x == y:
                    r.ghost[k] = x
                else:
                    r.ghost[k] = self.mergeval(sel_, x, y)
        r.locks = {}
        for k in set(a.locks) | set(b.locks):
            x = a.locks.get(k); y = b.locks.get(k)
            if x is not y and (x is None or y is None or x.get('held') != y.get('held')):
                xa = x['held'] if x else False
                ya = y['held'] if y else False
                if xa != ya:
                    # a lock held on one path only: keep as conflicting
                    r.locks[k] = dict(x or y, held='maybe')
                    continue
            r.locks[k] = self.mergelock(sel_, x, y) if x is not y else x
        return r

    def mergelock(self, c, x, y):
        if x is None or y is None:
            return x or y
        z = dict(x)
        for k in x:
            if k in y and isinstance(x[k], z3.ExprRef) and isinstance(y[k], z3.ExprRef):
                z[k] = ite(c, x[k], y[k])
        if 'snap' in x and x['snap'] is not y.get('snap'):
            z['snap'] = self.merge2(x['snap'], y['snap']) if y.get('snap') is not None else x['snap']
        return z

    def mergeval(self, c, x, y):
        if x is y:
            return x
        if isinstance(x, P) and isinstance(y, P):
            # NULL merges keep the other side's offset so that offsets stay simple
            return P(ite(c, x.obj, y.obj), ite(c, x.off, y.off))
        if isinstance(x, SVal):
            return SVal([(o, t, self.mergeval(c, v, dict((o2, v2) for o2, t2, v2 in y.leaves)[o])) for o, t, v in x.leaves])
        if isinstance(x, tuple):
            return x
        if x is None or y is None:
            return None
        return ite(c, x, y)

    # ------------------------------------------------------------ memory
    def log(self, *item):
        if self.wlogs:
            self.wlogs[-1].append(item)

    def kindres(self, t, off):
        k = kind_of(t)
        if k == 'u32' and isnum(off) and num(off) % 4 == 2:
            return 'u32@2'
        return k

    def index(self, k, off):
        r = RES.get(k, 0)
        e = sub(off, iv(r)) if r else off
        d = divexact(e, ESZ[k])
        if d is None:
            d2 = z3.simplify(e)
            d = divexact(d2, ESZ[k])
        if d is None:
            d = e / iv(ESZ[k])
        return d

    def mapget(self, st, k, obj):
        if k not in self.kinds:
            raise NeedKind(k)
        return self.msel(st.mem[k], obj)

    def msel(self, m, obj):
        r = sel(m, obj)
        # resolve through framed (loop/call-havoced) maps when syntactically possible
        while z3.is_app(r) and r.decl().kind() == z3.Z3_OP_SELECT:
            base = r.arg(0)
            if z3.is_const(base) and base.decl().name() in self.framed:
                old, W, brk = self.framed[base.decl().name()]
                if self.syn_outside(obj, W, brk):
                    r = sel(old, obj)
                    continue
            break
        return r

    def syn_outside(self, obj, W, brk):
        for w in W:
            d = diff_const(obj, w)
            if d is not None and d != 0:
                continue
            if distinct_ids(obj, w):
                continue
            return False
        if brk is None:
            return True
        if isnum(obj) and num(obj) < 0:
            return True
        d = diff_const(obj, brk)
        if d is not None and d < 0:
            return True
        return self.brk_lt(obj, brk)

    def brk_lt(self, obj, brk):
        """obj is certainly an id allocated before the frontier `brk`"""
        c, b = lincomb(obj)
        if b is None:
            return c <= 0
        if not z3.is_const(b):
            return False
        nm = b.decl().name()
        if nm in HEAPIDS_P:
            return c == 0      # a parameter object is below the initial frontier
        if not nm.startswith('brk!'):
            return False
        # all predecessors-of-brk paths must lead above obj
        seen = {}

        def above(x):
            d = diff_const(obj, x)
            if d is not None:
                return d < 0
            _, bb = lincomb(x)
            cx, _ = lincomb(x)
            if bb is None or not z3.is_const(bb):
                return False
            n = bb.decl().name()
            if n in seen:
                return seen[n]
            seen[n] = False
            prev = self.brkprev.get(n)
            if not prev:
                return False
            # obj < prev and x >= prev  (x = bb + cx, cx >= 0)
            seen[n] = cx >= 0 and all(above(y) for y in prev)
            return seen[n]
        return above(brk)

    def rd(self, st, k, obj, idx):
        row = self.mapget(st, k, obj)
        return sel(row, idx)

    def wr(self, st, k, obj, idx, v):
        row = self.mapget(st, k, obj)
        st.mem[k] = sto(st.mem[k], obj, sto(row, idx, v))
        self.log('mem', k, obj, idx)

    def valid_goal(self, st, p, n):
        """access of n bytes (z3 or int) at p is inside a live object"""
        nn = n if isinstance(n, z3.ExprRef) else iv(n)
        sz = sel(st.size, p.obj)
        g = [sel(st.alive, p.obj)]
        g.append(p.off >= 0 if not isnum(p.off) else (TRUE if num(p.off) >= 0 else FALSE))
        e = add(p.off, nn)
        g.append(e <= sz if not (isnum(e) and isnum(sz)) else (TRUE if num(e) <= num(sz) else FALSE))
        return band(*g)

    def check_access(self, st, p, n, what, write):
        hook = self.cenv.access_hook
        if hook and not self.dry:
            hook(self, st, p, n, write)
        if isnum(p.obj) and num(p.obj) < 0 and isnum(p.off) and isinstance(n, int):
            sz = sel(st.size, p.obj)
            if isnum(sz) and 0 <= num(p.off) and num(p.off) + n <= num(sz):
                return
        self.oblige(st, self.valid_goal(st, p, n), 'memory access is in bounds of a live object (%s)' % what, 'mem')

    def load(self, st, p, t, check=True):
        if t.k == 'ptr' and False:
            pass
        if t.k == 'array':
            return p
        if t.k == 'struct':
            if check:
                self.check_access(st, p, t_size(t), 'read', False)
            return self.load_struct(st, p, t)
        if t.k == 'func':
            return p
        n = 8 if t.k == 'ptr' else t.size
        if check:
            self.check_access(st, p, n, 'read', False)
        if t.k == 'ptr':
            i = self.index('po', p.off)
            o = self.rd(st, 'po', p.obj, i)
            f = self.rd(st, 'pf', p.obj, i)
            return self.norm_ptr(st, P(o, f))
        k = self.kindres(t, p.off)
        v = self.rd(st, k, p.obj, self.index(k, p.off))
        if t.k == 'int' and not isnum(v):
            lo, hi = rng(t)
            st.assume(band(v >= lo, v <= hi))
        return v

    def norm_ptr(self, st, p):
        o, f = p.obj, p.off
        if not isnum(o):
            c, b = lincomb(o)
            if self.cleanterm(o):
                st.assume(band(o < st.brk, o > -1000))
            else:
                st.assume(o < st.brk)
        if not isnum(f) and not self.dry:
            key = f.get_id()
            z = self.solve(st, f == 0, RL_HOU)
            if z is True:
                return P(o, iv(0))
        return P(o, f)

    def cleanterm(self, e):
        """Select(Select(M,..),..) over an entry/havoced map"""
        if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_SELECT:
            m = e.arg(0)
            if z3.is_app(m) and m.decl().kind() == z3.Z3_OP_SELECT:
                b = m.arg(0)
                return z3.is_const(b) and b.decl().name() in self.clean
        return False

    def leaves(self, t, base=0):
        """scalar leaves of an aggregate type: (offset, scalar type)"""
        if t.k == 'struct':
            out = []
            if t.rec is None or t.rec.size is None:
                raise Unsupported('aggregate of incomplete type %r' % t)
            for f in t.rec.fields:
                if f.get('bits'):
                    continue
                out += self.leaves(f['type'], base + f['off'])
            return out
        if t.k == 'array':
            out = []
            s = t_size(t.to)
            for i in range(t.n or 0):
                out += self.leaves(t.to, base + i * s)
            return out
        return [(base, t)]

    def load_struct(self, st, p, t):
        return SVal([(o, lt, self.load(st, P(p.obj, add(p.off, iv(o))), lt, False)) for o, lt in self.leaves(t)])

    def store(self, st, p, t, v, check=True):
        if t.k in ('struct', 'array'):
            if check:
                self.check_access(st, p, t_size(t), 'write', True)
            for o, lt, lv in v.leaves:
                self.store(st, P(p.obj, add(p.off, iv(o))), lt, lv, False)
            return
        n = 8 if t.k == 'ptr' else t.size
        if check:
            self.check_access(st, p, n, 'write', True)
        if t.k == 'ptr':
            i = self.index('po', p.off)
            self.wr(st, 'po', p.obj, i, v.obj)
            self.wr(st, 'pf', p.obj, i, v.off)
            return
        k = self.kindres(t, p.off)
        self.wr(st, k, p.obj, self.index(k, p.off), v)

    def zero(self, t):
        if t.k == 'ptr':
            return NULL
        if t.k == 'int':
            return iv(0)
        if t.k == 'float':
            return fconst(0.0, t.size)
        if t.k == 'cfloat':
            return self.cmk(fconst(0.0, t.size // 2), fconst(0.0, t.size // 2))
        if t.k in ('struct', 'array'):
            return SVal([(o, lt, self.zero(lt)) for o, lt in self.leaves(t)])
        raise Unsupported('zero of %r' % t)

    def cmk(self, re_, im):
        if self.reals:
            return self.r_cmk(re_, im)
        return uf('cmk', F, F, C)(re_, im)

    def arb(self, st, t, name='arb'):
        """arbitrary value of a type"""
        if t.k == 'int':
            v = self.fresh(name)
            lo, hi = rng(t)
            st.assume(band(v >= lo, v <= hi))
            return v
        if t.k == 'float':
            return self.fresh(name, F)
        if t.k == 'cfloat':
            return self.fresh(name, C)
        if t.k == 'ptr':
            o = self.fresh(name + '_o'); f = self.fresh(name + '_f')
            return P(o, f)
        if t.k in ('struct', 'array'):
            return SVal([(o, lt, self.arb(st, lt, name)) for o, lt in self.leaves(t)])
        if t.k == 'void':
            return None
        raise Unsupported('arbitrary %r' % t)

    def local_obj(self, st, size):
        self.lobj -= 1
        o = iv(self.lobj)
        if isinstance(size, int):
            self.lobjsize[self.lobj] = size
        self.mk_alive(st, o, size)
        return o

    def mk_alive(self, st, o, size):
        st.alive = sto(st.alive, o, TRUE)
        st.size = sto(st.size, o, size if isinstance(size, z3.ExprRef) else iv(size))
        self.log('alive', o)

    def malloc(self, st, size, may_fail=True, zero=False, tag='malloc'):
        """returns P; fresh heap object or NULL"""
        o = st.brk
        nb = add(st.brk, iv(1))
        ok = self.fresh(tag + '_ok', B) if may_fail else TRUE
        st.brk = nb
        st.alive = sto(st.alive, o, ok)
        st.size = sto(st.size, o, size)
        self.log('alloc')
        self.log('alive', o)
        if self.cenv.ghost_root:
            st.ghost['root'] = sto(st.ghost['root'], o, o)
            self.log('ghost', 'root')
        for k in self.kinds:
            # fresh contents
            row = self.fresh('row_' + k, z3.ArraySort(I, SORT[k]))
            st.mem[k] = sto(st.mem[k], o, row)
            self.log('memalloc', k)
        if may_fail:
            self.log('ghost', '__mallocs')
            r = P(ite(ok, o, iv(0)), iv(0))
            self.okterms[ok.decl().name()] = (r.obj, o)
            return r, ok
        return P(o, iv(0)), TRUE

    def free(self, st, p, what='free'):
        if isnum(p.obj) and num(p.obj) == 0:
            return
        self.oblige(st, bor(p.obj == 0, band(sel(st.alive, p.obj), p.off == 0, p.obj > 0)),
                    'only a live heap block is released, once (%s)' % what, 'free')
        st.alive = ite(p.obj == 0, st.alive, sto(st.alive, p.obj, FALSE)) if not is_heapid_strict(p.obj) else sto(st.alive, p.obj, FALSE)
        self.log('alive', p.obj)
        self.log('freed', p.obj)

    # bulk row update: dst rows of all kinds
    def havoc_row(self, st, obj, kinds=None):
        for k in (kinds or self.kinds):
            row = self.fresh('hrow_' + k, z3.ArraySort(I, SORT[k]))
            st.mem[k] = sto(st.mem[k], obj, row)
            self.log('mem', k, obj, None)

    def row_range_update(self, st, k, obj, lo, n, f):
        """row[lo..lo+n) := f(j) (j absolute index); other indices unchanged"""
        old = self.mapget(st, k, obj)
        row = self.fresh('row_' + k, z3.ArraySort(I, SORT[k]))
        j = z3.Const('j', I)
        inr = band(lo <= j, j < add(lo, n))
        st.assume(fa([j], z3.Select(row, j) == ite(inr, f(j), z3.Select(old, j)), patterns=[z3.Select(row, j)]))
        # dual direction: knowing about an old element says something about the new one
        st.mem[k] = sto(st.mem[k], obj, row)
        self.log('mem', k, obj, None)
        return row


def is_heapid_strict(e):
    c, b = lincomb(e)
    if b is None:
        return c > 0
    return c >= 0 and z3.is_const(b) and b.decl().name().startswith('brk!')
