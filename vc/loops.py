import re, z3, time, os
from .sym import *
from .cast import *
from .eng import *
from .spec import Ctx, View, imp
from .exec import Exec

ALL = 'ALL'


def consts_in(e, cache={}):
    """names of uninterpreted constants in a term"""
    k = e.get_id()
    if k in cache and cache[k][1].eq(e):
        return cache[k][0]
    out = set()
    seen = set()
    stack = [e]
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            stack.append(x.body())
            continue
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(x.decl().name())
        elif z3.is_app(x):
            stack.extend(x.children())
    cache[k] = (out, e)
    return out


def newer(e, n):
    for c in consts_in(e):
        i = c.rfind('!')
        if i >= 0:
            try:
                if int(c[i + 1:]) > n:
                    return True
            except ValueError:
                pass
    return False


class Cand:
    def __init__(self, name, at):
        self.name = name; self.at = at


class Loops(Exec):
    unroll_limit = 10

    def iterate(self, st, cond, body, inc, isdo):
        """one iteration from the loop head: (next, exits, rets)"""
        exits = []; rets = []
        if not isdo:
            c = self.evb(cond, st) if cond is not None else TRUE
            a, b = self.split(st, c)
            if b is not None:
                exits.append(b)
            if a is None:
                return None, exits, rets
            f = self.ex(body, a)
            exits += f.brk; rets += f.ret
            m = self.merge([x for x in [f.normal] + f.cont if x is not None])
            if m is None:
                return None, exits, rets
            if inc is not None:
                self.ev(inc, m)
            return m, exits, rets
        f = self.ex(body, st)
        exits += f.brk; rets += f.ret
        m = self.merge([x for x in [f.normal] + f.cont if x is not None])
        if m is None:
            return None, exits, rets
        c = self.evb(cond, m)
        a, b = self.split(m, c)
        if b is not None:
            exits.append(b)
        return a, exits, rets

    def literal_cond(self, st, cond):
        s = st.clone()
        self.dry += 1
        try:
            c = z3.simplify(self.evb(cond, s))
        finally:
            self.dry -= 1
        return z3.is_true(c) or z3.is_false(c)

    def can_unroll(self, st, cond, body, inc, isdo):
        if cond is None:
            return False
        c = self.strip(cond)
        if c['kind'] in ('IntegerLiteral', 'CXXBoolLiteralExpr'):
            return False
        lim = self.copts.get('unroll', self.unroll_limit)
        self.dry += 1
        try:
            s = st.clone()
            for i in range(lim + 1):
                if not isdo or i > 0:
                    b = z3.simplify(self.evb(cond, s))
                    if z3.is_false(b):
                        return True
                    if not z3.is_true(b):
                        return False
                f = self.ex(body, s)
                s = self.merge([x for x in [f.normal] + f.cont if x is not None])
                if s is None:
                    return True
                if inc is not None:
                    self.ev(inc, s)
            return False
        finally:
            self.dry -= 1

    def loop(self, n, st, cond, body, inc, isdo):
        f = Flow()
        lkey = (n['id'], tuple(self.stack))
        um = self.unrollmemo.get(lkey)
        if um is None or um:
            um = self.can_unroll(st, cond, body, inc, isdo)
            self.unrollmemo[lkey] = um
        if um:
            exits = []
            cur = st
            k = 0
            while cur is not None:
                nxt, ex_, rets = self.iterate(cur, cond, body, inc, isdo)
                exits += ex_; f.ret += rets
                cur = nxt
                k += 1
                if k > 400:
                    raise Unsupported('unrolling did not end')
            f.normal = self.merge(exits)
            return f
        return self.loop_inv(n, lkey, st, cond, body, inc, isdo)

    # -------------------------------------------------- write sets
    def map_writes(self, new, base, out, flags):
        """collect object terms written between two versions of a map"""
        seen = set()
        suffix = {}
        b = base; above = []
        while True:
            suffix[b.get_id()] = list(above)
            if z3.is_app(b) and b.decl().kind() == z3.Z3_OP_STORE:
                above.append(b.arg(1))
                b = b.arg(0)
                continue
            break

        def rec(m):
            if m.get_id() in seen:
                return
            seen.add(m.get_id())
            if m.eq(base):
                return
            if m.get_id() in suffix:
                # stores of the head state that the body has replaced
                for o_ in suffix[m.get_id()]:
                    if not any(o_.eq(x) for x, _ in out):
                        out.append((o_, None))
                return
            if z3.is_app(m):
                k = m.decl().kind()
                if k == z3.Z3_OP_STORE:
                    out.append((m.arg(1), m.arg(2)))
                    rec(m.arg(0))
                    return
                if k == z3.Z3_OP_ITE:
                    rec(m.arg(1)); rec(m.arg(2))
                    return
                if z3.is_const(m) and m.decl().name() in self.framed:
                    old, W, brk = self.framed[m.decl().name()]
                    for w in W:
                        out.append((w, None))
                    if brk is not None:
                        flags.add('fresh')
                    rec(old)
                    return
            flags.add(ALL)
        rec(new)

    def row_cells(self, row, obj, base_map):
        """indices written in a row relative to the head row, or None if unknown"""
        base_row = self.msel(base_map, obj)
        cells = []
        seen = set()
        ok = [True]
        suffix = {}
        b = base_row; above = []
        while True:
            suffix[b.get_id()] = list(above)
            if z3.is_app(b) and b.decl().kind() == z3.Z3_OP_STORE:
                above.append(b.arg(1))
                b = b.arg(0)
                continue
            break

        def rec(r):
            if r.get_id() in seen:
                return
            seen.add(r.get_id())
            if r.eq(base_row):
                return
            if r.get_id() in suffix:
                cells.extend(suffix[r.get_id()])
                return
            if z3.is_app(r):
                k = r.decl().kind()
                if k == z3.Z3_OP_STORE:
                    cells.append(r.arg(1))
                    rec(r.arg(0))
                    return
                if k == z3.Z3_OP_ITE:
                    rec(r.arg(1)); rec(r.arg(2))
                    return
                if k == z3.Z3_OP_SELECT:
                    # a select through a store on another object of the same loop
                    q = self.msel(r.arg(0), r.arg(1))
                    if not q.eq(r):
                        rec(q)
                        return
                    if r.arg(1).eq(obj) and self.map_descends(r.arg(0), base_map):
                        return
            ok[0] = False
        rec(row)
        return cells if ok[0] else None

    def map_descends(self, m, base):
        for _ in range(200):
            if m.eq(base):
                return True
            if z3.is_app(m) and m.decl().kind() == z3.Z3_OP_STORE:
                m = m.arg(0)
                continue
            return False
        return False

    # -------------------------------------------------- invariant loops
    def loop_inv(self, n, lkey, st, cond, body, inc, isdo):
        f = Flow()
        start = self.n
        entry = st
        plan = self.loopplans.get(lkey)
        if plan is None:
            plan = {'env': set(), 'ptrfull': set(), 'mem': {}, 'allkinds': set(), 'alloc': False, 'alive': [], 'aliveall': False,
                    'ghost': set(), 'locks': set()}
        else:
            plan = {k: (set(v) if isinstance(v, set) else dict(v) if isinstance(v, dict) else list(v) if isinstance(v, list) else v) for k, v in plan.items()}
            plan['mem'] = {}
            plan['alive'] = []
        # discovery
        for rnd in range(8):
            h, hm = self.havoc_head(entry, plan, start)
            self.dry += 1
            try:
                nxt, ex_, rets = self.iterate(h.clone(), cond, body, inc, isdo)
            finally:
                self.dry -= 1
            if nxt is None:
                break
            if not self.grow_plan(plan, h, nxt, hm, entry, start):
                break
        else:
            raise Unsupported('loop write set did not stabilise')
        self.loopplans[lkey] = plan
        if self.dry:
            h, hm = self.havoc_head(entry, plan, start)
            nxt, ex_, rets = self.iterate(h, cond, body, inc, isdo)
            f.normal = self.merge(ex_)
            f.ret = rets
            return f
        while True:
            h, hm = self.havoc_head(entry, plan, start)
            cands = self.candidates(n, lkey, entry, h, hm, plan, cond, body)
            keep = self.loopcands.get(lkey)
            if keep is not None:
                cands = [c for c in cands if c.name in keep]
            # entry
            good = []
            self.sink = entry
            for c in cands:
                try:
                    g = c.at(entry, 'entry')
                except Unsupported:
                    continue
                t_ = time.time()
                if os.environ.get('SDRV_DEBUG') == '2':
                    print('entry', c.name, g.sexpr()[:300], flush=True)
                    s_ = z3.Solver(); s_.add(*self.axioms, *entry.facts, *entry.pc, z3.Not(g)); open('/tmp/entry.smt2', 'w').write(s_.to_smt2())
                if self.solve(entry, g, RL_HOU * (self.copts.get('effort', 1) if c.name.startswith('contract:') else 1)) is True:
                    good.append(c)
                if os.environ.get('SDRV_DEBUG') and time.time() - t_ > 1:
                    print('slow entry', c.name, '%.1f' % (time.time() - t_), flush=True)
            cands = good
            restart = False
            while True:
                h2 = h.clone()
                self.sink = h2
                for c in cands:
                    h2.assume(c.at(h2, 'head'))
                self.noobl += 1
                try:
                    nxt, ex_, rets = self.iterate(h2, cond, body, inc, isdo)
                finally:
                    self.noobl -= 1
                if nxt is None:
                    break
                for key in plan['locks']:
                    self.section_clean(nxt, nxt.locks[key])
                if not self.frame_ok(plan, h, nxt, entry):
                    restart = True
                    break
                self.sink = nxt
                goals = [(c, c.at(nxt, 'end')) for c in cands]
                if os.environ.get('SDRV_DEBUG'):
                    print('houdini round', self.curline, len(cands), 'facts', len(nxt.facts), flush=True)
                allg = band(*[g for _, g in goals])
                if self.solve(nxt, allg, RL_HOU) is True:
                    break
                bad = []
                for c, g in goals:
                    if self.solve(nxt, g, RL_HOU * (self.copts.get('effort', 1) if c.name.startswith('contract:') else 1)) is not True:
                        bad.append(c)
                        if os.environ.get('SDRV_DUMPH'):
                            s_ = z3.Solver(); s_.add(*self.axioms, *nxt.facts, *nxt.pc, z3.Not(g)); open('%s/%d_%s.smt2' % (os.environ['SDRV_DUMPH'], self.curline, re.sub('[^a-z0-9=]+', '_', c.name)), 'w').write(s_.to_smt2())
                if os.environ.get('SDRV_DEBUG'):
                    print('houdini', self.curline, 'dropped', [c.name for c in bad], flush=True)
                if not bad:
                    break
                cands = [c for c in cands if c not in bad]
            if restart:
                self.loopplans[lkey] = plan
                continue
            break
        self.loopcands[lkey] = set(c.name for c in cands)
        if os.environ.get('SDRV_DEBUG'):
            print('loop line', line_of(n), 'kept', [c.name for c in cands], flush=True)
        h3 = h.clone()
        self.sink = h3
        for c in cands:
            h3.assume(c.at(h3, 'head'))
        self.loopinfo.append({'line': line_of(n), 'invariants': [c.name for c in cands]})
        if not self.noobl:
            if h3 is not None:
                nxt, ex_, rets = self.iterate(h3, cond, body, inc, isdo)
        else:
            nxt, ex_, rets = self.iterate(h3, cond, body, inc, isdo)
        f.normal = self.merge(ex_)
        f.ret = rets
        return f

    def havoc_head(self, entry, plan, start):
        h = entry.clone()
        hm = []       # (const, entry value, getter(state))
        for vid in sorted(plan['env']):
            if vid not in entry.env:
                continue
            v = entry.env[vid]
            nm, t = self.vars[vid]
            if isinstance(v, tuple):
                continue
            if t.k == 'ptr':
                if v is None:
                    v = P(self.fresh('uninit_o'), self.fresh('uninit_f'))
                if vid in plan['ptrfull']:
                    o = self.fresh(nm + '_o'); fo = self.fresh(nm + '_f')
                    h.env[vid] = P(o, fo)
                    hm.append((o, v.obj, lambda s, vid=vid: s.env[vid].obj))
                    hm.append((fo, v.off, lambda s, vid=vid: s.env[vid].off))
                else:
                    sz = 1
                    try:
                        sz = t_size(t.to) or 1
                    except Unsupported:
                        pass
                    kf = self.fresh(nm + '_k')
                    h.env[vid] = P(v.obj, add(v.off, mul(kf, iv(sz))))
                    def gt(s, vid=vid, v=v, sz=sz):
                        d = sub(s.env[vid].off, v.off)
                        q = divexact(d, sz)
                        if q is None:
                            q = divexact(z3.simplify(d), sz)
                        return q if q is not None else d / iv(sz)
                    hm.append((kf, iv(0), gt))
                continue
            if v is None:
                nv = self.arb(h, t, nm)
                h.env[vid] = nv
                continue
            nv = self.arb(h, t, nm)
            h.env[vid] = nv
            if isinstance(nv, z3.ExprRef):
                hm.append((nv, v, lambda s, vid=vid: s.env[vid]))
        if plan['alloc']:
            nb = self.fresh('brk', heap=True)
            self.brkprev[nb.decl().name()] = [entry.brk]
            h.brk = nb
            h.assume(nb >= entry.brk)
            hm.append((nb, entry.brk, lambda s: s.brk))
            o = z3.Const('o', I)
            for attr in ('alive', 'size'):
                old = getattr(h, attr)
                m = self.fresh(attr + 'map', old.sort())
                self.framed[m.decl().name()] = (old, [], entry.brk)
                h.facts.append(fa([o], z3.Implies(o < entry.brk, z3.Select(m, o) == z3.Select(old, o)), patterns=[z3.Select(m, o)]))
                setattr(h, attr, m)
                hm.append((m, old, lambda s, attr=attr: getattr(s, attr)))
            # nothing at or above the allocation frontier is alive
            h.facts.append(fa([o], z3.Implies(o >= nb, z3.Not(z3.Select(h.alive, o))), patterns=[z3.Select(h.alive, o)]))
            h.facts.append(fa([o], z3.Select(h.size, o) >= 0, patterns=[z3.Select(h.size, o)]))
        if plan['aliveall']:
            m = self.fresh('alivemap', h.alive.sort())
            hm.append((m, entry.alive, lambda s: s.alive))
            o = z3.Const('o', I)
            h.facts.append(fa([o], z3.Implies(o >= h.brk, z3.Not(z3.Select(m, o))), patterns=[z3.Select(m, o)]))
            h.alive = m
        else:
            for o_ in plan['alive']:
                b = self.fresh('alv', B)
                hm.append((b, sel(entry.alive, o_), lambda s, o_=o_: sel(s.alive, o_)))
                h.alive = sto(h.alive, o_, b)
        o = z3.Const('o', I)
        for k in self.kinds:
            ent = plan['mem'].get(k)
            if k in plan['allkinds']:
                m = self.fresh('M_' + k, entry.mem[k].sort())
                hm.append((m, entry.mem[k], lambda s, k=k: s.mem[k]))
                h.mem[k] = m
                continue
            if plan['alloc']:
                old = entry.mem[k]
                m = self.fresh('M_' + k, old.sort())
                self.framed[m.decl().name()] = (old, [], entry.brk)
                h.facts.append(fa([o], z3.Implies(o < entry.brk, z3.Select(m, o) == z3.Select(old, o)), patterns=[z3.Select(m, o)]))
                h.mem[k] = m
                hm.append((m, old, lambda s, k=k: s.mem[k]))
            if ent:
                for obj, cells in ent:
                    if cells is None:
                        row = self.fresh('row_' + k, z3.ArraySort(I, SORT[k]))
                        hm.append((row, self.mapget(entry, k, obj), lambda s, k=k, obj=obj: self.mapget(s, k, obj)))
                        h.mem[k] = sto(h.mem[k], obj, row)
                    else:
                        row = self.mapget(h, k, obj)
                        for ix in cells:
                            c = self.fresh('cell_' + k, SORT[k])
                            hm.append((c, self.rd(entry, k, obj, ix), lambda s, k=k, obj=obj, ix=ix: self.rd(s, k, obj, ix)))
                            row = sto(row, ix, c)
                        h.mem[k] = sto(h.mem[k], obj, row)
        for gname in sorted(plan['ghost'], key=str):
            v = entry.ghost.get(gname)
            if isinstance(v, z3.ExprRef):
                c = self.fresh('g_' + str(gname), v.sort())
                h.ghost[gname] = c
                hm.append((c, v, lambda s, gname=gname: s.ghost[gname]))
        if plan['locks']:
            for key in plan['locks']:
                L = entry.locks.get(key)
                if not L or not L.get('held'):
                    raise Unsupported('lock taken and kept inside a loop')
                self.section_clean(entry, L)
                h.locks = dict(h.locks)
                h.locks[key] = dict(L, snap=h.clone())
        return h, hm

    def section_clean(self, st, L):
        """nothing has been changed since the lock was (re)acquired"""
        sn = L['snap']
        for k in self.kinds:
            if not st.mem[k].eq(sn.mem[k]):
                raise Unsupported('shared state is changed before waiting in a loop')
        for g in self.cenv.ghosts:
            if not st.ghost[g].eq(sn.ghost[g]):
                raise Unsupported('shared state is changed before waiting in a loop')

    def to_entry(self, e, hm):
        pairs = [(c, v) for c, v, _ in hm if isinstance(v, z3.ExprRef)]
        return z3.substitute(e, *pairs) if pairs else e

    def grow_plan(self, plan, h, nxt, hm, entry, start):
        grew = False
        for vid, v in nxt.env.items():
            if vid not in entry.env or isinstance(v, tuple):
                continue
            old = h.env.get(vid)
            if isinstance(v, P):
                if old is None or not isinstance(old, P):
                    if vid not in plan['env'] or vid not in plan['ptrfull']:
                        plan['env'].add(vid); plan['ptrfull'].add(vid)
                        grew = True
                    continue
                same_o = v.obj.eq(old.obj)
                same_f = v.off.eq(old.off)
                if same_o and same_f:
                    continue
                if vid not in plan['env']:
                    plan['env'].add(vid)
                    grew = True
                if not same_o and vid not in plan['ptrfull']:
                    plan['ptrfull'].add(vid)
                    grew = True
            else:
                same = (v is old) or (v is not None and old is not None and v.eq(old))
                if not same and vid not in plan['env']:
                    plan['env'].add(vid)
                    grew = True
        if not nxt.brk.eq(h.brk) and not plan['alloc']:
            plan['alloc'] = True
            grew = True
        # alive map
        if not nxt.alive.eq(h.alive):
            out = []; fl = set()
            self.map_writes(nxt.alive, h.alive, out, fl)
            if ALL in fl and not plan['aliveall']:
                plan['aliveall'] = True
                grew = True
            for o_, _ in out:
                if isnum(o_) and num(o_) < 0:
                    continue
                if self.is_fresh_obj(o_, plan, h, entry):
                    continue
                t = o_
                if newer(t, start):
                    t = self.to_entry(t, hm)
                    if newer(t, start) or True:
                        if not plan['aliveall']:
                            plan['aliveall'] = True
                            grew = True
                        continue
                if not any(t.eq(x) for x in plan['alive']):
                    plan['alive'].append(t)
                    grew = True
        for k in self.kinds:
            if k in plan['allkinds'] or nxt.mem[k].eq(h.mem[k]):
                continue
            out = []; fl = set()
            self.map_writes(nxt.mem[k], h.mem[k], out, fl)
            if ALL in fl:
                plan['allkinds'].add(k)
                grew = True
                continue
            ent = plan['mem'].setdefault(k, [])
            for o_, row in out:
                if self.is_fresh_obj(o_, plan, h, entry):
                    continue
                if row is not None and row.eq(self.msel(h.mem[k], o_)):
                    continue
                t = o_
                if newer(t, start):
                    t = self.to_entry(t, hm)
                    if newer(t, start):
                        plan['allkinds'].add(k)
                        grew = True
                        break
                if isnum(t) and num(t) == 0:
                    plan['allkinds'].add(k)
                    grew = True
                    break
                cells = self.row_cells(row, o_, h.mem[k]) if row is not None else None
                if cells is not None:
                    cs = []
                    for x in cells:
                        if newer(x, start):
                            cs = None
                            break
                        if not any(x.eq(y) for y in cs):
                            cs.append(x)
                    cells = cs
                for i, (w, wc) in enumerate(ent):
                    if w.eq(t):
                        if wc is None:
                            break
                        if cells is None:
                            ent[i] = (w, None)
                            grew = True
                            break
                        new = [x for x in cells if not any(x.eq(y) for y in wc)]
                        if new:
                            ent[i] = (w, wc + new)
                            grew = True
                        break
                else:
                    ent.append((t, cells))
                    grew = True
        for key, L in nxt.locks.items():
            L0 = h.locks.get(key)
            if L is not L0 and L.get('held') and (L0 is None or L.get('snap') is not L0.get('snap')):
                if not isinstance(plan['locks'], set):
                    plan['locks'] = set()
                if key not in plan['locks']:
                    plan['locks'].add(key)
                    grew = True
        for gname, v in nxt.ghost.items():
            if gname not in entry.ghost or gname in plan['ghost']:
                continue
            o_ = h.ghost.get(gname)
            if isinstance(v, z3.ExprRef) and isinstance(o_, z3.ExprRef) and not v.eq(o_):
                plan['ghost'].add(gname)
                grew = True
        return grew

    def is_fresh_obj(self, o_, plan, h, entry):
        """allocated inside the loop body (id at or above the loop-entry frontier)"""
        c, b = lincomb(o_)
        if b is None or not plan['alloc'] and not True:
            return False
        if b is not None and z3.is_const(b) and b.decl().name().startswith('brk!'):
            # frontier constants created at/after the loop head
            if b.eq(h.brk) and not h.brk.eq(entry.brk):
                return c >= 0
            if not b.eq(entry.brk) and b.decl().name() in self.brkprev and self.descends_from(b, h.brk if plan['alloc'] else entry.brk):
                return True
            d = diff_const(o_, entry.brk)
            if d is not None and d >= 0:
                return True
        else:
            d = diff_const(o_, entry.brk)
            if d is not None and d >= 0:
                return True
        return False

    def descends_from(self, b, target):
        seen = set()
        work = [b]
        while work:
            x = work.pop()
            if diff_const(x, target) is not None and diff_const(x, target) >= 0:
                return True
            c, bb = lincomb(x)
            if bb is None or not z3.is_const(bb):
                return False
            nm = bb.decl().name()
            if nm in seen or nm not in self.brkprev:
                return False
            seen.add(nm)
            work += self.brkprev[nm]
        return False

    def frame_ok(self, plan, h, nxt, entry):
        """every write of the body goes to an object of the plan, or to a fresh one"""
        ok = True
        for k in self.kinds:
            if k in plan['allkinds'] or nxt.mem[k].eq(h.mem[k]):
                continue
            out = []; fl = set()
            self.map_writes(nxt.mem[k], h.mem[k], out, fl)
            if ALL in fl:
                plan['allkinds'].add(k)
                ok = False
                continue
            W = plan['mem'].get(k, [])
            for o_, row in out:
                hit = False
                for w, c in W:
                    if w.eq(o_):
                        hit = True
                        if c is not None and row is not None:
                            cells = self.row_cells(row, o_, h.mem[k])
                            if cells is None or any(not any(x.eq(y) for y in c) for x in cells):
                                # let the solver decide whether the cells are the planned ones
                                if cells is None or not all(self.solve(nxt, bor(*[x == y for y in c]), RL_HOU) is True for x in cells):
                                    plan['mem'][k] = [(w2, None if w2.eq(w) else c2) for w2, c2 in W]
                                    ok = False
                        break
                if hit or self.is_fresh_obj(o_, plan, h, entry):
                    continue
                if row is not None and row.eq(self.msel(h.mem[k], o_)):
                    continue
                g = bor(*([o_ == w for w, _ in W] + [o_ >= entry.brk]))
                if self.solve(nxt, g, RL_HOU) is True:
                    continue
                if os.environ.get('SDRV_DEBUG'):
                    print('frame lost for', k, o_)
                plan['allkinds'].add(k)
                ok = False
                break
        return ok

    noframecand = False

    def modregs(self):
        if not hasattr(self, '_modregs'):
            self._modregs = self.regions(self.top_pre, self.con.modifies(self.top_pre))
        return self._modregs

    # -------------------------------------------------- candidates
    def candidates(self, n, lkey, entry, h, hm, plan, cond, body):
        out = []
        consts = [c for c, _, _ in hm]

        def mk(name, formula):
            if z3.is_true(formula):
                return

            def at(s, where, formula=formula):
                if where == 'head':
                    return formula
                if where == 'entry':
                    return self.to_entry(formula, hm)
                pairs = []
                for c, v, gt in hm:
                    nv = gt(s)
                    if nv is None:
                        continue
                    if not nv.eq(c):
                        pairs.append((c, nv))
                return z3.substitute(formula, *pairs) if pairs else formula
            out.append(Cand(name, at))
        # scalar integer variables and cells
        ints = []
        for c, v, gt in hm:
            if c.sort() == I and isinstance(v, z3.ExprRef):
                nm = c.decl().name().split('!')[0]
                ints.append((nm, c, v))
        names = {}
        ints2 = []
        for nm, c, v in ints:
            k = names.get(nm, 0)
            names[nm] = k + 1
            ints2.append((nm + ('#%d' % k if k else ''), c, v))
        ints = ints2
        for nm, c, v in ints:
            mk('auto:%s>=entry' % nm, c >= v)
            mk('auto:%s<=entry' % nm, c <= v)
            mk('auto:%s>=0' % nm, c >= 0)
            if nm.endswith('_f'):
                mk('auto:%s==0' % nm, c == 0)
        for i, (na, a, va) in enumerate(ints):
            for nb_, b, vb in ints[i + 1:]:
                if na.startswith('g_') and nb_.startswith('g_'):
                    continue
                oa, ob = (x.split('#')[0].endswith('_o') for x in (na, nb_))
                if oa != ob or 'brk' in (na, nb_):
                    continue        # names of objects are not related to counts
                mk('auto:%s-%s' % (na, nb_), a - va == b - vb)
                if not oa:
                    mk('auto:%s+%s' % (na, nb_), a - va == vb - b)
        # bounds from conditions inside the loop
        if cond is not None:
            for nm, fm in self.cond_bounds(cond, h):
                mk('auto:bound %s' % nm, fm)
        # rates: increments of each variable
        deltas = self.loop_deltas(h, hm, lkey)
        for i, (na, a, va) in enumerate(ints):
            for j, (nb_, b, vb) in enumerate(ints):
                if i == j:
                    continue
                da, db = deltas.get(a.get_id()), deltas.get(b.get_id())
                if da is None or db is None:
                    continue
                if isnum(db) and num(db) in (1, -1) and not (isnum(da) and num(da) in (0, 1, -1)):
                    x = mul(sub(b, vb), da) if num(db) == 1 else mul(sub(vb, b), da)
                    mk('auto:rate %s/%s' % (na, nb_), a - va == x)
        # frames of havoced rows
        for k, ent in plan['mem'].items():
            if k in plan['allkinds']:
                continue
            for w, (obj, cells) in enumerate(ent):
                if cells is not None:
                    continue
                if isnum(obj) and num(obj) < -1000:
 
                    if self.lobjsize.get(num(obj), 99) <= 16:
                        continue        # a single variable whose address is taken
                row = self.mapget(h, k, obj)
                row0 = self.mapget(entry, k, obj)
                j = z3.Const('fj', I)
                for nm, c, v in ints:
                    if nm.startswith('g_'):
                        continue
                    for base in self.row_bases(lkey, k, obj, c):
                        fm = fa([j], imp(j >= base, z3.Select(row, j) == z3.Select(row0, j)), patterns=[z3.Select(row, j)])
                        mk('auto:frame %s[%s..] %d %s' % (k, nm, w, base), fm)
                        b0 = self.to_entry(base, hm)
                        fm = fa([j], imp(j < b0, z3.Select(row, j) == z3.Select(row0, j)), patterns=[z3.Select(row, j)])
                        mk('auto:frame %s[..entry %s] %d %s' % (k, nm, w, base), fm)
        # writes inside the loop stay within the function's modifies clause
        if self.top_pre is not None and self.con.frame and not self.noframecand:
            regs = self.modregs()
            o_ = z3.Const('fo?', I); j = z3.Const('fj', I)
            for k, ent in plan['mem'].items():
                if k in plan['allkinds']:
                    continue
                for w, (obj, cells) in enumerate(ent):
                    if cells is not None or (isnum(obj) and num(obj) < -1000):
                        continue
                    row = self.mapget(h, k, obj); row0 = self.mapget(entry, k, obj)
                    reg = self.in_regions(regs, k, obj, j)
                    if z3.is_true(z3.simplify(reg)):
                        continue
                    mk('auto:modifies frame %s %d' % (k, w), fa([j], imp(bnot(reg), z3.Select(row, j) == z3.Select(row0, j)), patterns=[z3.Select(row, j)]))
            for k in plan['allkinds']:
                m = h.mem[k]; m0 = entry.mem[k]
                reg = self.in_regions(regs, k, o_, j)
                err = self.statics.get('errno')
                g = [o_ > -1000, o_ < self.top_pre.st.brk] + ([o_ != err] if err is not None and k == 'i32' else [])
                mk('auto:modifies frame of %s' % k, fa([o_, j], imp(band(*g, bnot(reg)), z3.Select(z3.Select(m, o_), j) == z3.Select(z3.Select(m0, o_), j)),
                                                     patterns=[z3.Select(z3.Select(m, o_), j)]))
        for key in plan['locks']:
            for m, q in self.moninst:
                if self.mon_key(m, q) != key:
                    continue
                ci = Ctx(self, h, self.top_args, self.top_tu, pre=self.top_pre)
                o_ = z3.Const('fo?', I)
                for k in plan['allkinds']:
                    def atf(s, where, m=m, q=q, k=k, entry=entry):
                        c2 = Ctx(self, s, self.top_args, self.top_tu, pre=self.top_pre)
                        inside = bor(o_ == q.o, *[r[1](o_) for r in m.foot(c2, q.in_(c2)) if r[0] == 'set'])
                        return fa([o_], imp(bnot(inside), z3.Select(s.mem[k], o_) == z3.Select(entry.mem[k], o_)), patterns=[z3.Select(s.mem[k], o_)])
                    out.append(Cand('auto:outside the lock footprint %s' % k, atf))
                nms = [nm for nm, _ in m.inv(ci, q.in_(ci))]
                for ix, nm in enumerate(nms):
                    def at(s, where, m=m, q=q, ix=ix):
                        c2 = Ctx(self, s, self.top_args, self.top_tu, pre=self.top_pre)
                        return m.inv(c2, q.in_(c2))[ix][1]
                    out.append(Cand('lock invariant: ' + nm, at))
        out += self.contract_cands(entry, h, hm)
        # de-duplicate by name
        seen = set(); res = []
        for c in out:
            if c.name in seen:
                continue
            seen.add(c.name)
            res.append(c)
        return res

    def row_bases(self, lkey, k, obj, c):
        """index terms (over head constants) at which the body writes this row"""
        key = (lkey, k)
        bases = []
        for ix in self.loopidx.get(key, []):
            if c.decl().name() in consts_in(ix):
                bases.append(ix)
        if not any(b.eq(c) for b in bases):
            bases.append(c)
        return bases[:4]

    def cond_bounds(self, cond, h):
        res = []

        def walk(n):
            n = self.strip(n)
            if n['kind'] == 'ImplicitCastExpr' and n['castKind'] in ('IntegralCast', 'IntegralToBoolean'):
                return walk(n['inner'][0])
            if n['kind'] == 'BinaryOperator':
                if n['opcode'] in ('&&', '||'):
                    for x in n['inner']:
                        walk(x)
                    return
                if n['opcode'] in ('<', '<=', '>', '>=', '!='):
                    s = h.clone()
                    self.dry += 1
                    try:
                        a = self.ev(n['inner'][0], s); b = self.ev(n['inner'][1], s)
                    except Unsupported:
                        return
                    finally:
                        self.dry -= 1
                    if isinstance(a, P) and isinstance(b, P):
                        a, b = a.off, b.off
                    if not (isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef)) or a.sort() != I or b.sort() != I:
                        return
                    op = n['opcode']
                    nm = str(line_of(n)) + op
                    if op in ('<', '!='):
                        res.append((nm + 'a<=b', a <= b))
                    if op == '<=':
                        res.append((nm + 'a<=b+1', a <= b + 1))
                    if op in ('>', '!='):
                        res.append((nm + 'a>=b', a >= b))
                    if op == '>=':
                        res.append((nm + 'a>=b-1', a >= b - 1))
        walk(cond)
        return res

    def loop_deltas(self, h, hm, lkey):
        return self.loopdelta.get(lkey, {})

    def contract_cands(self, entry, h, hm):
        out = []
        con = self.cur_contract
        if con is None:
            return out
        for item in con.inv:
            name, fn = item[0], item[1]
            metas = item[2] if len(item) > 2 else {}
            for binding in self.meta_bindings(metas, entry, h):
                bn = name + (' [' + ', '.join('%s=%s' % (m, b[0]) for m, b in binding.items()) + ']' if binding else '')

                def at(s, where, fn=fn, binding=binding):
                    c = Ctx(self, s, self.top_args, self.top_tu, None, self.top_pre)
                    c.entry = Ctx(self, entry, self.top_args, self.top_tu, None, self.top_pre)
                    vs = {}
                    for m, (nm, vid) in binding.items():
                        v = s.env.get(vid)
                        t = self.vars[vid][1]
                        if v is None:
                            raise Unsupported('uninitialised')
                        vs[m] = View(c, v, t) if isinstance(v, P) else View(c, P(v[1], iv(0)), ptr(t)) if isinstance(v, tuple) else v
                    return fn(c, **vs)
                try:
                    self.sink = h
                    at(h, 'head')
                except Unsupported:
                    continue
                out.append(Cand('contract:' + bn, at))
        return out

    def meta_bindings(self, metas, entry, h):
        """all assignments of in-scope variables to the metavariables, by type"""
        opts = []
        for m, spec in metas.items():
            o = []
            for vid in h.env:
                if vid not in self.vars or vid not in entry.env:
                    continue
                nm, t = self.vars[vid]
                v = h.env[vid]
                if spec in ('mod', 'outer') and (v is entry.env[vid]) != (spec == 'outer'):
                    continue
                if spec in ('int', 'mod', 'outer'):
                    # address-taken variables and parameters that still have their value are not offered
                    if t.k == 'int' and t.name != 'bool' and not isinstance(v, tuple) and not any(v is a[0] for a in self.top_args.values()):
                        o.append((nm, vid))
                elif spec == 'struct':
                    if isinstance(v, tuple):
                        o.append((nm, vid))
                elif spec.startswith('ptr'):
                    if t.k == 'ptr' and not isinstance(v, tuple):
                        want = spec[4:]
                        if not want or repr(t.to).endswith(want):
                            o.append((nm, vid))
            opts.append((m, o))
        res = [{}]
        for m, o in opts:
            res = [dict(r, **{m: x}) for r in res for x in o if x not in r.values()]
            if len(res) > 400:
                res = res[:400]
        return res
