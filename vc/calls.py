"""Calls: contracts, models of external functions, inlining, monitors (mutexes)."""
import z3
from .sym import *
from .cast import *
from .eng import *
from .spec import Ctx, View, imp
from .loops import Loops
from .reals import Reals
from . import cast

MAXINLINE = 10


class Monitor:
    """Lock invariant of a mutex embedded in a struct.
    struct/mutex: record name and field; foot(c,q): regions protected; inv(c,q): [(name, formula)];
    ghosts: ghost names protected by the lock; release(c_snap, c_now, q): transition obligations;
    ghost_step(eng, st, snap, q): computes the ghost state after the critical section."""

    def __init__(self, struct, mutex, foot, inv, ghosts=(), ghost_step=None, release=None, cond=None,
                 guarded=None, rely=None, wait_step=None):
        self.struct = struct; self.mutex = mutex; self.foot = foot; self.inv = inv
        self.ghosts = list(ghosts); self.ghost_step = ghost_step; self.release = release
        self.cond = cond; self.guarded = guarded; self.rely = rely; self.wait_step = wait_step


class Calls(Reals, Loops):
    def callee_name(self, n):
        n = self.strip(n)
        while n['kind'] in ('ImplicitCastExpr', 'CStyleCastExpr'):
            n = self.strip(n['inner'][0])
        if n['kind'] == 'UnaryOperator' and n['opcode'] in ('*', '&'):
            return self.callee_name(n['inner'][0])
        if n['kind'] == 'DeclRefExpr' and n['referencedDecl']['kind'] == 'FunctionDecl':
            return n['referencedDecl']['name']
        if n['kind'] == 'DeclRefExpr' and n['referencedDecl']['kind'] == 'VarDecl' and n['referencedDecl']['name'] in self.cenv.models:
            return n['referencedDecl']['name']      # dispatch pointer of an external library (volk)
        return None

    def call(self, n, st):
        tu = self.tu
        callee = n['inner'][0]; argn = n['inner'][1:]
        name = self.callee_name(callee)
        fp = None
        if name is None:
            fp = self.ev(callee, st)
            name = self.fun_of(fp.obj)
        if name in ('__builtin_va_start', '__builtin_va_end'):
            return None
        atypes = [tu.qt(a) for a in argn]
        self.argptr = [self.pointee_kind(tu, a) for a in argn]
        args = [self.ev(a, st) for a in argn]
        rt = tu.qt(n)
        if name is None:
            h = self.cenv.indirect
            if h is None:
                raise Unsupported('indirect call')
            return h(self, st, fp, args, atypes, rt, n)
        r = self.call_named(name, args, atypes, rt, st, n)
        ln = line_of(n)
        if ln:
            self.curline = ln
        return r

    def pointee_kind(self, tu, a):
        """memory kind of what an argument points to, before its implicit conversion to void*"""
        while a.get('kind') in ('ImplicitCastExpr', 'ParenExpr') and a.get('inner'):
            if a.get('castKind') == 'ArrayToPointerDecay':
                break
            a = a['inner'][0]
        try:
            t = tu.qt(a)
            if t.k == 'ptr' and t.to.k in ('int', 'float', 'cfloat') and t.to.size > 1:
                return kind_of(t.to)
        except Exception:
            pass
        return None

    def call_named(self, name, args, atypes, rt, st, n=None):
        if name.startswith('__tg_'):
            name = name[5:]         # <tgmath.h> of clang
        m = self.cenv.models.get(name)
        if m is not None:
            if name in self.cenv.homed:
                self.contract_calls.add(name)       # the model is an instance of a contract proved elsewhere (HOME)
            else:
                self.externs.add(name)
            return m(self, st, args, atypes, rt)
        con = self.cenv.contracts.get(name)
        if con is not None:
            return self.contract_call(con, name, args, atypes, rt, st)
        m = getattr(self, 'lib_' + name, None)
        if m is not None:
            self.externs.add(name)
            return m(st, args, atypes, rt)
        tu2, fn = cast.find_function(name, self.tu)
        if fn is not None:
            if name in self.stack or len(self.stack) > MAXINLINE:
                raise Unsupported('recursion through ' + name)
            return self.inline(tu2, fn, args, atypes, rt, st)
        raise Unsupported('call of external function %s without a model' % name)

    def inline(self, tu2, fn, args, atypes, rt, st):
        self.inlined.add(fn['name'])
        args = [self.argconv(st, a, t, tu2.qt(p)) for a, t, p in zip(args, atypes, fn['_params'])]
        before = set(st.env)
        line = self.curline
        rets = self.run_body(fn, tu2, args, st)
        self.curline = line
        outs = []
        for s, v in rets:
            if s.dead:
                continue
            s.env['$ret'] = v
            outs.append(s)
        if not outs:
            st.dead = True
            st.pc = st.pc + [FALSE]
            return self.arb(st, rt)
        m = self.merge(outs)
        v = m.env.pop('$ret', None)
        for k in list(m.env):
            if k not in before:
                del m.env[k]
        self.into(st, m)
        if rt.k == 'void':
            return None
        if v is None:
            return self.arb(st, rt)
        return v

    def argconv(self, st, a, ft, tt):
        if ft.k == 'int' and tt.k == 'int':
            return self.conv(st, a, ft, tt)
        return a

    # ------------------------------------------------------------ regions
    def regions(self, c, mods):
        """normalise modifies clauses to (kinds, obj, lo, hi) / ('set', pred, kinds) / ('ghost', g)"""
        out = []
        for m in mods:
            k = m[0]
            if k == 'obj':
                o = m[1].p.obj if isinstance(m[1], View) else m[1].obj if isinstance(m[1], P) else m[1]
                out.append((m[2] if len(m) > 2 else self.kinds, o, None, None))
            elif k == 'field':
                for nm in m[2:]:
                    a = m[1].addr(nm)
                    out += self.cellregs(a.p, a.t.to)
            elif k == 'cell':
                v = m[1].at(m[2]) if len(m) > 2 else m[1]
                out += self.cellregs(v.p, v.t.to)
            elif k == 'range':
                v, lo, cnt = m[1], m[2], m[3]
                lo = lo if isinstance(lo, z3.ExprRef) else iv(lo)
                cnt = cnt if isinstance(cnt, z3.ExprRef) else iv(cnt)
                t = v.t.to
                b = v.at(lo)
                kk = ['po', 'pf'] if t.k == 'ptr' else [kind_of(t)]
                for k2 in kk:
                    i0 = self.index(k2, b.p.off)
                    out.append(([k2], b.p.obj, i0, add(i0, cnt)))
            elif k == 'bytes':
                v, lo, cnt = m[1], m[2], m[3]
                lo = lo if isinstance(lo, z3.ExprRef) else iv(lo)
                cnt = cnt if isinstance(cnt, z3.ExprRef) else iv(cnt)
                off = add(v.p.off, lo)
                for k2 in self.kinds:
                    a, b_, _, _ = self.brange(k2, off, cnt)
                    out.append(([k2], v.p.obj, a, b_))
            elif k == 'set':
                out.append(('set', m[1], m[2] if len(m) > 2 else self.kinds))
            elif k == 'ghost':
                out.append(('ghost', m[1]))
            elif k == 'any':
                out.append(('any',))
            else:
                raise Unsupported('region ' + str(k))
        return out

    def cellregs(self, p, t):
        if t.k in ('struct', 'array'):
            res = []
            for o, lt in self.leaves(t):
                res += self.cellregs(P(p.obj, add(p.off, iv(o))), lt)
            return res
        if t.k == 'ptr':
            i = self.index('po', p.off)
            return [(['po', 'pf'], p.obj, i, add(i, iv(1)))]
        k = self.kindres(t, p.off)
        i = self.index(k, p.off)
        return [([k], p.obj, i, add(i, iv(1)))]

    def brange(self, k, off, n):
        """(lo_part, hi_part, lo_full, hi_full) indices of kind k touched by bytes [off, off+n)"""
        E = ESZ[k]; R = RES.get(k, 0)
        a = sub(off, iv(R)) if R else off
        e = add(a, n)
        da = divexact(a, E); de = divexact(e, E)
        if da is None:
            lo_p = z3.simplify(a / iv(E)) if isnum(a) else a / iv(E)
            lo_f = z3.simplify((a + (E - 1)) / iv(E))
        else:
            lo_p = lo_f = da
        if de is None:
            hi_f = z3.simplify(e / iv(E))
            hi_p = z3.simplify((e + (E - 1)) / iv(E))
        else:
            hi_p = hi_f = de
        return lo_p, hi_p, lo_f, hi_f

    def havoc_regions(self, st, regs):
        for r in regs:
            if r[0] == 'ghost':
                v = st.ghost[r[1]]
                st.ghost[r[1]] = self.fresh('g_' + r[1], v.sort())
                continue
            if r[0] == 'any':
                for k in self.kinds:
                    st.mem[k] = self.fresh('M_' + k, st.mem[k].sort())
                    self.clean.add(st.mem[k].decl().name())
                continue
            if r[0] == 'set':
                o = z3.Const('o', I)
                for k in r[2]:
                    old = st.mem[k]
                    m = self.fresh('M_' + k, old.sort())
                    st.facts.append(fa([o], z3.Implies(z3.Not(r[1](o)), z3.Select(m, o) == z3.Select(old, o)), patterns=[z3.Select(m, o)]))
                    st.mem[k] = m
                continue
            kinds, obj, lo, hi = r
            for k in kinds:
                if lo is None:
                    st.mem[k] = sto(st.mem[k], obj, self.fresh('hrow_' + k, z3.ArraySort(I, SORT[k])))
                elif eqi(hi, add(lo, iv(1))) is TRUE or z3.is_true(eqi(hi, add(lo, iv(1)))):
                    self.wr(st, k, obj, lo, self.fresh('hc_' + k, SORT[k]))
                else:
                    old = self.mapget(st, k, obj)
                    row = self.fresh('hrow_' + k, z3.ArraySort(I, SORT[k]))
                    j = z3.Const('j', I)
                    st.assume(fa([j], z3.Implies(bor(j < lo, j >= hi), z3.Select(row, j) == z3.Select(old, j)), patterns=[z3.Select(row, j)]))
                    st.mem[k] = sto(st.mem[k], obj, row)

    def in_regions(self, regs, k, o, i):
        alts = []
        for r in regs:
            if r[0] == 'ghost':
                continue
            if r[0] == 'any':
                return TRUE
            if r[0] == 'set':
                if k in r[2]:
                    alts.append(r[1](o))
                continue
            kinds, obj, lo, hi = r
            if k not in kinds:
                continue
            alts.append(o == obj if lo is None else band(o == obj, i >= lo, i < hi))
        return bor(*alts)

    def frontier(self, st):
        """unknown number of allocations: new frontier, maps framed below the old one"""
        old = st.brk
        nb = self.fresh('brk', heap=True)
        self.brkprev[nb.decl().name()] = [old]
        st.assume(nb >= old)
        o = z3.Const('o', I)
        for attr in ('alive', 'size'):
            om = getattr(st, attr)
            m = self.fresh(attr + 'map', om.sort())
            self.framed[m.decl().name()] = (om, [], old)
            st.facts.append(fa([o], z3.Implies(o < old, z3.Select(m, o) == z3.Select(om, o)), patterns=[z3.Select(m, o)]))
            setattr(st, attr, m)
        st.facts.append(fa([o], z3.Implies(o >= nb, z3.Not(z3.Select(st.alive, o))), patterns=[z3.Select(st.alive, o)]))
        st.facts.append(fa([o], z3.Select(st.size, o) >= 0, patterns=[z3.Select(st.size, o)]))
        for k in self.kinds:
            om = st.mem[k]
            m = self.fresh('M_' + k, om.sort())
            self.framed[m.decl().name()] = (om, [], old)
            st.facts.append(fa([o], z3.Implies(o < old, z3.Select(m, o) == z3.Select(om, o)), patterns=[z3.Select(m, o)]))
            st.mem[k] = m
        st.brk = nb

    def contract_call(self, con, name, args, atypes, rt, st):
        if con.extern:
            self.externs.add(name + ' (contract)')
        else:
            self.contract_calls.add(name)
        tu2, fn = cast.find_function(name, self.tu)
        if fn is None:
            fn = self.tu.protos.get(name)
            tu2 = self.tu
        if fn is None:
            raise Unsupported('no declaration of ' + name)
        pts = [tu2.qt(p) for p in fn['_params']]
        if len(pts) != len(con.args) or len(args) < len(pts):
            raise Unsupported('contract of %s does not fit its signature' % name)
        args = [self.argconv(st, a, t, p) for a, t, p in zip(args, atypes, pts)]
        argmap = {nm: (a, t) for nm, a, t in zip(con.args, args, pts)}
        line = self.curline
        c = Ctx(self, st, argmap, tu2)
        self.sink = st
        for nm, r in con.requires:
            self.oblige(st, r(c), 'precondition of %s: %s' % (name, nm), 'pre')
        pre = st.clone()
        cpre = Ctx(self, pre, argmap, tu2)
        regs = self.regions(cpre, con.modifies(cpre))
        frees = con.frees(cpre) if con.frees else []
        if con.allocs:
            self.frontier(st)
        self.havoc_regions(st, regs)
        for f in frees:
            if isinstance(f, tuple) and f[0] == 'set':
                o = z3.Const('o', I)
                m = self.fresh('alivemap', st.alive.sort())
                old = st.alive
                st.facts.append(fa([o], z3.Implies(z3.Not(f[1](o)), z3.Select(m, o) == z3.Select(old, o)), patterns=[z3.Select(m, o)]))
                st.alive = m
                continue
            o = f.p.obj if isinstance(f, View) else f
            st.alive = sto(st.alive, o, self.fresh('alv', B))
        self.havoc_errno(st)
        ret = None
        if rt.k != 'void':
            ret = self.arb(st, rt, 'ret_' + name)
            if rt.k == 'ptr':
                st.assume(ret.obj < st.brk)
        c2 = Ctx(self, st, argmap, tu2, ret=(ret, rt), pre=cpre)
        self.sink = st
        for nm, e in con.ensures:
            st.assume(e(c2))
        if con.allocs and con.leak is not None:
            # proved for the callee: of its allocations only these live on
            o = z3.Const('o', I)
            keep = con.leak(c2)
            kp = bor(*[f[1](o) if isinstance(f, tuple) else o == (f.p.obj if isinstance(f, View) else f) for f in keep])
            st.facts.append(fa([o], z3.Implies(band(o >= pre.brk, z3.Select(st.alive, o)), kp), patterns=[z3.Select(st.alive, o)]))
        for nm, e in con.bridge:
            self.assumptions.add('%s: %s' % (name, nm))
            st.assume(e(c2))
        if con.post:
            r2 = con.post(c2)
            if r2 is not None:
                ret = r2
        self.curline = line
        if rt.k == 'ptr' and not self.dry:
            ret = self.norm_ptr(st, ret)
        return ret

    # ------------------------------------------------------------ errno
    def errno_obj(self, st):
        if 'errno' not in self.statics:
            self.statics['errno'] = iv(-500 - len(self.statics))
        o = self.statics['errno']
        if ('g', 'errno') not in st.ghost:
            st.ghost[('g', 'errno')] = TRUE
            st.alive = sto(st.alive, o, TRUE)
            st.size = sto(st.size, o, iv(4))
        return o

    def havoc_errno(self, st):
        if not self.uses_errno:
            return
        o = self.errno_obj(st)
        e = self.fresh('errno')
        st.assume(band(e > 0, e < 4096))
        self.wr(st, 'i32', o, iv(0), e)

    uses_errno = False

    def lib___errno_location(self, st, a, at, rt):
        return P(self.errno_obj(st), iv(0))

    # ------------------------------------------------------------ allocation
    def lib_malloc(self, st, a, at, rt):
        p, ok = self.malloc(st, a[0])
        return p

    def lib_calloc(self, st, a, at, rt):
        sz = mul(a[0], a[1])
        p, ok = self.malloc(st, sz)
        o = sub(st.brk, iv(1))
        for k in self.kinds:
            z = fconst(0.0, 4) if SORT[k] == F else self.cmk(fconst(0.0, 4), fconst(0.0, 4)) if SORT[k] == C else iv(0)
            st.mem[k] = sto(st.mem[k], o, z3.K(I, z))
        st.assume(imp(ok, sz < (1 << 64)))
        return p

    def lib_volk_malloc(self, st, a, at, rt):
        p, ok = self.malloc(st, a[0], tag='volk_malloc')
        return p

    def lib_free(self, st, a, at, rt):
        self.free(st, a[0])
        return None

    lib_volk_free = lib_free

    def lib_volk_get_alignment(self, st, a, at, rt):
        r = z3.Const('volk_alignment', I)
        st.assume(bor(*[r == x for x in (1, 8, 16, 32, 64)]))
        return r

    # ------------------------------------------------------------ memory blocks
    def blockmodel(self, st, dst, n, what):
        self.oblige(st, bor(eqi(n, iv(0)), self.valid_goal(st, dst, n)) if not isnum(n) else self.valid_goal(st, dst, n),
                    '%s stays inside a live object' % what, 'mem')

    def copyrange(self, st, dst, src, n):
        olds = dict(st.mem)
        kinds = self.kinds
        ap = getattr(self, 'argptr', None) or []
        if len(ap) == 3 and ap[0] and ap[0] == ap[1]:
            if ap[0] not in kinds:
                raise NeedKind(ap[0])
            kinds = [ap[0]]         # elements of one scalar type copied between arrays of that type (effective-type rule)
        for k in kinds:
            E = ESZ[k]
            lo_p, hi_p, lo_f, hi_f = self.brange(k, dst.off, n)
            d = divexact(sub(dst.off, src.off), E)
            exact = d is not None and lo_p.eq(lo_f) and hi_p.eq(hi_f)
            srow = self.msel(olds[k], src.obj)
            old = self.msel(olds[k], dst.obj)
            if isnum(lo_p) and isnum(hi_p) and num(hi_p) - num(lo_p) <= 8:
                row = old
                for i in range(num(lo_p), num(hi_p)):
                    if d is not None and num(lo_f) <= i < num(hi_f):
                        row = sto(row, iv(i), sel(srow, sub(iv(i), d)))
                    else:
                        row = sto(row, iv(i), self.fresh('part', SORT[k]))
                st.mem[k] = sto(st.mem[k], dst.obj, row)
                continue
            row = self.fresh('cpy_' + k, z3.ArraySort(I, SORT[k]))
            j = z3.Const('j', I)
            inp = band(lo_p <= j, j < hi_p)
            inf = inp if exact else band(lo_f <= j, j < hi_f)
            if d is None:
                st.assume(fa([j], z3.Implies(bnot(inp), z3.Select(row, j) == z3.Select(old, j)), patterns=[z3.Select(row, j)]))
            else:
                st.assume(fa([j], band(z3.Implies(inf, z3.Select(row, j) == z3.Select(srow, j - d)),
                                              z3.Implies(bnot(inp), z3.Select(row, j) == z3.Select(old, j))), patterns=[z3.Select(row, j)]))
            st.mem[k] = sto(st.mem[k], dst.obj, row)

    def lib_memcpy(self, st, a, at, rt, overlap=False):
        dst, src, n = a
        hook = self.cenv.access_hook
        if hook and not self.dry:
            hook(self, st, dst, n, True); hook(self, st, src, n, False)
        self.blockmodel(st, dst, n, 'memcpy destination')
        self.blockmodel(st, src, n, 'memcpy source')
        if not overlap:
            self.oblige(st, bor(bnot(eqi(dst.obj, src.obj)), eqi(n, iv(0)), add(dst.off, n) <= src.off, add(src.off, n) <= dst.off),
                        'memcpy source and destination do not overlap', 'overlap')
        self.copyrange(st, dst, src, n)
        return dst

    lib___builtin_memcpy = lib_memcpy

    def lib_memmove(self, st, a, at, rt):
        return self.lib_memcpy(st, a, at, rt, True)

    def lib_memset(self, st, a, at, rt):
        dst, v, n = a
        self.blockmodel(st, dst, n, 'memset')
        for k in self.kinds:
            lo_p, hi_p, lo_f, hi_f = self.brange(k, dst.off, n)
            old = self.mapget(st, k, dst.obj)
            row = self.fresh('set_' + k, z3.ArraySort(I, SORT[k]))
            j = z3.Const('j', I)
            inp = band(lo_p <= j, j < hi_p); inf = band(lo_f <= j, j < hi_f)
            val = None
            if isnum(v) and num(v) == 0:
                val = fconst(0.0, 4) if SORT[k] == F else self.cmk(fconst(0.0, 4), fconst(0.0, 4)) if SORT[k] == C else iv(0)
            elif k == 'u8':
                val = v % 256
            body = z3.Implies(bnot(inp), z3.Select(row, j) == z3.Select(old, j))
            if val is not None:
                body = band(body, z3.Implies(inf, z3.Select(row, j) == val))
            st.assume(fa([j], body, patterns=[z3.Select(row, j)]))
            st.mem[k] = sto(st.mem[k], dst.obj, row)
        return dst

    lib___builtin_memset = lib_memset

    # ------------------------------------------------------------ harmless
    def lib_nop_int(self, st, a, at, rt):
        if rt.k == 'void':
            return None
        return self.arb(st, rt, 'io')

    lib_printf = lib_fprintf = lib_perror = lib_puts = lib_fflush = lib_nop_int

    def lib_strerror(self, st, a, at, rt):
        return self.opaque_string(st)

    def opaque_string(self, st):
        o = iv(-300000)
        if ('s', '?') not in st.ghost:
            st.ghost[('s', '?')] = TRUE
            st.alive = sto(st.alive, o, TRUE)
            st.size = sto(st.size, o, iv(1 << 20))
        return P(o, iv(0))

    # ------------------------------------------------------------ byte order
    def lib_ntohl(self, st, a, at, rt):
        f = uf('bswap32', I, I)
        r = f(a[0])
        st.assume(band(r >= 0, r <= 0xFFFFFFFF, f(r) == a[0]))
        return r
    lib_htonl = lib_ntohl

    def lib_ntohs(self, st, a, at, rt):
        f = uf('bswap16', I, I)
        r = f(a[0])
        st.assume(band(r >= 0, r <= 0xFFFF, f(r) == a[0]))
        return r
    lib_htons = lib_ntohs
    lib___bswap_32 = lib_ntohl
    lib___builtin_bswap32 = lib_ntohl

    # ------------------------------------------------------------ monitors
    def mon_find(self, st, p):
        for m, q in self.moninst:
            rec = cast.complete(q.t.to.rec)
            f = rec.field(m.mutex)
            g = rec.field(m.cond) if m.cond else None
            if z3.is_true(eqi(p.obj, q.p.obj)) or p.obj.eq(q.p.obj):
                if f and isnum(p.off) and num(p.off) == f['off']:
                    return m, q
                if g and isnum(p.off) and num(p.off) == g['off']:
                    return m, q
        return None, None

    def mon_key(self, m, q):
        return (m.struct, q.p.obj.get_id())

    def mon_regs(self, st, m, q):
        c = Ctx(self, st, self.top_args, self.top_tu, pre=self.top_pre)
        return self.regions(c, m.foot(c, q.in_(c)))

    def mon_acquire(self, st, m, q):
        self.havoc_regions(st, self.mon_regs(st, m, q))
        for g in m.ghosts:
            if g in self.con.opts.get('owns', ()) or (g == 'det' and self.con.opts.get('consumer')):
                continue
            st.ghost[g] = self.fresh('g_' + g, st.ghost[g].sort())
        c = Ctx(self, st, self.top_args, self.top_tu, pre=self.top_pre)
        self.sink = st
        for nm, f in m.inv(c, q.in_(c)):
            st.assume(f)

    def mon_release(self, st, m, q, why):
        L = st.locks.get(self.mon_key(m, q))
        snap = L['snap'] if L else None
        c = Ctx(self, st, self.top_args, self.top_tu, pre=self.top_pre)
        self.sink = st
        if m.ghost_step and snap is not None:
            m.ghost_step(self, st, snap, q, why, L)
        c = Ctx(self, st, self.top_args, self.top_tu, pre=self.top_pre)
        for nm, f in m.inv(c, q.in_(c)):
            self.oblige(st, f, 'lock invariant at %s: %s' % (why, nm), 'moninv')
        if m.release and snap is not None:
            cs = Ctx(self, snap, self.top_args, self.top_tu, pre=self.top_pre)
            for nm, f in m.release(cs, c, q, why, L):
                self.oblige(st, f, 'at %s: %s' % (why, nm), 'monrel')

    def held(self, st, m, q):
        L = st.locks.get(self.mon_key(m, q))
        return L['held'] if L else False

    def lib_pthread_mutex_lock(self, st, a, at, rt):
        m, q = self.mon_find(st, a[0])
        if m is None:
            raise Unsupported('mutex without a lock invariant')
        h = self.held(st, m, q)
        self.oblige(st, FALSE if h else TRUE, 'the mutex is not already held when it is locked', 'lock')
        self.mon_acquire(st, m, q)
        s = st.clone()
        st.locks[self.mon_key(m, q)] = {'held': True, 'snap': s, 'bcast': FALSE}
        return iv(0)

    def lib_pthread_mutex_unlock(self, st, a, at, rt):
        m, q = self.mon_find(st, a[0])
        if m is None:
            raise Unsupported('mutex without a lock invariant')
        h = self.held(st, m, q)
        self.oblige(st, TRUE if h is True else FALSE, 'the mutex is held when it is unlocked', 'lock')
        self.mon_release(st, m, q, 'unlock')
        st.locks[self.mon_key(m, q)] = {'held': False}
        return iv(0)

    def lib_pthread_cond_wait(self, st, a, at, rt):
        m, q = self.mon_find(st, a[1])
        if m is None:
            raise Unsupported('mutex without a lock invariant')
        self.oblige(st, TRUE if self.held(st, m, q) is True else FALSE, 'the mutex is held when waiting', 'lock')
        self.mon_release(st, m, q, 'wait')
        self.mon_acquire(st, m, q)
        st.locks[self.mon_key(m, q)] = {'held': True, 'snap': st.clone(), 'bcast': FALSE}
        return iv(0)

    def lib_pthread_cond_broadcast(self, st, a, at, rt):
        m, q = self.mon_find(st, a[0])
        if m is None:
            raise Unsupported('condition variable without a lock invariant')
        L = st.locks.get(self.mon_key(m, q))
        if L and L.get('held'):
            L = dict(L); L['bcast'] = TRUE
            st.locks[self.mon_key(m, q)] = L
        return iv(0)

    def lib_pthread_cond_signal(self, st, a, at, rt):
        m, q = self.mon_find(st, a[0])
        if m is None:
            raise Unsupported('condition variable without a lock invariant')
        L = st.locks.get(self.mon_key(m, q))
        if L and L.get('held'):
            L = dict(L); L['sig'] = TRUE
            st.locks[self.mon_key(m, q)] = L
        return iv(0)

    def lib_pthread_mutex_init(self, st, a, at, rt):
        return iv(0)
    lib_pthread_cond_init = lib_pthread_mutex_destroy = lib_pthread_cond_destroy = lib_pthread_mutex_init

    def lib_abs(self, st, a, at, rt):
        return ite(a[0] >= 0, a[0], -a[0])
    lib_labs = lib_abs


def _mathfn(name, nargs):
    def f(self, st, a, at, rt):
        if self.reals and name in ('cos', 'sin', 'cosf', 'sinf'):
            return self.r_trig(name[:3], a[0])
        return uf('m_' + name, *([F] * (nargs + 1)))(*a)
    return f


for _n in ('sin', 'cos', 'floor', 'ceil', 'round', 'fabs', 'sqrt', 'exp', 'log', 'tan', 'atan', 'log10', 'sinf', 'cosf', 'floorf',
           'ceilf', 'roundf', 'fabsf', 'sqrtf', 'expf', 'logf', 'asin', 'acos', 'lroundf_'):
    setattr(Calls, 'lib_' + _n, _mathfn(_n, 1))
for _n in ('pow', 'fmod', 'atan2', 'powf', 'fmodf', 'atan2f', 'fmax', 'fmin', 'fmaxf', 'fminf'):
    setattr(Calls, 'lib_' + _n, _mathfn(_n, 2))
