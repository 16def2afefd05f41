"""sdrv: forward symbolic verification-condition generator over clang's AST.

Values
  int      z3 Int (mathematical; C conversions are explicit, see Eng.conv)
  pointer  P(obj, off)  obj: z3 Int object id (0 NULL, <0 statics/locals/functions, >0 heap), off: bytes
  float    z3 uninterpreted sort F (float ops are uninterpreted functions unless a contract gives axioms)
  complex  z3 uninterpreted sort C
Memory     one map per scalar kind: Array(obj -> Array(index -> value)), index = byte offset / size
"""
import z3, time, os, sys
from .cast import *
from . import cast

I = z3.IntSort()
B = z3.BoolSort()
F = z3.DeclareSort('F')     # float/double values
C = z3.DeclareSort('Cx')    # complex values
RowI = z3.ArraySort(I, I)
RowF = z3.ArraySort(I, F)
RowC = z3.ArraySort(I, C)

KINDS = ['i8', 'u8', 'i16', 'u16', 'i32', 'u32', 'i64', 'u64', 'f32', 'f64', 'c64', 'c128', 'po', 'pf', 'u32@2']
ESZ = {'i8': 1, 'u8': 1, 'i16': 2, 'u16': 2, 'i32': 4, 'u32': 4, 'i64': 8, 'u64': 8, 'f32': 4, 'f64': 8,
       'c64': 8, 'c128': 16, 'po': 8, 'pf': 8, 'u32@2': 4}
RES = {'u32@2': 2}
SORT = {}
for k_ in KINDS:
    SORT[k_] = F if k_ in ('f32', 'f64') else C if k_ in ('c64', 'c128') else I

TRUE = z3.BoolVal(True)
FALSE = z3.BoolVal(False)
_iv = {}


def iv(n):
    if n not in _iv:
        _iv[n] = z3.IntVal(n)
    return _iv[n]


def isnum(e):
    return z3.is_int_value(e)


def num(e):
    return e.as_long()


def add(a, b):
    if isnum(a) and isnum(b):
        return iv(num(a) + num(b))
    if isnum(a) and num(a) == 0:
        return b
    if isnum(b) and num(b) == 0:
        return a
    if isnum(b) and z3.is_add(a):
        ch = a.children()
        if isnum(ch[-1]):
            r = ch[0] if len(ch) == 2 else z3.Sum(ch[:-1])
            return add(r, iv(num(ch[-1]) + num(b)))
    return a + b


def sub(a, b):
    if isnum(b):
        return add(a, iv(-num(b)))
    if a.eq(b):
        return iv(0)
    if z3.is_add(a):
        ch = a.children()
        for i, x in enumerate(ch):
            if x.eq(b):
                r = ch[:i] + ch[i + 1:]
                return r[0] if len(r) == 1 else z3.Sum(r)
    return a - b


def mul(a, b):
    if isnum(a) and isnum(b):
        return iv(num(a) * num(b))
    if isnum(a):
        a, b = b, a
    if isnum(b):
        if num(b) == 0:
            return iv(0)
        if num(b) == 1:
            return a
        if z3.is_mul(a) and a.num_args() == 2 and isnum(a.arg(0)):
            return mul(a.arg(1), iv(num(a.arg(0)) * num(b)))
        if z3.is_add(a):
            r = iv(0)
            for x in a.children():
                r = add(r, mul(x, b))
            return r
        return b * a
    return a * b


def divexact(e, n):
    """e / n when syntactically divisible, else None"""
    if n == 1:
        return e
    if isnum(e):
        return iv(num(e) // n) if num(e) % n == 0 else None
    if z3.is_mul(e):
        ch = e.children()
        if isnum(ch[0]) and num(ch[0]) % n == 0:
            c = num(ch[0]) // n
            rest = ch[1] if len(ch) == 2 else z3.Product(ch[1:])
            return mul(rest, iv(c))
        return None
    if z3.is_add(e):
        r = iv(0)
        for x in e.children():
            d = divexact(x, n)
            if d is None:
                return None
            r = add(r, d)
        return r
    if z3.is_sub(e):
        ds = [divexact(x, n) for x in e.children()]
        if any(d is None for d in ds):
            return None
        r = ds[0]
        for d in ds[1:]:
            r = sub(r, d)
        return r
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE:
        a = divexact(e.arg(1), n); b = divexact(e.arg(2), n)
        if a is None or b is None:
            return None
        return ite(e.arg(0), a, b)
    return None


def ite(c, a, b):
    if a is b or a.eq(b):
        return a
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    return z3.If(c, a, b)


def band(*xs):
    ys = []
    for x in xs:
        if z3.is_true(x):
            continue
        if z3.is_false(x):
            return FALSE
        ys.append(x)
    if not ys:
        return TRUE
    if len(ys) == 1:
        return ys[0]
    return z3.And(ys)


def bor(*xs):
    ys = []
    for x in xs:
        if z3.is_false(x):
            continue
        if z3.is_true(x):
            return TRUE
        ys.append(x)
    if not ys:
        return FALSE
    if len(ys) == 1:
        return ys[0]
    return z3.Or(ys)


def bnot(x):
    if z3.is_true(x):
        return FALSE
    if z3.is_false(x):
        return TRUE
    if z3.is_not(x):
        return x.arg(0)
    return z3.Not(x)


def eqi(a, b):
    if a.eq(b):
        return TRUE
    if isnum(a) and isnum(b):
        return TRUE if num(a) == num(b) else FALSE
    d = diff_const(a, b)
    if d is not None:
        return TRUE if d == 0 else FALSE
    return a == b


def lincomb(e):
    """(const, base) with e == base + const, base None when numeral"""
    if isnum(e):
        return num(e), None
    if z3.is_add(e):
        ch = e.children()
        if isnum(ch[-1]):
            r = ch[0] if len(ch) == 2 else z3.Sum(ch[:-1])
            return num(ch[-1]), r
        if isnum(ch[0]):
            r = ch[1] if len(ch) == 2 else z3.Sum(ch[1:])
            return num(ch[0]), r
    return 0, e


def diff_const(a, b):
    ca, ba = lincomb(a)
    cb, bb = lincomb(b)
    if ba is None and bb is None:
        return ca - cb
    if ba is not None and bb is not None and ba.eq(bb):
        return ca - cb
    return None


class P:
    __slots__ = ('obj', 'off')

    def __init__(self, obj, off):
        self.obj = obj; self.off = off

    def __repr__(self):
        return 'P(%s,%s)' % (self.obj, self.off)


NULL = P(iv(0), iv(0))


class SVal:
    """struct rvalue: list of (offset, scalar type, value); row copies for big arrays: (offset,'row',kind,row,base,n)"""

    def __init__(self, leaves):
        self.leaves = leaves


class Obl:
    __slots__ = ('fn', 'name', 'line', 'status', 'time', 'detail', 'goal', 'kind')

    def __init__(self, fn, name, line, kind):
        self.fn = fn; self.name = name; self.line = line; self.kind = kind
        self.status = None; self.time = 0; self.detail = ''; self.goal = None

    def dict(self):
        return {'function': self.fn, 'name': self.name, 'line': self.line, 'status': self.status,
                'time': round(self.time, 3), 'detail': self.detail[:3000]}


class St:
    __slots__ = ('env', 'mem', 'alive', 'size', 'brk', 'facts', 'pc', 'ghost', 'locks', 'root', 'dead', 'ver')

    def clone(self):
        s = St()
        s.env = dict(self.env); s.mem = dict(self.mem); s.alive = self.alive; s.size = self.size
        s.brk = self.brk; s.facts = list(self.facts); s.pc = list(self.pc); s.ghost = dict(self.ghost)
        s.locks = dict(self.locks); s.root = self.root; s.dead = self.dead
        return s

    def guard(self):
        return band(*self.pc)

    def assume(self, f, eng=None):
        if f is None or z3.is_true(f):
            return
        g = self.pc
        if g:
            self.facts.append(z3.Implies(band(*g), f) if len(g) else f)
        else:
            self.facts.append(f)

    def branch(self, c):
        s = self.clone()
        s.pc.append(c)
        if z3.is_false(c):
            s.dead = True
        return s


def sel(m, i):
    """select with store-chain walking; m: Array"""
    depth = 0
    while True:
        if z3.is_app(m):
            k = m.decl().kind()
            if k == z3.Z3_OP_STORE:
                j = m.arg(1)
                if j.eq(i):
                    return m.arg(2)
                d = diff_const(i, j)
                if d is not None:
                    if d == 0:
                        return m.arg(2)
                    m = m.arg(0)
                    continue
                if distinct_ids(i, j):
                    m = m.arg(0)
                    continue
                break
            if k == z3.Z3_OP_ITE:
                key = (m.get_id(), i.get_id())
                if key in _selcache:
                    return _selcache[key][0]
                a = sel(m.arg(1), i); b = sel(m.arg(2), i)
                r = ite(m.arg(0), a, b)
                _selcache[key] = (r, m, i)
                return r
            if k == z3.Z3_OP_CONST_ARRAY:
                return m.arg(0)
        break
    return z3.Select(m, i)


_selcache = {}
HEAPIDS_P = set()  # parameter object ids (>= 0)
HEAPIDS = set()   # names of Int constants known to denote heap ids (>0)


def is_heapid(e):
    c, b = lincomb(e)
    if b is None:
        return c > 0
    return c >= 0 and z3.is_const(b) and b.decl().name() in HEAPIDS


def distinct_ids(i, j):
    """a local/static id (negative numeral) never equals a heap id"""
    if isnum(i) and num(i) < 0 and (is_heapid(j) or is_paramid(j)):
        return True
    if isnum(j) and num(j) < 0 and (is_heapid(i) or is_paramid(i)):
        return True
    # an allocation made by the function is never an object its caller handed in
    if is_newid(i) and is_paramid(j) or is_newid(j) and is_paramid(i):
        return True
    return False


def is_paramid(e):
    return z3.is_const(e) and e.decl().name() in HEAPIDS_P


def is_newid(e):
    c, b = lincomb(e)
    return b is not None and c >= 0 and z3.is_const(b) and b.decl().name().startswith('brk!')


def sto(m, i, v):
    if z3.is_app(m) and m.decl().kind() == z3.Z3_OP_STORE and m.arg(1).eq(i):
        m = m.arg(0)
    # writing back what is there
    if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_SELECT and v.arg(0).eq(m) and v.arg(1).eq(i):
        return m
    return z3.Store(m, i, v)


def is_app_of(e, k):
    return z3.is_app(e) and e.decl().kind() == k


INTRANGE = {}
for s_ in (1, 2, 4, 8, 16):
    INTRANGE[(s_, True)] = (-(1 << (8 * s_ - 1)), (1 << (8 * s_ - 1)) - 1)
    INTRANGE[(s_, False)] = (0, (1 << (8 * s_)) - 1)


def rng(t):
    if t.name == 'bool':
        return (0, 1)
    return INTRANGE[(t.size, t.signed)]


def kind_of(t):
    if t.k == 'int':
        return ('i' if t.signed else 'u') + str(t.size * 8)
    if t.k == 'float':
        return 'f32' if t.size == 4 else 'f64'
    if t.k == 'cfloat':
        return 'c64' if t.size == 8 else 'c128'
    raise Unsupported('kind of %r' % t)


class Flow:
    """outcomes of executing a statement"""

    def __init__(self):
        self.normal = None
        self.brk = []
        self.cont = []
        self.ret = []      # (state, value)


class Dead(Exception):
    pass


_BADK = None


def _pat_alts(p, limit=8):
    """alternatives of a pattern with if-then-else terms split out; [] when it cannot serve as a pattern"""
    if z3.is_var(p) or z3.is_const(p) or z3.is_int_value(p):
        return [p]
    if z3.is_quantifier(p):
        return []
    k = p.decl().kind()
    if k == z3.Z3_OP_ITE:
        r = _pat_alts(p.arg(1)) + _pat_alts(p.arg(2))
        return r[:limit]
    if k in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES, z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT):
        return []
    alts = [[]]
    for i, x in enumerate(p.children()):
        if k == z3.Z3_OP_STORE and i == 2:
            xs = _pat_alts(x)
        else:
            xs = _pat_alts(x)
        if not xs:
            return []
        alts = [a + [y] for a in alts for y in xs][:limit]
    return [p.decl()(*a) for a in alts]


def fa(vs, body, patterns=(), **kw):
    if z3.is_true(body):
        return TRUE
    ps = []
    for p in patterns:
        if isinstance(p, z3.PatternRef):
            ps.append(p)
            continue
        ps += _pat_alts(p)
    if ps:
        try:
            return z3.ForAll(vs, body, patterns=ps)
        except z3.Z3Exception:
            pass
    return z3.ForAll(vs, body)
