"""Specification views: contracts are Python lambdas over typed views of symbolic states."""
import z3
from .sym import *
from .cast import *
from .eng import *


class Env:
    """contract environment of one verification run"""

    def __init__(self):
        self.contracts = {}
        self.models = {}
        self.access_hook = None
        self.reals = False
        self.f2i_hook = None
        self.ghost_root = False
        self.indirect = None
        self.monitors = []
        self.ghosts = {}
        self.kinds = None
        self.uses_errno = False
        self.axioms = []
        self.homed = set()

    def copy(self):
        e = Env()
        e.contracts = dict(self.contracts); e.models = dict(self.models)
        e.access_hook = self.access_hook; e.f2i_hook = self.f2i_hook; e.ghost_root = self.ghost_root; e.reals = self.reals
        e.indirect = self.indirect; e.ghosts = dict(self.ghosts); e.kinds = self.kinds; e.uses_errno = self.uses_errno; e.axioms = list(self.axioms); e.homed = set(self.homed)
        return e


class Contract:
    def __init__(self, name, args, requires=(), ensures=(), modifies=None, allocs=False, frees=None,
                 ghosts=(), inv=(), file=None, extern=False, note='', ghost_init=None, monitors=(),
                 leak=None, retlike=None, bridge=(), setup=None, frame=True, opts=None, on_return=None, post=None, exposed=None):
        self.name = name; self.args = args
        self.requires = list(requires); self.ensures = list(ensures)
        self.modifies = modifies or (lambda c: [])
        self.allocs = allocs; self.frees = frees
        self.ghosts = list(ghosts); self.inv = list(inv); self.file = file; self.extern = extern
        self.note = note; self.ghost_init = ghost_init or {}; self.monitors = list(monitors)
        self.leak = leak; self.setup = setup; self.frame = frame; self.opts = opts or {}
        self.on_return = on_return
        self.post = post
        self.exposed = exposed
        self.bridge = list(bridge)


class View:
    __slots__ = ('c', 'p', 't')

    def __init__(self, c, p, t):
        object.__setattr__(self, 'c', c); object.__setattr__(self, 'p', p); object.__setattr__(self, 't', t)

    # pointer basics
    @property
    def o(self):
        return self.p.obj

    @property
    def f(self):
        return self.p.off

    @property
    def null(self):
        return self.c.eng.isnull(self.p)

    @property
    def nn(self):
        return bnot(self.c.eng.isnull(self.p))

    def eq(self, other):
        q = other.p if isinstance(other, View) else other
        return band(eqi(self.p.obj, q.obj), eqi(self.p.off, q.off))

    def elem_t(self):
        return self.t.to

    @property
    def idx(self):
        """element index of the pointer within its object"""
        s = t_size(self.t.to)
        d = divexact(self.p.off, s)
        return d if d is not None else self.p.off / iv(s)

    def valid(self, n=1):
        """n elements live and in bounds"""
        s = t_size(self.t.to)
        nn = mul(n if isinstance(n, z3.ExprRef) else iv(n), iv(s))
        return band(bnot(self.c.eng.isnull(self.p)), self.c.eng.valid_goal(self.c.st, self.p, nn))

    def whole(self, n=1):
        """start of a live heap object of at least n elements"""
        return band(eqi(self.p.off, iv(0)), self.valid(n))

    @property
    def alive(self):
        return sel(self.c.st.alive, self.p.obj)

    @property
    def size(self):
        return sel(self.c.st.size, self.p.obj)

    def __getattr__(self, name):
        t = self.t.to if self.t.k == 'ptr' else self.t
        if t.k != 'struct':
            raise Unsupported('field %s of %r' % (name, t))
        f = complete(t.rec).field(name) if t.rec else None
        if f is None or 'off' not in f:
            raise Unsupported('no field %s in %r' % (name, t))
        ft = f['type'] if 'type' in f else self.c.tu.parse_type(f['qt'])
        return self.c.get(P(self.p.obj, add(self.p.off, iv(f['off']))), ft)

    def __getitem__(self, i):
        i = i if isinstance(i, z3.ExprRef) else iv(i)
        t = self.t.to
        return self.c.get(P(self.p.obj, add(self.p.off, mul(i, iv(t_size(t))))), t)

    def at(self, i):
        """pointer view advanced by i elements"""
        i = i if isinstance(i, z3.ExprRef) else iv(i)
        return View(self.c, P(self.p.obj, add(self.p.off, mul(i, iv(t_size(self.t.to))))), self.t)

    @property
    def deref(self):
        return self.c.get(self.p, self.t.to)

    def as_(self, t):
        return View(self.c, self.p, t)

    def addr(self, name):
        t = self.t.to if self.t.k == 'ptr' else self.t
        f = complete(t.rec).field(name)
        if f is None:
            raise Unsupported('no field %s in %r' % (name, t))
        return View(self.c, P(self.p.obj, add(self.p.off, iv(f['off']))), ptr(f['type']))

    def row(self, kind=None):
        k = kind or kind_of(self.t.to)
        return self.c.eng.mapget(self.c.st, k, self.p.obj)

    def pre(self):
        """same pointer value, seen in the pre-state"""
        return View(self.c.pre, self.p, self.t)

    def in_(self, c):
        return View(c, self.p, self.t)


class Ctx:
    def __init__(self, eng, st, args, tu, ret=None, pre=None, loop=None, extra=None):
        self.eng = eng; self.st = st; self._args = args; self.tu = tu
        self._ret = ret; self._pre = pre; self.loop = loop
        self.extra = extra or {}

    @property
    def pre(self):
        return self._pre if self._pre is not None else self

    def at(self, st):
        return Ctx(self.eng, st, self._args, self.tu, self._ret, self._pre, self.loop, self.extra)

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        if name in self._args:
            v, t = self._args[name]
            return self.wrapv(v, t)
        if name in self.extra:
            return self.extra[name]
        raise Unsupported('contract refers to unknown name ' + name)

    @property
    def ret(self):
        v, t = self._ret
        return self.wrapv(v, t)

    def wrapv(self, v, t):
        if isinstance(v, P):
            return View(self, v, t)
        return v

    def get(self, p, t):
        if t.k == 'array':
            return View(self, p, ptr(t.to))
        if t.k == 'struct':
            return View(self, p, t)
        e = self.eng
        st = self.st
        if t.k == 'ptr':
            i = e.index('po', p.off)
            q = P(e.rd(st, 'po', p.obj, i), e.rd(st, 'pf', p.obj, i))
            return View(self, q, t)
        k = e.kindres(t, p.off)
        v = e.rd(st, k, p.obj, e.index(k, p.off))
        if t.k == 'int' and not isnum(v) and not e.inquant and e.sink is not None:
            lo, hi = rng(t)
            e.sink.facts.append(band(v >= lo, v <= hi))
        return v

    def g(self, name):
        if name not in self.st.ghost:
            raise Unsupported('ghost ' + str(name))
        return self.st.ghost[name]

    def has(self, name):
        return name in self.st.ghost

    def V(self, p, t):
        return View(self, p, t)

    def T(self, s):
        return self.tu.parse_type(s)

    def obj(self, o, tname):
        """typed pointer view to the start of object o"""
        return View(self, P(o, iv(0)), ptr(self.tu.parse_type(tname)))

    def forall(self, body, lo=None, hi=None, pat=None, name='k', sort=I):
        self.eng.n += 1
        j = z3.Const('%s?%d' % (name, self.eng.n), sort)
        self.eng.inquant += 1
        try:
            b = body(j)
            g = []
            if lo is not None:
                g.append(iv(lo) <= j if isinstance(lo, int) else lo <= j)
            if hi is not None:
                g.append(j < (iv(hi) if isinstance(hi, int) else hi))
            f = z3.Implies(band(*g), b) if g else b
            pats = None
            if pat is not None:
                ps = pat(j)
                pats = ps if isinstance(ps, list) else [ps]
        finally:
            self.eng.inquant -= 1
        if z3.is_true(b):
            return TRUE
        if pats:
            return fa([j], f, patterns=pats)
        return fa([j], f)

    # comparing whole objects between states
    def same_obj(self, o, other, kinds=None):
        return band(*[self.eng.mapget(self.st, k, o) == self.eng.mapget(other.st, k, o) for k in (kinds or self.eng.kinds)])

    def fresh_obj(self, o):
        """allocated during the call, alive now"""
        return band(o >= self.pre.st.brk, o < self.st.brk, sel(self.st.alive, o))

    def alive(self, o):
        return sel(self.st.alive, o)


def imp(a, b):
    if z3.is_true(a):
        return b
    if z3.is_false(a) or z3.is_true(b):
        return TRUE
    return z3.Implies(a, b)


def iff(a, b):
    return a == b
