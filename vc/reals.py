"""Floating-point arithmetic taken as exact real arithmetic (env.reals): every operation result keeps its identity as a term
of sort F, and its real value val(.) and phase angle ang(.) are given by ground facts.  Angles are real numbers modulo one
turn: rot(A, x) is A turned by x, and adding a multiple of 2*pi leaves an angle as it is.  Constants within 2e-7 of a multiple
of pi are that multiple.  What this drops (rounding, overflow, NaN) is listed in the evidence of every function that uses it."""
import z3, math
from fractions import Fraction
from .sym import *
from .cast import Unsupported

R = z3.RealSort()
ANG = z3.DeclareSort('Angle')
val = z3.Function('val', F, R)
ang = z3.Function('ang', F, ANG)
rot = z3.Function('rot', ANG, R, ANG)
Cos = z3.Function('cos_of', ANG, R)
Sin = z3.Function('sin_of', ANG, R)
creal = z3.Function('creal', C, F)
cimag = z3.Function('cimag', C, F)
cmkf = z3.Function('cmk', F, F, C)
PI = z3.Const('pi', R)
NOTE = 'machine floating point is treated as exact real arithmetic (no rounding, overflow or NaN); constants close to multiples of pi are those multiples'


def pimult(f):
    """k when f is (within float rounding) k * pi, k a small non-zero integer"""
    k = round(f / math.pi)
    if k != 0 and abs(k) <= 8 and abs(f - k * math.pi) <= 2e-7 * abs(f):
        return k
    return None


def rconst(f):
    k = pimult(f)
    if k is not None:
        return PI * k
    fr = Fraction(f)
    return z3.RealVal(str(fr))


class Reals:
    """mixed into the engine"""

    def rax(self, f):
        if not hasattr(self, 'raxseen'):
            self.raxseen = set()
            self.assumptions.add(NOTE)
            self.raxkeep = []
            self.axioms.append(z3.And(PI > z3.RealVal('3.14159'), PI < z3.RealVal('3.1416')))
        i = f.get_id()
        if i not in self.raxseen:
            self.raxseen.add(i); self.raxkeep.append(f)
            self.axioms.append(f)

    def rv(self, x):
        from .eng import fval
        f = fval(x)
        if f is not None and f == f and abs(f) != float('inf'):
            return rconst(f)
        return val(x)

    def isc(self, x, c):
        from .eng import fval
        f = fval(x)
        return f is not None and f == c

    def r_const(self, f, size):
        from .eng import fconst
        t = fconst(f, size)
        self.rax(val(t) == rconst(float(t.decl().name()[3:])))
        return t

    def r_arith(self, op, a, b, size):
        from .eng import fval, fconst
        if op in ('+', '-') and self.isc(b, 0.0):
            return a
        if op == '+' and self.isc(a, 0.0):
            return b
        if op == '-' and self.isc(a, 0.0):
            return self.r_neg(b, size)
        if op == '*' and (self.isc(a, 0.0) or self.isc(b, 0.0)):
            return fconst(0.0, 8)
        if op in ('*', '/') and self.isc(b, 1.0):
            return a
        if op == '*' and self.isc(a, 1.0):
            return b
        fa, fb = fval(a), fval(b)
        if fa is not None and fb is not None:
            try:
                return self.r_const({'+': lambda: fa + fb, '-': lambda: fa - fb, '*': lambda: fa * fb, '/': lambda: fa / fb}[op](), size)
            except (ZeroDivisionError, OverflowError):
                pass
        if op in ('+', '*') and a.get_id() > b.get_id():
            a, b = b, a
            fa, fb = fb, fa
        r = z3.Function({'+': 'radd', '-': 'rsub', '*': 'rmul', '/': 'rdiv'}[op], F, F, F)(a, b)
        va, vb = self.rv(a), self.rv(b)
        if op == '+':
            self.rax(z3.And(val(r) == va + vb, ang(r) == self.turn(a, b), ang(r) == self.turn(b, a)))
        elif op == '-':
            self.rax(z3.And(val(r) == va - vb, ang(r) == self.turn(a, b, -1)))
        elif op == '*':
            self.rax(val(r) == va * vb)
        else:
            self.rax(z3.Implies(vb != 0, val(r) * vb == va))
        for x in (a, b):
            f = fval(x)
            if f is not None:
                self.rax(val(x) == rconst(f))
        return r

    def turn(self, a, b, sign=1):
        from .eng import fval
        fb = fval(b)
        if fb is not None:
            k = pimult(fb)
            if fb == 0 or (k is not None and k % 2 == 0):
                return ang(a)
            if k is not None:
                return rot(ang(a), PI * (sign * k))
        return rot(ang(a), self.rv(b) if sign > 0 else -self.rv(b))

    def r_neg(self, v, size=8):
        from .eng import fval
        f = fval(v)
        if f is not None:
            return self.r_const(-f, size)
        r = z3.Function('rneg', F, F)(v)
        self.rax(val(r) == -val(v))
        return r

    def r_cmp(self, op, a, b):
        x, y = self.rv(a), self.rv(b)
        return {'<': x < y, '>': x > y, '<=': x <= y, '>=': x >= y, '==': x == y, '!=': x != y}[op]

    def r_i2f(self, v):
        r = z3.Function('ri2f', I, F)(v)
        self.rax(val(r) == z3.ToReal(v))
        return r

    def r_cmk(self, a, b):
        r = cmkf(a, b)
        self.rax(z3.And(creal(r) == a, cimag(r) == b))
        return r

    def r_re(self, c):
        if z3.is_app(c) and c.decl().name() == 'cmk':
            return c.arg(0)
        return creal(c)

    def r_im(self, c):
        if z3.is_app(c) and c.decl().name() == 'cmk':
            return c.arg(1)
        return cimag(c)

    def r_cx(self, x):
        from .eng import fconst
        return x if x.sort() == C else self.r_cmk(x, fconst(0.0, 8))

    def r_carith(self, op, a, b, size=8):
        a, b = self.r_cx(a), self.r_cx(b)
        ar, ai, br, bi = self.r_re(a), self.r_im(a), self.r_re(b), self.r_im(b)
        A = lambda o, x, y: self.r_arith(o, x, y, size)
        if op in ('+', '-'):
            return self.r_cmk(A(op, ar, br), A(op, ai, bi))
        if op == '*':
            return self.r_cmk(A('-', A('*', ar, br), A('*', ai, bi)), A('+', A('*', ar, bi), A('*', ai, br)))
        if self.isc(bi, 0.0):
            return self.r_cmk(A('/', ar, br), A('/', ai, br))
        raise Unsupported('complex division')

    def r_trig(self, name, v):
        r = z3.Function('m_' + name, F, F)(v)
        self.rax(val(r) == (Cos if name == 'cos' else Sin)(ang(v)))
        return r


# ---------------------------------------------------------------- oscillators (specification functions)
turnk = z3.Function('turnk', ANG, R, I, ANG)          # A turned i times by x
stepf = z3.Function('step', I, I, R)                  # 2*pi*f/fs


def osc_axioms():
    A, x, i, f, s = z3.Const('A', ANG), z3.Const('x', R), z3.Const('i', I), z3.Const('f', I), z3.Const('s', I)
    return [z3.ForAll([A, x], turnk(A, x, iv(0)) == A, patterns=[turnk(A, x, iv(0))]),
            z3.ForAll([A, x, i], z3.Implies(i >= 0, turnk(A, x, i + 1) == rot(turnk(A, x, i), x)), patterns=[rot(turnk(A, x, i), x)]),
            z3.ForAll([f, s], z3.Implies(s > 0, stepf(f, s) * z3.ToReal(s) == PI * 2 * z3.ToReal(f)), patterns=[stepf(f, s)])]
