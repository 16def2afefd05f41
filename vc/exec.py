import z3, time
from .sym import *
from .cast import *
from .eng import *
from . import cast

CMP = {'<': lambda a, b: a < b, '<=': lambda a, b: a <= b, '>': lambda a, b: a > b, '>=': lambda a, b: a >= b}


class Exec(Eng):
    # ------------------------------------------------------------ conversions
    def conv(self, st, v, ft, tt, explicit=False):
        """integer conversion ft -> tt"""
        if tt.name == 'bool':
            if ft.name == 'bool':
                return v
            return ite(eqi(v, iv(0)), iv(0), iv(1))
        lo, hi = rng(tt)
        if ft is not None:
            flo, fhi = rng(ft)
            if lo <= flo and fhi <= hi:
                return v
        if isnum(v):
            n = num(v)
            if lo <= n <= hi:
                return v
            n = n & ((1 << (8 * tt.size)) - 1)
            if tt.signed and n > hi:
                n -= 1 << (8 * tt.size)
            return iv(n)
        return self.wrap(st, v, lo, hi, tt)

    def wrap(self, st, v, lo, hi, tt):
        inr = band(v >= lo, v <= hi)
        if not self.dry:
            if self.solve(st, inr, RL_RANGE * self.copts.get('effort', 1)) is True:
                return v
        m = 1 << (8 * tt.size)
        if tt.signed:
            w = (v + (m // 2)) % m - (m // 2)
        else:
            w = v % m
        if self.dry:
            return ite(inr, v, w)
        r = self.fresh('wrap')
        st.assume(band(r >= lo, r <= hi, z3.Implies(inr, r == v), z3.Implies(bnot(inr), r == w)))
        return r

    def truth(self, v, t):
        if t.k == 'ptr':
            return bnot(self.isnull(v))
        if t.k == 'int':
            if is_app_of(v, z3.Z3_OP_ITE) and isnum(v.arg(1)) and isnum(v.arg(2)):
                a, b = num(v.arg(1)), num(v.arg(2))
                if a != 0 and b == 0:
                    return v.arg(0)
                if a == 0 and b != 0:
                    return bnot(v.arg(0))
            return bnot(eqi(v, iv(0)))
        if t.k == 'float':
            f = fval(v)
            if f is not None:
                return TRUE if f != 0 else FALSE
            if self.reals:
                return self.rv(v) != 0
            return bnot(uf('feq', F, F, B)(v, fconst(0.0, 8)))
        raise Unsupported('truth of %r' % t)

    def isnull(self, p):
        o = p.obj
        if isnum(o):
            return TRUE if num(o) == 0 else FALSE
        if is_app_of(o, z3.Z3_OP_ITE) and isnum(o.arg(2)) and num(o.arg(2)) == 0 and is_heapid(o.arg(1)):
            return bnot(o.arg(0))
        if is_heapid_strict(o):
            return FALSE
        return o == 0

    def b2i(self, b):
        return ite(b, iv(1), iv(0))

    # ------------------------------------------------------------ expressions
    def strip(self, n):
        while n['kind'] in ('ParenExpr', 'ConstantExpr', 'FullExpr', 'ExprWithCleanups'):
            n = n['inner'][0]
        return n

    def evb(self, n, st):
        """boolean value (z3 Bool)"""
        n = self.strip(n)
        k = n['kind']
        if k == 'ImplicitCastExpr' and n['castKind'] in ('IntegralToBoolean', 'PointerToBoolean', 'LValueToRValue', 'IntegralCast', 'NoOp', 'FloatingToBoolean'):
            if n['castKind'] in ('IntegralToBoolean', 'PointerToBoolean', 'FloatingToBoolean'):
                return self.evb(n['inner'][0], st)
            if n['castKind'] == 'IntegralCast':
                i = self.strip(n['inner'][0])
                if i['kind'] in ('BinaryOperator', 'UnaryOperator') and i.get('opcode') in ('<', '>', '<=', '>=', '==', '!=', '&&', '||', '!'):
                    return self.evb(i, st)
        if k == 'BinaryOperator':
            op = n['opcode']
            if op in ('&&', '||'):
                a = self.evb(n['inner'][0], st)
                if z3.is_false(a) and op == '&&':
                    return FALSE
                if z3.is_true(a) and op == '||':
                    return TRUE
                cond = a if op == '&&' else bnot(a)
                if not self.pure(n['inner'][1]):
                    s1 = st.branch(cond)
                    b = self.evb(n['inner'][1], s1)
                    s2 = st.branch(bnot(cond))
                    m = self.merge2(s1, s2)
                    self.into(st, m)
                    return band(a, b) if op == '&&' else bor(a, b)
                s1 = st.branch(cond)
                nf = len(s1.facts)
                b = self.evb(n['inner'][1], s1)
                st.facts += s1.facts[nf:]
                return band(a, b) if op == '&&' else bor(a, b)
            if op in ('<', '>', '<=', '>=', '==', '!='):
                return self.compare(n, st)
            if op == ',':
                self.ev(n['inner'][0], st)
                return self.evb(n['inner'][1], st)
        if k == 'UnaryOperator' and n['opcode'] == '!':
            return bnot(self.evb(n['inner'][0], st))
        tu = self.tu
        t = tu.qt(n)
        v = self.ev(n, st)
        return self.truth(v, t)

    def into(self, st, m):
        for a in ('env', 'mem', 'alive', 'size', 'brk', 'facts', 'pc', 'ghost', 'locks', 'root', 'dead'):
            setattr(st, a, getattr(m, a))

    def pure(self, n):
        k = n['kind']
        if k in ('CallExpr', 'CompoundAssignOperator'):
            return False
        if k == 'BinaryOperator' and n['opcode'] == '=':
            return False
        if k == 'UnaryOperator' and n['opcode'] in ('++', '--'):
            return False
        return all(self.pure(x) for x in n.get('inner', []) or [] if isinstance(x, dict) and 'kind' in x)

    def compare(self, n, st):
        op = n['opcode']
        a_n, b_n = n['inner']
        ta = self.tu.qt(a_n); tb = self.tu.qt(b_n)
        a = self.ev(a_n, st); b = self.ev(b_n, st)
        if ta.k == 'ptr' or tb.k == 'ptr':
            if not isinstance(a, P):
                a = NULL
            if not isinstance(b, P):
                b = NULL
            if op in ('==', '!='):
                if isnum(b.obj) and num(b.obj) == 0:
                    e = self.isnull(a)
                elif isnum(a.obj) and num(a.obj) == 0:
                    e = self.isnull(b)
                else:
                    e = band(eqi(a.obj, b.obj), eqi(a.off, b.off))
                return e if op == '==' else bnot(e)
            self.oblige(st, eqi(a.obj, b.obj), 'pointer comparison within one object', 'ptrcmp')
            return self.cmpi(op, a.off, b.off)
        if ta.k == 'float':
            return self.fcmp(op, a, b)
        if ta.k == 'int':
            return self.cmpi(op, a, b)
        raise Unsupported('compare %r' % ta)

    def cmpi(self, op, a, b):
        if op == '==':
            return eqi(a, b)
        if op == '!=':
            return bnot(eqi(a, b))
        d = diff_const(a, b)
        if d is not None:
            r = {'<': d < 0, '<=': d <= 0, '>': d > 0, '>=': d >= 0}[op]
            return TRUE if r else FALSE
        return CMP[op](a, b)

    def fcmp(self, op, a, b):
        fa, fb = fval(a), fval(b)
        if fa is not None and fb is not None:
            r = {'<': fa < fb, '<=': fa <= fb, '>': fa > fb, '>=': fa >= fb, '==': fa == fb, '!=': fa != fb}[op]
            return TRUE if r else FALSE
        if self.reals:
            return self.r_cmp(op, a, b)
        if op == '<':
            return uf('flt', F, F, B)(a, b)
        if op == '>':
            return uf('flt', F, F, B)(b, a)
        if op == '<=':
            return uf('fle', F, F, B)(a, b)
        if op == '>=':
            return uf('fle', F, F, B)(b, a)
        if a.get_id() > b.get_id():
            a, b = b, a
        e = uf('feq', F, F, B)(a, b)
        return e if op == '==' else bnot(e)

    def lv(self, n, st):
        """lvalue: ('var', id, T) or ('mem', P, T)"""
        n = self.strip(n)
        k = n['kind']
        tu = self.tu
        if k == 'DeclRefExpr':
            d = n['referencedDecl']
            did = d['id']
            t = tu.qt(n)
            if did in st.env:
                v = st.env[did]
                if isinstance(v, tuple) and v[0] == 'obj':
                    return ('mem', P(v[1], iv(0)), t)
                return ('var', did, t)
            if d['kind'] in ('FunctionDecl',):
                return ('mem', P(self.funid(d['name']), iv(0)), t)
            if d['kind'] == 'VarDecl':
                return ('mem', P(self.global_obj(st, d), iv(0)), t)
            if d['kind'] == 'ParmVarDecl':
                raise Unsupported('parameter out of scope ' + d.get('name', ''))
            raise Unsupported('reference to ' + str(d))
        if k == 'MemberExpr':
            base = n['inner'][0]
            rec, f = self.field_of(n)
            if n.get('isArrow'):
                p = self.ev(base, st)
            else:
                l = self.lv_or_tmp(base, st)
                if l[0] == 'var':
                    raise Unsupported('member of register struct')
                p = l[1]
            return ('mem', P(p.obj, add(p.off, iv(f['off']))), tu.parse_type(f['qt']))
        if k == 'UnaryOperator' and n['opcode'] == '*':
            p = self.ev(n['inner'][0], st)
            return ('mem', p, tu.qt(n))
        if k == 'ArraySubscriptExpr':
            b, i = n['inner']
            tb = tu.qt(b)
            if tb.k != 'ptr':
                b, i = i, b
                tb = tu.qt(b)
            p = self.ev(b, st)
            x = self.ev(i, st)
            s = t_size(tb.to)
            return ('mem', P(p.obj, add(p.off, mul(x, iv(s)))), tb.to)
        if k == 'CompoundLiteralExpr':
            t = tu.qt(n)
            o = self.local_obj(st, t_size(t))
            v = self.ev_init(n['inner'][0], t, st)
            self.store(st, P(o, iv(0)), t, v, False)
            return ('mem', P(o, iv(0)), t)
        if k in ('ImplicitCastExpr', 'CStyleCastExpr') and n['castKind'] == 'NoOp':
            return self.lv(n['inner'][0], st)
        if k == 'StringLiteral':
            return ('mem', P(self.str_obj(st, n), iv(0)), tu.qt(n))
        if k == 'PredefinedExpr':
            return self.lv(n['inner'][0], st)
        raise Unsupported('lvalue ' + k)

    def lv_or_tmp(self, n, st):
        n = self.strip(n)
        if n['kind'] in ('CallExpr',) or (n['kind'] == 'ImplicitCastExpr' and n['castKind'] == 'LValueToRValue' and False):
            t = self.tu.qt(n)
            v = self.ev(n, st)
            o = self.local_obj(st, t_size(t))
            self.store(st, P(o, iv(0)), t, v, False)
            return ('mem', P(o, iv(0)), t)
        return self.lv(n, st)

    def field_of(self, n):
        did = n['referencedMemberDecl']
        if did in self.tu.fields_by_id:
            r, f = self.tu.fields_by_id[did]
            r.layout(self.tu)
            return r, f
        raise Unsupported('field ' + n.get('name', '?'))

    def funid(self, name):
        if name not in self.funids:
            self.funids[name] = -1 - len(self.funids)
        return iv(self.funids[name])

    def fun_of(self, o):
        if isnum(o):
            for nme, i in self.funids.items():
                if i == num(o):
                    return nme
        return None

    def global_obj(self, st, d):
        nm = d['name']
        if nm not in self.statics:
            self.statics[nm] = iv(-500 - len(self.statics))
        o = self.statics[nm]
        if nm not in self.globals_seen:
            # facts about the program start, valid in every state (nothing releases a global)
            self.globals_seen.add(nm)
            t = self.tu.qt(d)
            try:
                sz = t_size(t)
            except Unsupported:
                sz = 8
            self.axioms.append(z3.Select(z3.Const('alive!0', z3.ArraySort(I, B)), o))
            self.axioms.append(z3.Select(z3.Const('size!0', z3.ArraySort(I, I)), o) == sz)
            g = self.tu.globals.get(nm)
            if g is not None and t.k == 'int':
                init = [x for x in g.get('inner', []) or [] if 'Expr' in x['kind'] or 'Literal' in x['kind'] or 'Operator' in x['kind']]
                # initial value of a global: used only when no function in /repo assigns it
                if init and self.global_const(nm):
                    v = self.ev(init[0], st)
                    k = self.kindres(t, iv(0))
                    if k not in self.kinds:
                        raise NeedKind(k)
                    m = z3.Const('M_%s!0' % k, z3.ArraySort(I, z3.ArraySort(I, SORT[k])))
                    self.axioms.append(z3.Select(z3.Select(m, o), iv(0)) == v)
                    self.constglobals[nm] = v
        return o

    mutable_globals = ()

    def global_const(self, nm):
        import re
        for f in cast.all_sources():
            txt = open(os.path.join(cast.SRC, f), errors='replace').read()
            if re.search(r'\b%s\b\s*(=[^=]|\+\+|--|[-+*/|&^]=)' % nm, txt):
                # its own definition is the only permitted assignment
                if len(re.findall(r'\b%s\b\s*(=[^=]|\+\+|--|[-+*/|&^]=)' % nm, txt)) > 1 or not re.search(r'^[\w\s\*]*\b%s\b\s*=' % nm, txt, re.M):
                    return False
        return True

    def str_obj(self, st, n):
        s = n['value']
        if s not in self.strs:
            self.strs[s] = iv(-200000 - len(self.strs))
        o = self.strs[s]
        if ('s', s) not in st.ghost:
            st.ghost[('s', s)] = TRUE
            st.alive = sto(st.alive, o, TRUE)
            try:
                ln = len(eval('b' + s)) if not s.startswith('L') else len(s)
            except Exception:
                ln = len(s)
            st.size = sto(st.size, o, iv(ln + 1))
        return o

    def rvalue_of(self, l, st):
        if l[0] == 'var':
            v = st.env[l[1]]
            if v is None:
                v = self.arb(st, l[2], 'uninit')
                st.env[l[1]] = v
            return v
        return self.load(st, l[1], l[2])

    def assign(self, l, v, st):
        if l[0] == 'var':
            st.env[l[1]] = v
            self.log('env', l[1])
        else:
            self.store(st, l[1], l[2], v)

    def ev(self, n, st):
        k = n['kind']
        m = getattr(self, 'ev_' + k, None)
        if m is None:
            raise Unsupported('expression ' + k)
        ln = line_of(n)
        if ln:
            self.curline = ln
        return m(n, st)

    def ev_ParenExpr(self, n, st):
        return self.ev(n['inner'][0], st)

    def ev_ConstantExpr(self, n, st):
        return self.ev(n['inner'][0], st)

    def ev_IntegerLiteral(self, n, st):
        return iv(int(n['value']))

    def ev_CharacterLiteral(self, n, st):
        return iv(int(n['value']))

    def ev_FloatingLiteral(self, n, st):
        t = self.tu.qt(n)
        v = n['value']
        try:
            return fconst(float(v), t.size)
        except ValueError:
            return uf('fl_' + v, F) if False else z3.Const('flx_' + v, F)

    def ev_ImaginaryLiteral(self, n, st):
        v = self.ev(n['inner'][0], st)
        return self.cmk(fconst(0.0, 4), v)

    def ev_StringLiteral(self, n, st):
        return P(self.str_obj(st, n), iv(0))

    def ev_PredefinedExpr(self, n, st):
        return self.ev(n['inner'][0], st)

    def ev_DeclRefExpr(self, n, st):
        d = n['referencedDecl']
        if d['kind'] == 'EnumConstantDecl':
            if d['name'] in self.tu.enums:
                return iv(self.tu.enums[d['name']])
            raise Unsupported('enum constant ' + d['name'])
        if d['kind'] == 'FunctionDecl':
            return P(self.funid(d['name']), iv(0))
        l = self.lv(n, st)
        return l[1] if l[0] == 'mem' and l[2].k in ('array', 'func') else self.rvalue_of(l, st)

    def ev_MemberExpr(self, n, st):
        l = self.lv(n, st)
        return self.rvalue_of(l, st)

    ev_ArraySubscriptExpr = ev_MemberExpr
    ev_CompoundLiteralExpr = ev_MemberExpr

    def ev_OpaqueValueExpr(self, n, st):
        return self.ev(n['inner'][0], st)

    def ev_StmtExpr(self, n, st):
        # GNU statement expression (glibc macros): execute and take last expression
        body = n['inner'][0]
        stm = body.get('inner', [])
        for x in stm[:-1]:
            f = self.ex(x, st)
            if f.normal is None or f.brk or f.ret or f.cont:
                raise Unsupported('control flow in statement expression')
            self.into(st, f.normal)
        return self.ev(stm[-1], st)

    def ev_ImplicitCastExpr(self, n, st):
        ck = n['castKind']
        s = n['inner'][0]
        tu = self.tu
        if ck == 'LValueToRValue':
            l = self.lv_or_tmp(s, st)
            return self.rvalue_of(l, st)
        if ck == 'ArrayToPointerDecay':
            l = self.lv_or_tmp(s, st)
            return l[1]
        if ck in ('FunctionToPointerDecay', 'BuiltinFnToFnPtr'):
            return self.ev(s, st)
        if ck in ('NoOp', 'BitCast', 'NonAtomicToAtomic', 'AtomicToNonAtomic', 'LValueBitCast'):
            return self.ev(s, st)
        if ck == 'NullToPointer':
            return NULL
        if ck == 'ToVoid':
            self.ev(s, st)
            return None
        tt = tu.qt(n); ft = tu.qt(s)
        if ck in ('IntegralCast', 'BooleanToSignedIntegral'):
            if tt.name == 'bool':
                return self.b2i(self.evb(s, st))
            v = self.ev(s, st)
            return self.conv(st, v, ft, tt)
        if ck in ('IntegralToBoolean', 'PointerToBoolean', 'FloatingToBoolean'):
            return self.b2i(self.evb(s, st))
        if ck == 'IntegralToFloating':
            v = self.ev(s, st)
            return self.i2f(v, tt)
        if ck == 'FloatingToIntegral':
            v = self.ev(s, st)
            return self.f2i(st, v, tt)
        if ck == 'FloatingCast':
            v = self.ev(s, st)
            f = fval(v)
            if f is not None:
                return fconst(f, tt.size)
            if tt.size >= ft.size:
                return v        # widening is exact
            return v if self.reals else uf('f64to32', F, F)(v)
        if ck in ('FloatingRealToComplex',):
            v = self.ev(s, st)
            return self.cmk(v, fconst(0.0, 4))
        if ck == 'FloatingComplexCast':
            v = self.ev(s, st)
            if tt.size >= ft.size or self.reals:
                return v
            return uf('c128to64', C, C)(v)
        if ck == 'FloatingComplexToReal':
            v = self.ev(s, st)
            return self.r_re(v) if self.reals else uf('creal', C, F)(v)
        if ck == 'PointerToIntegral':
            p = self.ev(s, st)
            return uf('addr', I, I)(p.obj) + p.off
        if ck == 'IntegralToPointer':
            v = self.ev(s, st)
            if isnum(v) and num(v) == 0:
                return NULL
            return self.arb(st, tt, 'intptr')
        raise Unsupported('cast ' + ck)

    ev_CStyleCastExpr = ev_ImplicitCastExpr

    def i2f(self, v, tt):
        if isnum(v) and abs(num(v)) < (1 << 53):
            return fconst(float(num(v)), tt.size)
        if self.reals:
            return self.r_i2f(v)
        return uf('i2f%d' % (tt.size * 8), I, F)(v)

    def f2i(self, st, v, tt):
        f = fval(v)
        if f is not None and abs(f) < 2 ** 62:
            return self.conv(st, iv(int(f)), None, tt)
        h = self.cenv.f2i_hook
        if h:
            r = h(self, st, v, tt)
            if r is not None:
                return r
        r = uf('f2i', F, I)(v)
        lo, hi = rng(tt)
        self.assumptions.add('float-to-integer conversions are taken to be in range of the target type (value abstracted)')
        st.assume(band(r >= lo, r <= hi))
        return r

    def ev_UnaryExprOrTypeTraitExpr(self, n, st):
        if n['name'] != 'sizeof':
            raise Unsupported(n['name'])
        if 'argType' in n:
            t = self.tu.parse_type(n['argType'].get('desugaredQualType', n['argType']['qualType']))
        else:
            t = self.tu.qt(n['inner'][0])
        return iv(t_size(t))

    def ev_UnaryOperator(self, n, st):
        op = n['opcode']
        s = n['inner'][0]
        tu = self.tu
        t = tu.qt(n)
        if op == '&':
            l = self.lv_or_tmp(s, st)
            if l[0] == 'var':
                raise Unsupported('address of register variable')
            return l[1]
        if op == '*':
            l = self.lv(n, st)
            return self.rvalue_of(l, st)
        if op == '!':
            return self.b2i(bnot(self.evb(s, st)))
        if op in ('++', '--'):
            l = self.lv(s, st)
            v = self.rvalue_of(l, st)
            if l[2].k == 'float':
                one = self.r_const(1.0, l[2].size) if self.reals else fconst(1.0, l[2].size)
                nv = self.arith(st, '+' if op == '++' else '-', v, one, l[2], l[2], l[2], n)
            else:
                nv = self.arith(st, '+' if op == '++' else '-', v, iv(1), l[2], INT, l[2], n)
            self.assign(l, nv, st)
            return v if n.get('isPostfix') else nv
        if op == '-':
            v = self.ev(s, st)
            if t.k == 'int':
                return self.arith(st, '-', iv(0), v, t, t, t, n)
            if t.k == 'cfloat':
                if self.reals:
                    return self.r_cmk(self.r_neg(self.r_re(v)), self.r_neg(self.r_im(v)))
                return uf('cneg', C, C)(v)
            f = fval(v)
            if f is not None:
                return fconst(-f, t.size)
            return self.r_neg(v, t.size) if self.reals else uf('fneg', F, F)(v)
        if op == '+':
            return self.ev(s, st)
        if op == '~':
            v = self.ev(s, st)
            if t.signed:
                return sub(iv(-1), v)
            return sub(iv((1 << (8 * t.size)) - 1), v)
        if op == '__extension__':
            return self.ev(s, st)
        if op in ('__real', '__imag'):
            v = self.ev(s, st)
            if self.reals:
                return self.r_re(v) if op == '__real' else self.r_im(v)
            return uf('creal' if op == '__real' else 'cimag', C, F)(v)
        raise Unsupported('unary ' + op)

    def ev_BinaryOperator(self, n, st):
        op = n['opcode']
        a_n, b_n = n['inner']
        tu = self.tu
        if op == '=':
            t = tu.qt(a_n)
            # C leaves the order open; evaluate the right side first (our sources have no conflicting effects)
            if t.k in ('struct',):
                return self.assign_struct(a_n, b_n, t, st)
            v = self.ev(b_n, st)
            l = self.lv(a_n, st)
            self.assign(l, v, st)
            return v
        if op == ',':
            self.ev(a_n, st)
            return self.ev(b_n, st)
        if op in ('<', '>', '<=', '>=', '==', '!=', '&&', '||'):
            return self.b2i(self.evb(n, st))
        a = self.ev(a_n, st)
        b = self.ev(b_n, st)
        return self.arith(st, op, a, b, tu.qt(a_n), tu.qt(b_n), tu.qt(n), n)

    def assign_struct(self, a_n, b_n, t, st):
        l = self.lv(a_n, st)
        s = self.strip(b_n)
        if s['kind'] in ('ImplicitCastExpr', 'CStyleCastExpr') and s['castKind'] in ('LValueToRValue', 'NoOp'):
            s2 = self.strip(s['inner'][0])
            if s2['kind'] == 'CompoundLiteralExpr':
                v = self.ev_init(s2['inner'][0], t, st)
                self.store(st, l[1], t, v)
                return v
        v = self.ev(b_n, st)
        self.store(st, l[1], t, v)
        return v

    def ev_CompoundAssignOperator(self, n, st):
        op = n['opcode'][:-1]
        a_n, b_n = n['inner']
        tu = self.tu
        ta = tu.qt(a_n); tb = tu.qt(b_n)
        b = self.ev(b_n, st)
        l = self.lv(a_n, st)
        a = self.rvalue_of(l, st)
        if ta.k == 'ptr':
            v = self.arith(st, op, a, b, ta, tb, ta, n)
        else:
            ct = tu.parse_type(n['computeResultType'].get('desugaredQualType', n['computeResultType']['qualType']))
            lt = tu.parse_type(n['computeLHSType'].get('desugaredQualType', n['computeLHSType']['qualType']))
            a2 = self.convany(st, a, ta, lt)
            v = self.arith(st, op, a2, b, lt, tb, ct, n)
            v = self.convany(st, v, ct, ta)
        self.assign(l, v, st)
        return v

    def convany(self, st, v, ft, tt):
        if ft.k == tt.k == 'int':
            return self.conv(st, v, ft, tt)
        if ft.k == 'int' and tt.k == 'float':
            return self.i2f(v, tt)
        if ft.k == 'float' and tt.k == 'int':
            return self.f2i(st, v, tt)
        if ft.k == tt.k == 'float':
            f = fval(v)
            if f is not None:
                return fconst(f, tt.size)
            return v if tt.size >= ft.size or self.reals else uf('f64to32', F, F)(v)
        if ft.k == tt.k == 'cfloat':
            return v
        if ft.k == tt.k:
            return v
        raise Unsupported('conversion %r -> %r' % (ft, tt))

    def arith(self, st, op, a, b, ta, tb, t, n):
        if ta.k == 'ptr' or tb.k == 'ptr':
            if op == '-' and ta.k == 'ptr' and tb.k == 'ptr':
                self.oblige(st, eqi(a.obj, b.obj), 'pointer subtraction within one object', 'ptrcmp')
                s = t_size(ta.to)
                d = sub(a.off, b.off)
                q = divexact(d, s)
                return q if q is not None else d / iv(s)
            if tb.k == 'ptr':
                a, b, ta, tb = b, a, tb, ta
            s = t_size(ta.to)
            x = mul(b, iv(s))
            return P(a.obj, add(a.off, x) if op == '+' else sub(a.off, x))
        if t.k == 'float':
            return self.farith(op, a, b, t)
        if t.k == 'cfloat':
            if self.reals:
                return self.r_carith(op, a, b, t.size // 2)
            if op in ('+', '*') and a.get_id() > b.get_id():
                a, b = b, a
            return uf({'+': 'cadd', '-': 'csub', '*': 'cmul', '/': 'cdiv'}[op], C, C, C)(a, b)
        return self.iarith(st, op, a, b, t, n, tb)

    def farith(self, op, a, b, t):
        if self.reals:
            return self.r_arith(op, a, b, t.size)
        fa, fb = fval(a), fval(b)
        if fa is not None and fb is not None and t.size <= 8:
            try:
                r = {'+': lambda: fa + fb, '-': lambda: fa - fb, '*': lambda: fa * fb, '/': lambda: fa / fb}[op]()
                return fconst(r, t.size)
            except (ZeroDivisionError, OverflowError):
                pass
        if op in ('+', '*') and a.get_id() > b.get_id():
            a, b = b, a
        nm = {'+': 'fadd', '-': 'fsub', '*': 'fmul', '/': 'fdiv'}[op] + str(t.size * 8)
        return uf(nm, F, F, F)(a, b)

    def iarith(self, st, op, a, b, t, n, tb=None):
        lo, hi = rng(t)
        if op in ('+', '-', '*'):
            r = add(a, b) if op == '+' else sub(a, b) if op == '-' else mul(a, b)
            if isnum(r) and lo <= num(r) <= hi:
                return r
            inr = band(r >= lo, r <= hi)
            if t.signed:
                self.oblige(st, inr, 'no signed integer overflow in %s' % op, 'overflow')
                return r
            if isnum(r):
                return iv(num(r) % (hi + 1))
            return self.wrap(st, r, lo, hi, t)
        if op in ('/', '%'):
            self.oblige(st, bnot(eqi(b, iv(0))), 'divisor is not zero', 'div0')
            if isnum(a) and isnum(b) and num(b) != 0:
                x, y = num(a), num(b)
                q = abs(x) // abs(y) * (1 if (x >= 0) == (y >= 0) else -1)
                return iv(q if op == '/' else x - q * y)
            if t.signed:
                # C truncates toward zero
                q = ite(a >= 0, a / b, -((-a) / b))
                nonneg = self.dry == 0 and self.solve(st, band(a >= 0, b > 0), RL_RANGE) is True
                if nonneg:
                    return a / b if op == '/' else a % b
                r = self.fresh('q')
                st.assume(z3.Implies(b != 0, r == q))
                return r if op == '/' else a - r * b
            if not isnum(b):
                # name quotient and remainder, with their defining (non-linear) facts
                q = self.fresh('quot'); r = self.fresh('rem')
                st.assume(z3.Implies(b > 0, band(a == q * b + r, r >= 0, r < b, q >= 0, q <= a, q == a / b, r == a % b)))
                return q if op == '/' else r
            return a / b if op == '/' else a % b
        if op in ('<<', '>>'):
            if isnum(b):
                s = num(b)
                if op == '>>':
                    if t.signed:
                        return a / iv(1 << s)
                    return a / iv(1 << s)
                r = mul(a, iv(1 << s))
                if t.signed:
                    self.oblige(st, band(r >= lo, r <= hi), 'no overflow in left shift', 'overflow')
                    return r
                return self.wrap(st, r, lo, hi, t) if not isnum(r) else iv(num(r) % (hi + 1))
            r = uf('shl' if op == '<<' else 'shr', I, I, I)(a, b)
            st.assume(band(r >= lo, r <= hi))
            return r
        if op in ('&', '|', '^'):
            if isnum(a) and isnum(b):
                x, y = num(a), num(b)
                return iv(x & y if op == '&' else x | y if op == '|' else x ^ y)
            if op == '&':
                for x, y in ((a, b), (b, a)):
                    if isnum(y):
                        m = num(y)
                        if m >= 0 and (m & (m + 1)) == 0:     # low mask
                            return x % iv(m + 1)
                        # high mask of unsigned: x & ~(k)
                        inv = (hi - m) if not t.signed else (-1 - m)
                        if inv >= 0 and (inv & (inv + 1)) == 0:
                            return x - x % iv(inv + 1)
            r = uf({'&': 'band', '|': 'bor', '^': 'bxor'}[op] + str(t.size), I, I, I)(*( (a, b) if a.get_id() < b.get_id() else (b, a)))
            st.assume(band(r >= lo, r <= hi))
            if op == '&':
                st.assume(z3.Implies(band(a >= 0, b >= 0), band(r >= 0, r <= a, r <= b)))
            return r
        raise Unsupported('operator ' + op)

    def ev_ConditionalOperator(self, n, st):
        c_n, a_n, b_n = n['inner']
        c = self.evb(c_n, st)
        if z3.is_true(c):
            return self.ev(a_n, st)
        if z3.is_false(c):
            return self.ev(b_n, st)
        s1 = st.branch(c); s2 = st.branch(bnot(c))
        a = self.ev(a_n, s1); b = self.ev(b_n, s2)
        m = self.merge2(s1, s2)
        self.into(st, m)
        if a is None:
            return None
        return self.mergeval(c, a, b)

    def ev_InitListExpr(self, n, st):
        return self.ev_init(n, self.tu.qt(n), st)

    def ev_ImplicitValueInitExpr(self, n, st):
        return self.zero(self.tu.qt(n))

    def ev_init(self, n, t, st):
        n = self.strip(n)
        if n['kind'] == 'ImplicitValueInitExpr':
            return self.zero(t)
        if n['kind'] != 'InitListExpr':
            return self.ev(n, st)
        if t.k not in ('struct', 'array'):
            inner = n.get('inner') or []
            return self.ev_init(inner[0], t, st) if inner else self.zero(t)
        leaves = []
        if t.k == 'struct':
            inner = n.get('inner') or []
            if t.rec.union:
                z = self.zero(t)
                seen = {}
                for o, lt, v in z.leaves:
                    seen[(o, repr(lt))] = (o, lt, v)
                return SVal(list(seen.values()))
            for f, x in zip(t.rec.fields, inner):
                ft = self.tu.parse_type(f['qt'])
                v = self.ev_init(x, ft, st)
                if isinstance(v, SVal):
                    leaves += [(f['off'] + o, lt, lv) for o, lt, lv in v.leaves]
                elif ft.k == 'array':
                    raise Unsupported('array initialiser')
                else:
                    leaves.append((f['off'], ft, v))
            for f in t.rec.fields[len(inner):]:
                ft = self.tu.parse_type(f['qt'])
                z = self.zero(ft)
                if isinstance(z, SVal):
                    leaves += [(f['off'] + o, lt, lv) for o, lt, lv in z.leaves]
                else:
                    leaves.append((f['off'], ft, z))
            return SVal(leaves)
        inner = n.get('inner') or []
        if n.get('array_filler'):
            inner = [x for x in n['array_filler'] if x['kind'] != 'ImplicitValueInitExpr'] if not inner else inner
        s = t_size(t.to)
        for i in range(t.n or len(inner)):
            if i < len(inner):
                v = self.ev_init(inner[i], t.to, st)
            else:
                v = self.zero(t.to)
            if isinstance(v, SVal):
                leaves += [(i * s + o, lt, lv) for o, lt, lv in v.leaves]
            else:
                leaves.append((i * s, t.to, v))
        return SVal(leaves)

    def ev_CallExpr(self, n, st):
        return self.call(n, st)

    def ev_VAArgExpr(self, n, st):
        raise Unsupported('va_arg')

    # ------------------------------------------------------------ statements
    def ex(self, n, st):
        ln = line_of(n)
        if ln:
            self.curline = ln
        k = n['kind']
        m = getattr(self, 'ex_' + k, None)
        if m:
            return m(n, st)
        # expression statement
        self.ev(n, st)
        f = Flow()
        f.normal = None if st.dead else st
        return f

    def ex_NullStmt(self, n, st):
        f = Flow(); f.normal = st
        return f

    def ex_CompoundStmt(self, n, st):
        f = Flow()
        cur = st
        for x in n.get('inner', []) or []:
            if cur is None:
                break
            g = self.ex(x, cur)
            f.brk += g.brk; f.cont += g.cont; f.ret += g.ret
            cur = g.normal
        f.normal = cur
        return f

    def ex_DeclStmt(self, n, st):
        for d in n.get('inner', []) or []:
            if d['kind'] != 'VarDecl':
                continue
            self.declare(d, st)
        f = Flow(); f.normal = st
        return f

    def declare(self, d, st):
        t = self.tu.qt(d)
        init = [x for x in d.get('inner', []) or [] if x['kind'].endswith('Expr') or x['kind'].endswith('Literal') or x['kind'].endswith('Operator')]
        if d.get('storageClass') == 'static':
            raise Unsupported('static local ' + d['name'])
        self.vars[d['id']] = (d['name'], t)
        if d['id'] in self.addr_taken or t.k in ('struct', 'array'):
            key = ('lobj', d['id'], len(self.stack))
            if key in self.lobjs:
                o = self.lobjs[key]
                self.mk_alive(st, o, t_size(t))
                big = t.k == 'array' or t.k == 'struct'
                self.havoc_row(st, o, None)
            else:
                o = self.local_obj(st, t_size(t))
                self.lobjs[key] = o
                self.havoc_row(st, o, None)
            st.env[d['id']] = ('obj', o)
            self.log('env', d['id'])
            if init:
                if t.k == 'array' and t_size(t) > 2048:
                    self.assumptions.add('contents of the constant table %s are not modelled' % d['name'])
                    return
                v = self.ev_init(init[0], t, st) if t.k in ('struct', 'array') else self.ev(init[0], st)
                if t.k == 'array' and not isinstance(v, SVal):
                    return
                self.store(st, P(o, iv(0)), t, v, False)
            return
        if init:
            st.env[d['id']] = None
            v = self.ev(init[0], st)
            st.env[d['id']] = v
        else:
            st.env[d['id']] = None
        self.log('env', d['id'])

    def ex_ReturnStmt(self, n, st):
        f = Flow()
        v = None
        inner = n.get('inner') or []
        if inner:
            v = self.ev(inner[0], st)
        f.ret = [(st, v)]
        return f

    def ex_BreakStmt(self, n, st):
        f = Flow(); f.brk = [st]
        return f

    def ex_ContinueStmt(self, n, st):
        f = Flow(); f.cont = [st]
        return f

    def split(self, st, c):
        """states for c true / false (None when certainly infeasible)"""
        if z3.is_true(c):
            return st, None
        if z3.is_false(c):
            return None, st
        a = st.branch(c)
        b = st.branch(bnot(c))
        self.learn(a, c); self.learn(b, bnot(c))
        if not self.dry:
            if not self.feasible(a):
                a = None
            elif not self.feasible(b):
                b = None
        return a, b

    def learn(self, st, c):
        """propagate the outcome of an allocation test into the terms"""
        pos = True
        e = c
        if z3.is_not(e):
            e = e.arg(0); pos = False
        if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.decl().name() in self.okterms:
            pairs = [(e, TRUE if pos else FALSE)]
            it, o = self.okterms[e.decl().name()]
            pairs.insert(0, (it, o if pos else iv(0)))
            self.subst(st, pairs)
        elif z3.is_and(c):
            for x in c.children():
                self.learn(st, x)
        elif z3.is_not(c) and z3.is_or(c.arg(0)):
            for x in c.arg(0).children():
                self.learn(st, bnot(x))

    def subst(self, st, pairs):
        def s(x):
            if isinstance(x, z3.ExprRef):
                return z3.substitute(x, *pairs)
            if isinstance(x, P):
                return P(z3.substitute(x.obj, *pairs), z3.substitute(x.off, *pairs))
            if isinstance(x, SVal):
                return SVal([(o, t, s(v)) for o, t, v in x.leaves])
            return x
        for k in list(st.env):
            st.env[k] = s(st.env[k])
        for k in ('po', 'pf'):
            st.mem[k] = s(st.mem[k])
        for k in KINDS:
            if k not in ('po', 'pf'):
                st.mem[k] = s(st.mem[k])
        st.alive = s(st.alive); st.size = s(st.size)
        for k in list(st.ghost):
            st.ghost[k] = s(st.ghost[k])

    def ex_IfStmt(self, n, st):
        inner = n['inner']
        f = Flow()
        c = self.evb(inner[0], st)
        a, b = self.split(st, c)
        outs = []
        if a is not None:
            g = self.ex(inner[1], a)
            f.brk += g.brk; f.cont += g.cont; f.ret += g.ret
            if g.normal is not None:
                outs.append(g.normal)
        if b is not None:
            if n.get('hasElse') and len(inner) > 2:
                g = self.ex(inner[2], b)
                f.brk += g.brk; f.cont += g.cont; f.ret += g.ret
                if g.normal is not None:
                    outs.append(g.normal)
            else:
                outs.append(b)
        f.normal = self.merge(outs)
        return f

    def ex_SwitchStmt(self, n, st):
        f = Flow()
        v = self.ev(n['inner'][0], st)
        body = n['inner'][1]
        items = []   # (labels or None, stmt)
        labels = []

        def flat(x):
            labs = []
            while x['kind'] in ('CaseStmt', 'DefaultStmt'):
                if x['kind'] == 'CaseStmt':
                    labs.append(self.ev(x['inner'][0], st))
                    x = x['inner'][-1]
                else:
                    labs.append('default')
                    x = x['inner'][0]
            return labs, x
        for x in body.get('inner', []) or []:
            labs, s = flat(x)
            items.append((labs, s))
            labels += [l for l in labs if not isinstance(l, str)]
        anycase = bor(*[eqi(v, l) for l in labels]) if labels else FALSE
        cur = None
        has_default = False
        for labs, s in items:
            if labs:
                conds = []
                for l in labs:
                    if isinstance(l, str):
                        has_default = True
                        conds.append(bnot(anycase))
                    else:
                        conds.append(eqi(v, l))
                c = bor(*conds)
                ent, _ = self.split(st, c)
                cands = [x for x in (cur, ent) if x is not None]
                cur = self.merge(cands)
            if cur is None:
                continue
            g = self.ex(s, cur)
            f.ret += g.ret; f.cont += g.cont
            f.brk += g.brk
            cur = g.normal
        outs = list(f.brk)
        f.brk = []
        if cur is not None:
            outs.append(cur)
        if not has_default:
            ent, _ = self.split(st, bnot(anycase))
            if ent is not None:
                outs.append(ent)
        f.normal = self.merge(outs)
        return f

    def ex_LabelStmt(self, n, st):
        return self.ex(n['inner'][0], st)

    def ex_GotoStmt(self, n, st):
        raise Unsupported('goto')

    def ex_WhileStmt(self, n, st):
        c, b = n['inner'][0], n['inner'][1]
        return self.loop(n, st, c, b, None, False)

    def ex_DoStmt(self, n, st):
        b, c = n['inner'][0], n['inner'][1]
        return self.loop(n, st, c, b, None, True)

    def ex_ForStmt(self, n, st):
        init, _, c, inc, b = n['inner']
        if init and init.get('kind'):
            f = self.ex(init, st)
            st = f.normal
        return self.loop(n, st, c if c and c.get('kind') else None, b, inc if inc and inc.get('kind') else None, False)

    # ------------------------------------------------------------ function bodies
    def collect_addr(self, body):
        out = set()

        def base(n):
            n = self.strip(n)
            if n['kind'] == 'DeclRefExpr':
                out.add(n['referencedDecl']['id'])
            elif n['kind'] == 'MemberExpr' and not n.get('isArrow'):
                base(n['inner'][0])
            elif n['kind'] == 'ArraySubscriptExpr':
                b = self.strip(n['inner'][0])
                if b['kind'] == 'ImplicitCastExpr' and b['castKind'] == 'ArrayToPointerDecay':
                    base(b['inner'][0])

        def walk(n):
            if not isinstance(n, dict) or 'kind' not in n:
                return
            if n['kind'] == 'UnaryOperator' and n['opcode'] == '&':
                base(n['inner'][0])
            for x in n.get('inner', []) or []:
                walk(x)
        walk(body)
        return out

    def run_body(self, fn, tu, args, st):
        """execute a function body with given argument values: list of (state, retval)"""
        old_tu = getattr(self, 'tu', None)
        self.tu = tu
        self.stack.append(fn['name'])
        self.addr_taken |= self.collect_addr(fn['_body'])
        for p, a in zip(fn['_params'], args):
            t = tu.qt(p)
            self.vars[p['id']] = (p.get('name', ''), t)
            if p['id'] in self.addr_taken or t.k == 'struct':
                o = self.local_obj(st, t_size(t))
                self.havoc_row(st, o, None)
                st.env[p['id']] = ('obj', o)
                self.store(st, P(o, iv(0)), t, a, False)
            else:
                st.env[p['id']] = a
        f = self.ex(fn['_body'], st)
        rets = list(f.ret)
        if f.normal is not None:
            rets.append((f.normal, None))
        self.stack.pop()
        self.tu = old_tu
        return rets
