"""Printed expressions (source/pprint.c).

The output stream of the printing functions is read back, token by token, by the reader below: what the verifier
executes is the real printing function, and every string it writes is fed to the reader.  The reader is the grammar of
the target language: C's unary minus, left-associative * / % over + -, parentheses, the two-argument helpers floord,
ceild, min and max; Fortran's MIN/MAX/MOD intrinsics and FLOOR/CEILING of a real quotient.  Its state after a prefix of
the text is

  stk  suspended enclosing expressions      fk  what the innermost bracket is     cn, a1  arguments read so far
  S, N, P  value read so far in this bracket: S + P, or S - P when N              ph  what may come next

and the contracts say: printing tree t advances the reader by an operand/product/sum of value ev(t), and leaves the
enclosing brackets as they were."""
import re
import z3
from collections import namedtuple
from engine import PathDead, iv, ZERO, simp, I, isval, SV
from front import ToolLimit
import models
from models import FDIV, CDIV, MOD, NUMSTR
from spec_clast import (Tree, kind, tval, tvar, nm, bop, bl, br, rty, rn, rel, ev, env, RF, DIVX, rop, trunc_facts, tree_facts, rf_step, rf_zero,
                        NAME, TERM, BIN, RED, SUM, MIN, MAX, BFDIV, BCDIV, BDIV, BMOD)
from spec_data import ISOPT

Stk = z3.DeclareSort('Brackets')
B = z3.BoolSort()
PUSH = z3.Function('push', Stk, I, I, I, I, B, I, I, Stk)
NEST = z3.Function('nest', I, Stk, I, Stk)
REM = z3.Function('c_remainder', I, I, I)
cls = z3.Function('print_class', Tree, I)
ok = z3.Function('printable', Tree, B)
LANG = z3.Function('cloogoptions.language', I, I)
FORTRAN = 1
FALSE = z3.BoolVal(False)
TRUE = z3.BoolVal(True)
Rd = namedtuple('Rd', 'dst lang stk fk cn a1 S N P ph')
# phases: 0 start of an expression, 1 after unary minus, 2 after *, 3 after /, 4 after %, 5 after an operand,
#         6 after binary + or -, 8 after the real quotient of FLOOR/CEILING
GROUP, FLOORD, CEILD, KMIN, KMAX, FLOOR, CEIL, REAL, KMOD = range(9)
FNS = {'floord': (False, FLOORD), 'ceild': (False, CEILD), 'min': (False, KMIN), 'max': (False, KMAX), 'FLOOR': (True, FLOOR),
       'CEILING': (True, CEIL), 'REAL': (True, REAL), 'MOD': (True, KMOD), 'MIN': (True, KMIN), 'MAX': (True, KMAX)}
TOK = re.compile(r'\s+|[A-Za-z_]\w*\(|\d+|==|>=|<=|=|[-+*/%(),]')


def val(r):
    return simp(z3.If(r.N, r.S - r.P, r.S + r.P))


def apply(ph, P, v):
    return {0: v, 6: v, 1: -v, 2: P * v, 3: DIVX(P, v), 4: REM(P, v)}[ph]


def rem_fact(a, b):
    """the truncating remainder of a non-negative number is the floor remainder"""
    return z3.Implies(z3.And(a >= 0, b > 0), REM(a, b) == MOD(a, b))


def push_term(r):
    return PUSH(r.stk, r.fk, r.cn, r.a1, r.S, r.N, r.P, iv(r.ph))


class Reader:
    def __init__(self, eng, st, line):
        self.eng, self.st, self.line = eng, st, line

    def need(self, b, what):
        self.eng.prove(self.st, b, 'printed text: ' + what, self.line)
        if b is False or (z3.is_expr(b) and z3.is_false(b)):
            raise PathDead()

    @property
    def r(self):
        return self.st.g['rd']

    def put(self, **kw):
        self.st.g['rd'] = self.r._replace(**kw)

    def operand(self, v, real=False):
        r = self.r
        self.need(r.ph in (0, 1, 2, 3, 4, 6), 'operator expected before an operand')
        if not real:
            self.need(z3.And(r.fk != FLOOR, r.fk != CEIL), 'FLOOR and CEILING take a real quotient')
        if r.ph in (3, 4):
            self.need(v > 0, 'positive divisor')
        if isval(r.fk) and r.fk.as_long() in (FLOOR, CEIL) and r.ph == 3:
            self.put(P=(FDIV if r.fk.as_long() == FLOOR else CDIV)(r.a1, v), ph=8)
            return
        P = apply(r.ph, r.P, v)
        if r.ph == 4:
            self.st.assume(rem_fact(r.P, v))
        self.put(P=simp(P), ph=5)

    def number(self, v):
        """a number token; a leading minus is the unary or binary operator (the caller split on the sign)"""
        v = simp(v)
        neg = self.eng.entails(self.st, v < 0)
        if neg:
            self.op('-')
            v = simp(-v)
        self.operand(v)

    def op(self, t):
        r = self.r
        if t == '-' and r.ph == 0:
            self.put(ph=1)
        elif t in '+-':
            self.need(r.ph == 5, 'operand expected before ' + t)
            self.put(S=val(r), N=TRUE if t == '-' else FALSE, P=ZERO, ph=6)
        elif t in '*%/':
            self.need(r.ph == 5, 'operand expected before ' + t)
            if t == '%':
                self.need(r.lang != FORTRAN, '% is not an operator of Fortran')
            if isval(r.fk) and r.fk.as_long() in (FLOOR, CEIL):
                self.need(t == '/', 'FLOOR and CEILING take a quotient')
                self.need(z3.And(r.S == 0, z3.Not(r.N)), 'FLOOR and CEILING take a quotient')
                self.put(a1=r.P)
            self.put(ph={'*': 2, '/': 3, '%': 4}[t])
        elif t == '(' or t.endswith('('):
            self.need(r.ph in (0, 1, 2, 3, 4, 6), 'operator expected before ' + t)
            k = GROUP
            if t != '(':
                if t[:-1] not in FNS:
                    self.need(FALSE, 'unknown function ' + t)
                    return
                f, k = FNS[t[:-1]]
                self.need((r.lang == FORTRAN) == f, '%s is not a function of the output language' % t[:-1])
            if k == REAL:
                self.need(z3.Or(r.fk == FLOOR, r.fk == CEIL), 'REAL outside of a quotient')
            else:
                self.need(z3.And(r.fk != FLOOR, r.fk != CEIL), 'FLOOR and CEILING take a real quotient')
            h = push_term(r)
            self.st.g['pushed'] = self.st.g.get('pushed', ()) + ((h, r),)
            self.put(stk=h, fk=iv(k), cn=ZERO, a1=ZERO, S=ZERO, N=FALSE, P=ZERO, ph=0)
        elif t == ',':
            self.need(r.ph == 5, 'operand expected before a comma')
            k = self.kind(r)
            self.need(k in (FLOORD, CEILD, KMIN, KMAX, KMOD), 'comma outside of an argument list')
            if k in (KMIN, KMAX):
                self.need(z3.Or(r.lang == FORTRAN, r.cn == 0), 'min and max take two arguments in C')
                a = simp(z3.If(r.cn == 0, val(r), rop(iv(MIN if k == KMIN else MAX), r.a1, val(r))))
            else:
                self.need(r.cn == 0, 'two arguments')
                a = val(r)
            self.put(a1=a, cn=simp(r.cn + 1), S=ZERO, N=FALSE, P=ZERO, ph=0)
        elif t == ')':
            self.need(r.ph in (5, 8), 'operand expected before )')
            k = self.kind(r)
            self.need(k in range(9), 'closing parenthesis without an opening one')
            v, d = val(r), r.cn
            if k in (FLOORD, CEILD, KMOD):
                self.need(z3.And(r.cn == 1, v > 0), 'two arguments, a positive divisor')
                v = {FLOORD: FDIV, CEILD: CDIV, KMOD: REM}[k](r.a1, v)
                if k == KMOD:
                    self.st.assume(rem_fact(r.a1, val(r)))
            elif k in (KMIN, KMAX):
                self.need(r.cn >= 1, 'min and max take at least two arguments')
                v = rop(iv(MIN if k == KMIN else MAX), r.a1, v)
            elif k in (FLOOR, CEIL):
                self.need(r.ph == 8, 'FLOOR and CEILING take a real quotient')
            for h, p in reversed(self.st.g.get('pushed', ())):
                if h.eq(r.stk):
                    self.st.g['rd'] = p
                    break
            else:
                self.need(FALSE, 'closing parenthesis without an opening one')
                return
            self.operand(simp(v), real=k == REAL)
        elif t in ('==', '>=', '<='):
            self.need(r.ph == 5, 'operand expected before ' + t)
            self.need(z3.And(r.fk == GROUP, r.cn == 0), 'comparison inside of an expression')
            self.put(a1=val(r), cn=iv({'==': 10, '>=': 11, '<=': 12}[t]), S=ZERO, N=FALSE, P=ZERO, ph=0)
        else:
            raise ToolLimit('reader: token %r' % t)

    def kind(self, r):
        return r.fk.as_long() if isval(r.fk) else None

    def literal(self, s):
        p = 0
        while p < len(s):
            m = TOK.match(s, p)
            if not m:
                raise ToolLimit('reader: text %r' % s)
            t = m.group(0)
            p = m.end()
            if t.isspace():
                continue
            if t.isdigit():
                self.operand(iv(int(t)))
            else:
                self.op(t)


def feed(eng, st, stream, t, line):
    """one piece of output; yields the states after it"""
    rd = Reader(eng, st, line)
    rd.need(stream == rd.r.dst, 'written to the given stream')
    if t[0] == 'lit':
        rd.literal(t[1])
        yield st
    elif t[0] == 'num':
        for s2, neg in eng.fork(st, t[1] < 0):
            Reader(eng, s2, line).number(t[1])
            yield s2
    elif t[0] == 'str':
        rd.operand(env(SV(t[1])))
        yield st
    else:
        raise ToolLimit('reader: output piece %r' % (t,))


models.READER = feed


def defs(t):
    """necessary conditions of `printable`, and the class of a tree: 0 operand, 1 product, 2 sum"""
    k = z3.Int('k!q')
    v, b = tvar(t), bl(t)
    return z3.And(
        cls(t) >= 0, cls(t) <= 2,
        z3.Implies(kind(t) == NAME, cls(t) == 0),
        z3.Implies(kind(t) == TERM, z3.And(cls(t) == 1, z3.Implies(z3.And(ok(t), kind(v) != -1), z3.And(ok(v), z3.Or(cls(v) == 0, z3.And(kind(v) == RED, rn(v) > 1)))))),
        z3.Implies(kind(t) == BIN, z3.And(cls(t) == z3.If(bop(t) <= BCDIV, iv(0), iv(1)),
                                          z3.Implies(ok(t), z3.And(ok(b), kind(b) != -1, br(t) > 0,
                                                                   z3.Implies(bop(t) >= BDIV, z3.Or(z3.And(kind(b) == RED, rn(b) > 1), cls(b) <= 1)),
                                                                   z3.Implies(bop(t) == BMOD, ev(b) >= 0))))),
        z3.Implies(kind(t) == RED, z3.And(
            cls(t) == z3.If(rty(t) == SUM, z3.If(rn(t) == 1, iv(1), iv(2)), z3.If(rn(t) == 1, cls(rel(t)[0]), iv(0))),
            z3.Implies(ok(t), z3.And(rn(t) >= 1, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < rn(t)), elem_ok(rty(t), rel(t)[k]))))))))


def elem_ok(ty, t):
    return z3.And(ok(t), kind(t) != -1, z3.Implies(ty == SUM, kind(t) == TERM))


def elem_at(st, t, k):
    st.assume(z3.Implies(z3.And(ok(t), kind(t) == RED, 0 <= k, k < rn(t)), elem_ok(rty(t), rel(t)[k])))


def start(c, dst, opt, phases):
    """reader state at entry of the function"""
    if c.producing:
        if 'rd' not in c.st.g:
            ph = c.pick(list(phases))
            c.st.g['rd'] = Rd(dst, LANG(opt) if opt is not None else c.fresh('lang'), c.fresh('brackets', Stk), c.fresh('fk'), c.fresh('cn'), c.fresh('a1'), c.fresh('S'),
                              z3.Const(c.fresh('N').decl().name() + '_b', B), c.fresh('P'), ph)
        return c.st.g['rd']
    r = c.st.g.get('rd')
    if r is None:
        raise ToolLimit('printing without a reader')
    c.fact(r.dst == dst, 'output stream')
    if opt is not None:
        c.fact(r.lang == LANG(opt), 'output language')
    c.fact(r.ph in phases, 'an operand may come here')
    return r


def outside_quotient(c, r):
    c.fact(z3.And(r.fk != FLOOR, r.fk != CEIL), 'not directly inside of FLOOR or CEILING')


def same_brackets(c, a, b):
    c.fact(z3.And(a.dst == b.dst, a.stk == b.stk, a.fk == b.fk, a.cn == b.cn, a.a1 == b.a1), 'enclosing brackets are unchanged')
    c.fact(a.ph == 5, 'a complete operand was printed')


def after(c, r0):
    """reader state after the function"""
    if c.producing:
        r = r0._replace(S=c.fresh('S'), N=z3.Const(c.fresh('N').decl().name() + '_b', B), P=c.fresh('P'), ph=5)
        c.st.g['rd'] = r
        return r
    return c.st.g['rd']


def install(S):
    P = ['C03']
    E = S.EXPR

    def at_start(r):
        return z3.And(r.ph == 0, r.S == 0, z3.Not(r.N))

    def tree_pre(c, a, fresh=True):
        t = c.pred(E, a)
        c['T'] = t
        c.st.assume(z3.And(tree_facts(t), defs(t)))
        return t

    def tree_post(c, a):
        t = c.pred(E, a)
        c.fact(z3.And(kind(t) == kind(c['T']), ev(t) == ev(c['T'])), 'the tree is unchanged')
        if c.producing:
            c.st.assume(t == c['T'])

    def expr_contract(name, k=None, ty=None, dst=1, opt=0, obj=2, extra=None):
        @S.spec(name, props=P)
        class _:
            def pre(c):
                o = c.a[opt] if opt is not None else None
                if o is not None:
                    c.fact(ISOPT(o), 'options')
                c['r0'] = r = start(c, c.a[dst], o, (0, 1, 2, 6))
                t = tree_pre(c, c.a[obj])
                c.fact(ok(t), 'the tree has a printable shape')
                c.fact(kind(t) != -1, 'there is a tree')
                if k is not None:
                    c.fact(kind(t) == k, 'kind of the tree')
                if ty is not None:
                    c.fact(z3.Or([rty(t) == x for x in ty]), 'kind of the reduction')
                if extra:
                    c.fact(extra(t), 'number of elements')
                if opt is None:
                    c.fact(z3.Implies(cls(t) >= 1, at_start(r)), 'a product or sum starts the bracket')
                else:
                    c.fact(z3.Implies(cls(t) >= 1, at_start(r)), 'a product or sum starts the bracket')
                outside_quotient(c, r)

            def post(c):
                tree_post(c, c.a[obj])
                t, r0 = c['T'], c['r0']
                r = after(c, r0)
                same_brackets(c, r, r0)
                c.fact(z3.Implies(cls(t) == 0, z3.And(r.S == r0.S, r.N == r0.N, r.P == apply(r0.ph, r0.P, ev(t)))), 'an operand with the value of the tree was printed')
                c.fact(z3.Implies(cls(t) == 1, z3.And(r.S == 0, z3.Not(r.N), r.P == ev(t))), 'a product with the value of the tree was printed')
                c.fact(z3.Implies(cls(t) == 2, val(r) == ev(t)), 'a sum with the value of the tree was printed')

    expr_contract('pprint_expr')
    expr_contract('clast_pprint_expr')
    expr_contract('pprint_name', NAME, dst=0, opt=None, obj=1)
    expr_contract('pprint_binary', BIN)
    expr_contract('pprint_reduction', RED)
    expr_contract('pprint_sum', RED, (SUM,))
    expr_contract('pprint_minmax_c', RED, (MIN, MAX), extra=lambda t: rn(t) >= 2)
    expr_contract('pprint_minmax_f', RED, (MIN, MAX), extra=lambda t: rn(t) >= 2)

    def in_lang(name, f):
        """min/max nesting is language specific"""
        ct = S.contracts[name]
        pre0 = ct.pre

        def pre(c):
            pre0(c)
            c.fact((c['r0'].lang == FORTRAN) == f, 'printer of the output language')
        ct.pre = pre
    in_lang('pprint_minmax_c', False)
    in_lang('pprint_minmax_f', True)

    # a term of a sum also continues it: + was printed before a non-negative one, a negative one brings its own sign
    @S.spec('pprint_term', props=P)
    class _:
        def pre(c):
            c.fact(ISOPT(c.a[0]), 'options')
            c['r0'] = r = start(c, c.a[1], c.a[0], (0, 5, 6))
            t = tree_pre(c, c.a[2])
            c.fact(ok(t), 'the tree has a printable shape')
            c.fact(kind(t) == TERM, 'kind of the tree')
            c.fact(z3.Implies(r.ph == 5, tval(t) < 0), 'the term continues a sum with its own sign')
            c.fact(z3.Implies(r.ph == 6, tval(t) >= 0), 'one sign')
            outside_quotient(c, r)

        def post(c):
            tree_post(c, c.a[2])
            t, r0 = c['T'], c['r0']
            r = after(c, r0)
            same_brackets(c, r, r0)
            if r0.ph == 5:
                c.fact(val(r) == val(r0) + ev(t), 'the value of the term was added')
            else:
                c.fact(z3.And(r.S == r0.S, r.N == r0.N, r.P == ev(t)), 'a product with the value of the term was printed')

    def red(c):
        """the reduction being printed: (tree, elements, count)"""
        t = c.pre('T')
        return t, rel(t), rn(t)

    def hold(c, t, r):
        f = c.struct('clast_reduction', r, rn(t), expr__type=iv(RED), type=rty(t), n=rn(t))
        E2 = c.iter(E, f.elts.arr, ZERO, rn(t))
        if c.producing:
            c.st.assume(E2 == rel(t))
        else:
            c.fact(forall_ev(E2, rel(t), rn(t)), 'elements unchanged')
        return f

    def forall_ev(E1, E2, n):
        k = z3.Int('k!q')
        return z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), E1[k] == E2[k]))

    def loop_state(c, r0, **kw):
        if c.producing:
            c.st.g['rd'] = r0._replace(**kw)
        return c.st.g['rd']

    def check(c, r, want):
        """the reader is in state `want` (fields given)"""
        for k, v in want.items():
            x = getattr(r, k)
            c.fact(x == v, 'reader: ' + {'stk': 'enclosing brackets', 'fk': 'innermost bracket', 'cn': 'arguments so far', 'a1': 'value of the arguments so far',
                                         'S': 'terms so far', 'N': 'sign', 'P': 'factor', 'ph': 'what may come next'}[k])

    @S.inv('pprint_sum', 0)
    def _(c):
        i = c.v('i')
        t, EL, n = red(c)
        r0 = c.pre('r0')
        c.fact(z3.And(i >= 1, i <= n), 'range')
        r = loop_state(c, r0, S=c.fresh('S'), N=z3.Const(c.fresh('N').decl().name() + '_b', B), P=c.fresh('P'), ph=5)
        check(c, r, dict(stk=r0.stk, fk=r0.fk, cn=r0.cn, a1=r0.a1, ph=5))
        rf_step(c.st, EL, i)
        rf_step(c.st, EL, ZERO)
        elem_at(c.st, t, i)
        elem_at(c.st, t, ZERO)
        c.fact(z3.Implies(i == 1, z3.And(r.S == 0, z3.Not(r.N), r.P == ev(EL[0]))), 'the first term')
        c.fact(val(r) == RF(iv(SUM), EL, i), 'value of the terms printed so far')

    def nest(st, k, h0, d):
        """definition of NEST at d: the brackets below the innermost of d opened ones"""
        st.assume(NEST(k, h0, iv(1)) == h0)
        st.assume(z3.Implies(d >= 1, NEST(k, h0, simp(d + 1)) == PUSH(NEST(k, h0, d), k, ZERO, ZERO, ZERO, FALSE, ZERO, ZERO)))

    @S.inv('pprint_minmax_c', 0)
    def _(c):
        i = c.v('i')
        t, EL, n = red(c)
        r0 = c.pre('r0')
        k = z3.If(rty(t) == MAX, iv(KMAX), iv(KMIN))
        h0 = push_term(r0)
        c.fact(z3.And(i >= 1, i <= n), 'range')
        nest(c.st, k, h0, simp(i - 1))
        nest(c.st, k, h0, simp(i - 2))
        if c.case(i == 1):
            r = loop_state(c, r0)
            check(c, r, dict(stk=r0.stk, fk=r0.fk, cn=r0.cn, a1=r0.a1, S=r0.S, N=r0.N, P=r0.P, ph=r0.ph))
            return
        kk = kconst_(c, t)
        h = NEST(k, h0, simp(i - 1))
        r = loop_state(c, r0, stk=h, fk=kk, cn=ZERO, a1=ZERO, S=ZERO, N=FALSE, P=ZERO, ph=0)
        check(c, r, dict(stk=h, fk=kk, cn=ZERO, a1=ZERO, S=ZERO, N=FALSE, P=ZERO, ph=0))
        if c.producing:
            known(c, k, h0, r0, simp(i - 1), kk)

    def kconst_(c, t):
        return iv(KMAX) if c.case(rty(t) == MAX) else iv(KMIN)

    def known(c, k, h0, r0, d, kk):
        """what closing the innermost of d brackets restores"""
        h = NEST(k, h0, d)
        if c.case(d == 1):
            p = r0
        else:
            p = r0._replace(stk=NEST(k, h0, simp(d - 1)), fk=kk, cn=ZERO, a1=ZERO, S=ZERO, N=FALSE, P=ZERO, ph=0)
        c.st.g['pushed'] = c.st.g.get('pushed', ()) + ((h, p),)

    @S.inv('pprint_minmax_c', 1)
    def _(c):
        i = c.v('i')
        t, EL, n = red(c)
        r0 = c.pre('r0')
        k = z3.If(rty(t) == MAX, iv(KMAX), iv(KMIN))
        h0 = push_term(r0)
        c.fact(z3.And(i >= 1, i <= n), 'range')
        rf_step(c.st, EL, i)
        elem_at(c.st, t, i)
        elem_at(c.st, t, ZERO)
        d = simp(n - i)
        for x in (d, simp(d - 1), simp(d + 1)):
            nest(c.st, k, h0, x)
        fresh = dict(S=c.fresh('S'), N=z3.Const(c.fresh('N').decl().name() + '_b', B), P=c.fresh('P'), ph=5)
        if c.case(i == n):
            r = loop_state(c, r0, **fresh)
            check(c, r, dict(stk=r0.stk, fk=r0.fk, cn=r0.cn, a1=r0.a1, ph=5, S=r0.S, N=r0.N))
            c.fact(r.P == apply(r0.ph, r0.P, RF(rty(t), EL, n)), 'value of all the elements')
            return
        kk = kconst_(c, t)
        h = NEST(k, h0, d)
        r = loop_state(c, r0, stk=h, fk=kk, cn=ZERO, a1=ZERO, **fresh)
        check(c, r, dict(stk=h, fk=kk, cn=ZERO, a1=ZERO, ph=5))
        if c.producing:
            known(c, k, h0, r0, d, kk)
        c.fact(val(r) == RF(rty(t), EL, i), 'value of the elements printed so far')

    @S.inv('pprint_minmax_f', 0)
    def _(c):
        i = c.v('i')
        t, EL, n = red(c)
        r0 = c.pre('r0')
        h0 = push_term(r0)
        c.fact(z3.And(i >= 1, i <= n), 'range')
        for x in (i, simp(i - 1), simp(i - 2)):
            rf_step(c.st, EL, x)
        elem_at(c.st, t, i)
        elem_at(c.st, t, ZERO)
        kk = kconst_(c, t)
        r = loop_state(c, r0, stk=h0, fk=kk, cn=simp(i - 1), a1=c.fresh('a1'), S=c.fresh('S'), N=z3.Const(c.fresh('N').decl().name() + '_b', B), P=c.fresh('P'), ph=5)
        check(c, r, dict(stk=h0, fk=kk, cn=simp(i - 1), ph=5))
        if c.producing:
            c.st.g['pushed'] = c.st.g.get('pushed', ()) + ((h0, r0),)
        c.fact(val(r) == ev(EL[simp(i - 1)]), 'value of the last element')
        c.fact(z3.Implies(i >= 2, r.a1 == RF(rty(t), EL, simp(i - 1))), 'value of the elements before')
