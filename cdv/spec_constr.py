"""isl objects as owned reference tokens, names, and contracts for source/isl/constraints.c accessors and
the bound construction of source/clast.c.

A constraint token CONSTR(p; K, u): p is one reference to an isl_constraint with abstract value K;
u = 1 means it is known to be the only reference.  All values are at one fixed but arbitrary point
(environment `env`): VV(K, N, v) is the value of variable v of K under the naming N."""
import z3
from engine import iv, ZERO, simp, I, Pred, UNINIT, SV, ArrVal, isval, PChunk, Prune, PathDead, b2i, CChunk, AChunk, SChunk
from front import MPZ, INT, T, ToolLimit
from models import FDIV, CDIV, MOD, fdiv, cdiv, fmod, NUMSTR, STR, _rd, _wr
from spec_int import forall_range, AI
from spec_clast import (Tree, AT, kind, tval, tvar, nm, bop, bl, br, rty, rn, rel, ev, env, RF, NAME, TERM, BIN, RED, SUM,
                        MIN, MAX, BFDIV, BCDIV, BDIV, BMOD, DIVX, rf_step, rf_zero, trunc_facts)

import itertools
_cnt = itertools.count()
Constr = z3.DeclareSort('Constr')
Names = z3.DeclareSort('Names')
F = z3.Function
nset, ndiv, npar, kconst, keq = [F(x, Constr, I) for x in ('nset', 'ndiv', 'npar', 'kconst', 'keq')]
cc = F('cc', Constr, I, I)                  # coefficient of flattened variable v
VV = F('VV', Constr, Names, I, I)           # value of variable v at the point
PS = F('PS', Constr, Names, I, I, I)        # PS(K,N,l,i) = sum over v<i, v != l-1 of cc(v)*VV(v)
CN = F('CN', Constr, I, I, I)               # CN(K,l,i) = number of v<i, v != l-1 with cc(v) != 0
BV = F('BV', Constr, Names, I, I)           # value of the bound of variable l-1
da = F('da', Constr, I, I, I)               # da(K,j,v): numerator coefficient of v in the definition of div j
dc = F('dc', Constr, I, I)
dd = F('dd', Constr, I, I)
DS = F('DS', Constr, Names, I, I, I)        # partial sums of the numerator of div j
DN = F('DN', Constr, I, I, I)               # number of non-zero numerator coefficients below i
isdivc = F('isdivc', Constr, I)
SET_, DIV_, PAR_, IN_, ALL_ = 3, 4, 1, 2, 5


def total(K):
    return nset(K) + ndiv(K) + npar(K)


def rest(K, N, l):
    return PS(K, N, l, total(K)) + kconst(K)


def ps_step(st, K, N, l, i):
    """definition of PS/CN at i+1 (v = i)"""
    skip = i == l - 1
    st.assume(z3.Implies(i >= 0, PS(K, N, l, simp(i + 1)) == z3.If(skip, PS(K, N, l, i), PS(K, N, l, i) + cc(K, i) * VV(K, N, i))))
    st.assume(z3.Implies(i >= 0, CN(K, l, simp(i + 1)) == z3.If(z3.Or(skip, cc(K, i) == 0), CN(K, l, i), CN(K, l, i) + 1)))
    st.assume(PS(K, N, l, ZERO) == 0)
    st.assume(CN(K, l, ZERO) == 0)
    cn_mono(st, K, l, simp(i + 1))
    cn_mono(st, K, l, i)


def ds_step(st, K, N, j, i):
    """definition of DS/DN at i+1"""
    st.assume(z3.Implies(i >= 0, DS(K, N, j, simp(i + 1)) == DS(K, N, j, i) + da(K, j, i) * VV(K, N, i)))
    st.assume(z3.Implies(i >= 0, DN(K, j, simp(i + 1)) == DN(K, j, i) + z3.If(da(K, j, i) == 0, ZERO, iv(1))))
    st.assume(DS(K, N, j, ZERO) == 0)
    st.assume(DN(K, j, ZERO) == 0)
    for x in (i, simp(i + 1), total(K)):    # lemma (dn_monotone)
        st.assume(z3.Implies(z3.And(0 <= x, x <= total(K)), z3.And(DN(K, j, x) >= 0, DN(K, j, x) <= DN(K, j, total(K)))))


def cn_mono(st, K, l, i):
    """lemma (cn_monotone): counts grow with the prefix"""
    st.assume(z3.Implies(z3.And(0 <= i, i <= total(K)), z3.And(CN(K, l, i) >= 0, CN(K, l, i) <= CN(K, l, total(K)))))


def shape(c, K, mx=None):
    """facts every constraint satisfies; in bounded mode picks a concrete shape"""
    st = c.st
    st.assume(z3.And(nset(K) >= 0, ndiv(K) >= 0, npar(K) >= 0, z3.Or(keq(K) == 0, keq(K) == 1)))
    if c.bounded and c.producing:
        t = c.pick([2, 1, 0, 3] if c.bounded >= 2 else [1, 0])
        st.assume(total(K) == t)
        if not c.eng.feasible(st):
            raise Prune()


def dimof(K, t):
    t = simp(t)
    if isval(t):
        return {SET_: nset(K), DIV_: ndiv(K), PAR_: npar(K), ALL_: simp(total(K)), IN_: nset(K)}.get(t.as_long())
    return z3.If(t == SET_, nset(K), z3.If(t == DIV_, ndiv(K), z3.If(t == PAR_, npar(K), total(K))))


def offof(K, t):
    t = simp(t)
    if isval(t):
        return {SET_: ZERO, IN_: ZERO, DIV_: nset(K), PAR_: nset(K) + ndiv(K)}[t.as_long()]
    return z3.If(z3.Or(t == SET_, t == IN_), ZERO, z3.If(t == DIV_, nset(K), nset(K) + ndiv(K)))


CONSTR = Pred('constraint reference', [Constr, I], None, nullable=True)
VAL = Pred('isl_val reference', [I, I], None, nullable=True)       # numerator, denominator
AFF = Pred('isl_aff reference', [Constr, I], None, nullable=True)
PRINTER = Pred('isl_printer reference', [I], None, nullable=False)


def token(eng, st, P, p, line, what=''):
    """find the token for pointer p (in the heap, or inside an iterated chunk)"""
    p = simp(p)
    for exact in (True, False):
        for c in st.heap:
            if c.kind == 'P' and c.p is P and (c.addr.eq(p) if exact else eng.must_eq(st, c.addr, p)):
                return c
        for c in st.heap:
            if c.kind == 'I' and c.p is P:
                i = eng.ichunk_index(st, c, p, exact)
                if i is not None:
                    eng.extract(st, c, i)
                    return token(eng, st, P, p, line)
    eng.prove(st, False, 'use of an isl object that is not owned or borrowed (%s)' % P.name, line)
    raise PathDead()


def keep(P, f):
    """__isl_keep model"""
    def m(eng, st, vs, n, args):
        line = eng.line(n)
        eng.prove(st, vs[0] != 0, 'null isl object', line)
        c = token(eng, st, P, vs[0], line)
        r = f(eng, st, c.outs, vs, line)
        yield st, (r if r is not None else ZERO)
    return m


def give(eng, st, P, outs):
    p = eng.fresh_addr()
    st.heap.append(PChunk(P, (p,), tuple(simp(o) for o in outs)))
    return p


def take(eng, st, P, p, line):
    eng.prove(st, p != 0, 'null isl object', line)
    c = token(eng, st, P, p, line)
    st.replace(c, None)
    return c.outs


def freem(P):
    def m(eng, st, vs, n, args):
        for s2, isnull in eng.fork(st, vs[0] == 0):
            if not isnull:
                try:
                    take(eng, s2, P, vs[0], eng.line(n))
                except (PathDead, Prune):
                    continue
            yield s2, ZERO
    return m


def rnorm(eng, st, n, d):
    """value n/d in lowest terms"""
    if isval(d) and d.as_long() == 1:
        return simp(n), iv(1)
    a, b, q = eng.fresh('num'), eng.fresh('den'), FDIV(n, d)
    st.assume(z3.And(b >= 1, a * d == n * b))
    st.assume(z3.And(d * q <= n, n < d * q + d))
    st.assume(z3.Implies(n == d * q, z3.And(a == q, b == 1)))
    st.assume((b == 1) == (n == d * q))
    return a, b


def red(e, s, o):
    """lowest terms of a token's value (tokens carry unreduced fractions)"""
    return rnorm(e, s, o[0], o[1])


def vbin(f):
    def m(eng, st, vs, n, args):
        line = eng.line(n)
        n1, d1 = take(eng, st, VAL, vs[0], line)
        n2, d2 = take(eng, st, VAL, vs[1], line)
        yield st, give(eng, st, VAL, f(n1, d1, n2, d2))
    return m


def vmul(a, b, c, d):
    one = iv(1)
    if simp(b).eq(simp(c)) and isval(d):
        return a, d
    if simp(d).eq(simp(a)) and isval(b):
        return c, b
    return simp(a * c), simp(b * d)


def install(S):
    Bn = S.builtins
    S.CONSTR, S.VAL = CONSTR, VAL

    # ------------------------------------------------------------------ isl_val models
    Bn['isl_val_is_zero'] = keep(VAL, lambda e, s, o, v, l: b2i(o[0] == 0))
    Bn['isl_val_is_one'] = keep(VAL, lambda e, s, o, v, l: b2i(z3.And(o[0] == o[1])))
    Bn['isl_val_is_negone'] = keep(VAL, lambda e, s, o, v, l: b2i(o[0] == -o[1]))
    Bn['isl_val_is_pos'] = keep(VAL, lambda e, s, o, v, l: b2i(o[0] > 0))
    Bn['isl_val_is_neg'] = keep(VAL, lambda e, s, o, v, l: b2i(o[0] < 0))
    Bn['isl_val_is_int'] = keep(VAL, lambda e, s, o, v, l: b2i(red(e, s, o)[1] == 1))
    Bn['isl_val_get_num_si'] = keep(VAL, lambda e, s, o, v, l: LONG(e, s, red(e, s, o)[0], l))
    Bn['isl_val_get_ctx'] = keep(VAL, lambda e, s, o, v, l: e.fresh('ctx'))
    Bn['isl_val_free'] = freem(VAL)
    Bn['isl_val_copy'] = keep(VAL, lambda e, s, o, v, l: give(e, s, VAL, o))
    Bn['isl_val_mul'] = vbin(vmul)
    Bn['isl_val_add'] = vbin(lambda a, b, c, d: (simp(a * d + c * b), simp(b * d)))
    Bn['isl_val_sub'] = vbin(lambda a, b, c, d: (simp(a * d - c * b), simp(b * d)))

    def LONG(e, s, x, l):
        # isl_val_get_num_si is only meaningful when the value fits a long
        e.prove(s, z3.And(x >= -2 ** 63, x < 2 ** 63), 'value fits a long (isl_val_get_num_si)', l)
        return x

    def neg(e, s, vs, n, args):
        o = take(e, s, VAL, vs[0], e.line(n))
        yield s, give(e, s, VAL, (-o[0], o[1]))
    Bn['isl_val_neg'] = neg
    Bn['isl_val_int_from_si'] = lambda e, s, vs, n, a: iter([(s, give(e, s, VAL, (vs[1], iv(1))))])
    Bn['isl_val_zero'] = lambda e, s, vs, n, a: iter([(s, give(e, s, VAL, (ZERO, iv(1))))])

    def read_from_str(e, s, vs, n, args):
        c = token(e, s, NUMSTR, vs[1], e.line(n))
        yield s, give(e, s, VAL, (c.outs[0], iv(1)))
    Bn['isl_val_read_from_str'] = read_from_str

    def set_str(e, s, vs, n, args):
        c = token(e, s, NUMSTR, vs[1], e.line(n))
        for s2 in _wr(e, s, vs[0], c.outs[0], e.line(n)):
            yield s2, ZERO
    Bn['mpz_set_str'] = set_str

    # printers: only used to convert one integer to text
    Bn['isl_printer_to_str'] = lambda e, s, vs, n, a: iter([(s, give(e, s, PRINTER, (iv(-1),)))])

    def print_val(e, s, vs, n, args):
        line = e.line(n)
        c = token(e, s, PRINTER, vs[0], line)
        v = token(e, s, VAL, vs[1], line)
        nn, d = red(e, s, v.outs)
        e.prove(s, d == 1, 'printed value is an integer', line)
        s.replace(c, PChunk(PRINTER, c.ins, (nn,)))
        yield s, vs[0]
    Bn['isl_printer_print_val'] = print_val

    def get_str(e, s, vs, n, args):
        c = token(e, s, PRINTER, vs[0], e.line(n))
        yield s, give(e, s, NUMSTR, c.outs)
    Bn['isl_printer_get_str'] = get_str
    Bn['isl_printer_free'] = freem(PRINTER)

    # ------------------------------------------------------------------ isl_constraint models
    def cdim(e, s, o, vs, l):
        d = dimof(o[0], vs[1])
        if d is None:
            raise ToolLimit('isl_constraint_dim type')
        return d
    Bn['isl_constraint_dim'] = keep(CONSTR, cdim)

    def coef(e, s, o, vs, l):
        K = o[0]
        e.prove(s, z3.And(vs[2] >= 0, vs[2] < dimof(K, vs[1])), 'coefficient position exists', l)
        return give(e, s, VAL, (cc(K, simp(offof(K, vs[1]) + vs[2])), iv(1)))
    Bn['isl_constraint_get_coefficient_val'] = keep(CONSTR, coef)
    Bn['isl_constraint_get_constant_val'] = keep(CONSTR, lambda e, s, o, vs, l: give(e, s, VAL, (kconst(o[0]), iv(1))))
    Bn['isl_constraint_is_equality'] = keep(CONSTR, lambda e, s, o, vs, l: keq(o[0]))
    Bn['isl_constraint_is_div_constraint'] = keep(CONSTR, lambda e, s, o, vs, l: isdivc(o[0]))
    Bn['isl_constraint_get_ctx'] = keep(CONSTR, lambda e, s, o, v, l: e.fresh('ctx'))

    def ccopy(e, s, vs, n, args):
        line = e.line(n)
        for s2, isnull in e.fork(s, vs[0] == 0):
            if isnull:
                yield s2, ZERO
                continue
            try:
                c = token(e, s2, CONSTR, vs[0], line)
            except (PathDead, Prune):
                continue
            s2.replace(c, PChunk(CONSTR, c.ins, (c.outs[0], ZERO)))
            yield s2, give(e, s2, CONSTR, (c.outs[0], ZERO))
    Bn['isl_constraint_copy'] = ccopy
    Bn['isl_constraint_free'] = freem(CONSTR)

    def setcoef(e, s, vs, n, args):
        """in place only when this is the only reference; the caller here ignores the result"""
        line = e.line(n)
        c = token(e, s, CONSTR, vs[0], line)
        v, d = red(e, s, take(e, s, VAL, vs[3], line))
        K = c.outs[0]
        e.prove(s, z3.And(vs[2] >= 0, vs[2] < dimof(K, vs[1])), 'coefficient position exists', line)
        e.prove(s, z3.And(c.outs[1] == 1, d == 1), 'in-place update of a constraint that is not shared', line)
        K2 = e.fresh('K', Constr)
        pos = simp(offof(K, vs[1]) + vs[2])
        with_coef(s, K, K2, pos, v)
        s.replace(c, PChunk(CONSTR, c.ins, (K2, iv(1))))
        yield s, vs[0]
    Bn['isl_constraint_set_coefficient_val'] = setcoef

    # ------------------------------------------------------------------ isl_aff: definition of an existential
    def get_div(e, s, o, vs, l):
        K = o[0]
        e.prove(s, z3.And(vs[1] >= 0, vs[1] < ndiv(K)), 'existential exists', l)
        s.assume(dd(K, vs[1]) >= 1)
        return give(e, s, AFF, (K, vs[1]))
    Bn['isl_constraint_get_div'] = keep(CONSTR, get_div)

    def aff_coef(e, s, o, vs, l):
        K, j = o
        e.prove(s, z3.Or(vs[1] == IN_, vs[1] == DIV_, vs[1] == PAR_), 'dimension type has coefficients in a quasi-affine expression', l)
        e.prove(s, z3.And(vs[2] >= 0, vs[2] < dimof(K, vs[1])), 'coefficient position exists', l)
        return give(e, s, VAL, (da(K, j, simp(offof(K, vs[1]) + vs[2])), dd(K, j)))
    Bn['isl_aff_get_coefficient_val'] = keep(AFF, aff_coef)
    Bn['isl_aff_get_constant_val'] = keep(AFF, lambda e, s, o, vs, l: give(e, s, VAL, (dc(*o), dd(*o))))
    Bn['isl_aff_get_denominator_val'] = keep(AFF, lambda e, s, o, vs, l: give(e, s, VAL, (dd(*o), iv(1))))
    Bn['isl_aff_free'] = freem(AFF)

    @S.spec('div_expr', props=['C01', 'C02'])
    class _:
        def pre(c):
            K, u = c.pred(CONSTR, c.a[0])
            N = c.pred(S.NAMES, c.a[2])
            c['K'], c['u'], c['N'] = K, u, N
            shape(c, K)
            c.fact(z3.And(c.a[0] != 0, c.a[1] >= 0, c.a[1] < ndiv(K)), 'existential exists')
            names_fit(c, K, N, c.a[2])

        def post(c):
            K, N, j = c['K'], c['N'], c.a[1]
            c.pred(CONSTR, c.a[0], outs=(K, c['u']))
            c.pred(S.NAMES, c.a[2], outs=(N,))
            t = c.pred(S.EXPR, c.ret)
            c.fact(kind(t) == BIN, 'a division')
            vv_def(c.st, K, N, simp(nset(K) + j))
            c.assume(dd(K, j) >= 1)
            if c.bounded and not c.producing:
                for i in range(4):
                    ds_step(c.st, K, N, j, iv(i))
                    vv_def(c.st, K, N, iv(i))
            else:
                ds_step(c.st, K, N, j, simp(total(K) - 1))
            fdiv(c.st, simp(DS(K, N, j, total(K)) + dc(K, j)), dd(K, j))
            c.fact(ev(t) == FDIV(DS(K, N, j, total(K)) + dc(K, j), dd(K, j)), 'floor of the numerator over the denominator')

    @S.inv('div_expr', 0)
    def _(c):
        i, nb = c.v('i'), c.v('nb_elts')
        K, j, N = c.pre('K'), c.arg0(1), c.pre('N')
        c.fact(z3.And(i >= 0, i <= total(K)), 'range')
        ds_step(c.st, K, N, j, i)
        c.fact(nb == DN(K, j, i), 'number of non-zero coefficients so far')

    @S.inv('div_expr', 1)
    def _(c):
        i, nb, r = c.v('i'), c.v('nb_elts'), c.v('r')
        K, j, N = c.pre('K'), c.arg0(1), c.pre('N')
        T_ = total(K)
        room = c.once('room', lambda: c.read('clast_reduction', r, 'n'))
        f = c.struct('clast_reduction', r, room, expr__type=iv(RED), type=iv(SUM), n=room)
        c.fact(room == DN(K, j, T_) + z3.If(dc(K, j) == 0, ZERO, iv(1)), 'room')
        c.fact(z3.And(i >= 0, i <= T_), 'range')
        ds_step(c.st, K, N, j, i)
        vv_def(c.st, K, N, i)
        c.fact(nb == DN(K, j, i), 'one summand per non-zero coefficient')
        E = c.iter(S.EXPR, f.elts.arr, ZERO, nb)
        rf_zero(c.st, E)
        c.fact(forall_range(nb, room, lambda k: f.elts.arr[k] == 0), 'remaining elements are null')
        c.fact(RF(iv(SUM), E, nb) == DS(K, N, j, i), 'sum so far')

    # ------------------------------------------------------------------ names
    S.NAMES = names_pred(S)

    @S.spec('cloog_names_name_at_level', props=['C01', 'C03', 'C11'])
    class _:
        def pre(c):
            N = c['N'] = c.pred(S.NAMES, c.a[0])
            c.fact(z3.And(c.a[0] != 0, c.a[1] >= 1, c.a[1] <= nscat(N) + nit(N)), 'level is the level of an iterator')

        def post(c):
            c.pred(S.NAMES, c.a[0], outs=(c['N'],))
            c.fact(c.ret != 0, 'names are not null')
            c.fact(c.ret == z3.If(c.a[1] <= nscat(c['N']), scatA(c['N'])[c.a[1] - 1], itA(c['N'])[c.a[1] - nscat(c['N']) - 1]), 'name of the dimension')

    # ------------------------------------------------------------------ accessors
    def acc(name, f, props=('C01', 'C02')):
        """accessor(constraint, var) -> int-valued function of (K, v)"""
        @S.spec(name, props=list(props))
        class _:
            def pre(c):
                K, u = c.pred(CONSTR, c.a[0])
                c['K'], c['u'] = K, u
                shape(c, K)
                c.fact(c.a[0] != 0, 'valid constraint')
                if len(c.a) > 1:
                    c.fact(c.a[1] >= 0, 'variable number is not negative')

            def post(c):
                c.pred(CONSTR, c.a[0], outs=(c['K'], c['u']))
                f(c, c['K'])
    inr = lambda c, K: c.a[1] < total(K)
    acc('cloog_constraint_involves', lambda c, K: c.fact((c.ret != 0) == z3.And(inr(c, K), cc(K, c.a[1]) != 0), 'true exactly for a non-zero coefficient'))
    acc('cloog_constraint_is_lower_bound', lambda c, K: c.fact((c.ret != 0) == z3.And(inr(c, K), cc(K, c.a[1]) > 0), 'true exactly for a positive coefficient'))
    acc('cloog_constraint_is_upper_bound', lambda c, K: c.fact((c.ret != 0) == z3.And(inr(c, K), cc(K, c.a[1]) < 0), 'true exactly for a negative coefficient'))
    acc('cloog_constraint_is_equality', lambda c, K: c.fact((c.ret != 0) == (keq(K) == 1), 'equality flag'))
    acc('cloog_constraint_total_dimension', lambda c, K: c.fact(c.ret == total(K), 'number of variables'))

    @S.spec('constraint_cloog_dim_to_isl_dim', props=['C01', 'C02'])
    class _:
        def pre(c):
            K, u = c.pred(CONSTR, c.a[0])
            c['K'], c['u'] = K, u
            shape(c, K)
            c.fact(z3.And(c.a[0] != 0, c.a[1] >= 0), 'valid constraint and position')

        def post(c):
            K = c['K']
            c.pred(CONSTR, c.a[0], outs=(K, c['u']))
            if c.producing:
                if c.case(c.a[1] < total(K)):
                    t, p = c.fresh('dimtype'), c.fresh('dimpos')
                    c['__ret'] = {'type': t, 'pos': p}
                else:
                    c['__ret'] = {'type': UNINIT, 'pos': iv(-1)}
                    return
            else:
                t, p = c.ret['type'], c.ret['pos']
                if not c.entails(c.a[1] < total(K)):
                    c.fact(z3.Implies(c.a[1] >= total(K), p == -1), 'no such variable')
                if not c.case(c.a[1] < total(K)):
                    return
                c.init(t, 'dimension type')
            v = c.a[1]
            c.fact(z3.Implies(v < nset(K), z3.And(t == SET_, p == v)), 'set dimensions come first')
            c.fact(z3.Implies(z3.And(v >= nset(K), v < nset(K) + ndiv(K)), z3.And(t == DIV_, p == v - nset(K))), 'then existentials')
            c.fact(z3.Implies(v >= nset(K) + ndiv(K), z3.And(t == PAR_, p == v - nset(K) - ndiv(K))), 'then parameters')

    @S.spec('isl_val_to_cloog_int', props=['C01', 'C02'])
    class _:
        def pre(c):
            c['n'], c['d'] = c.pred(VAL, c.a[0])
            c.fact(z3.And(c.a[0] != 0, c['d'] == 1), 'integer value')
            c.io(MPZ, c.a[1], 'dst')

        def post(c):
            c.pred(VAL, c.a[0], outs=(c['n'], c['d']))
            c.io_post(MPZ, c.a[1], c['n'], 'converted value')

    @S.spec('cloog_int_to_isl_val', props=['C01', 'C02'])
    class _:
        def pre(c):
            c['n'] = c.io(MPZ, c.a[1], 'src')

        def post(c):
            c.io_post(MPZ, c.a[1], c['n'], 'source unchanged')
            c.pred(VAL, c.ret, outs=(c['n'], iv(1)))
            c.fact(c.ret != 0, 'value')

    @S.spec('cloog_constraint_coefficient_get', props=['C01', 'C02'])
    class _:
        def pre(c):
            K, u = c.pred(CONSTR, c.a[0])
            c['K'], c['u'] = K, u
            shape(c, K)
            c.fact(z3.And(c.a[0] != 0, c.a[1] >= 0, c.a[1] < total(K)), 'variable exists')
            c.io(MPZ, c.a[2], 'dst')

        def post(c):
            c.pred(CONSTR, c.a[0], outs=(c['K'], c['u']))
            c.io_post(MPZ, c.a[2], cc(c['K'], c.a[1]), 'coefficient')

    @S.spec('cloog_constraint_constant_get', props=['C01', 'C02'])
    class _:
        def pre(c):
            K, u = c.pred(CONSTR, c.a[0])
            c['K'], c['u'] = K, u
            c.fact(c.a[0] != 0, 'valid constraint')
            c.io(MPZ, c.a[1], 'dst')

        def post(c):
            c.pred(CONSTR, c.a[0], outs=(c['K'], c['u']))
            c.io_post(MPZ, c.a[1], kconst(c['K']), 'constant term')

    @S.spec('cloog_constraint_coefficient_set', props=['C02'])
    class _:
        def pre(c):
            K, u = c.pred(CONSTR, c.a[0])
            c['K'], c['u'] = K, u
            shape(c, K)
            c.fact(z3.And(c.a[0] != 0, c.a[1] >= 0, c.a[1] < total(K)), 'variable exists')
            c.fact(u == 1, 'the constraint is not shared')
            c['v'] = c.io(MPZ, c.a[2], 'val')

        def post(c):
            K = c['K']
            if c.producing:
                K2 = c.fresh('K', Constr)
                c.pred(CONSTR, c.a[0], outs=(K2, iv(1)))
                with_coef(c.st, K, K2, c.a[1], c['v'])
            else:
                K2, u = c.pred(CONSTR, c.a[0])
                c.fact(z3.And(nset(K2) == nset(K), ndiv(K2) == ndiv(K), npar(K2) == npar(K), kconst(K2) == kconst(K), keq(K2) == keq(K)), 'nothing else changes')
                c.fact(forall_range(0, total(K), lambda k: cc(K2, k) == z3.If(k == c.a[1], c['v'], cc(K, k))), 'only that coefficient changes')
            c.io_post(MPZ, c.a[2], c['v'])

    @S.spec('cloog_constraint_copy_coefficients', props=['C01', 'C02'])
    class _:
        def pre(c):
            K, u = c.pred(CONSTR, c.a[0])
            c['K'], c['u'] = K, u
            shape(c, K)
            c.fact(c.a[0] != 0, 'valid constraint')
            c.io_arr(MPZ, c.a[1], total(K) + 1, 'dst')

        def post(c):
            K = c['K']
            c.pred(CONSTR, c.a[0], outs=(K, c['u']))
            R = c.io_arr_post(MPZ, c.a[1], total(K) + 1)
            c.fact(forall_range(0, total(K), lambda k: R[k] == cc(K, k)), 'coefficients in order')
            c.fact(R[total(K)] == kconst(K), 'constant last')

    @S.inv('cloog_constraint_copy_coefficients', 0)
    def _(c):
        i, dim = c.v('i'), c.v('dim')
        K = c.pre('K')
        R = c.peek_arr(c.arg0(1))
        c.fact(z3.And(i >= 0, i <= dim), 'range')
        c.fact(forall_range(0, i, lambda k: R[k] == cc(K, k)), 'copied prefix')

    @S.spec('cloog_constraint_variable_expr', props=['C01', 'C02'])
    class _:
        def pre(c):
            K, u = c.pred(CONSTR, c.a[0])
            N = c.pred(S.NAMES, c.a[2])
            c['K'], c['u'], c['N'] = K, u, N
            shape(c, K)
            c.fact(z3.And(c.a[0] != 0, c.a[1] >= 1, c.a[1] <= total(K)), 'variable exists')
            names_fit(c, K, N, c.a[2])

        def post(c):
            K, N, v = c['K'], c['N'], c.a[1] - 1
            c.pred(CONSTR, c.a[0], outs=(K, c['u']))
            c.pred(S.NAMES, c.a[2], outs=(N,))
            t = c.pred(S.EXPR, c.ret)
            c.fact(z3.Or(kind(t) == NAME, kind(t) == BIN), 'a name or a division')
            vv_def(c.st, K, N, simp(v))
            c.fact(ev(t) == VV(K, N, simp(v)), 'the expression has the value of the variable')

    @S.spec('clast_bound_from_constraint', props=['C01'], light=True)
    class _:
        def pre(c):
            K, u = c.pred(CONSTR, c.a[0])
            N = c.pred(S.NAMES, c.a[2])
            c['K'], c['u'], c['N'] = K, u, N
            shape(c, K)
            c.fact(z3.And(c.a[0] != 0, c.a[1] >= 1, c.a[1] <= total(K)), 'variable exists')
            names_fit(c, K, N, c.a[2])

        def post(c):
            K, N, l = c['K'], c['N'], c.a[1]
            c.pred(CONSTR, c.a[0], outs=(K, c['u']))
            c.pred(S.NAMES, c.a[2], outs=(N,))
            a = cc(K, simp(l - 1))
            if c.producing:
                if not c.case(a != 0):
                    c.st.assume(c.ret == 0)
                    return
                c.st.assume(c.ret != 0)
            else:
                c.fact((c.ret == 0) == (a == 0), 'a bound exactly for a non-zero coefficient')
                if not c.case(a != 0):
                    return
            t = c.pred(S.EXPR, c.ret)
            c.fact(kind(t) >= 1, 'kind')
            R = rest(K, N, l)
            if c.bounded and not c.producing:
                tt = simp(total(K))
                for i in range(4):
                    ps_step(c.st, K, N, l, iv(i))
                    vv_def(c.st, K, N, iv(i))
            if c.case(keq(K) == 1):
                q = c.fresh('q')
                if c.producing:
                    q = FDIV(-R, a)
                    fdiv(c.st, -R, a)
                    cdiv(c.st, -R, a)
                c.fact(z3.Implies(a * q + R == 0, ev(t) == q), 'equality: the bound solves the equation')
            elif c.case(a > 0):
                cdiv(c.st, -R, a)
                c.fact(ev(t) == CDIV(-R, a), 'lower bound is the ceiling')
            else:
                fdiv(c.st, R, -a)
                c.fact(ev(t) == FDIV(R, -a), 'upper bound is the floor')
            bound_kind(c, K, t, l)

    def bound_kind(c, K, t, l):
        """a constant bound is a constant term"""
        n = CN(K, l, total(K))
        cn_mono(c.st, K, l, total(K))
        if c.producing:
            c.st.assume(CN(K, l, ZERO) == 0)
        c.fact(z3.Implies(z3.And(n == 0, keq(K) == 0), z3.And(kind(t) == TERM, kind(tvar(t)) == -1)), 'a bound without variables is a constant')
        c.fact(z3.Implies(z3.Not(n == 0), kind(t) != TERM), 'a bound with variables is not a bare term')

    @S.inv('clast_bound_from_constraint', 0)
    def _(c):
        i, nb = c.v('i'), c.v('nb_elts')
        K, l, N = c.pre('K'), c.arg0(1), c.pre('N')
        A = c.peek_arr(c.v('line'))
        T_ = total(K)
        c.fact(z3.And(i >= 1, i <= T_ + 2), 'range')
        ps_step(c.st, K, N, l, simp(i - 1))
        c.fact(z3.Implies(i <= T_ + 1, nb == CN(K, l, simp(i - 1))), 'number of non-zero coefficients so far')
        c.fact(z3.Implies(i == T_ + 2, nb == CN(K, l, T_) + z3.If(kconst(K) == 0, ZERO, iv(1))), 'number of summands')

    @S.inv('clast_bound_from_constraint', 1)
    def _(c):
        i, nb, sign, r = c.v('i'), c.v('nb_elts'), c.v('sign'), c.v('r')
        K, l, N = c.pre('K'), c.arg0(1), c.pre('N')
        T_ = total(K)
        room = c.once('room', lambda: c.read('clast_reduction', r, 'n'))
        f = c.struct('clast_reduction', r, room, expr__type=iv(RED), type=iv(SUM), n=room)
        c.fact(room == CN(K, l, T_) + z3.If(kconst(K) == 0, ZERO, iv(1)), 'room')
        c.fact(z3.And(i >= 1, i <= T_ + 1), 'range')
        v = simp(i - 1)
        ps_step(c.st, K, N, l, v)
        vv_def(c.st, K, N, v)
        c.fact(nb == CN(K, l, v), 'one summand per non-zero coefficient')
        E = c.iter(S.EXPR, f.elts.arr, ZERO, nb)
        rf_zero(c.st, E)
        c.fact(forall_range(nb, room, lambda k: f.elts.arr[k] == 0), 'remaining elements are null')
        c.fact(RF(iv(SUM), E, nb) == sign * PS(K, N, l, v), 'sum so far')
        c.fact(z3.Or(sign == 1, sign == -1), 'sign')


def with_coef(st, K, K2, pos, v):
    """K2 is K with the coefficient of pos set to v"""
    st.assume(z3.And(nset(K2) == nset(K), ndiv(K2) == ndiv(K), npar(K2) == npar(K), kconst(K2) == kconst(K), keq(K2) == keq(K), isdivc(K2) == isdivc(K)))
    k = z3.Int('k!q')
    if not z3.is_const(pos):
        p2 = z3.Int('pos!%d' % next(_cnt))
        st.assume(p2 == pos)
        pos = p2
    st.assume(cc(K2, pos) == v)
    st.assume(z3.ForAll([k], z3.Implies(k != pos, cc(K2, k) == cc(K, k)), patterns=[cc(K2, k)]))
    n = z3.Const('N!q', Names)
    # the variables are the same; the sum over the other variables does not change (lemma ps_other)
    st.assume(z3.ForAll([n, k], VV(K2, n, k) == VV(K, n, k), patterns=[VV(K2, n, k)]))
    st.assume(z3.ForAll([n, k], PS(K2, n, pos + 1, k) == PS(K, n, pos + 1, k), patterns=[PS(K2, n, pos + 1, k)]))
    st.assume(z3.ForAll([k], CN(K2, pos + 1, k) == CN(K, pos + 1, k), patterns=[CN(K2, pos + 1, k)]))


def vv_def(st, K, N, v):
    """value of variable v: its name's value, or the floor division that defines it"""
    st.assume(z3.Implies(z3.And(v >= 0, v < nset(K)), VV(K, N, v) == env(SV(z3.If(v + 1 <= nscat(N), scatA(N)[simp(v)], itA(N)[simp(v - nscat(N))])))))
    st.assume(z3.Implies(z3.And(v >= nset(K) + ndiv(K), v < total(K)), VV(K, N, v) == env(SV(parA(N)[simp(v - nset(K) - ndiv(K))]))))
    j = simp(v - nset(K))
    st.assume(z3.Implies(z3.And(v >= nset(K), v < nset(K) + ndiv(K)), VV(K, N, v) == FDIV(DS(K, N, j, total(K)) + dc(K, j), dd(K, j))))


def names_fit(c, K, N, p):
    c.fact(p != 0, 'names')
    c.fact(z3.And(nset(K) <= nscat(N) + nit(N), npar(K) <= npr(N)), 'every dimension has a name')


# --------------------------------------------------------------------- names structure
nsc, nscat, nit, npr, nref = [F(x, Names, I) for x in ('n_scalars', 'n_scattering', 'n_iterators', 'n_parameters', 'n_refs')]
scalA, scatA, itA, parA = [F(x, Names, AI) for x in ('a_scalars', 'a_scattering', 'a_iterators', 'a_parameters')]
CHARP = T('ptr', T('char'))
NFIELDS = (('scalars', nsc, scalA), ('scattering', nscat, scatA), ('iterators', nit, itA), ('parameters', npr, parA))


def names_pred(S):
    def body(c, ins, outs):
        p, = ins
        if outs is not None:
            N, = outs
            f = c.struct('cloognames', p, nb_scalars=nsc(N), nb_scattering=nscat(N), nb_iterators=nit(N), nb_parameters=npr(N), references=nref(N))
            for fl, n, a in NFIELDS:
                c.st.assume(n(N) >= 0)
                c.st.assume(f[fl] >= 0)
                if not c.case(f[fl] == 0):
                    c.arr(CHARP, f[fl], n(N), arr=a(N))
                    c.iter(STR, a(N), ZERO, n(N))
                else:
                    c.st.assume(n(N) == 0)
                nonnull(c.st, N, n, a)
            return
        f = c.struct('cloognames', p)
        N = c.fresh('N', Names)
        for fl, n, a in NFIELDS:
            c.init(f['nb_' + fl]), c.init(f[fl])
            c.st.assume(n(N) == f['nb_' + fl])
            if c.case(f[fl] == 0):
                c.ensure(f['nb_' + fl] == 0, 'count of a missing name list is zero')
            else:
                A = c.arr(CHARP, f[fl], f['nb_' + fl])
                c.iter(STR, A, ZERO, f['nb_' + fl])
                c.st.assume(z3.Implies(n(N) > 0, a(N) == A))
        c.init(f.references)
        c.st.assume(nref(N) == f.references)
        return (N,)
    pk = {'cloognames.nb_' + fl: (lambda n: lambda ins, outs: n(outs[0]))(n) for fl, n, a in NFIELDS}
    P = Pred('names', [Names], body, struct={'cloognames'}, peek=pk, nullable=True)

    def onp(st, ins, outs):
        for fl, n, a in NFIELDS:
            st.assume(n(outs[0]) >= 0)
            nonnull(st, outs[0], n, a)
    P.on_produce = onp
    P.components = [('references', nref)] + [('number of ' + fl, n) for fl, n, a in NFIELDS] + [(fl, (lambda n, a: lambda x, y: z3.Or(n(x) == 0, a(x) == a(y)))(n, a)) for fl, n, a in NFIELDS]
    # read-only access to one name: names->iterators[i]
    return P


def nonnull(st, N, n, a):
    k = z3.Int('k!q')
    st.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n(N)), a(N)[k] > 0), patterns=[a(N)[k]]))
