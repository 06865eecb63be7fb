"""Strides and unrolling (source/isl/domain.c, source/loop.c), and iteration over isl objects through callbacks.

As in spec_dom one point X is fixed but arbitrary.  For a constraint K of a set, KV(K) is its value at the point (existentials
take values that make the constraint true whenever there are any); KV(K) = cc(K,pos)*X(pos) + RN(K,pos) + KD(K), where KD is the
contribution of the existentials.  A quasi-affine expression (isl_aff) has the rational value num/den at the point.
An isl iteration (foreach) is verified like a loop: the invariant of the callback's user data is established before, preserved
by the callback for an arbitrary element, and known afterwards."""
import z3
from engine import iv, ZERO, simp, I, Pred, UNINIT, isval, PChunk, Prune, PathDead, b2i
from front import MPZ, INT, T, ToolLimit
from interp import Retry
from models import FDIV, CDIV, MOD, GCD, fdiv, cdiv, gcd
from spec_constr import (CONSTR, VAL, AFF, keep, give, take, freem, token, Constr, cc, keq, kconst, nset, ndiv, npar, dimof, offof, red,
                         SET_, DIV_, PAR_, IN_, shape, isdivc)
from spec_int import AI, forall_range
from spec_dom import SPACE, DOM, BSET, Dom, mem, ddim, dpar, bdiv, dn, blist, bn, bat, RO, ro_step, X, op, keepf, query, newd
from spec_data import PTR, CNT

F = z3.Function
B = z3.BoolSort()
KV = F('constraint_value', Constr, I)
RN = F('constraint_rest', Constr, I, I)          # value without the variable pos and without existentials
KD = F('constraint_div_part', Constr, I)
KQ = F('constraint_div_quotient', Constr, I)
GP = F('gcd_of_divs', Constr, I, I)              # gcd of the coefficients of the first i existentials
kn = F('n_constraints', Dom, I)
KS = F('constraint_at', Dom, I, Constr)
cset = F('set_coefficients', Constr, AI)
QAFF = Pred('quasi-affine expression reference', [I, I, AI, I, I], None, nullable=True)    # num, den, coefficients*den, div part*den, number of divs


def holds(K):
    return z3.If(keq(K) == 1, KV(K) == 0, KV(K) >= 0)


def kr(K, pos):
    return RN(K, pos) + KD(K)


def kv_def(st, K, pos):
    pos = simp(pos)
    st.assume(KV(K) == cc(K, pos) * X(pos) + RN(K, pos) + KD(K))
    st.assume(z3.Implies(ndiv(K) == 0, KD(K) == 0))


def kd_def(st, K):
    """lemma (kd_multiple): the existentials contribute a multiple of the gcd of their coefficients"""
    st.assume(KD(K) == GP(K, ndiv(K)) * KQ(K))


def off(st, K, pos):
    """distance of the point from the lower bound K at pos"""
    pos = simp(pos)
    kv_def(st, K, pos)
    q = cdiv(st, simp(-(RN(K, pos) + KD(K))), cc(K, pos))
    return simp(X(pos) - q)


def exact(u, b):
    return b * FDIV(u, b) == u


def lem_exact(st, u, b, k):
    """lemma (fdiv_exact)"""
    st.assume(z3.Implies(z3.And(b != 0, u == b * k), FDIV(u, b) == k))


def lem_floor(st, n, m, k):
    """lemma (floor_monotone)"""
    st.assume(z3.Implies(z3.And(m > 0, n >= m * k), FDIV(n, m) >= k))


def lem_comb(st, b, u, w, q):
    """lemma (multiples_closed): multiples of b are closed under combination"""
    st.assume(z3.Implies(z3.And(b != 0, exact(u, b), exact(w, b)), exact(simp(u - q * w), b)))


def onstride(st, S_, d, pos):
    """the point's coordinate pos is congruent to d modulo S_"""
    return exact(simp(X(simp(pos)) - d), S_)


def install(S):
    Bn = S.builtins
    S.fe = {}
    S.aff_zero = set()          # functions whose contracts speak about the coefficients of quasi-affine expressions

    # ------------------------------------------------------------------ isl_val
    def sgn(x):
        return z3.If(x > 0, iv(1), z3.If(x < 0, iv(-1), ZERO))

    def vun(f):
        def m(e, s, vs, n, args):
            o = take(e, s, VAL, vs[0], e.line(n))
            yield s, give(e, s, VAL, f(e, s, o))
        return m
    Bn['isl_val_sgn'] = keep(VAL, lambda e, s, o, v, l: sgn(o[0]))
    Bn['isl_val_abs'] = vun(lambda e, s, o: (z3.If(o[0] >= 0, o[0], -o[0]), o[1]))

    def vgcd(e, s, vs, n, args):
        line = e.line(n)
        a = take(e, s, VAL, vs[0], line)
        b = take(e, s, VAL, vs[1], line)
        e.prove(s, z3.And(a[1] == 1, b[1] == 1), 'gcd of integers', line)
        yield s, give(e, s, VAL, (gcd(s, a[0], b[0]), iv(1)))
    Bn['isl_val_gcd'] = vgcd

    def vdiv(e, s, vs, n, args):
        line = e.line(n)
        a = take(e, s, VAL, vs[0], line)
        b = take(e, s, VAL, vs[1], line)
        for s2, z in e.fork(s, b[0] == 0):
            if z:
                yield s2, give(e, s2, VAL, (ZERO, ZERO))           # NaN / infinity
            else:
                nn, dd_ = simp(a[0] * b[1]), simp(a[1] * b[0])
                e.prove(s2, dd_ > 0, 'positive divisor', line)
                q = fdiv(s2, nn, dd_)
                for s3, ex in e.fork(s2, dd_ * q == nn):
                    yield s3, give(e, s3, VAL, (q, iv(1)) if ex else (nn, dd_))
    Bn['isl_val_div'] = vdiv

    def vlt(e, s, o, vs, l):
        p = token(e, s, VAL, vs[1], l).outs
        return b2i(o[0] * p[1] < p[0] * o[1])
    Bn['isl_val_lt'] = keep(VAL, vlt)
    Bn['isl_val_is_nan'] = keep(VAL, lambda e, s, o, v, l: b2i(simp(z3.And(o[1] == 0, o[0] == 0))))
    Bn['isl_val_is_infty'] = keep(VAL, lambda e, s, o, v, l: b2i(simp(z3.And(o[1] == 0, o[0] > 0))))
    Bn['isl_val_is_neginfty'] = keep(VAL, lambda e, s, o, v, l: b2i(simp(z3.And(o[1] == 0, o[0] < 0))))
    Bn['isl_val_add_ui'] = lambda e, s, vs, n, a: iter([(s, give(e, s, VAL, (lambda o: (simp(o[0] + vs[1] * o[1]), o[1]))(take(e, s, VAL, vs[0], e.line(n)))))])

    # ------------------------------------------------------------------ isl_aff
    def affop(k, f):
        """takes its first argument and k more quasi-affine/value arguments"""
        def m(e, s, vs, n, args):
            line = e.line(n)
            o = take(e, s, QAFF, vs[0], line)
            yield s, give(e, s, QAFF, f(e, s, o, vs, line))
        return m
    def unk(e, s=None, *As):
        """new coefficients; where the old ones are all zero, so are these"""
        A = e.fresh('coefs', AI)
        if s is not None and e.curfn in S.aff_zero:
            k = z3.Int('k!q')
            s.assume(z3.ForAll([k], z3.Implies(z3.And([simp(z3.Select(B_, k)) == 0 for B_ in As]), A[k] == 0), patterns=[A[k]]))
        return A
    Bn['isl_aff_neg'] = affop(1, lambda e, s, o, vs, l: (simp(-o[0]), o[1], unk(e, s, o[2]), simp(-o[3]), o[4]))

    def addaff(sg):
        def f(e, s, o, vs, l):
            p = take(e, s, QAFF, vs[1], l)
            if isval(simp(p[1])) and simp(p[1]).as_long() == 1:
                num, den = o[0] + sg * p[0] * o[1], o[1]
            elif isval(simp(o[1])) and simp(o[1]).as_long() == 1:
                num, den = o[0] * p[1] + sg * p[0], p[1]
            else:
                num, den = o[0] * p[1] + sg * p[0] * o[1], o[1] * p[1]
            return simp(num), simp(den), unk(e, s, o[2], p[2]), e.fresh('divpart'), e.fresh('ndivs')
        return f
    Bn['isl_aff_add'] = affop(2, addaff(1))
    Bn['isl_aff_sub'] = affop(2, addaff(-1))

    def intval(e, s, p, l):
        n, d = take(e, s, VAL, p, l)
        e.prove(s, d == 1, 'an integer value', l)
        return n

    def add_const(e, s, o, vs, l):
        v = intval(e, s, vs[1], l)
        return simp(o[0] + v * o[1]), o[1], o[2], o[3], o[4]
    Bn['isl_aff_add_constant_val'] = affop(1, add_const)

    def scale(e, s, o, vs, l):
        v = intval(e, s, vs[1], l)
        return simp(o[0] * v), o[1], unk(e, s, o[2]), simp(o[3] * v), o[4]
    Bn['isl_aff_scale_val'] = affop(1, scale)

    def scale_down(e, s, o, vs, l):
        v = intval(e, s, vs[1], l)
        e.prove(s, v > 0, 'scaling down by a positive value', l)
        return o[0], simp(o[1] * v), o[2], o[3], o[4]
    Bn['isl_aff_scale_down_val'] = affop(1, scale_down)

    def rnd(fn):
        def f(e, s, o, vs, l):
            s.assume(o[1] > 0)
            return fn(s, o[0], o[1]), iv(1), unk(e, s, o[2]), e.fresh('divpart'), e.fresh('ndivs')
        return f
    Bn['isl_aff_floor'] = affop(1, rnd(fdiv))
    Bn['isl_aff_ceil'] = affop(1, rnd(cdiv))

    def coefpos(e, s, o, vs, l):
        e.prove(s, z3.And(z3.Or(vs[1] == IN_, vs[1] == PAR_), vs[2] >= 0), 'a coefficient of an input dimension', l)

    def add_coef(e, s, o, vs, l):
        coefpos(e, s, o, vs, l)
        e.prove(s, vs[1] == IN_, 'an input dimension', l)
        return simp(o[0] + vs[3] * o[1] * X(vs[2])), o[1], z3.Store(o[2], vs[2], o[2][vs[2]] + vs[3] * o[1]), o[3], o[4]
    Bn['isl_aff_add_coefficient_si'] = affop(1, add_coef)

    def coef_at(s, A, k):
        A = simp(A)
        if z3.is_app(A) and A.decl().eq(cset):
            s.assume(cset(A.arg(0))[k] == cc(A.arg(0), k))
            return cc(A.arg(0), k)
        return A[k]

    def set_coef_si(e, s, o, vs, l):
        coefpos(e, s, o, vs, l)
        e.prove(s, vs[1] == IN_, 'an input dimension', l)
        old = coef_at(s, o[2], simp(vs[2]))
        return simp(o[0] + (vs[3] * o[1] - old) * X(vs[2])), o[1], z3.Store(o[2], vs[2], vs[3] * o[1]), o[3], o[4]
    Bn['isl_aff_set_coefficient_si'] = affop(1, set_coef_si)

    # parameters and the constant have the positions -(q+2) and -1
    LSP = Pred('local space reference', [I], None, nullable=True)

    def lspace(e, s, vs, n, args):
        take(e, s, SPACE, vs[0], e.line(n))
        yield s, give(e, s, LSP, (ZERO,))
    Bn['isl_constraint_get_space'] = keep(CONSTR, lambda e, s, o, vs, l: give(e, s, SPACE, (e.fresh('sp', Dom),)))
    Bn['isl_local_space_from_space'] = lspace

    def zero_aff(e, s, vs, n, args):
        take(e, s, LSP, vs[0], e.line(n))
        yield s, give(e, s, QAFF, (ZERO, iv(1), z3.K(I, ZERO), ZERO, ZERO))
    Bn['isl_aff_zero_on_domain'] = zero_aff

    def set_coef_val(e, s, o, vs, l):
        coefpos(e, s, o, vs, l)
        v = intval(e, s, vs[3], l)
        t = simp(vs[1])
        p = simp(vs[2]) if t.as_long() == IN_ else simp(-2 - vs[2])
        return simp(o[0] + (v * o[1] - coef_at(s, o[2], p)) * X(p)), o[1], z3.Store(o[2], p, simp(v * o[1])), o[3], o[4]
    Bn['isl_aff_set_coefficient_val'] = affop(1, set_coef_val)

    def set_const_val(e, s, o, vs, l):
        v = intval(e, s, vs[1], l)
        p = iv(-1)
        return simp(o[0] + v * o[1] - coef_at(s, o[2], p)), o[1], z3.Store(o[2], p, simp(v * o[1])), o[3], o[4]
    Bn['isl_aff_set_constant_val'] = affop(1, set_const_val)

    def drop_dims(e, s, o, vs, l):
        e.prove(s, z3.And(vs[1] == DIV_, vs[2] == 0, vs[3] == o[4]), 'all existentials are dropped', l)
        return simp(o[0] - o[3]), o[1], o[2], ZERO, ZERO
    Bn['isl_aff_drop_dims'] = affop(1, drop_dims)

    def affdim(e, s, o, vs, l):
        e.prove(s, vs[1] == DIV_, 'number of existentials', l)
        return o[4]
    Bn['isl_aff_dim'] = keep(QAFF, affdim)
    Bn['isl_aff_copy'] = keep(QAFF, lambda e, s, o, v, l: give(e, s, QAFF, o))

    def aff_free(e, s, vs, n, args):
        for P in (QAFF, AFF):
            for c in s.heap:
                if c.kind == 'P' and c.p is P and e.must_eq(s, c.addr, vs[0]):
                    yield from freem(P)(e, s, vs, n, args)
                    return
        yield from freem(AFF)(e, s, vs, n, args)
    Bn['isl_aff_free'] = aff_free

    def get_bound(e, s, o, vs, l):
        K = o[0]
        e.prove(s, z3.And(vs[1] == SET_, vs[2] >= 0, vs[2] < nset(K), cc(K, simp(vs[2])) != 0), 'the constraint bounds the dimension', l)
        p = simp(vs[2])
        kv_def(s, K, p)
        a = cc(K, p)
        r = simp(-(RN(K, p) + KD(K)))
        if e.entails(s, a > 0):
            return give(e, s, QAFF, (r, a, z3.Store(unk(e), p, ZERO), e.fresh('divpart'), e.fresh('ndivs')))
        return give(e, s, QAFF, (z3.If(a > 0, r, -r), z3.If(a > 0, a, -a), unk(e), e.fresh('divpart'), e.fresh('ndivs')))
    Bn['isl_constraint_get_bound'] = keep(CONSTR, get_bound)
    Bn['isl_constraint_get_aff'] = keep(CONSTR, lambda e, s, o, vs, l: give(e, s, QAFF, (KV(o[0]), iv(1), cset(o[0]), KD(o[0]), ndiv(o[0]))))
    Bn['isl_constraint_involves_dims'] = keep(CONSTR, lambda e, s, o, vs, l: query(e, s, no=z3.Implies(vs[1] == DIV_, KD(o[0]) == 0)))

    def from_aff(eq):
        def m(e, s, vs, n, args):
            o = take(e, s, QAFF, vs[0], e.line(n))
            K = e.fresh('K', Constr)
            s.assume(z3.And(keq(K) == eq, (KV(K) == 0) == (o[0] == 0), (KV(K) >= 0) == (o[0] >= 0)))
            if e.curfn in S.aff_zero and isval(simp(o[1])) and simp(o[1]).as_long() == 1:     # integer expressions are not scaled
                k = z3.Int('k!q')
                s.assume(KV(K) == o[0])
                s.assume(z3.ForAll([k], z3.Implies(k >= 0, cc(K, k) == o[2][k]), patterns=[cc(K, k)]))
            yield s, give(e, s, CONSTR, (K, iv(1)))
        return m
    Bn['isl_equality_from_aff'] = from_aff(1)
    Bn['isl_inequality_from_aff'] = from_aff(0)

    def set_max(e, s, vs, n, args):
        line = e.line(n)
        D = token(e, s, DOM, vs[0], line).outs[0]
        o = token(e, s, QAFF, vs[1], line).outs
        m = e.fresh('max')
        s.assume(o[1] > 0)
        s2 = s.copy()
        s.assume(z3.Implies(mem(D), o[0] <= m * o[1]))
        # isl returns an integer here when the expression is integral at integer points
        e_ = o[1]
        if not e.entails(s, e_ == 1):
            raise ToolLimit('maximum of a rational expression')
        yield s, give(e, s, VAL, (m, iv(1)))
        for k in (1, -1, 0):                # infinity, minus infinity (empty set), NaN
            s3 = s2.copy()
            yield s3, give(e, s3, VAL, (iv(k), ZERO))
        yield s2, ZERO
    Bn['isl_set_max_val'] = set_max

    # ------------------------------------------------------------------ sets and constraints
    def addc(P):
        def m(e, s, vs, n, args):
            line = e.line(n)
            D = take(e, s, P, vs[0], line)[0]
            K = take(e, s, CONSTR, vs[1], line)[0]
            D2 = newd(e, s, lambda D2: [mem(D2) == z3.And(mem(D), holds(K)), z3.Implies(dn(D) <= 1, dn(D2) <= 1)], D)
            yield s, give(e, s, P, (D2,))
        return m
    Bn['isl_set_add_constraint'] = addc(DOM)
    Bn['isl_basic_set_add_constraint'] = addc(BSET)
    Bn['isl_basic_set_remove_redundancies'] = op(BSET, 1, lambda e, s, D, ds, vs, l: [mem(D) == mem(ds[0])])

    def residue(e, s, vs, n, args):
        line = e.line(n)
        e.prove(s, vs[0] != 0, 'null isl object', line)
        D = token(e, s, DOM, vs[0], line).outs[0]
        m, r = e.fresh('modulo'), e.fresh('residue')
        p = simp(vs[1])
        s.assume(m >= 0)
        s.assume(z3.Implies(m > 0, z3.And(r >= 0, r < m)))
        s.assume(z3.Implies(z3.And(mem(D), m == 0), X(p) == r))
        s.assume(z3.Implies(z3.And(mem(D), m > 0), exact(simp(X(p) - r), m)))
        a, b = give(e, s, VAL, (m, iv(1))), give(e, s, VAL, (r, iv(1)))
        for s2, loc in e.cell(s, vs[2], PTR, line):
            e.store(s2, loc, a, line)
            for s3, loc2 in e.cell(s2, vs[3], PTR, line):
                e.store(s3, loc2, b, line)
                yield s3, ZERO
        # failure
        s4 = s.copy()
        yield s4, iv(-1)
    Bn['isl_set_dim_residue_class_val'] = residue

    # ------------------------------------------------------------------ iteration
    def foreach(P, elem):
        def m(e, st, vs, n, args):
            line = e.line(n)
            e.prove(st, vs[0] != 0, 'null isl object', line)
            D = token(e, st, P, vs[0], line).outs[0]
            fv = simp(vs[1])
            if not (isval(fv) and fv.as_long() in e.addrfn):
                raise ToolLimit('iteration with an unknown callback')
            cb = e.addrfn[fv.as_long()]
            num, at = elem(e, st, D)
            if e.bounded:
                yield from unrolled(e, st, D, cb, vs[2], num, at, n, 0)
                return
            inv = S.fe.get(cb)
            if inv is None:
                raise ToolLimit('no invariant for the iteration callback %s' % cb)

            def run(i, s, g, mode, what):
                return e.run_spec(lambda c: inv(c, vs[2], D, i), s, g, mode, args=vs, line=line, label='iteration with %s: %s' % (cb, what), fn=e.curfn)
            for s0, g in run(ZERO, st, {}, 'consume', 'invariant initially'):
                if not e.feasible(s0):
                    continue
                # an arbitrary iteration
                i = e.fresh('iter')
                s1 = s0.copy()
                s1.assume(z3.And(i >= 0, i < num))
                for s2, g2 in run(i, s1, g, 'produce', 'invariant'):
                    if not e.feasible(s2):
                        continue
                    p = at(s2, i)
                    for s3, r in e.call(s2, cb, [p, vs[2]], n, args):
                        for s4, stop in e.fork(s3, r != 0):
                            if stop:
                                yield s4, iv(-1)
                                continue
                            for s5, _ in run(simp(i + 1), s4, g2, 'consume', 'invariant preserved'):
                                try:
                                    e.compare_frame(s5, list(s0.heap), s0.out, set(), line, 'iteration with %s' % cb)
                                except Retry:
                                    e.prove(s5, False, 'iteration with %s changes memory that its invariant does not describe' % cb, line)
                for s2, g2 in run(num, s0, g, 'produce', 'invariant'):
                    s2.assume(num >= 0)
                    yield s2, ZERO
        return m

    def unrolled(e, st, D, cb, user, num, at, n, i):
        for s2, more in e.fork(st, num > i):
            if not more:
                yield s2, ZERO
                continue
            if i >= 2:
                e.bounded_hit = True
                continue
            p = at(s2, iv(i))
            for s3, r in e.call(s2, cb, [p, user], n, []):
                for s4, stop in e.fork(s3, r != 0):
                    if stop:
                        yield s4, iv(-1)
                    else:
                        yield from unrolled(e, s4, D, cb, user, num, at, n, i + 1)

    def constraints(e, st, D):
        st.assume(kn(D) >= 0)

        def at(s, i):
            K = KS(D, i)
            s.assume(z3.And(nset(K) == ddim(D), npar(K) == dpar(D), ndiv(K) == bdiv(D), bdiv(D) >= 0, z3.Or(keq(K) == 0, keq(K) == 1)))
            s.assume(z3.Implies(mem(D), holds(K)))
            return give(e, s, CONSTR, (K, iv(1)))
        return kn(D), at

    def pieces(e, st, D):
        Q = blist(D)
        st.assume(z3.And(bn(Q) >= 0, bn(Q) == dn(D), mem(D) == RO(Q, bn(Q)), z3.Not(RO(Q, ZERO))))

        def at(s, i):
            ro_step(s, Q, i)
            s.assume(z3.And(ddim(bat(Q, i)) == ddim(D), dpar(bat(Q, i)) == dpar(D)))
            return give(e, s, BSET, (bat(Q, i),))
        return bn(Q), at
    Bn['isl_basic_set_foreach_constraint'] = foreach(BSET, constraints)
    Bn['isl_set_foreach_basic_set'] = foreach(DOM, pieces)

    PC = ['C10']

    # ------------------------------------------------------------------ Euclid
    @S.spec('Euclid', props=PC)
    class _:
        def pre(c):
            c['a'] = c.io(MPZ, c.a[0], 'a')
            c['b'] = c.io(MPZ, c.a[1], 'b')
            for k in (2, 3, 4):
                c.io(MPZ, c.a[k], 'xyg'[k - 2])
            ads = [c.a[k] for k in range(5)]
            c.fact(z3.Distinct(*ads), 'distinct variables')

        def post(c):
            a, b = c['a'], c['b']
            c.io_post(MPZ, c.a[0], a)
            c.io_post(MPZ, c.a[1], b)
            x = c.io_post(MPZ, c.a[2], name='x')
            y = c.io_post(MPZ, c.a[3], name='y')
            g = c.io_post(MPZ, c.a[4], name='g')
            aa, bb = z3.If(a >= 0, a, -a), z3.If(b >= 0, b, -b)
            c.st.assume(GCD(aa, bb) == GCD(a, b))      # lemma (gcd_abs)
            c.fact(g == GCD(a, b), 'greatest common divisor')
            c.fact(a * x + b * y == g, 'Bezout identity')
            if c.producing:
                lem_exact(c.st, simp(1 - a * x), b, y)
                c.st.g['bezout'] = c.st.g.get('bezout', []) + [(a, x, y)]

    @S.inv('Euclid', 0)
    def _(c):
        a, b = c.pre('a'), c.pre('b')
        C, D, E, F_ = c.v('c'), c.v('d'), c.v('e'), c.v('f')
        aa, bb = z3.If(a >= 0, a, -a), z3.If(b >= 0, b, -b)
        c.fact(z3.And(C >= 0, D >= 0, z3.Or(C > 0, D > 0, z3.And(aa == 0, bb == 0))), 'non-negative')
        gcd(c.st, C, D)
        c.fact(GCD(C, D) == GCD(aa, bb), 'same common divisors')
        u, w = simp(C - E * aa), simp(D - F_ * aa)
        lem_exact(c.st, u, b, ZERO)
        lem_exact(c.st, w, b, iv(1))
        lem_exact(c.st, w, b, iv(-1))
        lem_exact(c.st, w, b, ZERO)
        c.fact(z3.Implies(b != 0, exact(u, b)), 'first combination')
        c.fact(z3.Implies(b != 0, exact(w, b)), 'second combination')
        c.fact(z3.Implies(b == 0, z3.And(D == 0, E == 1)), 'no step for zero')
        if c.producing:
            q = FDIV(C, D)
            c.st.assume(z3.Implies(D > 0, z3.And(D * q <= C, C < D * q + D, q >= 0)))
            c.st.assume(z3.Implies(D > 0, GCD(D, simp(C - q * D)) == GCD(C, D)))      # lemma (euclid_step)
            lem_comb(c.st, b, u, w, q)
            # at the end
            lem_exact(c.st, simp(C - a * E), b, FDIV(u, b))
            lem_exact(c.st, simp(C + a * E), b, FDIV(u, b))

    # ------------------------------------------------------------------ stride of a residue class
    @S.spec('cloog_domain_stride', props=PC, abort_ok=True)
    class _:
        def pre(c):
            c.fact(z3.And(c.a[0] != 0, c.a[1] >= 1), 'set and level')
            c['D'] = c.pred(DOM, c.a[0])
            c.io(MPZ, c.a[2], 'stride')
            c.io(MPZ, c.a[3], 'offset')
            c.fact(c.a[2] != c.a[3], 'two variables')

        def post(c):
            c.pred(DOM, c.a[0], outs=(c['D'],))
            s = c.io_post(MPZ, c.a[2], name='stride')
            o = c.io_post(MPZ, c.a[3], name='offset')
            p = simp(c.a[1] - 1)
            u = simp(X(p) + o)
            if not c.producing:
                w = simp(X(p) + o - s)
                lem_comb(c.st, s, w, s, iv(-1))
                lem_exact(c.st, s, s, iv(1))
            c.fact(s >= 0, 'stride is not negative')
            c.fact(z3.Implies(s > 0, z3.And(o >= 0, o < s)), 'offset below the stride')
            c.fact(z3.Implies(mem(c['D']), z3.If(s == 0, u == 0, exact(u, s))), 'coordinate plus offset is a multiple of the stride')

    # ------------------------------------------------------------------ may strides be used at a level
    def ccs_pre(c, user, level=None):
        f = c.struct('cloog_can_stride', user, region='stack', level=level)
        c.init(f.level), c.init(f.can_stride)
        return f

    def clean(K, l):
        """not a lower bound at level l, or free of existentials"""
        return z3.Or(keq(K) == 1, cc(K, l - 1) <= 0, forall_range(0, ndiv(K), lambda k: cc(K, nset(K) + k) == 0))

    @S.spec('constraint_can_stride', props=PC)
    class _:
        def pre(c):
            K, u = c.pred(CONSTR, c.a[0])
            f = ccs_pre(c, c.a[1])
            c['K'], c['f'] = K, f
            shape(c, K)
            c.fact(z3.And(c.a[0] != 0, f.level >= 1, f.level <= nset(K)), 'level')

        def post(c):
            f0, K = c['f'], c['K']
            f = ccs_pre(c, c.a[1], level=f0.level)
            c.fact(z3.Or(f.can_stride == f0.can_stride, f.can_stride == 0), 'only ever cleared')
            c.fact(z3.Implies(f.can_stride != 0, clean(K, f0.level)), 'lower bounds with existentials are refused')
            c.fact(z3.Implies(clean(K, f0.level), f.can_stride == f0.can_stride), 'other constraints are accepted')

    @S.inv('constraint_can_stride', 0)
    def _(c):
        i, K = c.v('i'), c.pre('K')
        c.fact(z3.And(i >= 0, i <= ndiv(K), c.v('n_div') == ndiv(K)), 'range')
        n, d = c.pred(VAL, c.v('v'))
        c.fact(z3.And(c.v('v') != 0, d != 0), 'a value is held')
        c.fact(forall_range(0, i, lambda k: cc(K, nset(K) + k) == 0), 'no existential so far')

    def fe_ccs(c, user, D, i):
        f0 = c.once('f', lambda: None)
        f = ccs_pre(c, user)
        if c.g.get('once_f') is None:
            c.g['once_f'] = f
        f0 = c.g['once_f']
        c.fact(z3.And(f.level == f0.level, f.level >= 1, f.level <= ddim(D)), 'level')
        j = z3.Int('j!q')
        c.fact(z3.Or(f.can_stride == f0.can_stride, f.can_stride == 0), 'only ever cleared')
        return f, j
    S.fe['constraint_can_stride'] = lambda c, user, D, i: fe_ccs(c, user, D, i)
    S.fe['basic_set_can_stride'] = lambda c, user, D, i: fe_ccs(c, user, D, i)

    @S.spec('basic_set_can_stride', props=PC)
    class _:
        def pre(c):
            D = c.pred(BSET, c.a[0])
            f = ccs_pre(c, c.a[1])
            c['f'] = f
            c.fact(z3.And(c.a[0] != 0, f.level >= 1, f.level <= ddim(D)), 'level')

        def post(c):
            f0 = c['f']
            f = ccs_pre(c, c.a[1], level=f0.level)
            c.fact(z3.Or(f.can_stride == f0.can_stride, f.can_stride == 0), 'only ever cleared')

    @S.spec('cloog_domain_can_stride', props=PC, abort_ok=True)
    class _:
        def pre(c):
            c.fact(z3.And(c.a[0] != 0, c.a[1] >= 1), 'set and level')
            D = c['D'] = c.pred(DOM, c.a[0])
            c.trust(c.a[1] <= ddim(D), 'the level is a dimension of the loop domain')

        def post(c):
            c.pred(DOM, c.a[0], outs=(c['D'],))

    # ------------------------------------------------------------------ detecting a stride constraint
    def stride_struct(c, s, region='heap'):
        f = c.struct('cloogstride', s)
        for k in ('references', 'stride', 'offset', 'factor', 'constraint'):
            c.init(f[k], k)
        return f

    def gp_step(st, K, i):
        st.assume(GP(K, ZERO) == 0)
        st.assume(z3.Implies(i >= 0, GP(K, simp(i + 1)) == GCD(GP(K, i), cc(K, simp(nset(K) + i)))))

    def stride_facts(c, f, K, l):
        """a stride found in constraint K at level l: factor * coefficient = -1 modulo the stride"""
        p = simp(l - 1)
        G = GP(K, ndiv(K))
        c.fact(z3.And(f.stride == G, f.stride >= 2), 'the stride is the gcd of the existentials')
        c.fact(z3.And(cc(K, p) != 0, exact(simp(f.factor * cc(K, p) + 1), f.stride)), 'the factor is minus the inverse of the coefficient')

    def stride_concl(st, f, K, l):
        """lemma (stride_residue): with KV = c X + R + G Q = 0 and F c = S y - 1, X - F R is a multiple of S"""
        p = simp(l - 1)
        kv_def(st, K, p)
        kd_def(st, K)
        st.assume(z3.Implies(z3.And(KV(K) == 0, f.stride > 0, KV(K) == cc(K, p) * X(p) + RN(K, p) + KD(K), KD(K) == f.stride * KQ(K),
                                    exact(simp(f.factor * cc(K, p) + 1), f.stride)),
                             exact(simp(X(p) - f.factor * RN(K, p)), f.stride)))

    @S.spec('construct_stride', props=PC)
    class _:
        def pre(c):
            K, u = c.pred(CONSTR, c.a[0])
            c['K'], c['u'] = K, u
            shape(c, K)
            c.fact(z3.And(c.a[0] != 0, c.a[1] >= 1, c.a[1] <= nset(K), cc(K, simp(c.a[1] - 1)) != 0), 'level involved')

        def post(c):
            K, l = c['K'], c.a[1]
            c.pred(CONSTR, c.a[0], outs=(K, None if not c.producing else ZERO))
            if c.case(c.ret == 0):
                return
            f = stride_struct(c, c.ret)
            c.fact(z3.And(f.references == 1, f.constraint != 0), 'a fresh stride')
            c.pred(CONSTR, f.constraint, outs=(K, None if not c.producing else ZERO))
            if not c.producing:
                p = simp(l - 1)
                gp_step(c.st, K, simp(ndiv(K) - 1))
                a = cc(K, p)
                for _, x, y in c.st.g.get('bezout', []):        # |a| x + S y = 1
                    lem_exact(c.st, simp(f.factor * a + 1), f.stride, y)
            stride_facts(c, f, K, l)

    @S.inv('construct_stride', 0)
    def _(c):
        i, K = c.v('i'), c.pre('K')
        c.fact(z3.And(i >= 0, i <= ndiv(K), c.v('n') == ndiv(K)), 'range')
        n, d = c.pred(VAL, c.v('gcd'))
        gp_step(c.st, K, i)
        c.fact(z3.And(c.v('gcd') != 0, d == 1, n == GP(K, i), n >= 0), 'gcd so far')

    def fsd(c, user, level=None):
        f = c.struct('cloog_isl_find_stride_data', user, region='stack', level=level)
        c.init(f.level), c.init(f.stride)
        return f

    def found(c, p, l, conclude=None):
        """p is NULL or a fresh stride whose residue class holds at the point if the premise does"""
        if c.case(p == 0):
            return None
        f = stride_struct(c, p)
        K, u = c.pred(CONSTR, f.constraint)
        c.fact(z3.And(f.references == 1, f.constraint != 0, nset(K) >= l, keq(K) == 1), 'a fresh stride')
        stride_facts(c, f, K, l)
        if conclude is not None:
            stride_concl(c.st, f, K, l)
            c.fact(z3.Implies(conclude, KV(K) == 0), 'the constraint holds')
            c.fact(z3.Implies(conclude, onstride(c.st, f.stride, f.factor * RN(K, simp(l - 1)), l - 1)), 'points are in the residue class of the stride')
        return f, K

    @S.spec('find_stride', props=PC)
    class _:
        def pre(c):
            K, u = c.pred(CONSTR, c.a[0])
            f = fsd(c, c.a[1])
            shape(c, K)
            c['K'], c['f'] = K, f
            c.fact(z3.And(c.a[0] != 0, f.level >= 1, f.level <= nset(K)), 'level')
            c['s'] = found(c, f.stride, f.level)

        def post(c):
            f0, K = c['f'], c['K']
            f = fsd(c, c.a[1], level=f0.level)
            r = c['s']
            if r is not None:
                c.fact(f.stride == f0.stride, 'the first stride is kept')
                g, K2 = r
                c.struct('cloogstride', f.stride, **g)
                c.pred(CONSTR, g.constraint, outs=(K2, None if not c.producing else ZERO))
                return
            if c.case(f.stride == 0):
                return
            c.fact(keq(K) == 1, 'only equalities')
            g = stride_struct(c, f.stride)
            c.fact(z3.And(g.references == 1, g.constraint != 0), 'a fresh stride')
            c.pred(CONSTR, g.constraint, outs=(K, None if not c.producing else ZERO))
            stride_facts(c, g, K, f.level)

    def fe_find(c, user, D, i):
        l = c.once('l', lambda: None)
        f = fsd(c, user)
        if c.g.get('once_l') is None:
            c.g['once_l'] = f.level
        c.fact(z3.And(f.level == c.g['once_l'], f.level >= 1, f.level <= ddim(D)), 'level')
        found(c, f.stride, f.level, mem(D))
    S.fe['find_stride'] = fe_find

    from spec_list import make_list, ListTheory

    def dnode(c, f):
        c.fact(f.domain != 0, 'a set')
        return mem(c.pred(DOM, f.domain))
    FALSE = z3.BoolVal(False)
    dth = ListTheory(B, lambda c: FALSE, lambda c, x, r: z3.Or(x, r), lambda c, a, b: z3.Or(a, b))
    DLIST, DSEG = make_list('domain list', 'cloogdomainlist', dth, dnode)
    S.DLIST = DLIST

    @S.spec('cloog_domain_list_stride', props=PC, abort_ok=True)
    class _:
        def pre(c):
            c.fact(z3.And(c.a[0] != 0, c.a[1] >= 1), 'a domain list and a level')
            c['L'] = c.pred(DLIST, c.a[0])

        def post(c):
            L = c.pred(DLIST, c.a[0])
            c.fact(L == c['L'], 'the domains are unchanged')
            r = found(c, c.ret, c.a[1], L)

    @S.inv('cloog_domain_list_stride', 0)
    def _(c):
        h = c.arg0(0)
        a = c.pred(DSEG, h, c.v('list'))
        r = c.pred(DLIST, c.v('list'))
        A = c.pred(DOM, c.v('set'))
        c.fact(z3.And(c.v('set') != 0, ddim(A) == c.v('first'), c.v('first') == c.arg0(1), h != 0), 'a set is held')
        c.fact(z3.Or(a, r) == c.pre('L'), 'the domains are unchanged')
        c.fact(z3.Implies(a, mem(A)), 'the union contains the domains seen so far')

    # ------------------------------------------------------------------ moving lower bounds onto a stride
    def csl_pre(c, user, bounds, level=None, stride=None):
        f = c.struct('cloog_stride_lower', user, region='stack', level=level, stride=stride)
        for k in ('level', 'stride', 'set') + (('bounds',) if bounds else ()):
            c.init(f[k], k)
        return f

    def borrowed(c, s):
        """the stride the caller lends: structure and constraint"""
        g = stride_struct(c, s)
        K = None
        if not c.case(g.constraint == 0):
            K = c.pred(CONSTR, g.constraint)
        return g, K

    def give_back(c, s, r):
        g, K = r
        c.struct('cloogstride', s, **g)
        if K is not None:
            c.pred(CONSTR, g.constraint, outs=(K[0], None if not c.producing else ZERO))

    def offs(r, l):
        """the residue: constant offset, or factor times the rest of the stride constraint"""
        g, K = r
        return g.offset if K is None else simp(g.factor * RN(K[0], simp(l - 1)))

    def lower(name, with_c):
        @S.spec(name, props=PC)
        class _:
            def pre(c):
                K, u = c.pred(CONSTR, c.a[0])
                f = csl_pre(c, c.a[1], True)
                r = borrowed(c, f.stride)
                shape(c, K)
                c['K'], c['f'], c['r'] = K, f, r
                c.fact((r[0].constraint != 0) if with_c else (r[0].constraint == 0), 'kind of stride')
                if with_c and r[1] is not None:
                    c.fact(f.level <= nset(r[1][0]), 'the level of the stride constraint')
                c.fact(z3.And(c.a[0] != 0, f.level >= 1, f.level <= nset(K), r[0].stride > 0), 'level and stride')
                c['S'] = c.pred(DOM, f.set)
                c['B'] = c.pred(BSET, f.bounds)
                c.fact(z3.And(f.bounds != 0, f.set != 0), 'sets')

            def post(c):
                f0, K, r = c['f'], c['K'], c['r']
                f = csl_pre(c, c.a[1], True, level=f0.level, stride=f0.stride)
                give_back(c, f0.stride, r)
                c.fact(f.set == f0.set, 'the result is not changed')
                c.pred(DOM, f.set, outs=(c['S'],))
                D = c.pred(BSET, f.bounds)
                c.fact(z3.And(f.bounds != 0, ddim(D) == ddim(c['B']), dpar(D) == dpar(c['B'])), 'bounds')
                p = simp(f0.level - 1)
                d = offs(r, f0.level)
                a, s = cc(K, p), r[0].stride
                kv_def(c.st, K, p)
                if r[1] is not None:
                    kv_def(c.st, r[1][0], p)
                R = RN(K, p) + KD(K)
                q = fdiv(c.st, simp(R + a * d), simp(a * s))
                islb = z3.And(keq(K) != 1, a > 0)
                bnd = X(p) + s * q - d >= 0
                c.fact(mem(D) == z3.And(mem(c['B']), z3.Or(z3.Not(islb), bnd)), 'the smallest point on the stride above the bound becomes a bound')
                if c.producing:
                    t = FDIV(simp(X(p) - d), s)
                    lem_floor(c.st, simp(R + a * d), simp(a * s), simp(-t))
                    # lemma (bound_on_stride): a point on the stride that satisfies the constraint satisfies the new bound
                    c.st.assume(z3.Implies(z3.And(islb, s > 0, a * X(p) + R >= 0, exact(simp(X(p) - d), s)), bnd))
    lower('constraint_stride_lower', False)
    lower('constraint_stride_lower_c', True)

    def fe_lower(c, user, D, i):
        c.once('f', lambda: None)
        f = csl_pre(c, user, True)
        r = borrowed(c, f.stride)
        A = c.pred(DOM, f.set)
        Bd = c.pred(BSET, f.bounds)
        if c.g.get('once_f') is None:
            c.g['once_f'] = (f, r, A, Bd)
        f0, r0, A0, B0 = c.g['once_f']
        c.fact(z3.And(f.level == f0.level, f.stride == f0.stride, f.set == f0.set, f.level >= 1, f.level <= ddim(D), r[0].stride > 0, f.bounds != 0, f.set != 0), 'level and stride')
        c.fact(A == A0, 'the result is not changed')
        same_stride(c, r, r0)
        if r[1] is not None:
            c.fact(f.level <= nset(r[1][0]), 'the level of the stride constraint')
        c.fact(z3.And(ddim(Bd) == ddim(D), dpar(Bd) == dpar(D)), 'space')
        c.fact(z3.Implies(z3.And(mem(D), onstride(c.st, r[0].stride, offs(r, f.level), f.level - 1)), mem(Bd)), 'points on the stride satisfy the new bounds')

    def same_stride(c, r, r0):
        c.fact(z3.And([r[0][k] == r0[0][k] for k in ('references', 'stride', 'offset', 'factor', 'constraint')]), 'the stride is not changed')
        if r[1] is not None and r0[1] is not None:
            c.fact(r[1][0] == r0[1][0], 'the stride constraint is not changed')
    S.fe['constraint_stride_lower'] = fe_lower
    S.fe['constraint_stride_lower_c'] = fe_lower

    @S.spec('basic_set_stride_lower', props=PC)
    class _:
        def pre(c):
            D = c['D'] = c.pred(BSET, c.a[0])
            f = c['f'] = csl_pre(c, c.a[1], False)
            r = c['r'] = borrowed(c, f.stride)
            c['A'] = c.pred(DOM, f.set)
            c.fact(z3.And(c.a[0] != 0, f.level >= 1, f.level <= ddim(D), r[0].stride > 0, f.set != 0), 'level and stride')
            if r[1] is not None:
                c.fact(f.level <= nset(r[1][0]), 'the level of the stride constraint')

        def post(c):
            f0, r, A, D = c['f'], c['r'], c['A'], c['D']
            f = csl_pre(c, c.a[1], False, level=f0.level, stride=f0.stride)
            give_back(c, f0.stride, r)
            A2 = c.pred(DOM, f.set)
            c.fact(z3.And(f.set != 0, ddim(A2) == ddim(A), dpar(A2) == dpar(A), dn(A2) <= dn(A) + 1), 'result')
            on = onstride(c.st, r[0].stride, offs(r, f0.level), f0.level - 1)
            c.fact(z3.Implies(mem(A2), z3.Or(mem(A), mem(D))), 'no point is added')
            c.fact(z3.Implies(z3.Or(mem(A), z3.And(mem(D), on)), mem(A2)), 'points on the stride are kept')

    def fe_bset_lower(c, user, D, i):
        c.once('f', lambda: None)
        f = csl_pre(c, user, False)
        r = borrowed(c, f.stride)
        A = c.pred(DOM, f.set)
        if c.g.get('once_f') is None:
            c.g['once_f'] = (f, r)
        f0, r0 = c.g['once_f']
        c.fact(z3.And(f.level == f0.level, f.stride == f0.stride, f.level >= 1, f.level <= ddim(D), r[0].stride > 0, f.set != 0), 'level and stride')
        same_stride(c, r, r0)
        if r[1] is not None:
            c.fact(f.level <= nset(r[1][0]), 'the level of the stride constraint')
        c.fact(z3.And(ddim(A) == ddim(D), dpar(A) == dpar(D), dn(A) <= i), 'space')
        Q = blist(D)
        ro_step(c.st, Q, i)
        on = onstride(c.st, r[0].stride, offs(r, f.level), f.level - 1)
        c.fact(z3.Implies(mem(A), RO(Q, i)), 'no point is added')
        c.fact(z3.Implies(z3.And(RO(Q, i), on), mem(A)), 'points on the stride are kept')
    S.fe['basic_set_stride_lower'] = fe_bset_lower

    @S.spec('cloog_domain_stride_lower_bound', props=PC, abort_ok=True)
    class _:
        def pre(c):
            D = c['D'] = c.pred(DOM, c.a[0])
            r = c['r'] = borrowed(c, c.a[2])
            c.fact(z3.And(c.a[0] != 0, c.a[2] != 0, c.a[1] >= 1, r[0].stride > 0), 'set, level and stride')
            c.trust(c.a[1] <= ddim(D), 'the level is a dimension of the loop domain')
            if r[1] is not None:
                c.fact(c.a[1] <= nset(r[1][0]), 'the level of the stride constraint')

        def post(c):
            r, D = c['r'], c['D']
            A = c.pred(DOM, c.ret)
            give_back(c, c.a[2], r)
            c.fact(z3.And(c.ret != 0, ddim(A) == ddim(D), dpar(A) == dpar(D), z3.Implies(dn(D) <= 1, dn(A) <= 1)), 'result')
            on = onstride(c.st, r[0].stride, offs(r, c.a[1]), c.a[1] - 1)
            c.fact(z3.Implies(mem(A), mem(D)), 'no point is added')
            c.fact(z3.Implies(z3.And(mem(D), on), mem(A)), 'points on the stride are kept')

    @S.spec('cloog_domain_add_stride_constraint', props=PC + ['C06', 'C07'])
    class _:
        def pre(c):
            c.fact(c.a[0] != 0, 'set')
            c['D'] = c.pred(DOM, c.a[0])
            c['r'] = None if c.case(c.a[1] == 0) else borrowed(c, c.a[1])

        def post(c):
            r, D = c['r'], c['D']
            A = c.pred(DOM, c.ret)
            if r is not None:
                give_back(c, c.a[1], r)
            c.fact(z3.And(c.ret != 0, ddim(A) == ddim(D), dpar(A) == dpar(D)), 'result')
            c.fact(mem(A) == z3.And(mem(D), holds(r[1][0]) if r is not None and r[1] is not None else z3.BoolVal(True)), 'the points that satisfy the stride constraint')

    @S.view('cloog_domain_add_stride_constraint')
    class _:
        def pre(c):
            c.fact(c.a[0] != 0, 'set')
            c['D'] = c.pred(DOM, c.a[0])
            c['s'] = c.pred(S.OSREF, c.a[1])

        def post(c):
            D = c.pred(DOM, c.ret)
            c.pred(S.OSREF, c.a[1], outs=(c['s'],))
            c.fact(z3.And(c.ret != 0, z3.Implies(mem(D), mem(c['D'])), ddim(D) == ddim(c['D']), dpar(D) == dpar(c['D'])), 'a subset')

    # ------------------------------------------------------------------ unrolling
    def ccu_pre(c, user, **kw):
        f = c.struct('cloog_can_unroll', user, region='stack', **kw)
        for k in ('can_unroll', 'level', 'c', 'set', 'n'):
            c.init(f[k], k)
        return f

    def covered(c, K, l, n, D, lo=None):
        """the points of D lie at a distance below n from the bound, and not before it (for points in lo)"""
        o = off(c.st, K, l - 1)
        c.fact(z3.And(cc(K, simp(l - 1)) > 0, nset(K) >= l), 'a lower bound')
        c.fact(z3.Implies(mem(D), o < n), 'the count covers the set')
        if lo is not None:
            c.fact(z3.Implies(lo, holds(K)), 'the bound holds')
            c.assume(z3.Implies(z3.And(KV(K) >= 0, cc(K, simp(l - 1)) > 0), o >= 0))         # lemma (ceil_bound)
            c.fact(z3.Implies(lo, o >= 0), 'no point lies before the bound')

    @S.spec('is_valid_unrolling_lower_bound', props=PC, abort_ok=True)
    class _:
        def pre(c):
            f = c['f'] = ccu_pre(c, c.a[0])
            K, u = c['K'] = c.pred(CONSTR, c.a[1])
            shape(c, K)
            D = c['D'] = c.pred(DOM, f.set)
            c['v'] = S.io_raw(c, c.a[2], 'v')
            c.fact(z3.And(c.a[1] != 0, f.set != 0, f.level >= 1, f.level <= nset(K), cc(K, simp(f.level - 1)) > 0), 'a lower bound at the level')

        def post(c):
            f, (K, u), D = c['f'], c['K'], c['D']
            c.struct('cloog_can_unroll', c.a[0], region='stack', **f)
            c.pred(CONSTR, c.a[1], outs=(K, None if not c.producing else ZERO))
            c.pred(DOM, f.set, outs=(D,))
            v = c.io_post(PTR, c.a[2], name='v')
            if c.case(c.ret == 0):
                c.fact(z3.Or(v == 0, v == c['v']) if not isinstance(c['v'], str) else True, 'no count')
                return
            n, d = c.pred(VAL, v)
            c.fact(z3.And(v != 0, d == 1), 'an integer count')
            covered(c, K, f.level, n, D)

    def state(c, f, D, lo):
        """the recorded bound, if any"""
        if c.case(f.c == 0):
            if c.case(f.n == 0):
                return None
            return (None, c.pred(VAL, f.n))
        K, u = c.pred(CONSTR, f.c)
        n, d = c.pred(VAL, f.n)
        c.fact(z3.And(f.n != 0, d == 1, keq(K) >= 0), 'an integer count')
        covered(c, K, f.level, n, D, lo)
        return (K, (n, d))

    @S.spec('constraint_can_unroll', props=PC, abort_ok=True)
    class _:
        def pre(c):
            K, u = c.pred(CONSTR, c.a[0])
            f = c['f'] = ccu_pre(c, c.a[1])
            c['K'] = K
            shape(c, K)
            D = c['D'] = c.pred(DOM, f.set)
            c['s'] = state(c, f, D, None)
            c.fact(z3.And(c.a[0] != 0, f.set != 0, f.level >= 1, f.level <= nset(K)), 'level')

        def post(c):
            f0, K, D, s = c['f'], c['K'], c['D'], c['s']
            f = ccu_pre(c, c.a[1], can_unroll=f0.can_unroll, level=f0.level, set=f0.set)
            c.pred(DOM, f.set, outs=(D,))
            # nothing recorded / the old bound / this constraint
            if c.case(f.c == 0):
                c.fact(z3.And(f0.c == 0, f.n == f0.n), 'nothing is recorded')
                if s is not None and s[1] is not None:
                    c.pred(VAL, f.n, outs=s[1])
                return
            K2, u = c.pred(CONSTR, f.c)
            n, d = c.pred(VAL, f.n)
            c.fact(z3.And(f.n != 0, d == 1), 'an integer count')
            old = s[0] if s is not None else None
            c.fact(z3.Or(K2 == K, K2 == old if old is not None else False), 'the bound is one of the constraints')
            covered(c, K2, f.level, n, D)

    def fe_unroll(c, user, D, i):
        c.once('f', lambda: None)
        f = ccu_pre(c, user)
        A = c.pred(DOM, f.set)
        if c.g.get('once_f') is None:
            c.g['once_f'] = (f, A)
        f0, A0 = c.g['once_f']
        c.fact(z3.And(f.level == f0.level, f.set == f0.set, f.can_unroll == f0.can_unroll, f.set != 0, f.level >= 1, f.level <= ddim(D)), 'level and set')
        c.fact(A == A0, 'the set is not changed')
        state(c, f, A, mem(D))
    S.fe['constraint_can_unroll'] = fe_unroll

    @S.spec('basic_set_can_unroll', props=PC, abort_ok=True)
    class _:
        def pre(c):
            D = c['D'] = c.pred(BSET, c.a[0])
            f = c['f'] = ccu_pre(c, c.a[1])
            A = c['A'] = c.pred(DOM, f.set)
            c['s'] = state(c, f, A, None)
            c.fact(z3.And(c.a[0] != 0, f.set != 0, f.level >= 1, f.level <= ddim(D)), 'level')

        def post(c):
            f0, D, A, s = c['f'], c['D'], c['A'], c['s']
            f = ccu_pre(c, c.a[1], level=f0.level, set=f0.set)
            c.pred(DOM, f.set, outs=(A,))
            c.fact(z3.Implies(f.can_unroll != 0, z3.And(f.can_unroll == f0.can_unroll, f0.c == 0, f.c != 0)), 'only the first piece can be unrolled')
            state(c, f, A, z3.And(f.can_unroll != 0, mem(D)))

    def fe_bunroll(c, user, D, i):
        c.once('f', lambda: None)
        f = ccu_pre(c, user)
        A = c.pred(DOM, f.set)
        if c.g.get('once_f') is None:
            c.g['once_f'] = (f, A)
        f0, A0 = c.g['once_f']
        c.fact(z3.And(f.level == f0.level, f.set == f0.set, f.set != 0, f.level >= 1, f.level <= ddim(D)), 'level and set')
        c.fact(A == A0, 'the set is not changed')
        Q = blist(D)
        ro_step(c.st, Q, i)
        ro_step(c.st, Q, ZERO)
        c.fact(z3.Implies(f.can_unroll != 0, z3.And(i <= 1, (f.c != 0) == (i == 1))), 'only one piece can be unrolled')
        state(c, f, A, z3.And(f.can_unroll != 0, RO(Q, i)))
    S.fe['basic_set_can_unroll'] = fe_bunroll

    @S.spec('cloog_domain_can_unroll', props=PC + ['C06', 'C07'], abort_ok=True)
    class _:
        def pre(c):
            c.fact(z3.And(c.a[0] != 0, c.a[1] >= 1), 'set and level')
            D = c['D'] = c.pred(DOM, c.a[0])
            c.trust(c.a[1] <= ddim(D), 'the level is a dimension of the loop domain')
            c['n'] = c.io(MPZ, c.a[2], 'n')
            S.io_raw(c, c.a[3], 'lb')

        def post(c):
            D, l = c['D'], c.a[1]
            c.pred(DOM, c.a[0], outs=(D,))
            n = c.io_post(MPZ, c.a[2], name='n')
            lb = c.io_post(PTR, c.a[3], name='lb')
            if c.case(c.ret == 0):
                c.fact(lb == 0, 'no bound')
                return
            K, u = c.pred(CONSTR, lb)
            c.fact(lb != 0, 'a bound')
            covered(c, K, l, n, D, mem(D))

    @S.spec('cloog_domain_fixed_offset', props=PC + ['C06', 'C07'])
    class _:
        def pre(c):
            c.fact(z3.And(c.a[0] != 0, c.a[1] >= 1, c.a[2] != 0), 'set and level')
            c['D'] = c.pred(DOM, c.a[0])
            K, u = c['K'] = c.pred(S.CONSTR, c.a[2])
            shape(c, K)
            c.fact(z3.And(c.a[1] <= nset(K), cc(K, simp(c.a[1] - 1)) > 0), 'a lower bound at the level')
            c['i'] = c.io(MPZ, c.a[3], 'offset')

        def post(c):
            D = c.pred(DOM, c.ret)
            K = c['K'][0]
            c.pred(S.CONSTR, c.a[2], outs=c['K'])
            c.io_post(MPZ, c.a[3], c['i'])
            c.fact(z3.And(c.ret != 0, mem(D) == z3.And(mem(c['D']), off(c.st, K, c.a[1] - 1) == c['i'])), 'points at the offset')
            c.fact(z3.And(ddim(D) == ddim(c['D']), dpar(D) == dpar(c['D'])), 'dimension')

    # ------------------------------------------------------------------ strides of loops
    import spec_loop as SL
    SREF = S.SREF
    old_sref = SREF.lookup

    def sref_look(c, ins):
        r = old_sref(c, ins)
        if r is not None:
            return r
        # the only reference to a stride that is owned: a reference token
        for ch in c.st.heap:
            if ch.kind == 'S' and ch.s == 'cloogstride' and c.eng.must_eq(c.st, ch.addr, ins[0]):
                g = stride_struct(c, ins[0])
                c.fact(g.references == 1, 'reference count of the stride')
                if not c.case(g.constraint == 0):
                    c.pred(CONSTR, g.constraint)
                return (c.fresh('stride'),)
        return None
    SREF.lookup = sref_look

    @S.spec('cloog_domain_list_free', props=PC + ['C07'])
    class _:
        def pre(c):
            c.pred(DLIST, c.a[0])

        def post(c):
            pass

    @S.inv('cloog_domain_list_free', 0)
    def _(c):
        c.pred(DLIST, c.v('list'))

    def sl_pre(c):
        f = c.struct('cloogloop', c.a[0])
        for k in SL.FIELDS:
            c.init(f[k], k)
        c.fact(z3.And(f.domain != 0, f.inner != 0, c.a[1] >= 1), 'loop, inner loops and level')
        c.trust(f.stride == 0, 'strides are computed once per loop')
        if not c.producing:
            c.pred(S.OSREF, f.stride)
        c['f'], c['D'], c['Li'] = f, c.pred(DOM, f.domain), c.pred(S.LOOPS, f.inner)

    def sl_post(c, ret):
        f0, D, Li = c['f'], c['D'], c['Li']
        fx = {k: v for k, v in f0.items() if k not in ('domain', 'stride')}
        f = c.struct('cloogloop', c.a[0], **fx)
        D2 = c.pred(DOM, f.domain)
        L2 = c.pred(S.LOOPS, f.inner)
        c.fact(L2 == Li, 'inner loops unchanged')
        if ret:
            c.fact((c.ret != 0) == (f.stride != 0), 'result tells whether a stride was found')
            if c.case(f.stride == 0):
                c.fact(z3.And(f.domain == f0.domain, D2 == D), 'nothing changes')
                return
        c.pred(S.OSREF, f.stride)
        c.fact(z3.And(f.domain != 0, ddim(D2) == ddim(D), dpar(D2) == dpar(D), z3.Implies(dn(D) <= 1, dn(D2) <= 1)), 'domain')
        c.fact(z3.Implies(mem(D2), mem(D)), 'no iteration is added')
        c.fact(z3.Implies(z3.And(mem(D), SL.M(Li) > 0), mem(D2)), 'iterations of the inner loops are kept')

    @S.spec('cloog_loop_variable_offset_stride', props=PC + ['C06', 'C07'], abort_ok=True)
    class _:
        pre = sl_pre

        def post(c):
            sl_post(c, True)

    @S.inv('cloog_loop_variable_offset_stride', 0)
    def _(c):
        f = c.pre('f')
        a = c.pred(S.LSEG, f.inner, c.v('inner'))
        r = c.pred(S.LOOPS, c.v('inner'))
        L = c.pred(DLIST, c.v('list'))
        c.fact(SL.app(a, r) == c.pre('Li'), 'inner loops unchanged')
        c.fact(L == (SL.M(a) > 0), 'the domains seen so far')
        c.fact(z3.Or(c.v('list') != 0, c.v('inner') == f.inner), 'one entry per loop')

    @S.spec('cloog_loop_stride', props=PC + ['C06', 'C07'], abort_ok=True)
    class _:
        pre = sl_pre

        def post(c):
            sl_post(c, False)

    def dvd0(s, u):
        return z3.If(s == 0, u == 0, exact(u, s))

    @S.inv('cloog_loop_stride', 0)
    def _(c):
        f = c.pre('f')
        p = simp(c.arg0(1) - 1)
        a = c.pred(S.LSEG, f.inner, c.v('inner'))
        r = c.pred(S.LOOPS, c.v('inner'))
        s, ro, o, fs = c.v('stride'), c.v('ref_offset'), c.v('offset'), c.v('first_search')
        c.fact(SL.app(a, r) == c.pre('Li'), 'inner loops unchanged')
        if c.producing:
            c.st.g['stride_head'] = (s, ro)
        elif 'stride_head' in c.st.g:
            s0, ro0 = c.st.g['stride_head']
            pot = c.v('potential')
            g = GCD(pot, s0)
            for t in (ro0,) + ((o.arg(0),) if z3.is_app(o) and o.decl().eq(MOD) else ()):
                for d in (s0, pot):
                    # lemma (coarser_class): a residue class modulo d is part of one modulo each divisor g of d
                    u, u2 = simp(X(p) + t), simp(X(p) + MOD(t, g))
                    c.st.assume(z3.Implies(z3.And(g > 0, d == g * FDIV(d, g), dvd0(d, u), MOD(t, g) == t - g * FDIV(t, g)), exact(u2, g)))
        c.fact(z3.And(s >= 0, z3.Or(fs == 0, fs == 1)), 'stride is not negative')
        c.fact(z3.Implies(fs == 1, z3.And(SL.M(a) == 0, s == 1)), 'nothing seen yet')
        lem_exact(c.st, simp(X(p) + ro), iv(1), simp(X(p) + ro))
        c.fact(z3.Implies(z3.And(fs == 0, s != 1), z3.And(ro == o, z3.Implies(s > 0, z3.And(o >= 0, o < s)))), 'offset')
        c.fact(z3.Implies(SL.M(a) > 0, dvd0(s, simp(X(p) + ro))), 'points seen so far are on the stride')
        if c.producing:
            # lemma (shift_class): X + o and X - (s - o) differ by s
            c.st.assume(z3.Implies(z3.And(s > 0, exact(simp(X(p) + o), s)), exact(simp(X(p) - (s - o)), s)))
