"""Loop bounds (source/clast.c): collecting the bounds of a level from a constraint set.

As in spec_constr, all values are at one fixed but arbitrary environment.  OKV(K) says that constraint K of the set holds there; the
bound built for a level must hold exactly where all the constraints it stands for hold (on the stride of the level, if it has one)."""
import z3
from engine import FLD, iv, ZERO, simp, I, Pred, UNINIT, isval, ArrVal, IChunk
from front import MPZ, INT, T, ToolLimit
from models import FDIV, CDIV, MOD, fdiv, cdiv, fmod
from spec_constr import (CONSTR, VAL, cc, keq, kconst, nset, ndiv, npar, total, rest, shape, names_fit, VV, PS, CN, cn_mono, vv_def, ps_step,
                         nscat, nit, npr, scatA, itA, parA, Constr, Names, isdivc)
from spec_int import AI, forall_range
from spec_clast import RF, SUM, MIN, MAX, RED, TERM, NAME, BIN, BMOD, ev, env, kind, rf_zero, rf_step, rel, rn, rty, tvar, Tree, SV
from spec_stride import exact, lem_exact, KS, kn, QAFF, KV, RN, KD, X
from spec_guard import NV, PV, srest, on_stride, SIT, SPA
from spec_dom import BSET, Dom, ddim, dpar
from spec_data import PTR

F = z3.Function
B = z3.BoolSort()
NEB = F('no_variable_below', Constr, I, B)          # the constraint involves no variable before position i
MNB = F('bounds_count', Dom, I, I, I, I, I, I)      # number of bounds among the first i constraints
MOK = F('bounds_hold', Dom, Names, I, I, I, I, I, B)     # they hold
MAL = F('bounds_fixed', Dom, Names, I, I, I, I, I, B)    # none of them involves another variable


def coef_in(K, v):
    return z3.And(v < total(K), cc(K, simp(v)) != 0)


def neb_def(st, K, l):
    st.assume(NEB(K, l) == forall_range(0, l, lambda k: z3.Not(coef_in(K, k))))


def vb(K, l, mx, gd, ne):
    """constraint K is a bound clast_minmax has to use"""
    p = simp(l - 1)
    a = cc(K, p)
    return z3.And(p < total(K), z3.If(mx != 0, a > 0, a < 0), keq(K) != 1, z3.Or(gd == 0, z3.Not(coef_in(K, simp(gd - 1)))), z3.Or(ne == 0, NEB(K, p)))


def used(K, cfg):
    return z3.And(isdivc(K) == 0, vb(K, *cfg))


def okv(K, N, l):
    p = simp(l - 1)
    a = cc(K, p)
    v = a * VV(K, N, p) + rest(K, N, l)
    return z3.If(keq(K) == 1, v == 0, v >= 0)


def ok_bound(st, K, N, l):
    """lemma (bound_holds): the inequality a x + r >= 0 and its bound on x"""
    p = simp(l - 1)
    a, x, r = cc(K, p), VV(K, N, p), rest(K, N, l)
    cdiv(st, simp(-r), a)
    fdiv(st, r, simp(-a))
    st.assume(z3.Implies(a > 0, (a * x + r >= 0) == (x >= CDIV(simp(-r), a))))
    st.assume(z3.Implies(a < 0, (a * x + r >= 0) == (x <= FDIV(r, simp(-a)))))


def m_step(st, D, N, cfg, i):
    """definitions of MNB, MOK and MAL"""
    l = cfg[0]
    K = KS(D, i)
    u = used(K, cfg)
    st.assume(MNB(D, *cfg, ZERO) == 0)
    st.assume(MOK(D, N, *cfg, ZERO))
    st.assume(MAL(D, N, *cfg, ZERO))
    j = simp(i + 1)
    st.assume(z3.Implies(i >= 0, MNB(D, *cfg, j) == MNB(D, *cfg, i) + z3.If(u, iv(1), ZERO)))
    st.assume(z3.Implies(i >= 0, MOK(D, N, *cfg, j) == z3.And(MOK(D, N, *cfg, i), z3.Implies(u, okv(K, N, l)))))
    st.assume(z3.Implies(i >= 0, MAL(D, N, *cfg, j) == z3.And(MAL(D, N, *cfg, i), z3.Implies(u, CN(K, l, total(K)) == 0))))
    for x in (i, j):            # lemma (count_monotone)
        st.assume(z3.Implies(z3.And(0 <= x, x <= kn(D)), z3.And(MNB(D, *cfg, x) >= 0, MNB(D, *cfg, x) <= MNB(D, *cfg, kn(D)))))


def sd(s, N, l):
    """the residue of the level under its stride"""
    return z3.If(s[4] == 1, s[2] * srest(s[3], N, l), s[1])


def stride_lem(st, s, x, v, d):
    """lemma (stride_ceil): on the stride, being at least v and being at least v rounded up to the stride are the same"""
    q, k = CDIV(simp(v - d), s), FDIV(simp(x - d), s)
    cdiv(st, simp(v - d), s)
    st.assume(z3.Implies(z3.And(s > 0, exact(simp(x - d), s)), (x >= v) == (x >= q * s + d)))
    lem_exact(st, simp(q * s), s, q)


def install(S):
    Bn = S.builtins
    P1 = ['C01']

    # ------------------------------------------------------------------ sorting
    def qsort(e, st, vs, n, args):
        """the C library's qsort permutes the elements (here: the pointers of a reduction)"""
        line = e.line(n)
        for s2, loc in e.cell(st, vs[0], PTR, line):
            c, path, idx = loc
            if c.kind == 'S' and c.s == 'clast_guard' and path == 'eq':
                yield from S.sort_conditions(e, s2, c, vs[1], line)
                continue
            v = c.f.get(path) if c.kind == 'S' else None
            if not isinstance(v, ArrVal):
                raise ToolLimit('qsort of this array')
            its = [h for h in s2.heap if h.kind == 'I' and h.p is S.EXPR and (h.A.eq(v.arr) or e.must_eq(s2, h.A, v.arr))]
            if len(its) != 1 or its[0].holes:
                raise ToolLimit('qsort of elements that are not expressions')
            h = its[0]
            e.prove(s2, z3.And(h.lo == 0, vs[1] == h.hi), 'the sorted elements are the expressions', line)
            A2, E2 = e.fresh('sorted', AI), e.fresh('sortedT', z3.ArraySort(I, Tree))
            pi = z3.Function('perm!%d' % len(e.gaddr) + str(e.fresh('p')), I, I)
            k = z3.Int('k!q')
            s2.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < h.hi), z3.And(pi(k) >= 0, pi(k) < h.hi, A2[k] == v.arr[pi(k)], E2[k] == h.E[0][pi(k)])), patterns=[A2[k], E2[k]]))
            s2.assume(z3.ForAll([k], z3.Implies(k >= h.hi, A2[k] == v.arr[k]), patterns=[A2[k]]))
            for t in (SUM, MIN, MAX):      # a reduction does not depend on the order of its elements (lemma red_swap)
                s2.assume(RF(iv(t), E2, h.hi) == RF(iv(t), h.E[0], h.hi))
            rf_zero(s2, E2)
            s2.replace(c, c.set(path, ArrVal(A2, v.size)))
            s2.replace(h, IChunk(h.p, A2, h.lo, h.hi, (E2,), (), h.depth))
            yield s2, ZERO
    Bn['qsort'] = qsort

    # ------------------------------------------------------------------ which constraints are bounds
    def mm_struct(c, p, **w):
        f = c.struct('clast_minmax_data', p, region='stack', **w)
        for k in ('level', 'max', 'guard', 'lower_bound', 'no_earlier', 'infos', 'n'):
            c.init(f[k], k)
        return f

    @S.spec('valid_bound', props=P1)
    class _:
        def pre(c):
            K, u = c.pred(CONSTR, c.a[0])
            c['K'], c['u'] = K, u
            shape(c, K)
            f = c['f'] = mm_struct(c, c.a[1])
            c.fact(z3.And(c.a[0] != 0, f.level >= 1, f.guard >= 0), 'constraint and level')

        def post(c):
            K, f = c['K'], c['f']
            c.pred(CONSTR, c.a[0], outs=(K, c['u']))
            c.struct('clast_minmax_data', c.a[1], region='stack', **f)
            neb_def(c.st, K, simp(f.level - 1))
            c.fact((c.ret != 0) == vb(K, f.level, f.max, f.guard, f.no_earlier), 'true exactly for the bounds of the level')

    @S.inv('valid_bound', 0)
    def _(c):
        i, K, f = c.v('i'), c.pre('K'), c.pre('f')
        c.fact(z3.And(i >= 0, i <= f.level - 1), 'range')
        c.fact(forall_range(0, i, lambda k: z3.Not(coef_in(K, k))), 'no earlier variable so far')

    # ------------------------------------------------------------------ iteration over a constraint set
    S.cfe = {}

    def cset_inv(c, user, D, i):
        f = c.eng.find_one(c.st, 'cloog_isl_foreach', user) if hasattr(c.eng, 'find_one') else None
        fn = simp(c.read('cloog_isl_foreach', user, 'fn'))
        u = simp(c.read('cloog_isl_foreach', user, 'user'))
        name = c.eng.addrfn.get(fn.as_long()) if isval(fn) else None
        inv = S.cfe.get(name)
        if inv is None:
            raise ToolLimit('no invariant for the iteration callback %s' % name)
        inv(c, u, D, i)
    S.fe['cloog_isl_foreach_cb'] = cset_inv

    def cfg_of(c):
        return (c.arg0(1), c.arg0(2), c.arg0(3), c.arg0(5))

    def mm_shell(c, user, n):
        f = c.struct('clast_minmax_data', user, region='stack', level=c.arg0(1), max=c.arg0(2), guard=c.arg0(3), lower_bound=c.arg0(4), no_earlier=c.arg0(5), infos=c.arg0(6), n=n)
        return f

    def inv_count(c, user, D, i):
        cfg = cfg_of(c)
        m_step(c.st, D, c.pre('x').N, cfg, i)
        f = mm_shell(c, user, MNB(D, *cfg, i))
    S.cfe['count_bounds'] = inv_count

    def inv_collect(c, user, D, i):
        cfg = cfg_of(c)
        l = cfg[0]
        x = c.pre('x')
        N = x.N
        m_step(c.st, D, N, cfg, i)
        vv_def(c.st, KS(D, i), N, simp(l - 1))
        ok_bound(c.st, KS(D, i), N, l)
        n = MNB(D, *cfg, i)
        room = MNB(D, *cfg, kn(D))
        f = mm_shell(c, user, n)
        ty = simp(z3.If(cfg[1] != 0, iv(MAX), iv(MIN)))
        r = c.once('r', lambda: f.r)
        c.fact(f.r == r, 'one result')
        g = c.struct('clast_reduction', r, room, expr__type=iv(RED), type=ty, n=room)
        c.fact(z3.And(r > 0, n >= 0, n <= room), 'room')
        E = c.iter(S.EXPR, g.elts.arr, ZERO, n)
        rf_zero(c.st, E)
        c.fact(forall_range(n, room, lambda k: g.elts.arr[k] == 0), 'remaining elements are null')
        xv = xval(c.st, D, N, l, i)
        w = RF(ty, E, n)
        if c.producing and c.pre('s') is not None:
            K = KS(D, i)
            stride_lem(c.st, c.pre('s')[0], xv, CDIV(simp(-rest(K, N, l)), cc(K, simp(l - 1))), c.pre('s')[1])
        c.fact(z3.Implies(n == 0, MOK(D, N, *cfg, i)), 'no bound, nothing to say')
        c.fact(z3.Implies(n > 0, z3.If(cfg[1] != 0, xv >= w, xv <= w) == MOK(D, N, *cfg, i)), 'the bounds so far')
        if c.pre('s') is not None:
            s = c.pre('s')
            d = sd(s, N, l)
            c.fact(z3.Implies(z3.And(n > 0, z3.Or(s[4] == 1, MAL(D, N, *cfg, i))), exact(simp(w - d), s[0])), 'the bound lies on the stride')
    S.cfe['collect_bounds'] = inv_collect

    def xval(st, D, N, l, i):
        """value of the variable of level l: the same for every constraint of the set"""
        return XV(D, N, l)
    XV = F('value_of_level', Dom, Names, I, I)
    S.XV = XV

    def later0(K, l):
        return forall_range(l, nset(K), lambda k: cc(K, k) == 0)

    @S.spec('clast_minmax', props=P1, light=True)
    class _:
        def pre(c):
            cs, l, mx, gd, lb, ne = c.a[:6]
            c.fact(cs != 0, 'a constraint set')
            D = c['D'] = c.pred(BSET, cs)
            x = c['x'] = S.infos(c, c.a[6])
            N = x.N
            c.fact(z3.And(l >= 1, gd >= 0, ddim(D) <= nscat(N) + nit(N), dpar(D) == npr(N), ddim(D) >= 0, dpar(D) >= 0), 'the constraints fit the program')
            c['s'] = None
            if c.case(lb != 0):
                c.fact(z3.And(mx != 0, l <= ddim(D), l <= x.f.stride_level), 'only lower bounds of iterators are moved onto the stride')
                if not c.case(x.A[simp(l - 1)] == 0):
                    s = c['s'] = x.at(simp(l - 1))
                    c.fact(z3.Implies(s[4] == 1, z3.And(nset(s[3]) == ddim(D), later0(s[3], l))), 'the stride is one of this level')
            if c.producing:
                c.st.g['names'] = N
            c.st.assume(kn(D) >= 0)
            if c.producing:
                k = z3.Int('k!q')
                # a set has the same variables in all its constraints
                c.st.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < kn(D)), VV(KS(D, k), N, simp(l - 1)) == XV(D, N, l)), patterns=[KS(D, k)]))
                c.st.assume(z3.Implies(l <= ddim(D), XV(D, N, l) == NV(N, simp(l - 1))))

        def post(c):
            cs, l, mx, gd, lb, ne = c.a[:6]
            D, x = c['D'], c['x']
            N = x.N
            cfg = (l, mx, gd, ne)
            c.pred(BSET, cs, outs=(D,))
            S.infos_back(c, x)
            n = MNB(D, *cfg, kn(D))
            m_step(c.st, D, N, cfg, ZERO)
            if c.producing:
                if not c.case(n > 0):
                    c.st.assume(z3.And(n == 0, c.ret == 0))
                    return
                c.st.assume(c.ret != 0)
            else:
                c.fact((c.ret == 0) == (n == 0), 'nothing exactly if there is no bound')
                if c.entails(c.ret == 0):
                    return
            t = c.pred(S.EXPR, c.ret)
            c.fact(z3.And(kind(t) == RED, rn(t) == n, rty(t) == z3.If(mx != 0, iv(MAX), iv(MIN))), 'a maximum or minimum of all the bounds')
            xv = XV(D, N, l)
            c.fact(z3.If(mx != 0, xv >= ev(t), xv <= ev(t)) == MOK(D, N, *cfg, kn(D)), 'the bound holds exactly where all the constraints hold')
            s = c['s']
            if s is not None:
                c.fact(z3.Implies(z3.Or(s[4] == 1, MAL(D, N, *cfg, kn(D))), exact(simp(ev(t) - sd(s, N, l)), s[0])), 'the lower bound lies on the stride')

    # ------------------------------------------------------------------ bounds on a stride given by a constraint
    S.aff_zero.update(['extract_stride_offset', 'cloog_constraint_stride_lower_bound'])

    def names_of(c):
        """the naming the caller's values refer to; a function that does not know it is verified for an arbitrary one"""
        if c.producing:
            N = c.fresh('N', Names)
            c.st.g['names'] = N
            point(c.st, N)
            return N
        if 'names' not in c.st.g:
            c.st.g['names'] = c.fresh('N', Names)
        return c.st.g['names']

    def point(st, N):
        """the point of the domain contracts is the one of the environment"""
        k = z3.Int('k!q')
        st.assume(z3.ForAll([k], z3.Implies(k >= 0, X(k) == NV(N, k)), patterns=[X(k)]))
        st.assume(z3.ForAll([k], z3.Implies(k <= -2, X(k) == PV(N, -2 - k)), patterns=[X(k)]))

    FACT = FLD('cloogstride.factor')

    @S.spec('extract_stride_offset', props=P1)
    class _:
        def pre(c):
            K, u = c['K'], c['u'] = c.pred(CONSTR, c.a[0])
            shape(c, K)
            l = c.a[1]
            c['f'] = c.io(MPZ, FACT(c.a[2]), 'factor')
            N = c['N'] = names_of(c)
            c.fact(z3.And(c.a[0] != 0, c.a[2] != 0, l >= 1, l <= nset(K), later0(K, l)), 'a stride constraint of the level')

        def post(c):
            K, f, N, l = c['K'], c['f'], c['N'], c.a[1]
            c.pred(CONSTR, c.a[0], outs=(K, c['u']))
            c.io_post(MPZ, FACT(c.a[2]), f)
            c.fact(c.ret != 0, 'an expression')
            if c.producing:
                A = c.fresh('coefs', AI)
                c.pred(QAFF, c.ret, outs=(simp(f * srest(K, N, l)), iv(1), A, ZERO, ZERO))
            else:
                num, den, A, dp, nd = c.pred(QAFF, c.ret)
                c.fact(z3.And(den == 1, dp == 0, nd == 0), 'an integer expression without existentials')
                c.st.assume(f * srest(K, N, l) == f * SIT(K, N, simp(l - 1)) + f * SPA(K, N, npar(K)) + f * kconst(K))
                c.fact(num == f * srest(K, N, l), 'the residue of the level')
            c.fact(A[simp(l - 1)] == 0, 'the level itself does not occur')

    def ext_inv(par):
        def inv(c):
            K, f, N, l = c.pre('K'), c.pre('f'), c.pre('N'), c.arg0(1)
            i = c.v('i')
            p = c.v('offset')
            st = c.st
            st.assume(z3.And(SIT(K, N, ZERO) == 0, SPA(K, N, ZERO) == 0))
            h = simp(i + 1)
            k0 = simp(nset(K) + ndiv(K) + i)
            if par:
                st.assume(z3.Implies(i >= 0, z3.And(SPA(K, N, h) == SPA(K, N, i) + cc(K, k0) * PV(N, i),
                                                    f * SPA(K, N, h) == f * SPA(K, N, i) + f * (cc(K, k0) * PV(N, i)), X(simp(-2 - i)) == PV(N, i))))
            else:
                st.assume(z3.Implies(i >= 0, z3.And(SIT(K, N, h) == SIT(K, N, i) + cc(K, i) * NV(N, i),
                                                    f * SIT(K, N, h) == f * SIT(K, N, i) + f * (cc(K, i) * NV(N, i)), X(i) == NV(N, i))))
            num, den, A, dp, nd = c.pred(QAFF, p)
            c.fact(z3.And(p != 0, den == 1, dp == 0, nd == 0, A[-1] == 0), 'an integer expression')
            if par:
                c.fact(z3.And(i >= 0, i <= npar(K)), 'range')
                c.fact(num == f * SPA(K, N, i), 'parameters so far')
                k = z3.Int('k!q')
                c.fact(z3.ForAll([k], z3.Implies(z3.Or(k >= -1, k <= -2 - i), A[k] == 0), patterns=[A[k]]), 'the rest is zero')
            else:
                c.fact(z3.And(i >= 0, i <= nset(K)), 'range')
                c.fact(num == f * SPA(K, N, npar(K)) + f * SIT(K, N, z3.If(i <= l - 1, i, simp(l - 1))), 'parameters and iterators so far')
                k = z3.Int('k!q')
                c.fact(z3.ForAll([k], z3.Implies(z3.Or(k >= i, k == l - 1), A[k] == 0), patterns=[A[k]]), 'the rest is zero')
        return inv
    S.inv('extract_stride_offset', 0)(ext_inv(True))
    S.inv('extract_stride_offset', 1)(ext_inv(False))

    @S.spec('cloog_constraint_stride_lower_bound', props=P1)
    class _:
        def pre(c):
            K, u = c['K'], c['u'] = c.pred(CONSTR, c.a[0])
            shape(c, K)
            l = c.a[1]
            s = c['s'] = c.pred(S.STRL, c.a[2])
            N = c['N'] = names_of(c)
            c.fact(z3.And(c.a[0] != 0, c.a[2] != 0, s[0] > 0, s[4] == 1), 'a stride given by a constraint')
            c.fact(z3.And(l >= 1, l <= nset(K), keq(K) != 1, cc(K, simp(l - 1)) > 0), 'a lower bound of an iterator')
            c.fact(z3.And(nset(s[3]) == nset(K), npar(s[3]) == npar(K), ndiv(s[3]) >= 0, later0(s[3], l)), 'stride and bound have the same variables')

        def post(c):
            K, s, N, l = c['K'], c['s'], c['N'], c.a[1]
            p = simp(l - 1)
            c.pred(S.STRL, c.a[2], outs=s)
            c.fact(c.ret != 0, 'a constraint')
            K2, u = c.pred(CONSTR, c.ret)
            c.trust(z3.And(nset(K2) == nset(K), npar(K2) == npar(K), ndiv(K2) >= 0), 'the updated bound has the iterators and parameters of the old one')
            c.fact(z3.And(keq(K2) == 0, cc(K2, p) == 1), 'a lower bound')
            L, a, x, d = simp(-rest(K2, N, l)), cc(K, p), NV(N, p), simp(s[2] * srest(s[3], N, l))
            if not c.producing:
                for Q in (K, K2):
                    # the two readings of a constraint at the point: variables outside, existentials with their defining values
                    c.st.assume(RN(Q, p) + KD(Q) == rest(Q, N, l))
                c.eng.models_used.add('trusted: cloog_constraint_stride_lower_bound: a constraint has the same value in the domain contracts and under the names')
                c.st.assume(KV(K) == cc(K, p) * X(p) + RN(K, p) + KD(K))
                c.ensure(cc(K2, p) == 1, 'the bound is on the level')
                c.st.assume(z3.Implies(cc(K2, p) == 1, KV(K2) == X(p) + RN(K2, p) + KD(K2)))
                c.st.assume(X(p) == x)
                u_ = simp(-(RN(K, p) + KD(K)) - s[2] * srest(s[3], N, l) * a)
                q, k = CDIV(u_, simp(a * s[0])), FDIV(simp(x - d), s[0])
                cdiv(c.st, u_, simp(a * s[0]))
                # lemma (stride_bound)
                c.st.assume(z3.Implies(z3.And(a > 0, s[0] > 0, s[0] * k == x - d), (a * x >= u_ + d * a) == (x >= q * s[0] + d)))
                lem_exact(c.st, simp(q * s[0]), s[0], q)
                c.ensure(KV(K2) == X(p) - (q * s[0] + d), 'the bound built')
                c.ensure(KV(K2) == X(p) + RN(K2, p) + KD(K2), 'the bound in terms of the level')
                c.ensure(L == -(RN(K2, p) + KD(K2)), 'the bound on the level')
                c.ensure(L == q * s[0] + d, 'the bound is rounded up to the stride')
                c.st.assume(simp(L - d) == simp(q * s[0]))
            c.fact(z3.Implies(exact(simp(x - d), s[0]), (x >= L) == (a * x + rest(K, N, l) >= 0)), 'on the stride, both bounds are the same')
            c.fact(exact(simp(L - d), s[0]), 'the bound lies on the stride')
