"""Guards of a constraint set (source/clast.c: insert_guard_constraint): which conditions the constraints of a set become.

Values are at one fixed but arbitrary environment (spec_constr).  GC(L, R, S, n): the first n conditions of a guard hold."""
import z3
from engine import FLD, iv, ZERO, simp, I
from front import MPZ, INT, T, ToolLimit
from spec_constr import CONSTR, Names, cc, keq, nset, ndiv, npar, total, rest, PS, VV, nscat, nit, npr, shape, isdivc
from spec_int import AI, forall_range
from spec_clast import ev, kind, Tree
from spec_stride import KS, kn
from spec_dom import BSET, Dom, ddim, dpar, bdiv
from spec_data import PTR, ISSTATE
from spec_minmax import MNB, MOK, NEB, coef_in, neb_def, okv, m_step, used

AT = z3.ArraySort(I, Tree)
B = z3.BoolSort()
GC = z3.Function('guard_conditions', AT, AT, AI, I, B)


def cond(L, R, s):
    return z3.If(s == 0, ev(L) == ev(R), z3.If(s > 0, ev(L) >= ev(R), ev(L) <= ev(R)))


def gc_step(st, L, R, S_, k):
    """definition of GC"""
    st.assume(GC(L, R, S_, ZERO))
    st.assume(z3.Implies(k >= 0, GC(L, R, S_, simp(k + 1)) == z3.And(GC(L, R, S_, k), cond(L[k], R[k], S_[k]))))


def gc_prefix(st, a, b, n):
    """lemma (gc_prefix): the first n conditions only depend on the first n elements"""
    k = z3.Int('k!q')
    st.assume(z3.Implies(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), z3.And(ev(a[0][k]) == ev(b[0][k]), ev(a[1][k]) == ev(b[1][k]), a[2][k] == b[2][k]))),
                         GC(*a, n) == GC(*b, n)))


CT = z3.Function('constraints_seen', Dom, I, I)                 # constraints among the first k that the iteration visits
EQC = z3.Function('constraints_first', Dom, I, I, I)            # ... whose first variable is the one of position i
LTC = z3.Function('constraints_before', Dom, I, I)              # constraints whose first variable comes before position i
INN = z3.Function('first_hold', Dom, Names, I, I, I, I, B)      # the constraints among the first k whose first variable is i hold
SNG = z3.Function('single_hold', Dom, Names, I, I, I, I, B)     # ... those of them that become conditions of their own
GAL = z3.Function('guard_holds', Dom, Names, I, I, I, B)        # the constraints whose first variable comes before i hold


def first_at(K, i):
    return z3.And(isdivc(K) == 0, coef_in(K, simp(i - 1)), NEB(K, simp(i - 1)))


def counts(st, D, i, k):
    """definitions of CT, EQC, LTC; lemma (count_first)"""
    K = KS(D, k)
    st.assume(z3.And(CT(D, ZERO) == 0, EQC(D, i, ZERO) == 0, LTC(D, iv(1)) == 0))
    st.assume(z3.Implies(k >= 0, CT(D, simp(k + 1)) == CT(D, k) + z3.If(isdivc(K) == 0, iv(1), ZERO)))
    st.assume(z3.Implies(k >= 0, EQC(D, i, simp(k + 1)) == EQC(D, i, k) + z3.If(first_at(K, i), iv(1), ZERO)))
    st.assume(z3.Implies(i >= 1, LTC(D, simp(i + 1)) == LTC(D, i) + EQC(D, i, kn(D))))
    for x in (k, simp(k + 1), kn(D)):
        st.assume(z3.Implies(z3.And(i >= 1, 0 <= x, x <= kn(D)), z3.And(EQC(D, i, x) >= 0, LTC(D, i) + EQC(D, i, x) <= CT(D, kn(D)), CT(D, x) >= 0, LTC(D, i) >= 0)))


def holds_def(st, D, N, lv, nb, i, k):
    """definitions of INN, SNG and GAL; lemmas (first_split), (count_zero)"""
    K = KS(D, k)
    neb_def(st, K, simp(i - 1))
    rel = z3.And(first_at(K, i), z3.Not(z3.And(lv != 0, nb >= lv, coef_in(K, simp(lv - 1)))))
    one = z3.Or(lv == 0, keq(K) == 1)
    st.assume(z3.And(INN(D, N, lv, nb, i, ZERO), SNG(D, N, lv, nb, i, ZERO), GAL(D, N, lv, nb, iv(1))))
    j = simp(k + 1)
    st.assume(z3.Implies(k >= 0, INN(D, N, lv, nb, i, j) == z3.And(INN(D, N, lv, nb, i, k), z3.Implies(rel, okv(K, N, i)))))
    st.assume(z3.Implies(k >= 0, SNG(D, N, lv, nb, i, j) == z3.And(SNG(D, N, lv, nb, i, k), z3.Implies(z3.And(rel, one), okv(K, N, i)))))
    st.assume(z3.Implies(i >= 1, GAL(D, N, lv, nb, simp(i + 1)) == z3.And(GAL(D, N, lv, nb, i), INN(D, N, lv, nb, i, kn(D)))))
    G = simp(z3.If(nb >= lv, lv, ZERO))
    n = kn(D)
    lo, up = (i, iv(1), G, iv(1)), (i, ZERO, G, iv(1))
    for cfg in (lo, up):
        m_step(st, D, N, cfg, k)
        for x in (k, j, n):
            st.assume(z3.Implies(z3.And(0 <= x, x <= n, MNB(D, *cfg, x) == 0), MOK(D, N, *cfg, x)))
    st.assume(z3.Implies(lv != 0, INN(D, N, lv, nb, i, n) == z3.And(SNG(D, N, lv, nb, i, n), MOK(D, N, *lo, n), MOK(D, N, *up, n))))
    st.assume(z3.Implies(lv == 0, INN(D, N, lv, nb, i, n) == SNG(D, N, lv, nb, i, n)))
    return lo, up


def install(S):
    P2 = ['C02']
    XV = S.XV
    GD = ('level', 'n', 'i', 'nb_iter', 'copy', 'g', 'min', 'max', 'infos')

    def gd_struct(c, p, **w):
        f = c.struct('clast_guard_data', p, region='stack', **w)
        for k in GD:
            c.init(f[k], k)
        return f

    def guard_so_far(c, g, n, room):
        """a guard node with room conditions, the first n of which are filled in"""
        f = c.struct('clast_guard', g, room, stmt__op=c.eng.global_addr(c.st, 'stmt_guard'), stmt__next=ZERO, then=ZERO, n=room)
        L = c.iter(S.EXPR, f['eq[]_LHS'].arr, ZERO, n)
        R = c.iter(S.EXPR, f['eq[]_RHS'].arr, ZERO, n)
        for k in ('LHS', 'RHS'):
            A = f['eq[]_' + k].arr
            c.fact(forall_range(n, room, lambda j: A[j] == 0), 'no further conditions')
        return L, R, f['eq[]_sign'].arr
    S.guard_so_far = guard_so_far

    def guarded(f):
        return simp(z3.If(f.nb_iter >= f.level, f.level, ZERO))

    def skips(K, f):
        """constraints that are not conditions at position i"""
        p = simp(f.i - 1)
        return z3.Or(z3.Not(coef_in(K, p)), z3.Not(NEB(K, p)), z3.And(f.level != 0, f.nb_iter >= f.level, coef_in(K, simp(f.level - 1))))

    def single(K, f):
        return z3.Or(f.level == 0, keq(K) == 1)

    @S.spec('insert_guard_constraint', props=P2, light=True)
    class _:
        def pre(c):
            K, u = c['K'], c['u'] = c.pred(CONSTR, c.a[0])
            shape(c, K)
            f = c['f'] = gd_struct(c, c.a[1])
            x = c['x'] = S.infos(c, f.infos)
            N = x.N
            D = c['D'] = c.pred(BSET, f['copy'])
            room = c['room'] = c.fresh('room') if c.producing else c.read('clast_guard', f.g, 'n')
            c['E'] = guard_so_far(c, f.g, f.n, room)
            c.fact(z3.And(c.a[0] != 0, u == 1, f['copy'] != 0, f.g != 0, ISSTATE(x.f.state)), 'a constraint of our own')
            neb_def(c.st, K, simp(f.i - 1))
            c.fact(z3.And(f.level >= 0, f.i >= 1, f.n >= 0, f.n <= room, z3.Implies(first_at(K, f.i), f.n < room)), 'room for a condition')
            c.fact(z3.And(nset(K) == ddim(D), npar(K) == dpar(D), ddim(D) <= nscat(N) + nit(N), dpar(D) == npr(N)), 'the constraints fit the program')
            if c.producing:
                j = c['j'] = c.fresh('j')
                c.st.g['names'] = N
                c.st.assume(z3.Implies(f.i <= total(K), VV(K, N, simp(f.i - 1)) == XV(D, N, f.i)))     # a set has the same variables in all its constraints
                c.eng.models_used.add('trusted: insert_guard_constraint: all constraints of a set have the same variables')
            else:
                j = c['j'] = c.st.g['gj']
            c.fact(z3.And(j >= 0, j < kn(D), K == KS(D, j), isdivc(K) == 0), 'a constraint of the set')

        def post(c):
            K, f, x, D, room, E, j = c['K'], c['f'], c['x'], c['D'], c['room'], c['E'], c['j']
            N = x.N
            p = simp(f.i - 1)
            K2, u = c.pred(CONSTR, c.a[0])
            c.fact(u == 1, 'still our own')
            f2 = gd_struct(c, c.a[1], level=f.level, i=f.i, nb_iter=f.nb_iter, copy=f['copy'], g=f.g, infos=f.infos)
            S.infos_back(c, x)
            c.pred(BSET, f['copy'], outs=(D,))
            n2 = simp(f2.n)
            if c.producing:
                c.st.assume(z3.Or(n2 == f.n, n2 == f.n + 1))
            E2 = guard_so_far(c, f.g, n2, room)
            neb_def(c.st, K, p)
            G, g_ = guarded(f), simp
            lo, up = (f.i, iv(1), G, iv(1)), (f.i, ZERO, G, iv(1))
            for cfg in (lo, up):
                m_step(c.st, D, N, cfg, j)
            lower = cc(K, p) > 0
            one = single(K, f)
            sk = z3.Or(skips(K, f), z3.And(z3.Not(one), z3.Or(z3.And(f.max != 0, lower), z3.And(f.min != 0, cc(K, p) < 0))))
            new = z3.If(one, okv(K, N, f.i), z3.If(lower, MOK(D, N, *lo, kn(D)), MOK(D, N, *up, kn(D))))
            if not c.producing:
                # lemma (ps_other)
                k = z3.Int('k!q')
                c.st.assume(z3.Implies(z3.And(total(K2) == total(K), z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < total(K), k != p), z3.And(cc(K2, k) == cc(K, k), VV(K2, N, k) == VV(K, N, k))))),
                                       PS(K2, N, f.i, total(K)) == PS(K, N, f.i, total(K))))
                gc_prefix(c.st, E2, E, f.n)
                gc_step(c.st, *E2, f.n)
            c.fact(c.ret == 0, 'goes on')
            c.fact(n2 == z3.If(sk, f.n, f.n + 1), 'a condition exactly for the constraints that need one')
            c.fact(f2.max == z3.If(z3.And(z3.Not(sk), z3.Not(one), lower), iv(1), f.max), 'lower bounds are done')
            c.fact(f2.min == z3.If(z3.And(z3.Not(sk), z3.Not(one), z3.Not(lower)), iv(1), f.min), 'upper bounds are done')
            c.fact(GC(*E2, n2) == z3.And(GC(*E, f.n), z3.Or(sk, new)), 'the condition holds exactly where the constraints do')

    @S.inv('insert_guard_constraint', 0)
    def _(c):
        i, K, f = c.v('i'), c.pre('K'), c.pre('f')
        c.fact(z3.And(i >= 0, i <= f.i - 1), 'range')
        c.fact(forall_range(0, i, lambda k: z3.Not(coef_in(K, k))), 'no earlier variable so far')

    # ------------------------------------------------------------------ the guard of a constraint set
    @S.spec('insert_extra_modulo_guards', assumed='insert_extra_modulo_guards inserts modulo guards for existentials and only removes the constraints they stand for')
    class _:
        def pre(c):
            c.fact(c.a[0] != 0, 'a constraint set')
            c['D'] = c.pred(BSET, c.a[0])
            x = c['x'] = S.infos(c, c.a[3])
            c.fact(c.a[1] >= 0, 'level')
            c['s'] = c.io(PTR, c.a[2], 'slot')
            c['s0'] = S.io_raw(c, c['s'], 'place')

        def post(c):
            D = c['D']
            c.fact(c.ret != 0, 'a constraint set')
            D2 = c.pred(BSET, c.ret)
            c.fact(z3.And(ddim(D2) == ddim(D), dpar(D2) == dpar(D), bdiv(D2) >= 0, bdiv(D2) <= bdiv(D), CT(D2, kn(D2)) <= CT(D, kn(D)), kn(D2) >= 0), 'fewer constraints over the same variables')
            S.infos_back(c, c['x'])
            c.st.g['gD2'] = D2
            if c.choose():
                c.io_post(PTR, c['s'], c['s0'])
                c.io_post(PTR, c.a[2], c['s'])
            else:
                g, p = c.fresh('modulo_guard'), c.fresh('inside')
                c.st.assume(z3.And(g > 0, p > 0, p != c['s']))
                c.io_post(PTR, c['s'], g)
                c.io_post(PTR, c.a[2], p)
                c.st.g['gplace'] = (g, p, S.new_cell(c, p))

    def new_cell(c, p):
        """a place inside a statement that another function has inserted"""
        return c.io(PTR, p, 'inner place')
    S.new_cell = new_cell

    def sort_conditions(e, st, c, n, line):
        """the C library's qsort permutes the conditions of a guard"""
        from engine import ArrVal, IChunk
        arrs = {k: c.f['eq[].' + k] for k in ('LHS', 'RHS', 'sign')}
        its = []
        for k in ('LHS', 'RHS'):
            hs = [h for h in st.heap if h.kind == 'I' and h.p is S.EXPR and (h.A.eq(arrs[k].arr) or e.must_eq(st, h.A, arrs[k].arr))]
            if len(hs) != 1 or hs[0].holes:
                raise ToolLimit('qsort of conditions that are not filled in')
            its.append(hs[0])
            e.prove(st, z3.And(hs[0].lo == 0, n == hs[0].hi), 'the sorted conditions are filled in', line)
        pi = z3.Function('perm!%s' % e.fresh('p'), I, I)
        k = z3.Int('k!q')
        new = {}
        for key in arrs:
            new[key] = e.fresh('sorted', AI)
            st.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), new[key][k] == arrs[key].arr[pi(k)]), patterns=[new[key][k]]))
            st.assume(z3.ForAll([k], z3.Implies(k >= n, new[key][k] == arrs[key].arr[k]), patterns=[new[key][k]]))
        st.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), z3.And(pi(k) >= 0, pi(k) < n)), patterns=[pi(k)]))
        E2 = [e.fresh('sortedT', AT) for _ in its]
        for h, x in zip(its, E2):
            st.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), x[k] == h.E[0][pi(k)]), patterns=[x[k]]))
        # a guard does not depend on the order of its conditions (lemma gc_swap)
        st.assume(GC(E2[0], E2[1], new['sign'], n) == GC(its[0].E[0], its[1].E[0], arrs['sign'].arr, n))
        c2 = c
        for key in arrs:
            c3 = c2.set('eq[].' + key, ArrVal(new[key], arrs[key].size))
            st.replace(c2, c3)
            c2 = c3
        for h, x, key in zip(its, E2, ('LHS', 'RHS')):
            st.replace(h, IChunk(h.p, new[key], h.lo, h.hi, (x,), (), h.depth))
        yield st, ZERO
    S.sort_conditions = sort_conditions

    @S.spec('insert_guard', props=P2, light=True)
    class _:
        def pre(c):
            c['n'] = c.io(PTR, c.a[2], 'slot')
            if c.producing:
                c.st.assume(c['n'] > 0)
            c['n0'] = S.io_raw(c, c['n'], 'place')
            c['D'] = None
            if c.case(c.a[0] == 0):
                return
            D = c['D'] = c.pred(BSET, c.a[0])
            x = c['x'] = S.infos(c, c.a[3])
            N = x.N
            c.fact(z3.And(c.a[1] >= 0, ISSTATE(x.f.state), ddim(D) >= 0, dpar(D) >= 0, ddim(D) <= nscat(N) + nit(N), dpar(D) == npr(N)), 'the constraints fit the program')
            if c.producing:
                c.st.g['names'] = N

        def post(c):
            if c.producing:
                raise ToolLimit('insert_guard is not used by a function under contract')
            n, n0, D = c['n'], c['n0'], c['D']
            nx = c.io_post(PTR, c.a[2])
            if D is None:
                c.io_post(PTR, n, n0)
                c.fact(nx == n, 'nothing to do')
                return
            x = c['x']
            N = x.N
            c.pred(BSET, c.a[0], outs=(D,))
            S.infos_back(c, x)
            D2 = c.st.g['gD2']
            last = simp(ddim(D) + dpar(D) + bdiv(D) + 1)
            holds = GAL(D2, N, c.a[1], ddim(D), last)
            at, at0 = n, n0
            if 'gplace' in c.st.g:
                g, at, at0 = c.st.g['gplace']
                c.io_post(PTR, n, g)
            if c.entails(nx == at):
                c.io_post(PTR, at, at0)
                c.fact(holds, 'without conditions the constraints hold')
                return
            g = c.io_post(PTR, at, name='guard')
            f = c.struct('clast_guard', g, ZERO, stmt__op=c.eng.global_addr(c.st, 'stmt_guard'), stmt__next=ZERO, then=ZERO)
            L = c.iter(S.EXPR, f['eq[]_LHS'].arr, ZERO, f.n)
            R = c.iter(S.EXPR, f['eq[]_RHS'].arr, ZERO, f.n)
            c.fact(f.n > 0, 'conditions')
            c.fact(GC(L, R, f['eq[]_sign'].arr, f.n) == holds, 'the conditions hold exactly where the constraints do')
            c.fact(nx == FLD('clast_guard.then')(g), 'the next place is inside the guard')

    def inv_gcount(c, user, D, k):
        counts(c.st, D, iv(1), k)
        w = {x: c.once(x, lambda x=x: c.read('clast_guard_data', user, x)) for x in ('i', 'nb_iter', 'copy', 'g', 'min', 'max')} if not c.producing or c.once('seen', lambda: iv(1)) is not None else {}
        gd_struct(c, user, level=c.arg0(1), infos=c.arg0(3), n=CT(D, k), **w)
    S.cfe['guard_count_bounds'] = inv_gcount

    def inv_gc(c, user, D, k):
        lv = c.arg0(1)
        x = c.pre('x')
        N = x.N
        w = {y: c.once(y, lambda y=y: c.read('clast_guard_data', user, y)) for y in ('i', 'nb_iter', 'copy', 'g')}
        f = gd_struct(c, user, level=lv, infos=c.arg0(3), **w)
        room = c.once('room', lambda: c.read('clast_guard', w['g'], 'n'))
        i, nb = w['i'], w['nb_iter']
        E = guard_so_far(c, w['g'], f.n, room)
        counts(c.st, D, i, k)
        lo, up = holds_def(c.st, D, N, lv, nb, i, k)
        gc_step(c.st, *E, ZERO)
        if c.producing:
            c.st.g['gj'] = k
        c.fact(z3.And(k >= 0, f.n >= 0, f.n <= LTC(D, i) + EQC(D, i, k)), 'at most one condition per constraint')
        c.fact(z3.Implies(lv == 0, z3.And(f.max == 0, f.min == 0)), 'no collected bounds outside all loops')
        c.fact(z3.Implies(z3.And(lv != 0, f.max == 0), MNB(D, *lo, k) == 0), 'no lower bound so far')
        c.fact(z3.Implies(z3.And(lv != 0, f.min == 0), MNB(D, *up, k) == 0), 'no upper bound so far')
        c.fact(GC(*E, f.n) == z3.And(GAL(D, N, lv, nb, i), SNG(D, N, lv, nb, i, k), z3.Implies(f.max != 0, MOK(D, N, *lo, kn(D))), z3.Implies(f.min != 0, MOK(D, N, *up, kn(D)))),
               'the conditions so far')
    S.cfe['insert_guard_constraint'] = inv_gc

    @S.inv('insert_guard', 0)
    def _(c):
        D, x = c.pre('D'), c.pre('x')
        N, lv = x.N, c.arg0(1)
        p = c.addr('data')
        w = {y: c.once(y, lambda y=y: c.read('clast_guard_data', p, y)) for y in ('nb_iter', 'copy', 'g')}
        f = gd_struct(c, p, level=lv, infos=c.arg0(3), **w)
        room = c.once('room', lambda: c.read('clast_guard', w['g'], 'n'))
        D2 = c.st.g['gD2']
        i, nb = f.i, w['nb_iter']
        E = guard_so_far(c, w['g'], f.n, room)
        counts(c.st, D2, i, ZERO)
        holds_def(c.st, D2, N, lv, nb, i, ZERO)
        gc_step(c.st, *E, ZERO)
        c.fact(z3.And(i >= 1, i <= c.v('total_dim') + 1, f.n >= 0, f.n <= LTC(D2, i)), 'range')
        c.fact(GC(*E, f.n) == GAL(D2, N, lv, nb, i), 'the conditions so far')
