"""Guards (source/clast.c): modulo guards and their simplification with stride information.

All values are at one fixed but arbitrary environment `env`.  A line vector A of coefficients stands for the sum
LS(A, V, n) = A[1] V[1] + ... + A[n-1] V[n-1], where V holds the values of the variables (0 for the variable the guard
eliminates).  Modulo reasoning is elementwise on A; the lemmas that carry it to sums are proved in lemmas.py."""
import z3
from engine import iv, ZERO, simp, I, Pred, UNINIT, isval, ArrVal
from front import MPZ, INT, T, ToolLimit
from models import FDIV, CDIV, MOD, fdiv, cdiv, fmod
from spec_constr import (CONSTR, VAL, cc, keq, kconst, nset, ndiv, npar, total, rest, shape, names_fit, VV, PS, vv_def, ps_step,
                         nscat, nit, npr, scatA, itA, parA, Constr, Names)
from spec_int import AI, forall_range
from spec_clast import RF, SUM, RED, TERM, NAME, BIN, BMOD, ev, env, kind, rf_zero, rf_step, SV
from spec_stride import exact, lem_exact
from spec_data import PTR

F = z3.Function
LS = F('line_sum', AI, AI, I, I)
SIT = F('stride_iter_sum', Constr, Names, I, I)      # sum over the first i iterators of coefficient * value
SPA = F('stride_par_sum', Constr, Names, I, I)       # sum over the first q parameters
AK = z3.ArraySort(I, Constr)
NOK = z3.Const('no_constraint', Constr)


def NV(N, v):
    """value of iterator v"""
    return env(SV(z3.If(v + 1 <= nscat(N), scatA(N)[simp(v)], itA(N)[simp(v - nscat(N))])))


def PV(N, q):
    return env(SV(parA(N)[simp(q)]))


def ls_def(st, A, V, i):
    i = simp(i)
    st.assume(LS(A, V, iv(1)) == 0)
    st.assume(z3.Implies(i >= 1, LS(A, V, simp(i + 1)) == LS(A, V, i) + A[i] * V[i]))


def _all(lo, hi, f):
    j = z3.Int('j!q')
    return z3.ForAll([j], z3.Implies(z3.And(lo <= j, j < hi), f(j)))


def ls_neg(st, A, A2, V, n):
    """lemma (ls_neg)"""
    st.assume(z3.Implies(_all(1, n, lambda j: z3.Or(A2[j] == -A[j], V[j] == 0)), LS(A2, V, n) == -LS(A, V, n)))


def ls_same(st, A, A2, V, n):
    """lemma (ls_same)"""
    st.assume(z3.Implies(_all(1, n, lambda j: z3.Or(A2[j] == A[j], V[j] == 0)), LS(A2, V, n) == LS(A, V, n)))


def ls_mod(st, A, A2, V, n, m):
    """lemma (ls_mod)"""
    st.assume(z3.Implies(z3.And(m > 0, _all(1, n, lambda j: z3.Or(exact(A2[j] - A[j], m), V[j] == 0))), exact(simp(LS(A2, V, n) - LS(A, V, n)), m)))


def ls_zero(st, A, V, n):
    """lemma (ls_zero)"""
    st.assume(z3.Implies(_all(1, n, lambda j: z3.Or(A[j] == 0, V[j] == 0)), LS(A, V, n) == 0))


def ls_ps(st, A, V, K, N, l):
    """lemma (ls_ps): the line of a constraint sums up to its value without variable l"""
    st.assume(z3.Implies(z3.And(_all(1, total(K) + 1, lambda j: A[j] == cc(K, j - 1)), _all(1, total(K) + 1, lambda j: V[j] == z3.If(j == l, 0, VV(K, N, j - 1)))),
                         LS(A, V, simp(total(K) + 1)) == PS(K, N, l, total(K))))


def mod_cong(st, x, y, m):
    """lemma (mod_cong): congruent numbers have the same remainder"""
    st.assume(z3.Implies(z3.And(m > 0, exact(simp(x - y), m)), MOD(x, m) == MOD(y, m)))
    fmod(st, x, m)
    fmod(st, y, m)


def add_cong(st, x, y, m):
    """lemma (add_cong): multiples are closed under addition"""
    st.assume(z3.Implies(z3.And(m > 0, exact(simp(x), m), exact(simp(y), m)), exact(simp(x + y), m)))


def elim_hyp(A, A2, V, n, nb, l, m, s, N):
    """what eliminate_using_stride_constraint does to the line A (giving A2) for the stride s of level l"""
    st_, o, f, K, h = s
    t = A[l] * f
    yield A2[l] == 0
    yield _all(l + 1, nb + 1, lambda j: A2[j] == A[j])
    yield z3.Implies(h == 1, npar(K) == n - 2 - nb)
    yield z3.Implies(h == 1, _all(1, l, lambda j: exact(A2[j] - A[j] - t * cc(K, j - 1), m)))
    yield z3.Implies(h == 1, _all(nb + 1, n - 1, lambda j: exact(A2[j] - A[j] - t * cc(K, nset(K) + ndiv(K) + j - nb - 1), m)))
    yield z3.Implies(h == 1, exact(A2[n - 1] - A[n - 1] - t * kconst(K), m))
    yield z3.Implies(h != 1, _all(1, n - 1, lambda j: z3.Or(j == l, A2[j] == A[j])))
    yield z3.Implies(h != 1, exact(A2[n - 1] - A[n - 1] - A[l] * o, m))


def elim_sound(c, A, A2, V, n, nb, l, m, s, N):
    """lemma (elim_sound): on the stride, the eliminated line is congruent to the original one.  Every hypothesis is an obligation."""
    st_, o, f, K, h = s
    c.ensure(z3.And(m > 0, 1 <= l, l <= nb, nb <= n - 2, MOD(st_, m) == 0), 'elimination: ranges')
    for k, hyp in enumerate(elim_hyp(A, A2, V, n, nb, l, m, s, N)):
        c.ensure(hyp, 'elimination: hypothesis %d' % k)
    c.ensure(_all(1, l + 1, lambda j: V[j] == NV(N, j - 1)), 'elimination: values of the iterators')
    c.ensure(_all(nb + 1, n - 1, lambda j: V[j] == PV(N, j - nb - 1)), 'elimination: values of the parameters')
    c.ensure(on_stride(s, N, l), 'elimination: the point is on the stride')
    c.assume(exact(simp((LS(A2, V, simp(n - 1)) + A2[simp(n - 1)]) - (LS(A, V, simp(n - 1)) + A[simp(n - 1)])), m))


def srest(K, N, l):
    """the part of a stride constraint on level l that has no existentials and not the level itself"""
    return SIT(K, N, simp(l - 1)) + SPA(K, N, npar(K)) + kconst(K)


def on_stride(s, N, l):
    """the environment's value of level l lies on the stride s = (stride, offset, factor, constraint, has constraint)"""
    st_, o, f, K, h = s
    return exact(NV(N, simp(l - 1)) - z3.If(h == 1, f * srest(K, N, l), o), st_)


def install(S):
    PC = ['C02']

    # ------------------------------------------------------------------ strides and infos, as lent to clast.c
    def strl_body(c, ins, outs):
        p, = ins
        if outs is not None:
            s, o, f, K, h = outs
            c.st.assume(z3.Or(h == 0, h == 1))
            fl = c.struct('cloogstride', p, stride=s, offset=o, factor=f)
            if c.case(h == 0):
                c.st.assume(z3.And(fl.constraint == 0, K == NOK))
            else:
                c.st.assume(fl.constraint != 0)
                c.pred(CONSTR, fl.constraint, outs=(K, ZERO))
            return
        if c.case(p == 0):
            return tuple(c.fresh('nostride', x) for x in STRL.outs)
        fl = c.struct('cloogstride', p)
        for k in ('references', 'stride', 'offset', 'factor', 'constraint'):
            c.init(fl[k], k)
        if c.case(fl.constraint == 0):
            return fl.stride, fl.offset, fl.factor, NOK, ZERO
        K, u = c.pred(CONSTR, fl.constraint)
        return fl.stride, fl.offset, fl.factor, K, iv(1)
    STRL = S.STRL = Pred('lent stride', [I, I, I, Constr, I], strl_body, struct={'cloogstride'}, nullable=True)

    def stride_ok(K, h, s, N, l, T):
        """shape of a stride on level l in a program with names N"""
        return z3.And(s > 0, z3.Implies(h == 1, z3.And(nset(K) >= l, ndiv(K) >= 0, npar(K) == npr(N))))

    INF = ('state', 'stride', 'stride_level', 'nb_scattdims', 'scaldims', 'names', 'options', 'equal')

    def infos(c, p, want=()):
        """the information structure the caller lends"""
        f = c.struct('clooginfos', p)
        for k in INF:
            c.init(f[k], k)
        N = c.pred(S.NAMES, f.names)
        if c.producing:
            sz = c.fresh('nstr')
            c.st.assume(z3.And(f.stride > 0, f.stride_level >= 0, sz >= f.stride_level))
        else:
            sz = c.peek_chunk(f.stride).size
        c.g['nstr_sz'] = sz
        A = c.arr(PTR, f.stride, sz)
        c.fact(z3.And(f.names != 0, f.stride_level >= 0, f.stride_level <= sz), 'infos')
        E = c.iter(STRL, A, ZERO, f.stride_level)
        c.fact(forall_range(0, f.stride_level, lambda k: z3.Or(A[k] == 0, z3.And(E[0][k] > 0, z3.Implies(E[4][k] == 1, z3.And(nset(E[3][k]) >= k + 1, ndiv(E[3][k]) >= 0, npar(E[3][k]) == npr(N)))))), 'strides of this program')
        c.fact(forall_range(0, f.stride_level, lambda k: z3.Or(A[k] == 0, on_stride(tuple(e[k] for e in E), N, k + 1))), 'the point lies on the strides')
        return Inf(f, N, A, E, p)

    class Inf:
        def __init__(self, f, N, A, E, p):
            self.f, self.N, self.A, self.E, self.p = f, N, A, E, p

        def at(self, i):
            return tuple(simp(e[i]) for e in self.E)

    S.infos = infos

    def infos_back(c, x):
        c.struct('clooginfos', x.p, **x.f)
        c.pred(S.NAMES, x.f.names, outs=(x.N,))
        if c.producing:
            c.arr(PTR, x.f.stride, c.g['nstr_sz'], arr=x.A)
            c.iter(STRL, x.A, ZERO, x.f.stride_level, x.E)
        else:
            A = c.arr(PTR, x.f.stride, c.g['nstr_sz'], arr=x.A)
            E = c.iter(STRL, A, ZERO, x.f.stride_level)
            for a, b in zip(E, x.E):
                if not a.eq(b):
                    c.fact(forall_range(0, x.f.stride_level, lambda k: z3.Or(x.A[k] == 0, a[k] == b[k])), 'strides unchanged')
    S.infos_back = infos_back

    # ------------------------------------------------------------------ statement nodes
    def op_addr(c, kind_):
        return c.eng.global_addr(c.st, kind_)

    @S.spec('new_clast_guard', props=PC + ['C06'])
    class _:
        def pre(c):
            c.fact(c.a[0] >= 0, 'number of conditions')

        def post(c):
            n = c.a[0]
            f = c.struct('clast_guard', c.ret, n, stmt__op=op_addr(c, 'stmt_guard'), stmt__next=ZERO, then=ZERO, n=n)
            for k in ('LHS', 'RHS'):
                A = f['eq[]_' + k].arr
                c.fact(forall_range(0, n, lambda j: A[j] == 0), 'no conditions yet')

    @S.inv('new_clast_guard', 0)
    def _(c):
        i, n, g = c.v('i'), c.v('n'), c.v('g')
        f = c.struct('clast_guard', g, n, stmt__op=op_addr(c, 'stmt_guard'), stmt__next=ZERO, then=ZERO, n=n)
        c.fact(z3.And(i >= 0, i <= n), 'range')
        for k in ('LHS', 'RHS'):
            A = f['eq[]_' + k].arr
            c.fact(forall_range(0, i, lambda j: A[j] == 0), 'no conditions yet')

    def guard1(c, g):
        """a guard node with one condition; returns (value of LHS, of RHS, sign)"""
        f = c.struct('clast_guard', g, iv(1), stmt__op=op_addr(c, 'stmt_guard'), stmt__next=ZERO, then=ZERO, n=iv(1))
        t = c.pred(S.EXPR, simp(f['eq[]_LHS'].arr[0]))
        u = c.pred(S.EXPR, simp(f['eq[]_RHS'].arr[0]))
        return t, u, simp(f['eq[]_sign'].arr[0])

    def cond_of(t, u, sg):
        return z3.If(sg == 0, ev(t) == ev(u), z3.If(sg > 0, ev(t) >= ev(u), ev(t) <= ev(u)))

    def slot(c, i):
        """argument i is the address of the place where the next statement goes"""
        s = c.io(PTR, c.a[i], 'slot')
        if c.producing:
            c.st.assume(s > 0)
        return s

    S.io_raw  # maybe-uninitialised pointer cells

    @S.spec('constant_modulo_guard_is_satisfied', props=PC)
    class _:
        def pre(c):
            c['b'] = c.io(MPZ, c.a[1], 'bound')
            c['c'] = c.io(MPZ, c.a[2], 'cst')
            c.distinct(c.a[1], c.a[2])

        def post(c):
            c.io_post(MPZ, c.a[1], c['b'])
            c.io_post(MPZ, c.a[2], c['c'])
            c.fact((c.ret != 0) == z3.If(c.a[0] != 0, c['c'] <= c['b'], c['c'] == 0), 'true exactly if the remainder is within the bound (zero without one)')

    @S.spec('insert_computed_modulo_guard', props=PC)
    class _:
        def pre(c):
            c.fact(c.a[0] != 0, 'an expression')
            c['t'] = c.pred(S.EXPR, c.a[0])
            c['m'] = c.io(MPZ, c.a[2], 'mod')
            c['b'] = c.io(MPZ, c.a[3], 'bound')
            c.fact(c['m'] > 0, 'positive modulus')
            c.distinct(c.a[2], c.a[3])
            c['s'] = slot(c, 4)
            S.io_raw(c, c['s'], 'place')

        def post(c):
            c.io_post(MPZ, c.a[2], c['m'])
            c.io_post(MPZ, c.a[3])
            g = c.io_post(PTR, c['s'], name='guard')
            fmod(c.st, ev(c['t']), c['m'])
            t, u, sg = guard1(c, g)
            c.io_post(PTR, c.a[4], then_of(g))
            c.fact(cond_of(t, u, sg) == z3.If(c.a[1] != 0, MOD(ev(c['t']), c['m']) <= c['b'], MOD(ev(c['t']), c['m']) == 0), 'the guard tests the remainder')

    def then_of(g):
        from engine import FLD
        return FLD('clast_guard.then')(g)

    # ------------------------------------------------------------------ elimination with strides
    @S.spec('eliminate_using_stride_constraint', props=PC)
    class _:
        def pre(c):
            ln, n, nb, sp, l = c.a[:5]
            A = c['A'] = c.io_arr(MPZ, ln, n, 'line')
            L = c['L'] = c.elem_of(5, ln)
            c['s'] = None
            if not c.case(sp == 0):
                c['s'] = s = c.pred(STRL, sp)
                K, h = s[3], s[4]
                c.fact(z3.And(s[0] > 0, z3.Implies(h == 1, z3.And(nset(K) >= l, ndiv(K) >= 0, npar(K) == n - 2 - nb))), 'a stride of this program')
            c.fact(z3.And(1 <= l, l < L, L <= nb, nb <= n - 2, A[L] > 0), 'levels')

        def post(c):
            ln, n, nb, sp, l = c.a[:5]
            A, L, s = c['A'], c['L'], c['s']
            A2 = c.io_arr_post(MPZ, ln, n)
            if s is not None:
                c.pred(STRL, sp, outs=s)
            m = A[L]
            app = False
            if s is not None:
                app = c.case(MOD(s[0], m) == 0)
                fmod(c.st, s[0], m)
            if not app:
                c.fact(forall_range(0, n, lambda j: A2[j] == A[j]), 'nothing is eliminated')
                return
            K, h = s[3], s[4]
            t = A[l] * s[2]
            for x in (simp(A[n - 1] + t * kconst(K)), simp(A[n - 1] + A[l] * s[1])):
                fmod(c.st, x, m)
                lem_exact(c.st, simp(MOD(x, m) - x), m, simp(-FDIV(x, m)))
            c.fact(A2[l] == 0, 'the level is eliminated')
            c.fact(z3.And(A2[L] == m, _all(l + 1, nb + 1, lambda j: A2[j] == A[j])), 'later variables keep their coefficients')
            if c.case(h == 1):
                c.fact(_all(1, l, lambda j: exact(A2[j] - A[j] - t * cc(K, j - 1), m)), 'earlier iterators: the multiple of the stride constraint is added')
                c.fact(_all(nb + 1, n - 1, lambda j: exact(A2[j] - A[j] - t * cc(K, nset(K) + ndiv(K) + j - nb - 1), m)), 'parameters: the multiple of the stride constraint is added')
                c.fact(exact(A2[n - 1] - A[n - 1] - t * kconst(K), m), 'constant: the multiple of the stride constraint is added')
            else:
                c.fact(_all(1, n - 1, lambda j: z3.Or(j == l, A2[j] == A[j])), 'other variables keep their coefficients')
                c.fact(exact(A2[n - 1] - A[n - 1] - A[l] * s[1], m), 'constant: the multiple of the offset is added')
            c.fact(z3.And(A2[n - 1] >= 0, A2[n - 1] < m), 'the constant stays reduced')

    def elim_inv(first):
        def inv(c):
            ln, n, nb, sp, l = [c.arg0(k) for k in range(5)]
            A, L, s = c.pre('A'), c.pre('L'), c.pre('s')
            K = s[3]
            i = c.v('i')
            B = c.peek_arr(ln)
            m = A[L]
            t = A[l] * s[2]
            c.fact(c.v('t') == t, 'factor')
            sh = simp(nset(K) + ndiv(K) - nb - 1)
            if first:
                c.fact(z3.And(i >= 1, i <= l), 'range')
                c.fact(_all(1, i, lambda j: exact(B[j] - A[j] - t * cc(K, j - 1), m)), 'iterators so far')
                c.fact(_all(i, n, lambda j: B[j] == A[j]), 'the rest is unchanged')
            else:
                c.fact(z3.And(i >= nb + 1, i <= n - 1), 'range')
                c.fact(_all(1, l, lambda j: exact(B[j] - A[j] - t * cc(K, j - 1), m)), 'iterators')
                c.fact(_all(l, nb + 1, lambda j: B[j] == A[j]), 'inner variables unchanged')
                c.fact(_all(nb + 1, i, lambda j: exact(B[j] - A[j] - t * cc(K, sh + j), m)), 'parameters so far')
                c.fact(_all(i, n, lambda j: B[j] == A[j]), 'the rest is unchanged')
            if c.producing:
                x = simp(B[i] + t * cc(K, simp(i - 1) if first else simp(sh + i)))
                lem_exact(c.st, simp(MOD(x, m) - x), m, simp(-FDIV(x, m)))
        return inv
    S.inv('eliminate_using_stride_constraint', 0)(elim_inv(True))
    S.inv('eliminate_using_stride_constraint', 1)(elim_inv(False))

    # ------------------------------------------------------------------ the modulo guard of one constraint
    def mg_struct(c, p, **w):
        f = c.struct('clast_modulo_guard_data', p, region='stack', **w)
        for k in ('lower', 'level', 'next', 'infos', 'empty', 'val', 'bound'):
            c.init(f[k], k)
        return f

    def mg_pre(c, K, u, x, N, lv, lower, bound):
        """the constraint fits the program, and the point lies on the strides of the enclosing loops"""
        a = cc(K, simp(lv - 1))
        c.fact(z3.And(lv >= 1, lv <= nset(K) + ndiv(K), a != 0), 'the variable occurs in the constraint')
        c.fact(z3.And(npar(K) == npr(N), nset(K) <= nscat(N) + nit(N), x.f.stride_level <= nset(K)), 'the constraint fits the program')
        c.fact(forall_range(0, ndiv(K), lambda j: z3.Or(nset(K) + j == lv - 1, cc(K, nset(K) + j) == 0)), 'no other existential occurs')
        c.fact(z3.Implies(lower != 0, bound >= 0), 'the bound on the remainder is not negative')

    def gc(K, N, lv, lower, bound):
        """what the guard has to say"""
        a = cc(K, simp(lv - 1))
        R = rest(K, N, lv)
        s0 = simp(z3.If(a > 0, -R + z3.If(keq(K) == 1, 0, bound), R))
        m = simp(z3.If(a > 0, a, -a))
        return s0, m, z3.If(lower != 0, MOD(s0, m) <= bound, MOD(s0, m) == 0)

    @S.spec('insert_modulo_guard_constraint', props=PC, light=True, join=True)
    class _:
        def pre(c):
            K, u = c['K'], c['u'] = c.pred(CONSTR, c.a[0])
            shape(c, K)
            c.fact(c.a[0] != 0, 'valid constraint')
            f = c['f'] = mg_struct(c, c.a[1])
            x = c['x'] = infos(c, f.infos)
            N = x.N
            mg_pre(c, K, u, x, N, f.level, f.lower, f.bound)
            c['s'] = c.io(PTR, f.next, 'slot')
            c['s0'] = S.io_raw(c, c['s'], 'place')
            if c.producing:
                c.st.assume(c['s'] > 0)
                V = c['V'] = c.fresh('V', AI)
                lv = f.level
                c.st.assume(_all(1, total(K) + 1, lambda j: V[j] == z3.If(j == lv, 0, VV(K, N, j - 1))))
                c.st.assume(_all(1, nset(K) + 1, lambda j: z3.Or(j == lv, V[j] == NV(N, j - 1))))
                c.st.assume(_all(nset(K) + ndiv(K) + 1, total(K) + 1, lambda j: V[j] == PV(N, j - nset(K) - ndiv(K) - 1)))

        def post(c):
            K, u, f, x, s = c['K'], c['u'], c['f'], c['x'], c['s']
            N = x.N
            c.pred(CONSTR, c.a[0], outs=(K, u))
            f2 = mg_struct(c, c.a[1], lower=f.lower, level=f.level, next=f.next, infos=f.infos, val=f.val)
            infos_back(c, x)
            s0, m, G = gc(K, N, f.level, f.lower, f.bound)
            fmod(c.st, s0, m)
            if c.producing:
                ins = c.choose()
            else:
                nx = c.io_post(PTR, f.next)
                ins = not c.entails(nx == s)
            if not ins:
                if not c.producing:
                    c.io_post(PTR, s, c['s0'])
                    mg_lemmas(c, K, N, c.pre('V'), f)
                c.fact(z3.Or(f2.empty == f.empty, f2.empty == 0, f2.empty == 1), 'flag')
                c.fact(z3.Implies(f2.empty == 0, G), 'a guard that is left out is satisfied')
                c.fact(z3.Implies(f2.empty != 0, z3.Or(f2.empty == f.empty, z3.Not(G))), 'a guard is only reported unsatisfiable if it is')
            else:
                c.fact(f2.empty == f.empty, 'flag')
                g = c.io_post(PTR, s, name='guard')
                t, v, sg = guard1(c, g)
                if c.producing:
                    c.io_post(PTR, f.next, then_of(g))
                else:
                    c.fact(nx == then_of(g), 'the next place is inside the guard')
                    mg_lemmas(c, K, N, c.pre('V'), f)
                c.fact(cond_of(t, v, sg) == G, 'the guard holds exactly if the variable has an integer value')
            c.fact(c.ret == -1, 'stops the iteration')

    def mg_lemmas(c, K, N, V, f):
        """carry the elementwise facts recorded by the loop invariants over to sums"""
        st = c.st
        g = st.g
        if 'mgA1' not in g:
            return
        A1, B = g['mgA1'], g.get('mgB')
        T_ = simp(total(K))
        n1 = simp(T_ + 1)
        s0, m, G = gc(K, N, f.level, f.lower, f.bound)
        if B is not None:
            ls_mod(st, A1, B, V, n1, m)
            ls_zero(st, B, V, n1)
            add_cong(st, simp(LS(B, V, n1) - LS(A1, V, n1)), simp(B[n1] - A1[n1]), m)
            lem_exact(st, simp(B[n1] - A1[n1]), m, simp(-FDIV(A1[n1], m)))
            tot = simp(LS(B, V, n1) + B[n1])
            c.ensure(exact(simp(tot - s0), m), 'reduction modulo m')
            mod_cong(st, tot, s0, m)
            C = g.get('mgC')
            if C is not None:
                tc = simp(LS(C, V, n1) + C[n1])
                mod_cong(st, tc, tot, m)
                c.ensure(MOD(tc, m) == MOD(s0, m), 'the final line has the same remainder')
                # a reduced constant is its own remainder: lemma (mod_small)
                st.assume(z3.Implies(z3.And(C[n1] >= 0, C[n1] < m), MOD(C[n1], m) == C[n1]))
            fmod(st, ZERO, m)
            st.assume(z3.Implies(m > 0, MOD(ZERO, m) == 0))

    @S.inv('insert_modulo_guard_constraint', 0)
    def _(c):
        K, f, V = c.pre('K'), c.pre('f'), c.pre('V')
        i, nb, ln, lv = c.v('i'), c.v('nb_elts'), c.v('line'), f.level
        T_ = total(K)
        B = c.peek_arr(ln)
        if c.entry:
            A1 = B
        elif c.producing:
            A1 = c.fresh('A1', AI)
        else:
            A1 = c.st.g['mgA1']
        m = A1[lv]
        if c.producing:
            c.st.g['mgA1'], c.st.g['mgB'] = A1, B
        n1 = simp(T_ + 1)
        s0, m0, G = gc(K, c.pre('x').N, lv, f.lower, f.bound)
        if c.entry:
            A0 = c.fresh('A0', AI)
            c.st.assume(_all(1, n1, lambda j: A0[j] == cc(K, j - 1)))
            ls_ps(c.st, A0, V, K, c.pre('x').N, lv)
            if c.entails(cc(K, simp(lv - 1)) > 0):
                ls_neg(c.st, A0, A1, V, n1)
            else:
                ls_same(c.st, A0, A1, V, n1)
        c.fact(m == m0, 'modulus')
        c.fact(s0 == LS(A1, V, n1) + A1[n1], 'the line stands for the constraint')
        c.fact(z3.And(i >= 1, i <= T_ + 2, m > 0), 'range')
        fmod(c.st, A1[i], m)
        c.st.assume(z3.Implies(z3.And(m > 0, A1[i] == 0), MOD(A1[i], m) == 0))      # lemma (mod_small)
        for X in (A1, B):
            c.fact(_all(nset(K) + 1, nset(K) + ndiv(K) + 1, lambda j: z3.Or(j == lv, X[j] == 0)), 'no other existential')
        c.fact(_all(1, i, lambda j: z3.Or(j == lv, z3.And(B[j] == MOD(A1[j], m), B[j] >= 0, B[j] < m, exact(B[j] - A1[j], m)))), 'reduced so far')
        c.fact(z3.And(B[lv] == m, _all(i, T_ + 2, lambda j: B[j] == A1[j])), 'the rest is unchanged')
        c.fact(z3.And(nb >= 0, z3.Implies(nb == 0, _all(1, i, lambda j: z3.Or(j == lv, j == T_ + 1, B[j] == 0)))), 'counted')
        if c.producing:
            lem_exact(c.st, simp(MOD(A1[i], m) - A1[i]), m, simp(-FDIV(A1[i], m)))
            lem_exact(c.st, ZERO, m, ZERO)

    @S.inv('insert_modulo_guard_constraint', 1)
    def _(c):
        K, f, V, x = c.pre('K'), c.pre('f'), c.pre('V'), c.pre('x')
        i, ln, lv = c.v('i'), c.v('line'), f.level
        T_ = simp(total(K))
        n1 = simp(T_ + 1)
        C = c.peek_arr(ln)
        B = c.st.g['mgB']
        m = B[lv]
        if c.producing:
            c.st.g['mgP'] = (C, i)
        elif 'mgP' in c.st.g:
            P, i0 = c.st.g['mgP']
            if c.entails(MOD(x.at(simp(i0 - 1))[0], m) == 0):
                elim_sound(c, P, C, V, simp(n1 + 1), simp(nset(K) + ndiv(K)), i0, m, x.at(simp(i0 - 1)), x.N)
            else:
                ls_same(c.st, P, C, V, n1)
            add_cong(c.st, simp((LS(C, V, n1) + C[n1]) - (LS(P, V, n1) + P[n1])), simp((LS(P, V, n1) + P[n1]) - (LS(B, V, n1) + B[n1])), m)
        else:
            c.st.assume(FDIV(ZERO, m) == 0)
        c.fact(z3.And(i >= 0, i <= lv - 1, i <= x.f.stride_level), 'range')
        r = c.struct('clast_reduction', c.v('r'), n1, expr__type=iv(RED), type=iv(SUM), n=n1)
        c.fact(z3.And(c.v('r') > 0, forall_range(0, n1, lambda k: r.elts.arr[k] == 0)), 'no summands yet')
        c.fact(z3.And(C[lv] == m, m > 0, C[n1] >= 0, C[n1] < m), 'modulus and constant')
        c.fact(_all(nset(K) + 1, nset(K) + ndiv(K) + 1, lambda j: z3.Or(j == lv, C[j] == 0)), 'no other existential')
        c.fact(exact(simp((LS(C, V, n1) + C[n1]) - (LS(B, V, n1) + B[n1])), m), 'congruent to the original sum')

    def mg_red(c, K, f, V, N, hi):
        r, i, nb, ln, lv = c.v('r'), c.v('i'), c.v('nb_elts'), c.v('line'), f.level
        room = simp(total(K) + 1)
        C = c.peek_arr(ln)
        if c.producing:
            c.st.g['mgC'] = C
        g = c.struct('clast_reduction', r, room, expr__type=iv(RED), type=iv(SUM), n=room)
        E = c.iter(S.EXPR, g.elts.arr, ZERO, nb)
        rf_zero(c.st, E)
        ls_def(c.st, C, V, i)
        c.st.assume(z3.Implies(z3.Or(C[i] == 0, V[i] == 0), C[i] * V[i] == 0))
        c.fact(forall_range(nb, room, lambda k: g.elts.arr[k] == 0), 'remaining elements are null')
        c.fact(z3.And(nb >= 0, nb <= i - 1, r > 0), 'at most one summand per variable')
        c.fact(RF(iv(SUM), E, nb) == LS(C, V, i), 'sum so far')

    @S.inv('insert_modulo_guard_constraint', 2)
    def _(c):
        K, f, V, x = c.pre('K'), c.pre('f'), c.pre('V'), c.pre('x')
        i = c.v('i')
        c.fact(z3.And(i >= 1, i <= nset(K) + ndiv(K) + 1), 'range')
        mg_red(c, K, f, V, x.N, None)

    @S.inv('insert_modulo_guard_constraint', 3)
    def _(c):
        K, f, V, x = c.pre('K'), c.pre('f'), c.pre('V'), c.pre('x')
        i = c.v('i')
        c.fact(z3.And(i >= nset(K) + ndiv(K) + 1, i <= total(K) + 1), 'range')
        mg_red(c, K, f, V, x.N, None)
