"""Modulo guards of whole constraints (source/clast.c: insert_modulo_guard, insert_equation)."""
import z3
from engine import FLD, iv, ZERO, simp, I
from front import MPZ, INT, T, ToolLimit
from models import FDIV, CDIV, MOD, fmod
from spec_constr import CONSTR, Constr, cc, keq, kconst, nset, ndiv, npar, total, rest, shape, nscat, nit, npr, isdivc, take, give
from spec_int import forall_range
from spec_clast import ev, kind
from spec_stride import KS, kn, holds
from spec_dom import BSET, DOM, Dom, ddim, dpar, bdiv, mem
from spec_data import PTR, ISOPT, ISSTATE
from spec_int import AI


def install(S):
    P2 = ['C02']
    Bn = S.builtins

    def from_constraint(e, s, vs, n, args):
        line = e.line(n)
        K = take(e, s, CONSTR, vs[0], line)[0]
        D = e.fresh('D', Dom)
        s.assume(z3.And(mem(D) == holds(K), ddim(D) == nset(K), dpar(D) == npar(K), bdiv(D) == ndiv(K)))
        yield s, give(e, s, BSET, (D,))
    Bn['isl_basic_set_from_constraint'] = from_constraint

    # the constraint that insert_modulo_guard stands for; values at the environment
    def verdict(K, N, lv, lower, bound):
        a = cc(K, simp(lv - 1))
        R = rest(K, N, lv)
        s0 = simp(z3.If(a > 0, -R + z3.If(keq(K) == 1, 0, bound), R))
        m = simp(z3.If(a > 0, a, -a))
        return s0, m, z3.If(lower != 0, MOD(s0, m) <= bound, MOD(s0, m) == 0)
    S.verdict = verdict

    def fits(K, N, x, lv, lower, bound):
        yield z3.And(lv >= 1, lv <= nset(K) + ndiv(K), cc(K, simp(lv - 1)) != 0), 'the variable occurs in the constraint'
        yield z3.And(npar(K) == npr(N), nset(K) <= nscat(N) + nit(N), x.f.stride_level <= nset(K)), 'the constraint fits the program'
        yield forall_range(0, ndiv(K), lambda j: z3.Or(nset(K) + j == lv - 1, cc(K, nset(K) + j) == 0)), 'no other existential occurs'
        yield z3.Implies(lower != 0, bound >= 0), 'the bound on the remainder is not negative'

    SEEN = z3.Function('reduced_constraints', Dom, I, I)        # constraints among the first k that are not definitions of existentials

    @S.spec('cloog_constraint_set_reduce', assumed='cloog_constraint_set_reduce (simplification with known equalities) leaves constraints whose modulo condition with the new bound is the one of the original '
            'constraint, over the variables of the program and at most one existential; without constraints left the condition holds')
    class _:
        def pre(c):
            c['D'] = c.pred(BSET, c.a[0])
            c['b'] = c.io(MPZ, c.a[4], 'bound')
            c.fact(z3.And(c.a[0] != 0, c.a[1] >= 1, c.a[1] <= ddim(c['D'])), 'a set and a level')

        def post(c):
            c.fact(c.ret != 0, 'a set')
            D = c.pred(BSET, c.ret)
            b2 = c.io_post(MPZ, c.a[4])
            c.st.g['red'] = (D, b2)

    def inv_red(c, user, D, k):
        """all constraints so far define existentials; the first other one ends the iteration"""
        K, x, lv = c.pre('K'), c.pre('x'), c.arg0(2)
        N = x.N
        _, b2 = c.st.g['red']
        st = c.st
        low = c.arg0(1)
        _, _, G0 = verdict(K, N, lv, low, c.pre('bound')())
        K2 = KS(D, k)
        st.assume(SEEN(D, ZERO) == 0)
        st.assume(z3.Implies(k >= 0, SEEN(D, simp(k + 1)) == SEEN(D, k) + z3.If(isdivc(K2) == 0, iv(1), ZERO)))
        # what cloog_constraint_set_reduce is assumed to do
        for h, _ in fits(K2, N, x, lv, low, b2):
            st.assume(z3.Implies(z3.And(k >= 0, k < kn(D), isdivc(K2) == 0), h))
        st.assume(z3.Implies(z3.And(k >= 0, k < kn(D), isdivc(K2) == 0), verdict(K2, N, lv, low, b2)[2] == G0))
        st.assume(z3.Implies(SEEN(D, kn(D)) == 0, G0))
        c.fact(SEEN(D, k) == 0, 'only definitions of existentials so far')
    S.cfe['insert_modulo_guard_constraint'] = inv_red

    def slot_pre(c, i):
        s = c.io(PTR, c.a[i], 'slot')
        if c.producing:
            c.st.assume(s > 0)
        return s, S.io_raw(c, s, 'place')

    @S.spec('insert_modulo_guard', props=P2, light=True)
    class _:
        def pre(c):
            up, low, lv = c.a[:3]
            K, u = c['K'], c['u'] = c.pred(CONSTR, up)
            shape(c, K)
            c.fact(up != 0, 'a constraint')
            b = ZERO
            c['L'] = None
            if not c.case(low == 0):
                L, v = c['L'], c['v'] = c.pred(CONSTR, low)
                shape(c, L)
                c.fact(z3.And(nset(L) == nset(K), ndiv(L) == ndiv(K), npar(L) == npar(K), keq(L) == 0, keq(K) == 0, cc(L, simp(lv - 1)) == -cc(K, simp(lv - 1))), 'the other bound')
                b = simp(kconst(K) + kconst(L))
            c['b'] = b
            c['bound'] = lambda: b
            x = c['x'] = S.infos(c, c.a[4])
            for h, w in fits(K, x.N, x, lv, low, b):
                c.fact(h, w)
            c.fact(x.f.equal >= 0, 'equalities')
            c['s'], c['s0'] = slot_pre(c, 3)

        def post(c):
            up, low, lv = c.a[:3]
            K, L, x, s, s0 = c['K'], c['L'], c['x'], c['s'], c['s0']
            K2, _ = c.pred(CONSTR, up)
            c.fact(K2 == K, 'the constraint is only read')
            if L is not None:
                L2, _ = c.pred(CONSTR, low)
                c.fact(L2 == L, 'the other constraint is only read')
            S.infos_back(c, x)
            z0, m, G = verdict(K, x.N, lv, low, c['b'])
            fmod(c.st, z0, m)
            c.st.assume(z3.Implies(m == 1, MOD(z0, m) == 0))
            if c.producing:
                ins = c.choose()
            else:
                nx = c.io_post(PTR, c.a[3])
                ins = not c.entails(nx == s)
            if not ins:
                if c.producing:
                    c.io_post(PTR, c.a[3], s)
                c.io_post(PTR, s, s0)
                c.fact((c.ret != 0) == G, 'without a guard: the result tells whether the variable has an integer value')
                return
            g = c.io_post(PTR, s, name='guard')
            f = c.struct('clast_guard', g, iv(1), stmt__op=c.eng.global_addr(c.st, 'stmt_guard'), stmt__next=ZERO, then=ZERO, n=iv(1))
            t = c.pred(S.EXPR, simp(f['eq[]_LHS'].arr[0]))
            v = c.pred(S.EXPR, simp(f['eq[]_RHS'].arr[0]))
            sg = simp(f['eq[]_sign'].arr[0])
            if c.producing:
                c.io_post(PTR, c.a[3], FLD('clast_guard.then')(g))
            else:
                c.fact(nx == FLD('clast_guard.then')(g), 'the next place is inside the guard')
            c.fact(c.ret != 0, 'go on inside the guard')
            c.fact(z3.If(sg == 0, ev(t) == ev(v), z3.If(sg > 0, ev(t) >= ev(v), ev(t) <= ev(v))) == G, 'the guard holds exactly if the variable has an integer value')

    # ------------------------------------------------------------------ equalities
    def optf(o, k):
        return z3.Function('cloogoptions.' + k, I, I)(o)

    @S.spec('insert_equation', props=P2, light=True)
    class _:
        def pre(c):
            dom, up, low, lv = c.a[:4]
            c['dom'] = c.pred(DOM, dom) if not c.case(dom == 0) else None
            K = c['K'] = c.pred(CONSTR, up)[0]
            shape(c, K)
            c.fact(up != 0, 'a constraint')
            b = ZERO
            c['L'] = None
            if not c.case(low == 0):
                L = c['L'] = c.pred(CONSTR, low)[0]
                shape(c, L)
                c.fact(z3.And(nset(L) == nset(K), ndiv(L) == ndiv(K), npar(L) == npar(K), keq(L) == 0, keq(K) == 0, cc(L, simp(lv - 1)) == -cc(K, simp(lv - 1))), 'the other bound')
                b = simp(kconst(K) + kconst(L))
            c['b'] = b
            x = c['x'] = S.infos(c, c.a[5])
            for h, w in fits(K, x.N, x, lv, low, b):
                c.fact(h, w)
            c.fact(z3.And(x.f.equal >= 0, lv <= x.f.stride_level, ISOPT(x.f.options), ISSTATE(x.f.state)), 'a level of the program')
            c['s'], c['s0'] = slot_pre(c, 4)

        def post(c):
            if c.producing:
                raise ToolLimit('insert_equation is not used by a function under contract')
            dom, up, low, lv = c.a[:4]
            K, L, x, s, s0 = c['K'], c['L'], c['x'], c['s'], c['s0']
            N = x.N
            if c['dom'] is not None:
                c.pred(DOM, dom, outs=(c['dom'],))
            S.infos_back(c, x)
            z0, m, G = verdict(K, N, lv, low, c['b'])
            opt, nm = x.f.options, S.level_name(N, lv)

            def bound_of(K, t):
                a, R = cc(K, simp(lv - 1)), rest(K, N, lv)
                q = FDIV(-R, a)
                return z3.If(keq(K) == 1, z3.Implies(a * q + R == 0, ev(t) == q), z3.If(a > 0, ev(t) == CDIV(-R, a), ev(t) == FDIV(R, -a)))
            nx = c.io_post(PTR, c.a[4])
            recorded = z3.And(low == 0, optf(opt, 'otl') != 0)
            if c.entails(nx == s):
                c.io_post(PTR, s, s0)
                c.fact(optf(opt, 'otl') != 0, 'a loop is always inserted')
                c.fact((c.ret != 0) == G, 'the result tells whether the equation has an integer solution')
                c.fact(z3.Implies(c.ret != 0, recorded), 'without a statement the equality has been recorded')
                return
            c.fact(c.ret != 0, 'a statement has been inserted')
            g = c.io_post(PTR, s, name='statement')
            k = S.node(c, g)
            if k == 'clast_for':
                f = c.struct('clast_for', g, stmt__op=S.op(c, 'stmt_for'), stmt__next=ZERO, iterator=nm, body=ZERO, parallel=ZERO, private_vars=ZERO, reduction_vars=ZERO,
                             time_var_name=ZERO, user_directive=ZERO)
                c.fact(z3.And(optf(opt, 'otl') == 0, nx == FLD('clast_for.body')(g)), 'a loop if there are to be no equalities')
                if c['dom'] is not None:
                    c.fact(mem(c.pred(DOM, f.domain)) == mem(c['dom']), 'the domain of the loop')
                else:
                    c.fact(f.domain == 0, 'no domain')
                t, v = c.pred(S.EXPR, f.LB), c.pred(S.EXPR, f.UB)
                c.fact(z3.And(f.LB != 0, f.UB != 0, bound_of(K, v), bound_of(K if L is None else L, t)), 'the loop runs over the solutions')
                return
            if k == 'clast_guard':
                f = c.struct('clast_guard', g, iv(1), stmt__op=S.op(c, 'stmt_guard'), stmt__next=ZERO, n=iv(1))
                t = c.pred(S.EXPR, simp(f['eq[]_LHS'].arr[0]))
                v = c.pred(S.EXPR, simp(f['eq[]_RHS'].arr[0]))
                sg = simp(f['eq[]_sign'].arr[0])
                c.fact(z3.If(sg == 0, ev(t) == ev(v), z3.If(sg > 0, ev(t) >= ev(v), ev(t) <= ev(v))) == G, 'the guard holds exactly where the equation has an integer solution')
                if c.entails(nx == FLD('clast_guard.then')(g)):
                    c.fact(z3.And(f.then == 0, recorded), 'without a statement the equality has been recorded')
                    return
                g = f.then
                k = S.node(c, g)
            else:
                c.fact(G, 'without a guard the equation has an integer solution')
            if k == 'clast_block':
                q = c.struct('clast_block', g, stmt__op=S.op(c, 'stmt_block'), stmt__next=ZERO)
                c.fact(optf(opt, 'block') != 0, 'a block only on request')
                g = q.body
                k = S.node(c, g)
            if k != 'clast_assignment':
                c.missing('an assignment')
            a = c.struct('clast_assignment', g, stmt__op=S.op(c, 'stmt_ass'), stmt__next=ZERO, LHS=nm)
            c.fact(nx == FLD('clast_stmt.next')(g), 'the next place is after the assignment')
            c.fact(bound_of(K, c.pred(S.EXPR, a.RHS)), 'the assigned value solves the equation')
