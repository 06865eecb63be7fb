"""Loop statements (source/clast.c): a loop header, an assignment or a guarded assignment stands for the constraints of its level.

Values are at one fixed but arbitrary environment, the point of which lies on the strides of the levels (see spec_minmax)."""
import z3
from engine import FLD, iv, ZERO, simp, I
from front import MPZ, INT, T, ToolLimit
from spec_constr import CONSTR, cc, nset, ndiv, npar, total, nscat, nit, npr, scatA, itA, parA
from spec_int import forall_range
from spec_clast import ev, kind
from spec_stride import exact
from spec_guard import NV
from spec_dom import BSET, DOM, mem, ddim, dpar
from spec_data import PTR, ISOPT, ISSTATE
from spec_minmax import MNB, MOK, MAL, kn, m_step, sd

NEXTOF = FLD('clast_stmt.next')


def install(S):
    P1 = ['C01']
    XV = S.XV

    def optf(o, k):
        return z3.Function('cloogoptions.' + k, I, I)(o)

    @S.spec('clast_equal_add', assumed='clast_equal_add records an equality in infos->equal (module equalities); constraints are only read')
    class _:
        def pre(c):
            c['D'] = c.pred(BSET, c.a[1]) if not c.case(c.a[1] == 0) else None
            c['K'] = c.pred(CONSTR, c.a[3]) if not c.case(c.a[3] == 0) else None
            c.fact(c.a[2] >= 1, 'a level')

        def post(c):
            if c['D'] is not None:
                c.pred(BSET, c.a[1], outs=(c['D'],))
            if c['K'] is not None:
                c.pred(CONSTR, c.a[3], outs=c['K'])

    def node(c, g):
        """kind of the statement at g"""
        for h in c.st.heap:
            if h.kind == 'S' and h.s in ('clast_for', 'clast_assignment', 'clast_block', 'clast_guard') and c.eng.must_eq(c.st, h.addr, g):
                return h.s
        return None

    def op(c, k):
        return c.eng.global_addr(c.st, k)

    def level_name(N, l):
        return z3.If(l <= nscat(N), scatA(N)[simp(l - 1)], itA(N)[simp(l - nscat(N) - 1)])

    def sub_slot(struct, field, g):
        return FLD('%s.%s' % (struct, field))(g)

    S.node, S.op, S.level_name = node, op, level_name

    @S.spec('insert_for', props=P1, light=True)
    class _:
        def pre(c):
            dom, cs, l = c.a[0], c.a[1], c.a[2]
            c['dom'] = c.pred(DOM, dom) if not c.case(dom == 0) else None
            c.fact(cs != 0, 'a constraint set')
            D = c['D'] = c.pred(BSET, cs)
            x = c['x'] = S.infos(c, c.a[5])
            N = x.N
            c.fact(z3.And(l >= 1, l <= ddim(D), l <= x.f.stride_level, ddim(D) <= nscat(N) + nit(N), dpar(D) == npr(N), dpar(D) >= 0), 'a level of the constraints')
            c.fact(z3.And(ISOPT(x.f.options), ISSTATE(x.f.state)), 'options and state')
            c['s'] = None
            if not c.case(x.A[simp(l - 1)] == 0):
                s = c['s'] = x.at(simp(l - 1))
                c.fact(z3.Implies(s[4] == 1, z3.And(nset(s[3]) == ddim(D), forall_range(l, nset(s[3]), lambda k: cc(s[3], k) == 0))), 'the stride is one of this level')
            c['n'] = c.io(PTR, c.a[4], 'slot')
            if c.producing:
                c.st.assume(c['n'] > 0)
            c['n0'] = S.io_raw(c, c['n'], 'place')

        def post(c):
            if c.producing:
                raise ToolLimit('insert_for is not used by a function under contract')
            dom, cs, l, otl = c.a[0], c.a[1], c.a[2], c.a[3]
            D, x, s, n, n0 = c['D'], c['x'], c['s'], c['n'], c['n0']
            N = x.N
            if c['dom'] is not None:
                c.pred(DOM, dom, outs=(c['dom'],))
            c.pred(BSET, cs, outs=(D,))
            S.infos_back(c, x)
            lo, up = (l, iv(1), ZERO, ZERO), (l, ZERO, ZERO, ZERO)
            n1, n2 = MNB(D, *lo, kn(D)), MNB(D, *up, kn(D))
            ok1, ok2 = MOK(D, N, *lo, kn(D)), MOK(D, N, *up, kn(D))
            for cfg in (lo, up):
                m_step(c.st, D, N, cfg, ZERO)
            X = XV(D, N, l)
            opt = x.f.options
            nm = level_name(N, l)
            nx = c.io_post(PTR, c.a[4])
            if c.entails(nx == n):
                c.io_post(PTR, n, n0)
                c.fact(z3.Implies(c.ret == 0, z3.Not(z3.And(ok1, ok2))), 'a loop is only left out if nothing satisfies its bounds')
                c.fact(z3.Implies(c.ret != 0, z3.And(optf(opt, 'otl') != 0, n1 > 0, n2 > 0)), 'an equality is only recorded instead if there are both bounds')
                return
            c.fact(c.ret != 0, 'a statement has been inserted')
            g = c.io_post(PTR, n, name='statement')
            k = node(c, g)
            if k == 'clast_block':
                b = c.struct('clast_block', g, stmt__op=op(c, 'stmt_block'), stmt__next=ZERO)
                c.fact(optf(opt, 'block') != 0, 'a block only on request')
                g = b.body
                k = node(c, g)
            if k == 'clast_for':
                f = c.struct('clast_for', g, stmt__op=op(c, 'stmt_for'), stmt__next=ZERO, iterator=nm, body=ZERO, parallel=ZERO, private_vars=ZERO, reduction_vars=ZERO,
                             time_var_name=ZERO, user_directive=ZERO, stride=s[0] if s is not None else iv(1))
                c.fact(nx == sub_slot('clast_for', 'body', g), 'the next place is inside the loop')
                c.fact(otl == 0, 'a loop')
                if c['dom'] is not None:
                    E = c.pred(DOM, f.domain)
                    c.fact(mem(E) == mem(c['dom']), 'the domain of the loop')
                else:
                    c.fact(f.domain == 0, 'no domain')
                t, u = c.pred(S.EXPR, f.LB), c.pred(S.EXPR, f.UB)
                call = optf(opt, 'callable') != 0
                c.fact(z3.Or(call, (f.LB == 0) == (n1 == 0)), 'a lower bound if there is one')
                c.fact(z3.Or(call, (f.UB == 0) == (n2 == 0)), 'an upper bound if there is one')
                c.fact(z3.Implies(n1 > 0, z3.And(f.LB != 0, (X >= ev(t)) == ok1)), 'the loop starts where all lower bounds hold')
                c.fact(z3.Implies(n2 > 0, z3.And(f.UB != 0, (X <= ev(u)) == ok2)), 'the loop ends where all upper bounds hold')
                if s is not None:
                    c.fact(z3.Implies(z3.And(n1 > 0, z3.Or(s[4] == 1, MAL(D, N, *lo, kn(D)))), exact(simp(ev(t) - sd(s, N, l)), s[0])), 'the loop starts on the stride')
                return
            if k != 'clast_assignment':
                c.missing('a loop, an assignment or a guarded assignment')
            a = c.struct('clast_assignment', g, stmt__op=op(c, 'stmt_ass'), LHS=nm)
            t = c.pred(S.EXPR, a.RHS)
            if c.entails(a.stmt_next == 0):
                c.fact(nx == NEXTOF(g), 'the next place is after the assignment')
                c.fact(z3.And(optf(opt, 'otl') != 0, n1 > 0, n2 > 0), 'an assignment only for a loop with one iteration')
                c.fact((X == ev(t)) == z3.And(ok1, ok2), 'the assigned value is the only one within the bounds')
                return
            h = a.stmt_next
            q = c.struct('clast_guard', h, iv(1), stmt__op=op(c, 'stmt_guard'), stmt__next=ZERO, then=ZERO, n=iv(1))
            c.fact(nx == sub_slot('clast_guard', 'then', h), 'the next place is inside the guard')
            c.fact(otl != 0, 'a loop with at most one iteration')
            L, R = simp(q['eq[]_LHS'].arr[0]), simp(q['eq[]_RHS'].arr[0])
            v = c.pred(S.EXPR, L)
            u = c.pred(S.EXPR, R)
            c.fact(simp(q['eq[]_sign'].arr[0]) == -1, 'the guard is an upper bound')
            c.fact(z3.And(L != 0, ev(v) == NV(N, simp(l - 1))), 'the guard is on the variable of the level')
            c.fact(z3.And((a.RHS == 0) == (n1 == 0), z3.Implies(n1 > 0, (X >= ev(t)) == ok1)), 'the assigned value is the lower bound')
            c.fact(z3.And((R == 0) == (n2 == 0), z3.Implies(n2 > 0, (X <= ev(u)) == ok2)), 'the guard holds where all upper bounds hold')
