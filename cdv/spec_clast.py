"""Theory of clast expression trees and contracts for the expression part of source/clast.c.

ev(T) is the value of expression tree T in one fixed but arbitrary environment (env is an
uninterpreted function from names to integers, so a proof holds for every environment)."""
import z3
from engine import iv, ZERO, simp, I, Pred, UNINIT, SV, ArrVal, isval
from front import MPZ, INT, T
from models import FDIV, CDIV, MOD, fdiv, cdiv, fmod
from spec_int import forall_range, AI

Tree = z3.DeclareSort('Tree')
AT = z3.ArraySort(I, Tree)
B = z3.BoolSort()
kind = z3.Function('kind', Tree, I)
tval = z3.Function('tval', Tree, I)
tvar = z3.Function('tvar', Tree, Tree)
nm = z3.Function('nm', Tree, I)
bop = z3.Function('bop', Tree, I)
bl = z3.Function('bl', Tree, Tree)
br = z3.Function('br', Tree, I)
rty = z3.Function('rty', Tree, I)
rn = z3.Function('rn', Tree, I)
rel = z3.Function('rel', Tree, AT)
ev = z3.Function('ev', Tree, I)
env = z3.Function('env', I, I)
RF = z3.Function('RF', I, AT, I, I)    # RF(redtype, elements, k): reduction of the first k elements
DIVX = z3.Function('divx', I, I, I)    # C division (truncating)


def trunc_facts(a, b):
    q = DIVX(a, b)
    return z3.Implies(b > 0, z3.And(z3.Implies(a >= 0, z3.And(b * q <= a, a < b * q + b)), z3.Implies(a < 0, z3.And(b * q >= a, a > b * q - b))))


NAME, TERM, BIN, RED = 0, 1, 2, 3
SUM, MIN, MAX = 0, 1, 2
BFDIV, BCDIV, BDIV, BMOD = 0, 1, 2, 3


# trees with the same parts are the same tree
MKNAME = z3.Function('mkname', I, Tree)
MKTERM = z3.Function('mkterm', I, Tree, Tree)
MKBIN = z3.Function('mkbin', I, Tree, I, Tree)
MKRED = z3.Function('mkred', I, I, AT, Tree)
NULLT = z3.Const('null_tree', Tree)


def mk(t, k):
    return {NAME: lambda: MKNAME(nm(t)), TERM: lambda: MKTERM(tval(t), tvar(t)), BIN: lambda: MKBIN(bop(t), bl(t), br(t)),
            RED: lambda: MKRED(rty(t), rn(t), rel(t)), -1: lambda: NULLT}[k]()


def rop(t, a, b):
    return z3.If(t == SUM, a + b, z3.If(t == MIN, z3.If(a <= b, a, b), z3.If(a >= b, a, b)))


def rf_zero(st, E):
    # the reduction of no element is 0 (for min/max an arbitrary choice; see n >= 1 in the contracts)
    for t in (SUM, MIN, MAX):
        st.assume(RF(iv(t), E, ZERO) == 0)


def rf_step(st, E, k, types=(SUM, MIN, MAX)):
    """definition of RF at k+1"""
    for t in types:
        ti = iv(t)
        if t == SUM:
            st.assume(z3.Implies(k >= 0, RF(ti, E, simp(k + 1)) == RF(ti, E, k) + ev(E[k])))
        else:
            st.assume(z3.Implies(k == 0, RF(ti, E, simp(k + 1)) == ev(E[k])))
            st.assume(z3.Implies(k >= 1, RF(ti, E, simp(k + 1)) == rop(ti, RF(ti, E, k), ev(E[k]))))
    rf_zero(st, E)
    for t in types:
        st.assume(RF(iv(t), E, iv(1)) == ev(E[0]))


def tree_facts(t):
    """defining equations of ev for tree t, as one formula"""
    k = kind(t)
    return z3.And(
        k >= -1, k <= 3,
        z3.Implies(k == -1, ev(t) == 0),
        z3.Implies(k == NAME, ev(t) == env(nm(t))),
        z3.Implies(k == TERM, ev(t) == z3.If(kind(tvar(t)) == -1, tval(t), tval(t) * ev(tvar(t)))),
        z3.Implies(z3.And(k == BIN, bop(t) == BFDIV), ev(t) == FDIV(ev(bl(t)), br(t))),
        z3.Implies(z3.And(k == BIN, bop(t) == BCDIV), ev(t) == CDIV(ev(bl(t)), br(t))),
        z3.Implies(z3.And(k == BIN, bop(t) == BMOD), ev(t) == MOD(ev(bl(t)), br(t))),
        z3.Implies(z3.And(k == BIN, bop(t) == BDIV), z3.And(ev(t) == DIVX(ev(bl(t)), br(t)), trunc_facts(ev(bl(t)), br(t)))),
        z3.Implies(k == BIN, z3.And(bop(t) >= 0, bop(t) <= 3)),
        z3.Implies(k == RED, z3.And(rty(t) >= 0, rty(t) <= 2, rn(t) >= 0)),
        *[z3.Implies(z3.And(k == RED, rty(t) == x), ev(t) == RF(iv(x), rel(t), rn(t))) for x in (SUM, MIN, MAX)])


STRUCTS = [('clast_name', NAME), ('clast_term', TERM), ('clast_binary', BIN), ('clast_reduction', RED)]


def expr_body(c, ins, outs):
    e, = ins
    if outs is not None:
        t, = outs
        c.st.assume(tree_facts(t))
        if c.S and c.S != 'clast_expr':
            ks = [(s, k) for s, k in STRUCTS if s == c.S]
            if not c.entails(kind(t) == ks[0][1]):
                if c.case(kind(t) == ks[0][1]):
                    pass
                else:
                    c.label = 'downcast of an expression to struct ' + c.S
                    c.missing('expression kind')
        else:
            if c.case(kind(t) == -1):
                c.st.assume(e == 0)
                c.st.assume(t == NULLT)
                return
            ks = STRUCTS
        for s, k in ks:
            if len(ks) > 1 and k != RED and not c.case(kind(t) == k):
                continue
            if k == RED:
                c.st.assume(kind(t) == RED)
            c.st.assume(t == mk(t, k))
            if k == NAME:
                f = c.struct('clast_name', e, expr__type=iv(NAME))
                c.st.assume(nm(t) == SV(f.name))
                c.st.assume(f.name != 0)
            elif k == TERM:
                f = c.struct('clast_term', e, expr__type=iv(TERM), val=tval(t))
                c.pred(c.specs.EXPR, f.var, outs=(tvar(t),))
            elif k == BIN:
                f = c.struct('clast_binary', e, expr__type=iv(BIN), type=bop(t), RHS=br(t))
                c.pred(c.specs.EXPR, f.LHS, outs=(bl(t),))
                c.st.assume(f.LHS != 0)
            else:
                A = c.fresh('elts', AI)
                n = rn(t)
                if c.bounded:
                    m = c.pick(list(range(1, c.bounded + 2)))
                    c.st.assume(n == m)
                    if not c.eng.feasible(c.st):
                        from engine import Prune
                        raise Prune()
                    n = iv(m)
                c.struct('clast_reduction', e, n, expr__type=iv(RED), type=rty(t), n=n, elts=ArrVal(A, n))
                if c.bounded:
                    for i in range(m):
                        c.pred(c.specs.EXPR, A[i], outs=(rel(t)[i],))
                        rf_step(c.st, rel(t), iv(i))
                        c.st.assume(A[i] != 0)
                else:
                    c.iter(c.specs.EXPR, A, ZERO, n, (rel(t),))
                    rf_zero(c.st, rel(t))
            return
        return
    # fold
    if c.case(e == 0):
        t = c.fresh('nullT', Tree)
        c.st.assume(t == NULLT)
        c.st.assume(kind(t) == -1)
        c.st.assume(ev(t) == 0)
        return (t,)
    hit = [s for s, k in STRUCTS if c.find_struct(s, e, (True,)) is not None]
    for s, k in STRUCTS:
        ch = (s in hit) if hit else c.find_struct(s, e) is not None
        if not ch:
            continue
        t = c.fresh('T', Tree)
        c.st.assume(kind(t) == k)
        c.st.assume(tree_facts(t))
        if k == NAME:
            f = c.struct(s, e, expr__type=iv(NAME))
            c.init(f.name, 'name')
            c.st.assume(nm(t) == SV(f.name))
        elif k == TERM:
            f = c.struct(s, e, expr__type=iv(TERM))
            c.init(f.val, 'val'), c.init(f.var, 'var')
            c.st.assume(tval(t) == f.val)
            c.st.assume(tvar(t) == c.pred(c.specs.EXPR, f.var))
        elif k == BIN:
            f = c.struct(s, e, expr__type=iv(BIN))
            c.init(f.RHS, 'RHS'), c.init(f.type, 'type'), c.init(f.LHS, 'LHS')
            c.st.assume(bop(t) == f.type)
            c.st.assume(br(t) == f.RHS)
            c.ensure(z3.And(f.type >= 0, f.type <= 3), 'operator is valid')
            l = c.pred(c.specs.EXPR, f.LHS)
            c.st.assume(bl(t) == l)
            c.st.assume(tree_facts(t))
        else:
            f = c.struct(s, e, expr__type=iv(RED))
            c.init(f.type, 'type'), c.init(f.n, 'n')
            c.ensure(z3.And(f.type >= 0, f.type <= 2, f.n >= 0), 'reduction header is valid')
            if f.elts.size is not None:
                c.ensure(f.elts.size >= f.n, 'reduction has room for its elements')
            n = simp(f.n)
            if isval(n):
                E = c.fresh('E', AT)
                rf_zero(c.st, E)
                for i in range(n.as_long()):
                    x = c.pred(c.specs.EXPR, simp(z3.Select(f.elts.arr, i)))
                    E2 = z3.Store(E, i, x)
                    on_store(c.eng, c.st, E, iv(i), x, E2, iv(i + 1))
                    E = E2
                c.st.assume(z3.And(rty(t) == f.type, rn(t) == n, rel(t) == E))
                for i in range(n.as_long()):
                    rf_step(c.st, rel(t), iv(i))
                    c.st.assume(rel(t)[i] == E[i])
            else:
                E = c.iter(c.specs.EXPR, f.elts.arr, ZERO, f.n)
                c.st.assume(z3.And(rty(t) == f.type, rn(t) == f.n, rel(t) == E))
                rf_zero(c.st, E)
            c.st.assume(tree_facts(t))
        c.st.assume(t == mk(t, k))
        return (t,)
    c.missing('ownership of an expression')


def on_produce(st, ins, outs):
    st.assume((ins[0] == 0) == (kind(outs[0]) == -1))
    st.assume(z3.Implies(kind(outs[0]) == -1, ev(outs[0]) == 0))
    st.assume(kind(outs[0]) >= -1)
    st.assume(kind(outs[0]) <= 3)


def on_extract(eng, st, c, i):
    rf_step(st, c.E[0], i)


def on_store(eng, st, E, h, x, E2, hi):
    """lemma instances (proved in lemmas.py): writing at h does not change prefixes up to h;
    writing an element of the same value changes no prefix"""
    rf_step(st, E2, h)
    st.assume(E2[h] == x)
    for t in (SUM, MIN, MAX):
        st.assume(RF(iv(t), E2, h) == RF(iv(t), E, h))
        st.assume(z3.Implies(z3.And(ev(x) == ev(E[h]), h >= 0, h < hi), RF(iv(t), E2, hi) == RF(iv(t), E, hi)))


def null_elems(st, r, lo, hi):
    k = z3.Int('k!q')
    st.assume(z3.ForAll([k], z3.Implies(z3.And(lo <= k, k < hi), kind(r[0][k]) == -1)))


def install(S):
    P = Pred('expr', [Tree], expr_body, struct={'clast_name', 'clast_term', 'clast_binary', 'clast_reduction', 'clast_expr'},
             peek={'clast_expr.type': lambda ins, outs: kind(outs[0]),
                   'clast_name.expr.type': lambda ins, outs: kind(outs[0])})
    P.on_produce = on_produce
    P.on_extract = on_extract
    P.on_iter = lambda st, E: rf_zero(st, E[0])
    P.on_store = on_store
    P.null_elems = null_elems
    S.EXPR = P

    # ---------------------------------------------------------------- constructors
    @S.spec('new_clast_name', props=['C04'])
    class _:
        def pre(c):
            c.fact(c.a[0] != 0, 'name is not null')

        def post(c):
            c.struct('clast_name', c.ret, expr__type=iv(NAME), name=c.a[0])

    @S.spec('new_clast_term', props=['C04'])
    class _:
        def pre(c):
            c['v'] = c.io(MPZ, c.a[0], 'c')

        def post(c):
            c.struct('clast_term', c.ret, expr__type=iv(TERM), val=c['v'], var=c.a[1])
            c.io_post(MPZ, c.a[0], c['v'])

    @S.spec('new_clast_binary', props=['C04'])
    class _:
        def pre(c):
            c['v'] = c.io(MPZ, c.a[2], 'rhs')

        def post(c):
            c.struct('clast_binary', c.ret, expr__type=iv(BIN), type=c.a[0], LHS=c.a[1], RHS=c['v'])
            c.io_post(MPZ, c.a[2], c['v'])

    @S.spec('new_clast_reduction', props=['C04'])
    class _:
        def pre(c):
            c.fact(c.a[1] >= 0, 'element count is not negative')

        def post(c):
            if c.producing:
                A = c.fresh('elts', AI)
                c.struct('clast_reduction', c.ret, c.a[1], expr__type=iv(RED), type=c.a[0], n=c.a[1], elts=ArrVal(A, c.a[1]))
            else:
                f = c.struct('clast_reduction', c.ret, c.a[1], expr__type=iv(RED), type=c.a[0], n=c.a[1])
                A = f.elts.arr
            n = simp(c.a[1])
            if isval(n):
                for i in range(n.as_long()):
                    c.fact(A[i] == 0, 'elements start out null')
            else:
                c.fact(forall_range(0, n, lambda k: A[k] == 0), 'elements start out null')

    @S.inv('new_clast_reduction', 0)
    def _(c):
        i, n = c.v('i'), c.v('n')
        c.fact(z3.And(i >= 0, i <= n), 'range')
        A = c.read('clast_reduction', c.v('r'), 'elts').arr
        c.fact(forall_range(0, i, lambda k: A[k] == 0), 'null prefix')

    # ---------------------------------------------------------------- destructors
    def freer(name, sname, k):
        @S.spec(name, props=['C04', 'C06'])
        class _:
            def pre(c):
                t = c.pred(S.EXPR, c.a[0])
                if k is None:
                    return
                c.fact(kind(t) == k, 'kind')

            def post(c):
                pass
    freer('free_clast_name', 'clast_name', NAME)
    freer('free_clast_term', 'clast_term', TERM)
    freer('free_clast_binary', 'clast_binary', BIN)
    freer('free_clast_reduction', 'clast_reduction', RED)
    freer('free_clast_expr', None, None)

    @S.inv('free_clast_reduction', 0)
    def _(c):
        i, r = c.v('i'), c.v('r')
        f = c.struct('clast_reduction', r)
        c.fact(z3.And(i >= 0, i <= f.n), 'range')
        c.iter(S.EXPR, f.elts.arr, i, f.n)

    # ---------------------------------------------------------------- comparison
    def cmper(name, k):
        @S.spec(name, props=['C04'])
        class _:
            def pre(c):
                c['T1'] = c.pred(S.EXPR, c.a[0])
                c['T2'] = c.pred(S.EXPR, c.a[1])
                if k is not None:
                    c.fact(z3.And(kind(c['T1']) == k, kind(c['T2']) == k), 'kinds')

            def post(c):
                t1 = c.pred(S.EXPR, c.a[0])
                t2 = c.pred(S.EXPR, c.a[1])
                c.fact(ev(t1) == ev(c['T1']), 'first operand unchanged')
                c.fact(ev(t2) == ev(c['T2']), 'second operand unchanged')
                if c.producing:
                    c.st.assume(t1 == c['T1'])
                    c.st.assume(t2 == c['T2'])
                c.fact(z3.Implies(c.ret == 0, z3.Implies(kind(c['T1']) >= 0, z3.And(kind(c['T2']) >= 0, ev(c['T1']) == ev(c['T2'])))), 'equal only for expressions with the same value')
                c.fact(z3.Implies(c.ret == 0, z3.Implies(kind(c['T2']) >= 0, kind(c['T1']) >= 0)), 'null only equals null')
    cmper('clast_expr_cmp', None)
    cmper('clast_term_cmp', TERM)
    cmper('clast_binary_cmp', BIN)
    cmper('clast_reduction_cmp', RED)
    cmper('clast_name_cmp', NAME)

    @S.inv('clast_reduction_cmp', 0)
    def _(c):
        i, r1, r2 = c.v('i'), c.v('r1'), c.v('r2')
        n = c.read('clast_reduction', r1, 'n')
        E1 = c.peek_iter(S.EXPR, c.read('clast_reduction', r1, 'elts').arr)
        E2 = c.peek_iter(S.EXPR, c.read('clast_reduction', r2, 'elts').arr)
        c.fact(z3.And(i >= 0, i <= n), 'range')
        for t in (SUM, MIN, MAX):
            c.fact(RF(iv(t), E1, i) == RF(iv(t), E2, i), 'prefixes have the same value')

    @S.spec('clast_expr_equal', props=['C04'])
    class _:
        def pre(c):
            c['T1'] = c.pred(S.EXPR, c.a[0])
            c['T2'] = c.pred(S.EXPR, c.a[1])

        def post(c):
            t1 = c.pred(S.EXPR, c.a[0])
            t2 = c.pred(S.EXPR, c.a[1])
            c.fact(ev(t1) == ev(c['T1']), 'first operand unchanged')
            c.fact(ev(t2) == ev(c['T2']), 'second operand unchanged')
            if c.producing:
                c.st.assume(t1 == c['T1'])
                c.st.assume(t2 == c['T2'])
            c.fact(z3.Implies(c.ret != 0, z3.And((kind(t1) >= 0) == (kind(t2) >= 0), ev(t1) == ev(t2))), 'reported equal only if equal in every environment')

    @S.spec('clast_expr_is_bigger_constant', props=['C04'])
    class _:
        def pre(c):
            c['T1'] = c.pred(S.EXPR, c.a[0])
            c['T2'] = c.pred(S.EXPR, c.a[1])

        def post(c):
            t1 = c.pred(S.EXPR, c.a[0])
            t2 = c.pred(S.EXPR, c.a[1])
            c.fact(ev(t1) == ev(c['T1']), 'first operand unchanged')
            c.fact(ev(t2) == ev(c['T2']), 'second operand unchanged')
            if c.producing:
                c.st.assume(t1 == c['T1'])
                c.st.assume(t2 == c['T2'])
            c.fact(z3.Implies(c.ret != 0, z3.And(kind(t1) >= 0, kind(t2) >= 0, ev(t1) > ev(t2))), 'reported bigger only if strictly bigger in every environment')

    @S.spec('clast_expr_copy', props=['C04', 'C06'])
    class _:
        def pre(c):
            c['T'] = c.pred(S.EXPR, c.a[0])

        def post(c):
            t1 = c.pred(S.EXPR, c.a[0])
            t2 = c.pred(S.EXPR, c.ret)
            c.fact(z3.And(kind(t1) == kind(c['T']), ev(t1) == ev(c['T'])), 'original unchanged')
            if c.producing:
                c.st.assume(t1 == c['T'])
            c.fact(z3.And(kind(t2) == kind(c['T']), ev(t2) == ev(c['T'])), 'copy has the same value in every environment')

    @S.inv('clast_expr_copy', 0)
    def _(c):
        i, r, r2 = c.v('i'), c.v('r'), c.v('r2')
        n = c.read('clast_reduction', r, 'n')
        ty = c.read('clast_reduction', r, 'type')
        E1 = c.peek_iter(S.EXPR, c.read('clast_reduction', r, 'elts').arr)
        c.fact(z3.And(i >= 0, i <= n), 'range')
        f = c.struct('clast_reduction', r2, n, expr__type=iv(RED), type=ty, n=n)
        E2 = c.iter(S.EXPR, f.elts.arr, ZERO, i)
        for t in (SUM, MIN, MAX):
            c.fact(RF(iv(t), E1, i) == RF(iv(t), E2, i), 'copied prefix has the same value')
