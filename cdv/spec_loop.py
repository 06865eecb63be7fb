"""Loop lists (source/loop.c): ownership and the multiset of statement instances they stand for.

One integer point and one statement are fixed but arbitrary.  For a list L of loops
  V(L) = sum over its loops l of  (if the point is in l's domain: occurrences of the statement in l's block + V(inner(l)))
is the number of times the statement is executed at that point; C06 says V never changes."""
import z3
from engine import iv, ZERO, simp, I, Pred, UNINIT, isval, FLD, PChunk
from front import MPZ, INT, T
from spec_list import make_list, ListTheory
from spec_data import PTR, ISSTATE, SEQ, CNT, ISOPT
from spec_dom import DOM, mem, ddim, dpar, dn, otl

B = z3.BoolSort()
_d = z3.Datatype('LoopL')
# V instances; W instances ignoring the outermost domains; M loops whose domain has the point; n length;
# NB no loop has a block; INN every loop has inner loops; NST instances only inside the loop's domain; CV all domains convex
_d.declare('mkL', ('V', I), ('W', I), ('M', I), ('n', I), ('NB', B), ('INN', B), ('NST', B), ('CV', B))
LoopL = _d.create()
mkL, V, W, M, LEN, NB, INN, NST, CV = LoopL.mkL, LoopL.V, LoopL.W, LoopL.M, LoopL.n, LoopL.NB, LoopL.INN, LoopL.NST, LoopL.CV
TRUE = z3.BoolVal(True)
EMPTY = mkL(ZERO, ZERO, ZERO, ZERO, TRUE, TRUE, TRUE, TRUE)


def elem(D, cb, blk, Li, inner):
    """one loop"""
    w = simp(cb + V(Li))
    m = mem(D)
    return mkL(z3.If(m, w, ZERO), w, z3.If(m, iv(1), ZERO), iv(1), blk == 0, inner != 0, z3.Or(m, w == 0), dn(D) <= 1)


def app(a, b):
    return mkL(V(a) + V(b), W(a) + W(b), M(a) + M(b), LEN(a) + LEN(b), z3.And(NB(a), NB(b)), z3.And(INN(a), INN(b)),
               z3.And(NST(a), NST(b)), z3.And(CV(a), CV(b)))


def lfacts(st, L):
    st.assume(z3.And(V(L) >= 0, W(L) >= V(L), M(L) >= 0, LEN(L) >= 0, M(L) <= LEN(L), z3.Implies(M(L) == 0, V(L) == 0),
                     z3.Implies(NST(L), V(L) == W(L))))


def cntfacts(st, s):
    st.assume(CNT(s) >= 0)


F_NEXT = FLD('cloogloop.next')
FIELDS = ('state', 'domain', 'unsimplified', 'otl', 'stride', 'block', 'usr', 'inner', 'next')


from spec_stride import off      # noqa: E402


def install(S):
    SREF, BREF = S.SREF, S.BREF
    P6, P7 = ['C06'], ['C07']
    P = ['C06', 'C07']

    def opt(c, Pd, p):
        if c.case(p == 0):
            return None
        return c.pred(Pd, p)

    def mkopt(Pd, null):
        def body(c, ins, outs):
            p = ins[0]
            if c.case(p == 0):
                return (null if null is not None else c.fresh('none', Pd.outs[0]),)
            o = c.pred(Pd, p, outs=outs if c.producing else None)
            return (o,)
        O = Pred('optional ' + Pd.name, list(Pd.outs), body, nullable=True)

        def onp(st, ins, outs):
            st.assume(ins[0] >= 0)
            if null is not None:
                st.assume(z3.Implies(ins[0] == 0, outs[0] == null))
                st.assume(z3.And(CNT(outs[0]) >= 0, CNT(null) == 0))
        O.on_produce = onp

        def look(c, ins):
            for exact in (True, False):
                for ch in c.st.heap:
                    if ch.kind == 'P' and ch.p is O and (ch.ins[0].eq(ins[0]) if exact else c.eng.must_eq(c.st, ch.ins[0], ins[0])):
                        if not c.entails(ins[0] != 0):
                            return None
                        c.st.heap = [x for x in c.st.heap if x is not ch]
                        return ch.outs
            return None
        assert getattr(Pd, 'lookup', None) is None
        Pd.lookup = look
        return O
    ODOM, OSREF, OBREF = mkopt(DOM, None), mkopt(SREF, None), mkopt(BREF, z3.Empty(SEQ))
    S.ODOM, S.OSREF, S.OBREF = ODOM, OSREF, OBREF
    OPTS = {DOM: ODOM, SREF: OSREF, BREF: OBREF}

    def node(c, f):
        c.fact(z3.And(ISSTATE(f.state), f.domain != 0), 'loop has a state and a domain')
        D = c.pred(DOM, f.domain)
        c.pred(ODOM, f.unsimplified)
        c.pred(OSREF, f.stride)
        s = c.pred(OBREF, f.block)
        c.assume(z3.And(CNT(s) >= 0, CNT(z3.Empty(SEQ)) == 0))
        Li = c.pred(LOOPS, f.inner)
        return elem(D, CNT(s), f.block, Li, f.inner)
    th = ListTheory(LoopL, lambda c: EMPTY, lambda c, x, r: app(x, r), lambda c, a, b: app(a, b), facts=lfacts)
    LOOPS, LSEG = make_list('loop list', 'cloogloop', th, node)
    S.LOOPS, S.LSEG = LOOPS, LSEG

    # partially released lists: which parts the nodes still own
    POL = {}

    def mkpol(d, b, i):
        def pnode(c, f):
            c.fact(ISSTATE(f.state), 'loop has a state')
            if d:
                c.pred(ODOM, f.domain)
            c.pred(ODOM, f.unsimplified)
            c.pred(OSREF, f.stride)
            if b:
                c.pred(OBREF, f.block)
            if i:
                c.pred(POL[(d, b, i)][0], f.inner)
            return TRUE
        t2 = ListTheory(B, lambda c: TRUE, lambda c, x, r: TRUE, lambda c, a, b_: TRUE)
        L, Sg = make_list('loops owning %s' % ('+'.join(n for n, k in (('domain', d), ('block', b), ('inner', i)) if k) or 'no parts'), 'cloogloop', t2, pnode)
        POL[(d, b, i)] = (L, Sg)
        if d and b and i:
            old = L.lookup

            def look(c, ins):
                r = old(c, ins)
                if r is not None:
                    return r
                for exact in (True, False):
                    for ch in c.st.heap:
                        if ch.kind == 'P' and ch.p is LOOPS and (ch.ins[0].eq(ins[0]) if exact else c.eng.must_eq(c.st, ch.ins[0], ins[0])):
                            c.st.heap = [x for x in c.st.heap if x is not ch]
                            return (TRUE,)
                for ch in c.st.heap:
                    if ch.kind == 'P' and ch.p is LSEG and c.eng.must_eq(c.st, ch.ins[0], ins[0]):
                        c.st.heap = [x for x in c.st.heap if x is not ch]
                        c.pred(L, ch.ins[1])
                        return (TRUE,)
                return None
            L.lookup = look
    for d in (0, 1):
        for b in (0, 1):
            for i in (0, 1):
                mkpol(d, b, i)
    S.POL = POL
    FULL = POL[(1, 1, 1)][0]

    # ---------------------------------------------------------------- allocation, release
    @S.spec('cloog_loop_malloc', props=P7)
    class _:
        def pre(c):
            c.fact(ISSTATE(c.a[0]), 'valid state')

        def post(c):
            c.struct('cloogloop', c.ret, state=c.a[0], **{k: ZERO for k in FIELDS if k != 'state'})

    @S.spec('cloog_loop_alloc', props=P)
    class _:
        def pre(c):
            c.fact(ISSTATE(c.a[0]), 'valid state')
            c['s'] = opt(c, SREF, c.a[3])

        def post(c):
            a = c.a
            c.struct('cloogloop', c.ret, state=a[0], domain=a[1], otl=a[2], stride=a[3], block=a[4], inner=a[5], next=a[6], unsimplified=ZERO, usr=ZERO)
            if c['s'] is not None:
                c.pred(SREF, a[3], outs=(c['s'],))
                c.pred(SREF, a[3], outs=(c['s'],))

    @S.spec('cloog_loop_free', props=P7)
    class _:
        def pre(c):
            c.pred(FULL, c.a[0])

        def post(c):
            pass

    @S.inv('cloog_loop_free', 0)
    def _(c):
        c.pred(FULL, c.v('loop'))

    def fp_args(c):
        return tuple(int(not c.case(c.a[k] == 0)) for k in (1, 2, 3)), not c.case(c.a[4] == 0)

    @S.spec('cloog_loop_free_parts', props=P7)
    class _:
        def pre(c):
            pol, nx = fp_args(c)
            if nx:
                c.pred(POL[pol][0], c.a[0])
            elif not c.case(c.a[0] == 0):
                POL[pol][0].nodepart(c, c.a[0])

        def post(c):
            pass

    @S.inv('cloog_loop_free_parts', 0)
    def _(c):
        pol = tuple(int(not c.case(c.v(k) == 0)) for k in ('domain', 'block', 'inner'))
        if not c.case(c.v('next') == 0):
            c.pred(POL[pol][0], c.v('loop'))
        elif not c.case(c.v('loop') == 0):
            POL[pol][0].nodepart(c, c.v('loop'))

    # ---------------------------------------------------------------- lists
    @S.spec('cloog_loop_add', props=P)
    class _:
        def pre(c):
            S.add_pre(c, 'cloogloop')

        def post(c):
            S.add_post(c, 'cloogloop')

    def peekcell(c, addr):
        for ch in c.st.heap:
            if ch.kind == 'C' and c.eng.must_eq(c.st, ch.addr, addr):
                return ch.val
        c.missing('cell')

    def keepnode(c, key, addr):
        """a loop that the iterations only read"""
        fz = c.g.get('once_' + key)
        f = c.struct('cloogloop', addr, **(fz or {}))
        if fz is None:
            fz = c.once(key, lambda: {k: f[k] for k in FIELDS})
        D = c.pred(DOM, f.domain)
        c.pred(ODOM, f.unsimplified)
        c.pred(OSREF, f.stride)
        Bk = c.pred(OBREF, f.block)
        Li = c.pred(LOOPS, f.inner)
        D0, B0, L0 = c.once(key + 'v', lambda: (D, Bk, Li))
        c.fact(z3.And(D == D0, Bk == B0, Li == L0, f.domain != 0, ISSTATE(f.state)), 'unmodified loop')
        return f, D0, L0

    def peekpred(c, p, addr):
        for ch in c.st.heap:
            if ch.kind == 'P' and ch.p is p and c.eng.must_eq(c.st, ch.ins[0], addr):
                return ch.outs[0]
        c.missing('predicate ' + p.name)

    @S.spec('cloog_loop_add_list', props=P)
    class _:
        def pre(c):
            S.add_pre(c, 'cloogloop')
            c.fact(c.a[2] != 0, 'a non-empty list')
            c['L'] = c.pred(LOOPS, c.a[2])

        def post(c):
            if c['e']:
                c.io_post(PTR, c.a[0], c.a[2])
            else:
                f = {k: v for k, v in c['f'].items() if not isinstance(v, str)}
                f['next'] = c.a[2]
                c.struct('cloogloop', c['n'], **f)
                c.io_post(PTR, c.a[0], c['s'])
            n = c.io_post(PTR, c.a[1], name='now')
            tail(c, c.a[2], n, c['L'])

    def tail(c, head, last, L):
        """the list from head, whose last node is last"""
        a = c.pred(LSEG, head, last)
        f, x = LOOPS.nodepart(c, last)
        c.fact(f.next == 0, 'last loop of the list')
        c.fact(app(a, x) == L, 'same loops')

    @S.inv('cloog_loop_add_list', 0)
    def _(c):
        n = peekcell(c, c.arg0(1))
        a = c.pred(LSEG, c.arg0(2), n)
        f, x = LOOPS.nodepart(c, n)
        r = c.pred(LOOPS, f.next)
        c.fact(app(a, app(x, r)) == c.pre('L'), 'same loops')

    @S.spec('cloog_loop_copy', props=P)
    class _:
        def pre(c):
            c['L'] = c.pred(LOOPS, c.a[0])

        def post(c):
            c.pred(LOOPS, c.a[0], outs=(c['L'],))
            L, A = c.pred(LOOPS, c.ret), c['L']
            for k in (V, W, M, LEN, NB, INN, NST):
                c.fact(k(L) == k(A), 'copy has the same ' + k.name())
            c.fact(z3.Implies(CV(A), CV(L)), 'copies of convex domains are convex')
            c.fact((c.ret == 0) == (c.a[0] == 0), 'empty only for empty')

    @S.spec('cloog_loop_concat', props=P)
    class _:
        def pre(c):
            c['A'] = c.pred(LOOPS, c.a[0])
            c['B'] = c.pred(LOOPS, c.a[1])

        def post(c):
            c.pred(LOOPS, c.ret, outs=(app(c['A'], c['B']),))
            c.fact((c.ret == 0) == z3.And(c.a[0] == 0, c.a[1] == 0), 'empty only for empty lists')

    @S.inv('cloog_loop_concat', 0)
    def _(c):
        t = c.v('temp')
        a = c.pred(LSEG, c.arg0(0), t)
        f, x = LOOPS.nodepart(c, t)
        r = c.pred(LOOPS, f.next)
        c.fact(app(a, app(x, r)) == c.pre('A'), 'same loops')

    @S.spec('cloog_loop_count', props=P6)
    class _:
        def pre(c):
            c['L'] = c.pred(LOOPS, c.a[0])

        def post(c):
            c.pred(LOOPS, c.a[0], outs=(c['L'],))
            c.fact(c.ret == LEN(c['L']), 'length')

    @S.inv('cloog_loop_count', 0)
    def _(c):
        a = c.pred(LSEG, c.arg0(0), c.v('loop'))
        r = c.pred(LOOPS, c.v('loop'))
        c.fact(z3.And(app(a, r) == c.pre('L'), LEN(a) == c.v('nb_loops')), 'loops counted')

    # ---------------------------------------------------------------- making disjoint
    def open_list(c, s, n, what='list'):
        """list under construction: from s to its last node n; NULL when s is NULL"""
        c.separate('cloogloop')
        if c.case(s == 0):
            return EMPTY
        a = c.pred(LSEG, s, n)
        f, x = LOOPS.nodepart(c, n)
        c.fact(f.next == 0, what + ' is terminated')
        return app(a, x)

    def same(c, A, B_, fs, what):
        for k in fs:
            c.fact(k(A) == k(B_), '%s: %s' % (what, k.name()))

    @S.spec('cloog_loop_add_disjoint', props=P)
    class _:
        def pre(c):
            S.add_pre(c, 'cloogloop')
            f, x = LOOPS.nodepart(c, c.a[2])
            c['x'] = x
            c.fact(f.next == 0, 'a single loop')
            c['blk'], c['inn'] = f.block, f.inner

        def post(c):
            if c['e']:
                h = c.io_post(PTR, c.a[0], name='start')
            else:
                f = {k: v for k, v in c['f'].items() if not isinstance(v, str) and k != 'next'}
                h = c.struct('cloogloop', c['n'], **f).next
                c.io_post(PTR, c.a[0], c['s'])
            n = c.io_post(PTR, c.a[1], name='now')
            L = open_tail(c, h, n)
            x = c['x']
            same(c, L, x, (V, M, NB, INN), 'added loops')
            c.fact(z3.And(CV(L), h != 0), 'at least one piece, all convex')

    def open_tail(c, h, n):
        """non-empty list from h to its last node n"""
        c.separate('cloogloop')
        a = c.pred(LSEG, h, n)
        f, x = LOOPS.nodepart(c, n)
        c.fact(f.next == 0, 'list is terminated')
        return app(a, x)

    @S.inv('cloog_loop_add_disjoint', 0)
    def _(c):
        loop, seen, rest = c.v('loop'), c.v('seen'), c.v('rest')
        now = peekcell(c, c.arg0(1))
        c.separate('cloogloop')
        h1 = c.once('h1', lambda: now)                  # the loop of the first piece keeps the original block and inner loops
        f = c.struct('cloogloop', h1, block=c.pre('blk'), inner=c.pre('inn'), unsimplified=ZERO, stride=ZERO)
        c.fact(z3.And(ISSTATE(f.state), f.domain != 0), 'first piece')
        F = c.pred(DOM, f.domain)
        Sn = c.pred(DOM, seen)
        R = c.pred(DOM, rest)
        c.fact(z3.And(seen != 0, rest != 0, dn(F) <= 1), 'sets')
        if c.case(now == h1):
            c.fact(f.next == 0, 'list is terminated')
            L = EMPTY
        else:
            L = open_tail(c, f.next, now)
        x = c.pre('x')
        c.fact((M(x) == 1) == z3.Or(mem(Sn), mem(R)), 'seen and rest make up the domain')
        c.fact(V(L) + z3.If(mem(F), W(x), ZERO) == z3.If(mem(Sn), W(x), ZERO), 'instances so far')
        c.fact(M(L) + z3.If(mem(F), iv(1), ZERO) == z3.If(mem(Sn), iv(1), ZERO), 'disjoint so far')
        c.fact(z3.And(z3.Implies(NB(x), NB(L)), z3.Implies(INN(x), INN(L)), CV(L)), 'shape so far')

    @S.spec('cloog_loop_disjoint', props=P)
    class _:
        def pre(c):
            c['L'] = c.pred(LOOPS, c.a[0])

        def post(c):
            L = c.pred(LOOPS, c.ret)
            A = c['L']
            same(c, L, A, (V, M, NB, INN), 'disjoint list')
            c.fact(CV(L), 'every piece is convex')
            c.fact((c.ret == 0) == (c.a[0] == 0), 'empty only for empty')

    @S.inv('cloog_loop_disjoint', 0)
    def _(c):
        r = c.pred(LOOPS, c.v('loop'))
        L = open_list(c, c.v('res'), c.v('now'))
        A = c.pre('L')
        c.fact(z3.And(V(L) + V(r) == V(A), M(L) + M(r) == M(A), z3.And(NB(L), NB(r)) == NB(A), z3.And(INN(L), INN(r)) == INN(A), CV(L)), 'instances so far')
        c.fact(z3.And(c.v('res') == 0, c.v('loop') == 0) == (c.arg0(0) == 0), 'not empty')

    # ---------------------------------------------------------------- restriction, projection
    def shell(c, p, dom=True):
        f = c.struct('cloogloop', p)
        for k in FIELDS:
            c.init(f[k], k)
        return f

    @S.spec('cloog_loop_restrict', props=P)
    class _:
        def pre(c):
            f = c['f'] = shell(c, c.a[0])
            c.fact(z3.And(ISSTATE(f.state), f.domain != 0, c.a[1] != 0), 'loop and context')
            c['D'] = c.pred(DOM, f.domain)
            c['C'] = c.pred(DOM, c.a[1])

        def post(c):
            f = c['f']
            c.struct('cloogloop', c.a[0], **f)
            c.pred(DOM, f.domain, outs=(c['D'],))
            c.pred(DOM, c.a[1], outs=(c['C'],))
            m = z3.And(mem(c['D']), mem(c['C']))
            if c.case(c.ret == 0):
                c.fact(z3.Not(m), 'dropped only when empty')
            else:
                g = c.struct('cloogloop', c.ret, state=f.state, otl=ZERO, stride=ZERO, block=f.block, inner=f.inner, next=ZERO, unsimplified=ZERO, usr=ZERO)
                D = c.pred(DOM, g.domain)
                c.fact(z3.And(g.domain != 0, mem(D) == m), 'restricted domain')

    def slot(c, rn, local):
        """pointer to the link to write next: &local or &q->next; returns q (0 for &local)"""
        rn = simp(rn)
        if z3.is_app(rn) and rn.decl().eq(F_NEXT):      # a field of a heap object is never a local variable
            c.assume(rn != c.addr(local))
            return False
        return c.case(rn == c.addr(local))

    def slot_node(c, rn):
        if c.producing:
            q = c.fresh('q')
            c.st.assume(z3.And(q > 0, rn == F_NEXT(q)))
            return q
        rn = simp(rn)
        if z3.is_app(rn) and rn.decl().eq(F_NEXT):
            return rn.arg(0)
        for ch in c.st.heap:
            if ch.kind == 'S' and ch.s == 'cloogloop' and c.entails(F_NEXT(ch.addr) == rn):
                return ch.addr
        c.missing('link to the end of the list under construction')

    def slot_list(c, rn, local, terminated=True, head=None, link=False):
        """the list built so far, whose last link is *rn"""
        h = c.v(local) if head is None else head
        if slot(c, rn, local):
            if terminated:
                c.fact(h == 0, 'list under construction is empty')
            return (EMPTY, h) if link else EMPTY
        q = slot_node(c, rn)
        a = c.pred(LSEG, h, q)
        f, x = LOOPS.nodepart(c, q)
        if terminated:
            c.fact(f.next == 0, 'list under construction is terminated')
        c.assume(h != 0)
        return (app(a, x), f.next) if link else app(a, x)
    S.slot_list = slot_list

    @S.spec('cloog_loop_restrict_all', props=P)
    class _:
        def pre(c):
            c['L'] = c.pred(LOOPS, c.a[0])
            c.fact(c.a[1] != 0, 'context')
            c['C'] = c.pred(DOM, c.a[1])

        def post(c):
            L = c.pred(LOOPS, c.ret)
            c.pred(DOM, c.a[1], outs=(c['C'],))
            A, m = c['L'], mem(c['C'])
            c.fact(V(L) == z3.If(m, V(A), ZERO), 'instances inside the context')
            c.fact(M(L) == z3.If(m, M(A), ZERO), 'domains inside the context')
            c.fact(z3.And(z3.Implies(NB(A), NB(L)), z3.Implies(INN(A), INN(L)), LEN(L) <= LEN(A)), 'shape')

    @S.inv('cloog_loop_restrict_all', 0)
    def _(c):
        r = c.pred(LOOPS, c.v('loop'))
        L = slot_list(c, c.v('res_next'), 'res')
        A, m = c.pre('L'), mem(c.pre('C'))
        c.fact(z3.And(V(L) + z3.If(m, V(r), ZERO) == z3.If(m, V(A), ZERO), M(L) + z3.If(m, M(r), ZERO) == z3.If(m, M(A), ZERO)), 'instances so far')
        c.fact(z3.And(z3.Implies(NB(A), z3.And(NB(L), NB(r))), z3.Implies(INN(A), z3.And(INN(L), INN(r))), LEN(L) + LEN(r) <= LEN(A)), 'shape so far')

    @S.spec('cloog_loop_restrict_inner', props=P)
    class _:
        def pre(c):
            c['L'] = c.pred(LOOPS, c.a[0])
            c.fact(NB(c['L']), 'the loops have no blocks')

        def post(c):
            L = c.pred(LOOPS, c.ret)
            A = c['L']
            c.fact(V(L) == V(A), 'instances')
            c.fact(z3.And(M(L) <= M(A), LEN(L) <= LEN(A)), 'no new loops')
            c.fact(z3.And(NST(L), INN(L), NB(L)), 'inner loops are inside their loop')
            c.fact(z3.Implies(CV(A), CV(L)), 'convex')

    @S.inv('cloog_loop_restrict_inner', 0)
    def _(c):
        r = c.pred(LOOPS, c.v('loop'))
        L = slot_list(c, c.v('res_next'), 'res', terminated=False)
        A = c.pre('L')
        c.fact(z3.And(V(L) + V(r) == V(A), M(L) + M(r) <= M(A), LEN(L) + LEN(r) <= LEN(A)), 'instances so far')
        c.fact(z3.And(NST(L), INN(L), NB(L), NB(r), z3.Implies(CV(A), z3.And(CV(L), CV(r)))), 'shape so far')

    @S.spec('cloog_loop_project', props=P)
    class _:
        def pre(c):
            f = c['f'] = shell(c, c.a[0])
            c.fact(z3.And(ISSTATE(f.state), f.domain != 0, c.a[1] >= 0), 'loop')
            c['D'] = c.pred(DOM, f.domain)
            c['s'] = opt(c, SREF, f.stride)

        def post(c):
            f = c['f']
            c.struct('cloogloop', c.a[0], **f)
            g = c.struct('cloogloop', c.ret, state=f.state, otl=ZERO, stride=ZERO, block=ZERO, next=ZERO, unsimplified=ZERO, usr=ZERO)
            c.struct('cloogloop', g.inner, state=f.state, domain=f.domain, otl=f.otl, stride=f.stride, block=f.block, inner=f.inner, next=ZERO, unsimplified=ZERO, usr=ZERO)
            c.pred(DOM, f.domain, outs=(c['D'],))
            D = c.pred(DOM, g.domain)
            c.fact(z3.And(g.domain != 0, z3.Implies(mem(c['D']), mem(D)), ddim(D) == c.a[1]), 'projected domain')
            if c['s'] is not None:
                c.pred(SREF, f.stride, outs=(c['s'],))
                c.pred(SREF, f.stride, outs=(c['s'],))

    @S.spec('cloog_loop_project_all', props=P)
    class _:
        def pre(c):
            c['L'] = c.pred(LOOPS, c.a[0])
            c.fact(c.a[1] >= 0, 'level')

        def post(c):
            L = c.pred(LOOPS, c.ret)
            A = c['L']
            c.fact(V(L) == V(A), 'instances')
            c.fact(z3.And(NB(L), INN(L), NST(L), LEN(L) == LEN(A), (c.ret == 0) == (c.a[0] == 0)), 'one block-free loop around each')

    @S.inv('cloog_loop_project_all', 0)
    def _(c):
        r = c.pred(LOOPS, c.v('loop'))
        L = slot_list(c, c.v('res_next'), 'res')
        A = c.pre('L')
        c.fact(z3.And(V(L) + V(r) == V(A), LEN(L) + LEN(r) == LEN(A), NB(L), INN(L), NST(L), z3.And(c.v('loop') == 0, c.v('res') == 0) == (c.arg0(0) == 0)), 'instances so far')

    # ---------------------------------------------------------------- combining
    @S.spec('cloog_loop_combine', props=P)
    class _:
        def pre(c):
            c['L'] = c.pred(LOOPS, c.a[0])
            c.fact(NB(c['L']), 'the loops have no blocks')

        def post(c):
            L = c.pred(LOOPS, c.ret)
            A = c['L']
            c.fact(V(L) == V(A), 'instances')
            c.fact(z3.And(NB(L), z3.Implies(INN(A), INN(L)), z3.Implies(NST(A), NST(L)), z3.Implies(CV(A), CV(L)), LEN(L) <= LEN(A), M(L) <= M(A), (M(L) == 0) == (M(A) == 0)), 'shape')
            c.fact((c.ret == 0) == (c.a[0] == 0), 'empty only for empty')

    def shapes(A, *Ls):
        return z3.And([z3.And(NB(L), z3.Implies(INN(A), INN(L)), z3.Implies(NST(A), NST(L)), z3.Implies(CV(A), CV(L))) for L in Ls])

    @S.inv('cloog_loop_combine', 0)
    def _(c):
        fst = c.v('first')
        a = c.pred(LSEG, c.arg0(0), fst)
        r = c.pred(LOOPS, fst)
        A = c.pre('L')
        c.fact(z3.And(V(a) + V(r) == V(A), M(a) + M(r) <= M(A), (M(a) + M(r) == 0) == (M(A) == 0), LEN(a) + LEN(r) <= LEN(A), shapes(A, a, r)), 'same instances')

    @S.inv('cloog_loop_combine', 1)
    def _(c):
        fst = c.v('first')
        a = c.pred(LSEG, c.arg0(0), fst)
        f, x = LOOPS.nodepart(c, fst)
        r = c.pred(LOOPS, f.next)
        A = c.pre('L')
        c.fact(z3.And(V(a) + V(x) + V(r) == V(A), M(a) + M(x) + M(r) <= M(A), (M(a) + M(x) + M(r) == 0) == (M(A) == 0), LEN(a) + LEN(x) + LEN(r) <= LEN(A), shapes(A, a, x, r)), 'same instances')

    @S.spec('cloog_loop_remove_empty_domain_loops', props=P)
    class _:
        def pre(c):
            c['L'] = c.pred(LOOPS, c.a[0])

        def post(c):
            L = c.pred(LOOPS, c.ret)
            A = c['L']
            c.fact(z3.And(V(L) == V(A), M(L) == M(A)), 'instances')
            c.fact(z3.And(*[z3.Implies(k(A), k(L)) for k in (NB, INN, NST, CV)]), 'shape')

    @S.inv('cloog_loop_remove_empty_domain_loops', 0)
    def _(c):
        r = c.pred(LOOPS, c.v('l'))
        L = slot_list(c, c.v('res_next'), 'res', terminated=False)
        A = c.pre('L')
        c.fact(z3.And(V(L) + V(r) == V(A), M(L) + M(r) == M(A)), 'instances so far')
        c.fact(z3.And(*[z3.Implies(k(A), z3.And(k(L), k(r))) for k in (NB, INN, NST, CV)]), 'shape so far')

    @S.spec('cloog_loop_propagate_lower_bound', props=P)
    class _:
        def pre(c):
            c['L'] = c.pred(LOOPS, c.a[0])
            c.fact(z3.And(INN(c['L']), NB(c['L'])), 'loops with inner loops and without blocks')

        def post(c):
            L = c.pred(LOOPS, c.ret)
            A = c['L']
            c.fact(V(L) == V(A), 'instances')
            c.fact(z3.And(NB(L), INN(L), LEN(L) == LEN(A), M(L) <= M(A), z3.Implies(NST(A), NST(L))), 'shape')
            c.fact((c.ret == 0) == (c.a[0] == 0), 'empty only for empty')

    @S.inv('cloog_loop_propagate_lower_bound', 0)
    def _(c):
        l = c.v('l')
        a = c.pred(LSEG, c.arg0(0), l)
        r = c.pred(LOOPS, l)
        A = c.pre('L')
        c.fact(z3.And(V(a) + V(r) == V(A), LEN(a) + LEN(r) == LEN(A), M(a) + M(r) <= M(A), NB(a), NB(r), INN(a), INN(r), z3.Implies(NST(A), z3.And(NST(a), NST(r)))), 'same instances')

    @S.spec('cloog_loop_stop', props=P)
    class _:
        def pre(c):
            c['L'] = c.pred(LOOPS, c.a[0])
            if not c.case(c.a[0] == 0):
                c.fact(c.a[1] != 0, 'context')
            c['C'] = c.pred(S.ODOM, c.a[1])

        def post(c):
            L = c.pred(LOOPS, c.ret)
            A = c['L']
            c.pred(S.ODOM, c.a[1], outs=(c['C'],))
            c.fact(V(L) == z3.If(mem(c['C']), W(A), ZERO), 'all inner instances, everywhere in the context')
            c.fact(z3.And(LEN(L) == LEN(A), NB(L) == NB(A), INN(L) == INN(A), (c.ret == 0) == (c.a[0] == 0)), 'shape')

    # ---------------------------------------------------------------- separation
    P100, S100 = POL[(1, 0, 0)]

    @S.spec('cloog_loop_separate', props=P)
    class _:
        def pre(c):
            c['L'] = c.pred(LOOPS, c.a[0])
            c.fact(NB(c['L']), 'the loops have no blocks')

        def post(c):
            L = c.pred(LOOPS, c.ret)
            A = c['L']
            c.fact(V(L) == V(A), 'instances')
            c.fact(M(L) <= 1, 'disjoint')
            c.fact((M(L) == 0) == (M(A) == 0), 'same union of domains')
            c.fact(z3.And(NB(L), CV(L), z3.Implies(INN(A), INN(L))), 'shape')

    @S.inv('cloog_loop_separate', 0)
    def _(c):
        loop, old, res = c.v('loop'), c.v('old'), c.v('res')
        c.pred(S100, old, loop)
        f, _x = P100.nodepart(c, loop)
        r = c.pred(LOOPS, f.next)
        R = c.pred(LOOPS, res)
        A = c.pre('L')
        c.fact(z3.And(V(R) + V(r) == V(A), NB(R), NB(r), z3.Implies(INN(A), z3.And(INN(R), INN(r)))), 'instances so far')
        c.fact(z3.And(M(R) <= 1, (M(R) + M(r) == 0) == (M(A) == 0)), 'disjoint so far')
        if c.case(f.next == 0):
            c.fact(CV(R), 'convex')
        else:
            U = c.pred(DOM, c.v('UQ'))
            c.fact(z3.And(c.v('UQ') != 0, (M(R) == 1) == mem(U)), 'the union of the domains so far')

    @S.inv('cloog_loop_separate', 1)
    def _(c):
        Q, res, loop = c.v('Q'), c.v('res'), c.v('loop')
        r = c.pred(LOOPS, Q)
        R0 = c.once('R0', lambda: r)
        c.pred(S100, res, Q)
        T = open_list(c, c.v('temp'), c.v('now'))
        f, D0, L0 = keepnode(c, 'merged', loop)         # the loop being merged is not modified
        m = mem(D0)
        c.fact(z3.And(M(T) + M(r) == M(R0), M(T) <= 1), 'disjoint so far')
        c.fact(V(T) + V(r) == V(R0) + z3.If(z3.And(m, M(T) == 1), V(L0), ZERO), 'instances so far')
        c.fact(z3.And(NB(T), NB(r), CV(T), z3.Implies(z3.And(INN(R0), f.inner != 0), z3.And(INN(T), INN(r)))), 'shape so far')

    # ---------------------------------------------------------------- merging without separation
    P000, S000 = POL[(0, 0, 0)]

    @S.spec('bounding_domain', props=P)
    class _:
        def pre(c):
            c.fact(z3.And(c.a[0] != 0, ISOPT(c.a[1])), 'set and options')
            c['D'] = c.pred(DOM, c.a[0])

        def post(c):
            c.pred(DOM, c.a[0], outs=(c['D'],))
            D = c.pred(DOM, c.ret)
            c.fact(z3.And(c.ret != 0, z3.Implies(mem(c['D']), mem(D)), dn(D) <= 1), 'convex set containing the set')

    @S.spec('cloog_domain_bound_splitter', assumed='cloog_domain_bound_splitter returns a fresh set and keeps its argument; that its pieces partition the space is assumed, so instance preservation on the splitting path of cloog_loop_merge is not proved')
    class _:
        def pre(c):
            c['D'] = c.pred(DOM, c.a[0])

        def post(c):
            c.pred(DOM, c.a[0], outs=(c['D'],))
            c.pred(DOM, c.ret)
            c.fact(c.ret != 0, 'a set')
            c.st.g['split'] = True

    def onemerge(c, L, A):
        c.fact(V(L) == V(A), 'instances')
        c.fact(z3.And(NB(L), CV(L)), 'shape')

    @S.spec('cloog_loop_merge', props=P)
    class _:
        def pre(c):
            c['L'] = c.pred(LOOPS, c.a[0])
            c.fact(z3.And(NB(c['L']), NST(c['L']), ISOPT(c.a[2])), 'block-free loops whose inner loops are inside; options')

        def post(c):
            L = c.pred(LOOPS, c.ret)
            A = c['L']
            if not c.st.g.get('split'):
                c.fact(V(L) == V(A), 'instances')
            c.fact(z3.And(NB(L), CV(L)), 'shape')

    @S.inv('cloog_loop_merge', 0)
    def _(c):
        loop = c.v('loop')
        c.pred(S000, c.v('old'), loop)
        r = c.pred(LOOPS, loop)
        T = c.pred(DOM, c.v('temp'))
        Ni = c.pred(LOOPS, c.v('new_inner'))
        A = c.pre('L')
        c.fact(z3.And(V(Ni) + W(r) == W(A), NB(r), NST(r), c.v('temp') != 0), 'inner loops so far')
        c.fact(z3.Implies(M(A) > M(r), mem(T)), 'union of the domains so far')

    @S.inv('cloog_loop_merge', 1)
    def _(c):
        R = c.pred(LOOPS, c.v('res'))
        c.fact(z3.And(NB(R), CV(R)), 'shape so far')
        c.pred(DOM, c.v('splitter'))
        c.fact(c.v('splitter') != 0, 'splitter')

    @S.spec('cloog_loop_is_constant', props=P)
    class _:
        def pre(c):
            c.fact(c.a[0] != 0, 'a non-empty list')
            c['L'] = c.pred(LOOPS, c.a[0])
            c.fact(c.a[1] >= 1, 'level')

        def post(c):
            c.pred(LOOPS, c.a[0], outs=(c['L'],))

    @S.inv('cloog_loop_is_constant', 0)
    def _(c):
        loop = c.v('loop')
        a = c.pred(LSEG, c.arg0(0), loop)
        r = c.pred(LOOPS, loop)
        c.fact(app(a, r) == c.pre('L'), 'unmodified loops')

    @S.spec('cloog_loop_constant', props=P)
    class _:
        def pre(c):
            c['L'] = c.pred(LOOPS, c.a[0])
            c.fact(z3.And(NB(c['L']), NST(c['L'])), 'block-free loops whose inner loops are inside')

        def post(c):
            L = c.pred(LOOPS, c.ret)
            onemerge(c, L, c['L'])
            c.fact((c.ret == 0) == (c.a[0] == 0), 'empty only for empty')

    @S.inv('cloog_loop_constant', 0)
    def _(c):
        tmp = c.v('tmp')
        c.pred(S000, c.v('loop'), tmp)
        r = c.pred(LOOPS, tmp)
        T = c.pred(DOM, c.v('domain'))
        Ni = c.pred(LOOPS, c.v('inner'))
        A = c.pre('L')
        c.fact(z3.And(V(Ni) + W(r) == W(A), NB(r), NST(r), c.v('domain') != 0), 'inner loops so far')
        c.fact(z3.Implies(M(A) > M(r), mem(T)), 'union of the domains so far')

    # ---------------------------------------------------------------- nesting
    @S.spec('cloog_loop_nest', props=P)
    class _:
        def pre(c):
            c['L'] = c.pred(LOOPS, c.a[0])
            c.fact(z3.And(c.a[1] != 0, c.a[2] >= 1), 'context and level')
            c['C'] = c.pred(DOM, c.a[1])

        def post(c):
            L = c.pred(LOOPS, c.ret)
            c.pred(DOM, c.a[1], outs=(c['C'],))
            c.fact(V(L) == z3.If(mem(c['C']), V(c['L']), ZERO), 'instances inside the context')
            c.trust(z3.Implies(c.a[0] != 0, c.ret != 0), 'inner loops meet the domain of their loop')

    @S.inv('cloog_loop_nest', 0)
    def _(c):
        r = c.pred(LOOPS, c.v('loop'))
        R = open_list(c, c.v('res'), c.v('now'))
        m = mem(c.pre('C'))
        c.fact(V(R) + z3.If(m, V(r), ZERO) == z3.If(m, V(c.pre('L')), ZERO), 'instances so far')

    def cnode(c, f):
        c.fact(z3.And(ISSTATE(f.state), f.domain != 0, f.block == 0, f.next == 0), 'enclosing loop')
        D = c.pred(DOM, f.domain)
        c.pred(ODOM, f.unsimplified)
        c.pred(OSREF, f.stride)
        return mem(D)
    CHAIN = make_list('chain of enclosing loops', 'cloogloop', ListTheory(B, lambda c: TRUE, lambda c, x, r: z3.And(x, r), lambda c, a_, b_: z3.And(a_, b_)),
                      cnode, next_='inner')[1]
    old_look = LOOPS.lookup

    def look(c, ins):
        r = old_look(c, ins)
        if r is not None:
            return r
        for ch in c.st.heap:
            if ch.kind == 'P' and ch.p is CHAIN and c.eng.must_eq(c.st, ch.ins[0], ins[0]):
                # by induction on the chain: a chain around a loop list is a loop list
                c.st.heap = [x for x in c.st.heap if x is not ch]
                x = c.pred(LOOPS, ch.ins[1])
                L = c.fresh('nested', LoopL)
                lfacts(c.st, L)
                e = ch.ins[0] == ch.ins[1]
                c.st.assume(z3.And(z3.Implies(e, L == x), V(L) == z3.If(ch.outs[0], V(x), ZERO), z3.Implies(NB(x), NB(L)), z3.Implies(INN(x), INN(L))))
                return (L,)
        return None
    LOOPS.lookup = look

    @S.inv('cloog_loop_nest', 1)
    def _(c):
        t = c.v('temp')
        n0 = c.once('n0', lambda: t)
        b = c.pred(CHAIN, t, n0)
        keepnode(c, 'innermost', n0)
        D0 = c.g['once_innermostv'][0]
        c.fact(z3.And(t != 0, z3.Implies(mem(D0), b)), 'the enclosing loops contain the points of the loop')

    # ---------------------------------------------------------------- simplification
    @S.spec('loop_simplify', props=P)
    class _:
        def pre(c):
            f = c['f'] = shell(c, c.a[0])
            c.fact(z3.And(ISSTATE(f.state), f.domain != 0, c.a[1] != 0, c.a[3] >= 0, ISOPT(c.a[4])), 'loop, context and options')
            c['D'] = c.pred(DOM, f.domain)
            c['s'] = c.pred(OSREF, f.stride)
            c['b'] = c.pred(OBREF, f.block)
            c.assume(z3.And(CNT(c['b']) >= 0, CNT(z3.Empty(SEQ)) == 0))
            c['Li'] = c.pred(LOOPS, f.inner)
            c['C'] = c.pred(DOM, c.a[1])

        def post(c):
            f = c['f']
            c.struct('cloogloop', c.a[0], **f)
            c.pred(DOM, f.domain, outs=(c['D'],))
            c.pred(OSREF, f.stride, outs=(c['s'],))
            c.pred(OBREF, f.block, outs=(c['b'],))
            c.pred(DOM, c.a[1], outs=(c['C'],))
            v = z3.If(mem(c['D']), CNT(c['b']) + V(c['Li']), ZERO)
            if c.case(c.ret == 0):
                c.fact(z3.Implies(mem(c['C']), v == 0), 'dropped only when it has no instance in the context')
            else:
                g, x = LOOPS.nodepart(c, c.ret)
                c.fact(z3.And(g.next == 0, g.stride == f.stride, g.otl == f.otl), 'a single loop')
                c.fact(z3.Implies(mem(c['C']), V(x) == v), 'same instances inside the context')

    @S.spec('cloog_loop_simplify', props=P)
    class _:
        def pre(c):
            c['L'] = c.pred(LOOPS, c.a[0])
            c.fact(z3.And(c.a[1] != 0, c.a[3] >= 0, ISOPT(c.a[4])), 'context and options')
            c['C'] = c.pred(DOM, c.a[1])

        def post(c):
            L = c.pred(LOOPS, c.ret)
            c.pred(DOM, c.a[1], outs=(c['C'],))
            c.fact(z3.Implies(mem(c['C']), V(L) == V(c['L'])), 'same instances inside the context')

    @S.inv('cloog_loop_simplify', 0)
    def _(c):
        now = c.v('now')
        a = c.pred(LSEG, c.v('loop'), now)
        r = c.pred(LOOPS, now)
        A = c.pre('L')
        c.fact(V(a) + V(r) == V(A), 'same instances')

    P111, S111 = POL[(1, 1, 1)]

    @S.inv('cloog_loop_simplify', 1)
    def _(c):
        now = c.v('now')
        c.pred(S111, c.v('loop'), now)
        r = c.pred(LOOPS, now)
        R = slot_list(c, c.v('next'), 'res')
        c.fact(z3.Implies(mem(c.pre('C')), V(R) + V(r) == V(c.pre('L'))), 'instances so far')

    # ---------------------------------------------------------------- unrolling
    @S.spec('loop_unroll', props=P)
    class _:
        def pre(c):
            f, x = LOOPS.nodepart(c, c.a[0])
            c['x'] = x
            c.fact(z3.And(f.next == 0, f.block == 0, c.a[1] >= 1), 'a single loop without a block')

        def post(c):
            L = c.pred(LOOPS, c.ret)
            x = c['x']
            c.fact(V(L) == V(x), 'instances')
            c.fact(z3.And(NB(L), z3.Implies(NST(x), NST(L)), z3.Implies(INN(x), INN(L))), 'shape')
            c.trust(c.ret != 0, 'a loop that can be unrolled has an iteration')

    @S.inv('loop_unroll', 0)
    def _(c):
        i, n = c.v('i'), c.v('n')
        c.fact(z3.And(i >= 0, z3.Or(i <= n, n < 0)), 'iterations so far')
        x = c.pre('x')
        K = peekpred(c, S.CONSTR, c.v('lb'))
        R = slot_list(c, c.v('next_res'), 'res')
        c.fact(V(R) == z3.If(off(c.st, K, c.arg0(1) - 1) < i, V(x), ZERO), 'instances so far')
        c.fact(z3.And(NB(R), NST(R), INN(R)), 'shape so far')

    @S.spec('cloog_loop_unroll', props=P)
    class _:
        def pre(c):
            c['L'] = c.pred(LOOPS, c.a[0])
            c.fact(z3.And(NB(c['L']), c.a[1] >= 1), 'loops without blocks')

        def post(c):
            L = c.pred(LOOPS, c.ret)
            A = c['L']
            c.fact(V(L) == V(A), 'instances')
            c.fact(z3.And(NB(L), z3.Implies(NST(A), NST(L)), z3.Implies(INN(A), INN(L))), 'shape')
            c.fact(z3.Implies(c.a[0] != 0, c.ret != 0), 'not empty')

    def append_all(fn, extra):
        """for (now = loop; ...) { *next_res = f(now); while (*next_res) next_res = &(*next_res)->next; }"""
        @S.inv(fn, 0)
        def _(c):
            r = c.pred(LOOPS, c.v('now'))
            R = slot_list(c, c.v('next_res'), 'res')
            A = c.pre('L')
            c.fact(z3.Implies(extra(c), V(R) + V(r) == V(A)), 'instances so far')
            c.fact(z3.And(NB(R), NB(r), z3.Implies(NST(A), z3.And(NST(R), NST(r))), z3.Implies(INN(A), z3.And(INN(R), INN(r)))), 'shape so far')
            c.fact(z3.Implies(c.arg0(0) != 0, z3.Or(c.v('res') != 0, c.v('now') != 0)), 'not empty')

        append_while(fn)

    def append_while(fn):
        @S.inv(fn, 1)
        def _(c):
            R, h = slot_list(c, c.v('next_res'), 'res', terminated=False, link=True)
            T_ = c.pred(LOOPS, h)
            T0 = c.once('T0', lambda: app(R, T_))
            c.fact(app(R, T_) == T0, 'the list built so far')
            c.fact(c.v('res') != 0, 'not empty')
    append_all('cloog_loop_unroll', lambda c: TRUE)

    # ---------------------------------------------------------------- recursion
    def optf(c, o, k):
        return z3.Function('cloogoptions.' + k, I, I)(o)

    def nostop(c, o):
        return optf(c, o, 'stop') < 0

    def levels(c, lev, sc, sd, nb, opt):
        c.fact(z3.And(c.a[lev] >= 0, c.a[sc] >= 0, c.a[nb] >= 0, ISOPT(c.a[opt])), 'level, scalar level and options')
        c['sd'] = c.arr(INT, c.a[sd], c.a[nb], region=None)

    def levels_post(c, sd, nb):
        c.arr(INT, c.a[sd], c.a[nb], arr=c['sd'], region=None)

    @S.spec('cloog_loop_sort', assumed='cloog_loop_sort returns a permutation of its list (array code; exercised by harness pipeline)')
    class _:
        def pre(c):
            c['L'] = c.pred(LOOPS, c.a[0])
            c.fact(c.a[1] >= 0, 'level')

        def post(c):
            c.pred(LOOPS, c.ret, outs=(c['L'],))
            c.fact((c.ret == 0) == (c.a[0] == 0), 'empty only for empty')

    S.dspec('cloog_domain_is_otl', 'k.', lambda c, A: [('one value per outer iteration', z3.Implies(z3.And(c.a[1] >= 1, c.a[1] <= ddim(A)), c.ret == otl(A, simp(c.a[1] - 1))))], ret=None)

    @S.spec('cloog_loop_otl', props=P)
    class _:
        def pre(c):
            f = c['f'] = shell(c, c.a[0])
            c.fact(z3.And(f.domain != 0, c.a[1] >= 1), 'loop')
            c['D'] = c.pred(DOM, f.domain)

        def post(c):
            f = dict(c['f'])
            o = f.pop('otl')
            g = c.struct('cloogloop', c.a[0], **f)
            c.pred(DOM, c['f'].domain, outs=(c['D'],))
            c.fact(z3.Implies(z3.And(g.otl != o, c.a[1] <= ddim(c['D'])), z3.And(g.otl == 1, otl(c['D'], simp(c.a[1] - 1)) != 0)), 'marked as executed once only when it is')

    @S.spec('cloog_loop_more', props=P)
    class _:
        def pre(c):
            f = c['f'] = shell(c, c.a[0])
            c.fact(f.domain != 0, 'loop')
            c['D'] = c.pred(DOM, f.domain)

        def post(c):
            c.struct('cloogloop', c.a[0], **c['f'])
            c.pred(DOM, c['f'].domain, outs=(c['D'],))
            c.fact((c.ret != 0) == z3.Or(c.a[1] + c.a[2] <= c.a[3], ddim(c['D']) >= c.a[1]), 'dimensions remain')

    def gen_post(c, L, A, o, nonempty=True):
        c.fact(z3.Implies(nostop(c, o), V(L) == V(A)), 'instances')
        if nonempty:
            c.trust(c.ret != 0, 'code is generated for every non-empty list')

    def gen_spec(name, pre_shape, shape, **kw):
        @S.spec(name, **kw)
        class _:
            def pre(c):
                c.fact(c.a[0] != 0, 'a non-empty list')
                c['L'] = c.pred(LOOPS, c.a[0])
                if pre_shape:
                    A = c['L']
                    c.fact(z3.And(NB(A), INN(A), NST(A)), 'projected loops')
                levels(c, 1, 2, 3, 4, 5)

            def post(c):
                L = c.pred(LOOPS, c.ret)
                gen_post(c, L, c['L'], c.a[5])
                if shape:
                    c.fact(NB(L), 'no blocks at this level')
                levels_post(c, 3, 4)
    gen_spec('cloog_loop_generate_restricted', False, False, props=P)
    gen_spec('cloog_loop_generate_scalar', False, False, props=P)
    gsc = S.contracts['cloog_loop_generate_scalar']
    gsc_pre = gsc.pre

    def scalar_pre(c):
        gsc_pre(c)
        i = c.a[1] + c.a[2]
        c.fact(z3.And(c.a[1] >= 1, i <= c.a[4]), 'the level is a scattering dimension')
        c.trust(z3.Select(c['sd'], simp(i - 1)) >= 0, 'the numbers of scalar dimensions are not negative')
    gsc.pre = scalar_pre

    @S.spec('cloog_loop_constant_cmp', assumed='cloog_loop_constant_cmp compares the scalar vectors of two loops and only reads (its answer only orders and groups loops)')
    class _:
        def pre(c):
            c.fact(z3.And(c.a[0] != 0, c.a[1] != 0), 'two loops')

        def post(c):
            pass

    @S.spec('cloog_loop_scalar_sort', props=P)
    class _:
        def pre(c):
            c.fact(c.a[0] != 0, 'a non-empty list')
            c['L'] = c.pred(LOOPS, c.a[0])

        def post(c):
            L = c.pred(LOOPS, c.ret)
            same(c, L, c['L'], PERM, 'same loops in another order')
            c.fact(c.ret != 0, 'not empty')
    PERM = (V, M, LEN, NB, INN, NST, CV)

    @S.inv('cloog_loop_scalar_sort', 0)
    def _(c):
        R = c.pred(LOOPS, c.v('loop'))
        same(c, R, c.pre('L'), PERM, 'same loops in another order')
        c.fact(c.v('loop') != 0, 'not empty')

    @S.inv('cloog_loop_scalar_sort', 1)
    def _(c):
        R, h = slot_list(c, c.v('current'), 'loop', terminated=False, link=True)
        T_ = c.pred(LOOPS, h)
        A = c.pre('L')
        c.fact(z3.And(V(R) + V(T_) == V(A), M(R) + M(T_) == M(A), LEN(R) + LEN(T_) == LEN(A), h != 0), 'same loops in another order')
        c.fact(z3.And([z3.And(k(R), k(T_)) == k(A) for k in (NB, INN, NST, CV)]), 'same shape')

    @S.inv('cloog_loop_generate_scalar', 0)
    def _(c):
        r = c.pred(LOOPS, c.v('temp'))
        R = open_list(c, c.v('res'), c.v('now'))
        c.fact(z3.Implies(nostop(c, c.arg0(5)), V(R) + V(r) == V(c.pre('L'))), 'instances so far')

    @S.inv('cloog_loop_generate_scalar', 1)
    def _(c):
        t, end = c.v('temp'), c.v('end')
        f = shell(c, t)
        D = c.pred(DOM, f.domain)
        c.pred(ODOM, f.unsimplified)
        c.pred(OSREF, f.stride)
        s_ = c.pred(OBREF, f.block)
        Li = c.pred(LOOPS, f.inner)
        c.fact(z3.And(ISSTATE(f.state), f.domain != 0), 'loop has a state and a domain')
        c.assume(z3.And(CNT(s_) >= 0, CNT(z3.Empty(SEQ)) == 0))
        x0 = elem(D, CNT(s_), f.block, Li, f.inner)
        c.separate('cloogloop')
        if c.case(t == end):
            L = app(x0, c.pred(LOOPS, f.next))
        else:
            a = c.pred(LSEG, f.next, end)
            g, x = LOOPS.nodepart(c, end)
            L = app(x0, app(a, app(x, c.pred(LOOPS, g.next))))
            c.fact(z3.Or(c.arg0(1) + c.v('scalar_new') <= c.arg0(4), ddim(D) >= c.arg0(1)), 'only loops with further dimensions are grouped')
        T0 = c.once('T0', lambda: L)
        c.fact(L == T0, 'same loops')

    gen_spec('cloog_loop_generate_components', True, True, assumed='cloog_loop_generate_components keeps the instances (array code with Tarjan\'s algorithm; exercised by harness pipeline)')
    gen_spec('cloog_loop_generate_general', True, True, props=P)

    @S.spec('level_is_constant', props=P6)
    class _:
        def pre(c):
            c.fact(z3.And(c.a[0] >= 0, c.a[1] >= 0), 'levels')
            c['sd'] = c.arr(INT, c.a[2], c.a[3], region=None)

        def post(c):
            c.arr(INT, c.a[2], c.a[3], arr=c['sd'], region=None)
            i = c.a[0] + c.a[1]
            c.fact((c.ret != 0) == z3.And(c.a[0] != 0, i <= c.a[3], z3.Select(c['sd'], i - 1) != 0), 'scalar level')

    @S.spec('cloog_loop_generate_restricted_or_stop', props=P)
    class _:
        def pre(c):
            c.fact(z3.And(c.a[0] != 0, c.a[1] != 0), 'a non-empty list, context')
            c['L'] = c.pred(LOOPS, c.a[0])
            c['C'] = c.pred(DOM, c.a[1])
            levels(c, 2, 3, 4, 5, 6)

        def post(c):
            L = c.pred(LOOPS, c.ret)
            c.pred(DOM, c.a[1], outs=(c['C'],))
            gen_post(c, L, c['L'], c.a[6])
            levels_post(c, 4, 5)

    @S.spec('cloog_loop_generate', props=P)
    class _:
        def pre(c):
            c.fact(c.a[1] != 0, 'context')
            c['L'] = c.pred(LOOPS, c.a[0])
            c['C'] = c.pred(DOM, c.a[1])
            levels(c, 2, 3, 4, 5, 6)

        def post(c):
            L = c.pred(LOOPS, c.ret)
            c.pred(DOM, c.a[1], outs=(c['C'],))
            c.fact(z3.Implies(nostop(c, c.a[6]), V(L) == z3.If(mem(c['C']), V(c['L']), ZERO)), 'instances inside the context')
            levels_post(c, 4, 5)

    @S.spec('loop_recurse', props=P)
    class _:
        def pre(c):
            f, x = LOOPS.nodepart(c, c.a[0])
            c['x'] = x
            c.fact(z3.And(f.next == 0, f.block == 0, f.inner != 0, NST(x)), 'a single loop around its inner loops')
            levels(c, 1, 2, 3, 4, 6)

        def post(c):
            L = c.pred(LOOPS, c.ret)
            c.fact(z3.Implies(nostop(c, c.a[6]), V(L) == V(c['x'])), 'instances')
            c.fact(z3.And(NB(L), INN(L), c.ret != 0), 'shape')
            levels_post(c, 3, 4)

    @S.spec('cloog_loop_recurse', props=P)
    class _:
        def pre(c):
            c['L'] = c.pred(LOOPS, c.a[0])
            A = c['L']
            c.fact(z3.And(NB(A), INN(A), NST(A)), 'projected loops')
            levels(c, 1, 2, 3, 4, 6)

        def post(c):
            L = c.pred(LOOPS, c.ret)
            c.fact(z3.Implies(nostop(c, c.a[6]), V(L) == V(c['L'])), 'instances')
            c.fact(z3.And(NB(L), INN(L), z3.Implies(c.a[0] != 0, c.ret != 0)), 'shape')
            levels_post(c, 3, 4)

    @S.inv('cloog_loop_recurse', 0)
    def _(c):
        r = c.pred(LOOPS, c.v('now'))
        R = slot_list(c, c.v('next_res'), 'res')
        A = c.pre('L')
        c.fact(z3.Implies(nostop(c, c.arg0(6)), V(R) + V(r) == V(A)), 'instances so far')
        c.fact(z3.And(NB(R), NB(r), INN(R), INN(r), NST(r)), 'shape so far')
        c.fact(z3.Implies(c.arg0(0) != 0, z3.Or(c.v('res') != 0, c.v('now') != 0)), 'not empty')
    append_while('cloog_loop_recurse')

    @S.inv('loop_recurse', 0)
    def _(c):
        inner = c.v('inner')
        r = c.pred(LOOPS, inner)
        into = c.v('into')
        c.separate('cloogloop')
        if c.case(into == 0):
            R = EMPTY
        else:
            a = c.pred(LSEG, into, c.v('now'))
            f, x = LOOPS.nodepart(c, c.v('now'))
            c.fact(z3.Or(f.next == 0, f.next == inner), 'the last link is NULL or the rest')
            R = app(a, x)
        A = c.once('A', lambda: r)
        c.fact(z3.Implies(nostop(c, c.arg0(6)), V(R) + V(r) == V(A)), 'instances so far')
        c.fact(z3.Or(into != 0, inner != 0), 'not empty')

    @S.inv('loop_recurse', 1)
    def _(c):
        inner, end = c.v('inner'), c.v('end')
        a = c.pred(LSEG, inner, end)
        f, x = LOOPS.nodepart(c, end)
        r = c.pred(LOOPS, f.next)
        A = c.once('A', lambda: app(a, app(x, r)))
        c.fact(app(a, app(x, r)) == A, 'same loops')

    # ---------------------------------------------------------------- one level of the algorithm
    @S.spec('cloog_loop_decompose_inner', assumed='cloog_loop_decompose_inner splits the loops into copies holding the components of their inner loops (array code with Tarjan\'s algorithm; exercised by harness pipeline)')
    class _:
        def pre(c):
            c['L'] = c.pred(LOOPS, c.a[0])
            A = c['L']
            c.fact(z3.And(NB(A), INN(A), c.a[1] >= 0, c.a[2] >= 0, c.a[4] >= 0), 'loops with inner loops')
            c['sd'] = c.arr(INT, c.a[3], c.a[4], region=None)

        def post(c):
            L = c.pred(LOOPS, c.ret)
            A = c['L']
            c.arr(INT, c.a[3], c.a[4], arr=c['sd'], region=None)
            c.fact(z3.And(V(L) == V(A), NB(L), INN(L), NST(L) == NST(A), CV(L) == CV(A), (c.ret == 0) == (c.a[0] == 0)), 'same instances')

    @S.spec('cloog_loop_specialize', props=P)
    class _:
        def pre(c):
            c['L'] = c.pred(LOOPS, c.a[0])
            A = c['L']
            c.fact(z3.And(NB(A), INN(A), NST(A), c.a[1] >= 0, c.a[2] >= 0, c.a[4] >= 0), 'loops around their inner loops')
            c['sd'] = c.arr(INT, c.a[3], c.a[4], region=None)

        def post(c):
            L = c.pred(LOOPS, c.ret)
            c.arr(INT, c.a[3], c.a[4], arr=c['sd'], region=None)
            c.fact(V(L) == V(c['L']), 'instances')
            c.fact(z3.And(NB(L), INN(L), NST(L)), 'shape')

    @S.inv('cloog_loop_specialize', 0)
    def _(c):
        l = c.v('l')
        a = c.pred(LSEG, c.v('loop'), l)
        r = c.pred(LOOPS, l)
        c.fact(z3.And(V(a) + V(r) == V(c.pre('L')), NB(a), NB(r), INN(a), INN(r), NST(a), NST(r)), 'same instances')

    @S.spec('cloog_loop_get_fl', assumed='cloog_loop_get_fl only reads the loops')
    class _:
        def pre(c):
            c['L'] = c.pred(LOOPS, c.a[0])
            c['f'], c['l'] = c.io(INT, c.a[1], 'f'), c.io(INT, c.a[2], 'l')
            c.fact(ISOPT(c.a[3]), 'options')

        def post(c):
            c.pred(LOOPS, c.a[0], outs=(c['L'],))
            c.io_post(INT, c.a[1], name='f')
            c.io_post(INT, c.a[2], name='l')

    @S.spec('cloog_loop_generate_backtrack', assumed='cloog_loop_generate_backtrack keeps the instances (exercised by harness pipeline)')
    class _:
        def pre(c):
            c['L'] = c.pred(LOOPS, c.a[0])
            c.fact(z3.And(c.a[1] >= 0, NB(c['L'])), 'level')

        def post(c):
            L = c.pred(LOOPS, c.ret)
            c.fact(z3.And(V(L) == V(c['L']), NB(L)), 'instances')

    @S.inv('cloog_loop_generate_general', 0)
    def _(c):
        t = c.v('temp')
        r = c.pred(LOOPS, t)
        R = open_list(c, c.v('res'), c.v('now'))
        A = c.pre('L')
        c.fact(z3.And(z3.Implies(nostop(c, c.arg0(5)), V(R) + V(r) == V(A)), NB(R), NB(r), INN(R), INN(r), NST(r)), 'instances so far')
