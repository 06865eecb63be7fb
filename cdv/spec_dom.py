"""isl sets as reference tokens with pointwise meaning, and contracts for the domain wrappers of source/isl/domain.c.

One point (coordinates X(0), X(1), ... and parameter values) is fixed but arbitrary.  For a set D, mem(D) says whether the
prefix of the point of length ddim(D) belongs to D.  The models below state, for each isl operation used, what the isl
manual guarantees about that one point; they are assumptions about isl.  Spaces of operands are assumed to match."""
import z3
from engine import iv, ZERO, simp, I, Pred, UNINIT, isval, PChunk, Prune, PathDead, b2i
from front import MPZ, INT, T, ToolLimit
from spec_constr import CONSTR, VAL, keep, give, take, freem, token, Constr
from spec_data import PTR, ISSTATE

Dom = z3.DeclareSort('Dom')
BList = z3.DeclareSort('BList')
B = z3.BoolSort()
mem = z3.Function('mem', Dom, B)
ddim = z3.Function('ddim', Dom, I)
bdiv = z3.Function('bdiv', Dom, I)          # existentials of a basic set
dpar = z3.Function('dpar', Dom, I)
dn = z3.Function('npieces', Dom, I)
blist = z3.Function('pieces', Dom, BList)
bn = z3.Function('bn', BList, I)
bat = z3.Function('bat', BList, I, Dom)
RO = z3.Function('anyof', BList, I, B)        # RO(Q, i): the point is in one of the first i pieces
X = z3.Function('X', I, I)                    # the point

DOM = Pred('set reference', [Dom], None, nullable=True)
BSET = Pred('basic set reference', [Dom], None, nullable=True)
BLST = Pred('basic set list reference', [BList], None, nullable=True)
MAPV = z3.DeclareSort('MapV')
MAP = Pred('map reference', [MAPV], None, nullable=True)
SPACE = Pred('space reference', [Dom], None, nullable=True)
mfix = z3.Function('map_fixed', MAPV, I, I)   # 1: output dimension is a known constant
mfixv = z3.Function('map_fixed_value', MAPV, I, I)
dfix = z3.Function('dim_fixed', Dom, I, I)
dfixv = z3.Function('dim_fixed_value', Dom, I, I)
mout = z3.Function('map_nout', MAPV, I)
msv = z3.Function('map_single_valued', MAPV, I)
mfd = z3.Function('map_from_domain', Dom, MAPV)
otl = z3.Function('at_most_one_value', Dom, I, I)      # coordinate k is determined by the others
DOM.on_produce = lambda st, ins, outs: st.assume(z3.And(ddim(outs[0]) >= 0, dpar(outs[0]) >= 0, ins[0] >= 0))


def ro_step(st, Q, i):
    st.assume(z3.Not(RO(Q, ZERO)))
    st.assume(z3.Implies(i >= 0, RO(Q, simp(i + 1)) == z3.Or(RO(Q, i), mem(bat(Q, i)))))


def newd(eng, st, facts, like=None):
    D = eng.fresh('D', Dom)
    st.assume(z3.And(ddim(D) >= 0, dpar(D) >= 0))
    if like is not None:
        st.assume(z3.And(ddim(D) == ddim(like), dpar(D) == dpar(like)))
    for f in facts(D):
        st.assume(f)
    return D


def op(P, nset, f, R=None, same_dim=True, kinds=None):
    """an isl operation taking its first nset arguments"""
    def m(eng, st, vs, n, args):
        line = eng.line(n)
        nulls = z3.Or([v == 0 for v in vs[:nset]])
        for s2, isnull in eng.fork(st, nulls):
            try:
                if isnull:
                    for k in range(nset):
                        if not eng.entails(s2, vs[k] == 0):
                            take(eng, s2, (kinds or [P] * nset)[k], vs[k], line)
                    yield s2, ZERO
                    continue
                ds = [take(eng, s2, (kinds or [P] * nset)[k], vs[k], line)[0] for k in range(nset)]
            except (PathDead, Prune):
                continue
            D = newd(eng, s2, lambda D: f(eng, s2, D, ds, vs, line), ds[0] if same_dim else None)
            yield s2, give(eng, s2, R or P, (D,))
    return m


def keepf(P, f):
    """__isl_keep query; NULL is not allowed"""
    return keep(P, lambda e, s, o, vs, l: f(e, s, o[0], vs, l))


def query(e, s, yes=None, no=None):
    r = e.fresh('q')
    s.assume(z3.Or(r == 0, r == 1))
    if yes is not None:
        s.assume(z3.Implies(r == 1, yes))
    if no is not None:
        s.assume(z3.Implies(r == 0, no))
    return r


def install(S):
    Bn = S.builtins
    S.DOM = DOM
    SET_, PAR_ = 3, 1

    # ------------------------------------------------------------- isl_set
    def copy(P):
        def m(eng, st, vs, n, args):
            for s2, isnull in eng.fork(st, vs[0] == 0):
                if isnull:
                    yield s2, ZERO
                    continue
                try:
                    c = token(eng, s2, P, vs[0], eng.line(n))
                except (PathDead, Prune):
                    continue
                yield s2, give(eng, s2, P, c.outs)
        return m
    for nm_, P in (('set', DOM), ('basic_set', BSET), ('map', MAP), ('space', SPACE)):
        Bn['isl_%s_copy' % nm_] = copy(P)
    for nm_, P in (('set', DOM), ('basic_set', BSET), ('map', MAP), ('space', SPACE), ('basic_set_list', BLST)):
        Bn['isl_%s_free' % nm_] = freem(P)
    same = lambda e, s, D, ds, vs, l: [mem(D) == mem(ds[0])]
    sup = lambda e, s, D, ds, vs, l: [z3.Implies(mem(ds[0]), mem(D))]
    Bn['isl_set_union'] = op(DOM, 2, lambda e, s, D, ds, vs, l: [mem(D) == z3.Or(mem(ds[0]), mem(ds[1])), dn(D) <= dn(ds[0]) + dn(ds[1])])
    Bn['isl_set_intersect'] = op(DOM, 2, lambda e, s, D, ds, vs, l: [mem(D) == z3.And(mem(ds[0]), mem(ds[1]))])
    Bn['isl_set_subtract'] = op(DOM, 2, lambda e, s, D, ds, vs, l: [mem(D) == z3.And(mem(ds[0]), z3.Not(mem(ds[1])))])
    Bn['isl_set_gist'] = op(DOM, 2, lambda e, s, D, ds, vs, l: [z3.Implies(mem(ds[1]), mem(D) == mem(ds[0]))])
    for k in ('coalesce', 'make_disjoint', 'align_divs'):
        Bn['isl_set_' + k] = op(DOM, 1, same)
    for k in ('detect_equalities', 'compute_divs'):      # neither splits a set of one piece (its divs are known)
        Bn['isl_set_' + k] = op(DOM, 1, lambda e, s, D, ds, vs, l: [mem(D) == mem(ds[0]), z3.Implies(dn(ds[0]) <= 1, dn(D) <= 1)])
    Bn['isl_set_from_params'] = op(DOM, 1, lambda e, s, D, ds, vs, l: [mem(D) == mem(ds[0]), dn(D) == dn(ds[0])])
    Bn['isl_set_convex_hull'] = op(DOM, 1, sup, R=BSET)
    Bn['isl_set_simple_hull'] = op(DOM, 1, sup, R=BSET)
    Bn['isl_set_affine_hull'] = op(DOM, 1, sup, R=BSET)
    Bn['isl_set_polyhedral_hull'] = op(DOM, 1, sup, R=BSET)
    Bn['isl_set_from_basic_set'] = op(BSET, 1, lambda e, s, D, ds, vs, l: [mem(D) == mem(ds[0]), dn(D) <= 1], R=DOM)
    Bn['isl_basic_set_intersect'] = op(BSET, 2, lambda e, s, D, ds, vs, l: [mem(D) == z3.And(mem(ds[0]), mem(ds[1]))])

    def remove_dims(e, s, D, ds, vs, l):
        e.prove(s, z3.And(vs[1] == SET_, vs[2] >= 0, vs[2] + vs[3] == ddim(ds[0])), 'only trailing dimensions are removed', l)
        return [z3.Implies(mem(ds[0]), mem(D)), ddim(D) == vs[2], dpar(D) == dpar(ds[0])]
    Bn['isl_set_remove_dims'] = op(DOM, 1, remove_dims, same_dim=False)
    Bn['isl_set_project_out'] = Bn['isl_set_remove_dims']
    Bn['isl_set_remove_divs_involving_dims'] = op(DOM, 1, sup)

    def add_dims(e, s, D, ds, vs, l):
        e.prove(s, vs[1] == SET_, 'set dimensions are added', l)
        return [mem(D) == mem(ds[0]), ddim(D) == ddim(ds[0]) + vs[2], dpar(D) == dpar(ds[0])]
    Bn['isl_set_add_dims'] = op(DOM, 1, add_dims, same_dim=False)

    def isparams(e, s, vs, n, a):
        for s2, isnull in e.fork(s, vs[0] == 0):
            if isnull:
                yield s2, iv(-1)
                continue
            try:
                token(e, s2, DOM, vs[0], e.line(n))
            except (PathDead, Prune):
                continue
            yield s2, query(e, s2)
    Bn['isl_set_is_params'] = isparams
    for nm_, P in (('set', DOM), ('basic_set', BSET)):
        Bn['isl_%s_plain_is_empty' % nm_] = keepf(P, lambda e, s, D, vs, l: query(e, s, yes=z3.Not(mem(D))))
        Bn['isl_%s_plain_is_universe' % nm_] = keepf(P, lambda e, s, D, vs, l: query(e, s, yes=mem(D)))
        Bn['isl_%s_is_universe' % nm_] = Bn['isl_%s_plain_is_universe' % nm_]
    Bn['isl_basic_set_is_empty'] = keepf(BSET, lambda e, s, D, vs, l: query(e, s, yes=z3.Not(mem(D))))
    for nm_ in ('isl_basic_set_is_equal', 'isl_basic_set_plain_is_equal'):
        Bn[nm_] = keepf(BSET, lambda e, s, D, vs, l: query(e, s, yes=mem(D) == mem(token(e, s, BSET, vs[1], l).outs[0])))
    Bn['isl_basic_set_is_subset'] = keepf(BSET, lambda e, s, D, vs, l: query(e, s, yes=z3.Implies(mem(D), mem(token(e, s, BSET, vs[1], l).outs[0]))))
    Bn['isl_set_is_disjoint'] = keepf(DOM, lambda e, s, D, vs, l: query(e, s, yes=z3.Not(z3.And(mem(D), mem(token(e, s, DOM, vs[1], l).outs[0])))))
    Bn['isl_set_is_strict_subset'] = keepf(DOM, lambda e, s, D, vs, l: query(e, s, yes=z3.Implies(mem(D), mem(token(e, s, DOM, vs[1], l).outs[0]))))

    def unmodelled(eng, st, name, vs, n, args):
        """an isl query (isl_bool/isl_size: keeps its arguments) without a contract: any answer"""
        d = eng.db.decls.get(name)
        t = d['type']['qualType'].split('(')[0].strip() if d and name.startswith('isl_') else ''
        if t not in ('isl_bool', 'isl_size') or 'foreach' in name or 'every' in name:
            return None
        r = eng.fresh('q')
        st.assume(z3.And(r >= 0, r <= 1) if t == 'isl_bool' else r >= 0)
        st.g['approx'] = name
        return iter([(st, r)])
    S.externals.append(unmodelled)
    Bn['isl_set_is_empty'] = keepf(DOM, lambda e, s, D, vs, l: query(e, s, yes=z3.Not(mem(D))))
    Bn['isl_set_plain_is_equal'] = keepf(DOM, lambda e, s, D, vs, l: query(e, s, yes=mem(D) == mem(token(e, s, DOM, vs[1], l).outs[0])))
    Bn['isl_set_is_equal'] = keepf(DOM, lambda e, s, D, vs, l: query(e, s, yes=mem(D) == mem(token(e, s, DOM, vs[1], l).outs[0])))
    Bn['isl_set_is_subset'] = keepf(DOM, lambda e, s, D, vs, l: query(e, s, yes=z3.Implies(mem(D), mem(token(e, s, DOM, vs[1], l).outs[0]))))
    Bn['isl_set_plain_is_disjoint'] = keepf(DOM, lambda e, s, D, vs, l: query(e, s, yes=z3.Not(z3.And(mem(D), mem(token(e, s, DOM, vs[1], l).outs[0])))))
    Bn['isl_set_get_ctx'] = keepf(DOM, lambda e, s, D, vs, l: e.fresh('ctx'))

    def dimq(e, s, D, vs, l):
        t = simp(vs[1])
        if isval(t) and t.as_long() == SET_:
            return ddim(D)
        if isval(t) and t.as_long() == PAR_:
            return dpar(D)
        raise ToolLimit('isl_set_dim type')
    Bn['isl_set_dim'] = keepf(DOM, dimq)
    def bdimq(e, s, D, vs, l):
        t = simp(vs[1])
        if isval(t) and t.as_long() == 4:
            s.assume(bdiv(D) >= 0)
            return bdiv(D)
        return dimq(e, s, D, vs, l)
    Bn['isl_basic_set_dim'] = keepf(BSET, bdimq)

    def btotal(e, s, D, vs, l):
        s.assume(bdiv(D) >= 0)
        return simp(ddim(D) + dpar(D) + bdiv(D))
    Bn['isl_basic_set_total_dim'] = keepf(BSET, btotal)
    Bn['isl_set_n_dim'] = keepf(DOM, lambda e, s, D, vs, l: ddim(D))

    def nbs(e, s, D, vs, l):
        s.assume(z3.And(dn(D) >= 0, dn(D) == bn(blist(D)), z3.Implies(dn(D) == 0, z3.Not(mem(D)))))
        return dn(D)
    Bn['isl_set_n_basic_set'] = keepf(DOM, nbs)

    def getlist(e, s, D, vs, l):
        Q = blist(D)
        s.assume(z3.And(bn(Q) >= 0, bn(Q) == dn(D), mem(D) == RO(Q, bn(Q)), z3.Not(RO(Q, ZERO))))
        i = z3.Int('i!q')
        s.assume(z3.ForAll([i], z3.And(ddim(bat(Q, i)) == ddim(D), dpar(bat(Q, i)) == dpar(D)), patterns=[bat(Q, i)]))
        return give(e, s, BLST, (Q,))
    Bn['isl_set_get_basic_set_list'] = keepf(DOM, getlist)

    def listn(e, s, Q, vs, l):
        return bn(Q)
    Bn['isl_basic_set_list_n_basic_set'] = keepf(BLST, listn)

    def listat(e, s, Q, vs, l):
        e.prove(s, z3.And(vs[1] >= 0, vs[1] < bn(Q)), 'list element exists', l)
        ro_step(s, Q, vs[1])
        return give(e, s, BSET, (bat(Q, vs[1]),))
    Bn['isl_basic_set_list_get_basic_set'] = keepf(BLST, listat)
    Bn['isl_basic_set_get_space'] = keepf(BSET, lambda e, s, D, vs, l: give(e, s, SPACE, (D,)))
    Bn['isl_set_get_space'] = keepf(DOM, lambda e, s, D, vs, l: give(e, s, SPACE, (D,)))
    Bn['isl_set_empty'] = op(SPACE, 1, lambda e, s, D, ds, vs, l: [z3.Not(mem(D)), dn(D) == 0], R=DOM)
    Bn['isl_set_universe'] = op(SPACE, 1, lambda e, s, D, ds, vs, l: [mem(D)], R=DOM)
    Bn['isl_basic_set_universe'] = op(SPACE, 1, lambda e, s, D, ds, vs, l: [mem(D)], R=BSET)

    def space_set_alloc(e, s, vs, n, a):
        D = newd(e, s, lambda D: [ddim(D) == vs[2], dpar(D) == vs[1]])
        yield s, give(e, s, SPACE, (D,))
    Bn['isl_space_set_alloc'] = space_set_alloc

    def follows_at(e, s, D, vs, l):
        token(e, s, DOM, vs[1], l)
        r = e.fresh('follows')
        s.assume(z3.And(r >= -1, r <= 1))
        return r
    Bn['isl_set_follows_at'] = keepf(DOM, follows_at)

    def bounded(e, s, D, vs, l):
        return query(e, s)
    Bn['isl_set_dim_is_bounded'] = keepf(DOM, bounded)

    # constants of a dimension: NULL / NaN when not fixed
    def fixval(P, fx, fv, tie):
        def m(e, s, vs, n, a):
            line = e.line(n)
            e.prove(s, vs[0] != 0, 'null isl object', line)
            D = token(e, s, P, vs[0], line).outs[0]
            s.assume(z3.Or(fx(D, vs[2]) == 0, fx(D, vs[2]) == 1))
            for s2, t in e.fork(s, fx(D, vs[2]) == 1):
                if t:
                    if tie:
                        s2.assume(z3.Implies(mem(D), X(vs[2]) == fv(D, vs[2])))
                    yield s2, give(e, s2, VAL, (fv(D, vs[2]), iv(1)))
                else:
                    s3 = s2.copy()
                    yield s2, ZERO
                    yield s3, give(e, s3, VAL, (ZERO, ZERO))        # NaN
        return m
    Bn['isl_set_plain_get_val_if_fixed'] = fixval(DOM, dfix, dfixv, True)
    Bn['isl_map_plain_get_val_if_fixed'] = fixval(MAP, mfix, mfixv, False)
    Bn['isl_val_is_nan'] = keep(VAL, lambda e, s, o, v, l: b2i(simp(o[1] == 0)))
    Bn['isl_map_dim'] = keep(MAP, lambda e, s, o, vs, l: mout(o[0]))
    def map_from_domain(eng, st, vs, n, args):
        try:
            D = take(eng, st, DOM, vs[0], eng.line(n))[0]
        except (PathDead, Prune):
            return
        yield st, give(eng, st, MAP, (mfd(D),))
    Bn['isl_map_from_domain'] = map_from_domain

    def move_dims(eng, st, vs, n, args):
        try:
            m = take(eng, st, MAP, vs[0], eng.line(n))[0]
        except (PathDead, Prune):
            return
        m2 = eng.fresh('map', MAPV)
        if z3.is_app(m) and m.decl().eq(mfd):
            D = m.arg(0)
            # the one dimension k becomes the output: single-valued iff k is a function of the other dimensions
            st.assume(z3.Implies(z3.And(vs[1] == 3, vs[2] == 0, vs[3] == 2, vs[4] >= 0, vs[4] < ddim(D), vs[5] == 1), msv(m2) == otl(D, vs[4])))
        yield st, give(eng, st, MAP, (m2,))
    Bn['isl_map_move_dims'] = move_dims
    Bn['isl_map_is_single_valued'] = keep(MAP, lambda e, s, o, vs, l: msv(o[0]))

    # ------------------------------------------------------------- contracts
    P = ['C16']

    def dspec(name, roles, facts=None, ret='dom', **kw):
        """roles: 'k' borrowed set, 't' consumed set, '.' other"""
        @S.spec(name, props=P, **kw)
        class _:
            def pre(c):
                ds = []
                for i, r in enumerate(roles):
                    if r in 'kt':
                        c.fact(c.a[i] != 0, 'set is not null')
                        D = c.pred(DOM, c.a[i])
                        ds.append(D)
                c['ds'] = ds

            def post(c):
                j = 0
                for i, r in enumerate(roles):
                    if r in 'kt':
                        if r == 'k':
                            c.pred(DOM, c.a[i], outs=(c['ds'][j],))
                        j += 1
                if ret == 'dom':
                    D = c.pred(DOM, c.ret)
                    c.fact(c.ret != 0, 'result is not null')
                    for nme, f in facts(c, D, *c['ds']):
                        c.fact(f, nme)
                elif facts:
                    for nme, f in facts(c, *c['ds']):
                        c.fact(f, nme)
    S.dspec = dspec
    likedim = lambda D, A: ('dimension', z3.And(ddim(D) == ddim(A), dpar(D) == dpar(A)))
    eqm = lambda c, D, A: [('same points', mem(D) == mem(A)), likedim(D, A)]

    @S.spec('cloog_domain_copy', props=P + ['C07'])
    class _:
        def pre(c):
            c['n'] = c.case(c.a[0] == 0)
            if not c['n']:
                c['D'] = c.pred(DOM, c.a[0])

        def post(c):
            if c['n']:
                c.fact(c.ret == 0, 'NULL for NULL')
            else:
                c.fact(c.ret != 0, 'a copy')
                c.pred(DOM, c.a[0], outs=(c['D'],))
                D = c.pred(DOM, c.ret)
                c.fact(z3.And(mem(D) == mem(c['D']), z3.Implies(dn(c['D']) <= 1, dn(D) <= 1)), 'same points')
                c.fact(z3.And(ddim(D) == ddim(c['D']), dpar(D) == dpar(c['D'])), 'dimension')

    @S.spec('cloog_domain_from_isl_set', props=P)
    class _:
        def pre(c):
            c['n'] = c.case(c.a[0] == 0)
            if not c['n']:
                c['D'] = c.pred(DOM, c.a[0])

        def post(c):
            if c['n']:
                c.fact(c.ret == 0, 'NULL for NULL')
            else:
                c.fact(c.ret != 0, 'not null')
                D = c.pred(DOM, c.ret)
                c.fact(z3.And(mem(D) == mem(c['D']), z3.Implies(dn(c['D']) <= 1, dn(D) <= 1)), 'same points')
                c.fact(z3.And(ddim(D) == ddim(c['D']), dpar(D) == dpar(c['D'])), 'dimension')

    @S.spec('cloog_domain_free', props=P + ['C07'])
    class _:
        def pre(c):
            if not c.case(c.a[0] == 0):
                c.pred(DOM, c.a[0])

        def post(c):
            pass
    sup_ = lambda c, D, A: [('contains the set', z3.Implies(mem(A), mem(D))), likedim(D, A), ('convex', dn(D) <= 1)]
    dspec('cloog_domain_convex', 'k', sup_)
    dspec('cloog_domain_simple_convex', 'k', sup_)
    dspec('cloog_domain_simplify', 'kk', lambda c, D, A, C: [('same points inside the context', z3.Implies(mem(C), mem(D) == mem(A))), likedim(D, A)])
    dspec('cloog_domain_union', 'tt', lambda c, D, A, C: [('union', mem(D) == z3.Or(mem(A), mem(C))), likedim(D, A)])
    dspec('cloog_domain_intersection', 'kk', lambda c, D, A, C: [('intersection', mem(D) == z3.And(mem(A), mem(C))), likedim(D, A)])
    dspec('cloog_domain_difference', 'kk', lambda c, D, A, C: [('difference', mem(D) == z3.And(mem(A), z3.Not(mem(C)))), likedim(D, A)])
    dspec('cloog_domain_empty', 'k', lambda c, D, A: [('empty', z3.Not(mem(D))), likedim(D, A)])
    dspec('cloog_domain_simplify_union', 't', eqm)
    dspec('cloog_domain_isempty', 'k', lambda c, A: [('non-zero only for empty sets', z3.Implies(c.ret != 0, z3.Not(mem(A)))), ('no error', c.ret >= 0)], ret=None)
    dspec('cloog_domain_never_integral', 'k', lambda c, A: [('non-zero only for empty sets', z3.Implies(c.ret != 0, z3.Not(mem(A)))), ('no error', c.ret >= 0)], ret=None)
    dspec('cloog_domain_lazy_equal', 'kk', lambda c, A, C: [('non-zero only for equal sets', z3.Implies(c.ret != 0, mem(A) == mem(C)))], ret=None)
    dspec('cloog_domain_lazy_disjoint', 'kk', lambda c, A, C: [('non-zero only for disjoint sets', z3.Implies(c.ret != 0, z3.Not(z3.And(mem(A), mem(C)))))], ret=None)
    dspec('cloog_domain_dimension', 'k', lambda c, A: [('number of set dimensions', c.ret == ddim(A))], ret=None)
    dspec('cloog_domain_parameter_dimension', 'k', lambda c, A: [('number of parameters', c.ret == dpar(A))], ret=None)
    dspec('cloog_domain_isconvex', 'k', lambda c, A: [('at most one piece', (c.ret != 0) == (dn(A) <= 1))], ret=None)
    dspec('cloog_domain_follows', 'kk.', lambda c, A, C: [('comparison result', z3.And(c.ret >= -1, c.ret <= 1))], ret=None)
    dspec('cloog_domain_is_bounded', 'k.', None, ret=None)

    @S.spec('cloog_domain_project', props=P)
    class _:
        def pre(c):
            c.fact(c.a[0] != 0, 'set is not null')
            c['D'] = c.pred(DOM, c.a[0])
            c.fact(c.a[1] >= 0, 'level')

        def post(c):
            c.pred(DOM, c.a[0], outs=(c['D'],))
            D = c.pred(DOM, c.ret)
            c.fact(c.ret != 0, 'not null')
            c.fact(z3.Implies(mem(c['D']), mem(D)), 'contains the projection')
            c.fact(z3.And(ddim(D) == c.a[1], dpar(D) == dpar(c['D'])), 'dimension')

    @S.spec('cloog_domain_extend', props=P)
    class _:
        def pre(c):
            c.fact(c.a[0] != 0, 'set is not null')
            c['D'] = c.pred(DOM, c.a[0])

        def post(c):
            c.pred(DOM, c.a[0], outs=(c['D'],))
            D = c.pred(DOM, c.ret)
            c.fact(c.ret != 0, 'not null')
            c.fact(mem(c['D']) == mem(D), 'same points')
            c.fact(z3.And(ddim(D) == c.a[1], dpar(D) == dpar(c['D'])), 'dimension')

    @S.spec('cloog_domain_cut_first', props=P + ['C06', 'C07'], abort_ok=True)
    class _:
        def pre(c):
            c.fact(z3.And(c.a[0] != 0, c.a[1] != 0), 'not null')
            D = c['D'] = c.pred(DOM, c.a[0])
            c['r'] = S.io_raw(c, c.a[1], 'rest')

        def post(c):
            F = c.pred(DOM, c.ret)
            c.fact(c.ret != 0, 'first piece')
            r = c.io_post(PTR, c.a[1], name='rest')
            R = c.pred(DOM, r)
            c.fact(r != 0, 'rest')
            c.fact(mem(c['D']) == z3.Or(mem(F), mem(R)), 'first piece and rest make up the set')
            c.fact(dn(F) <= 1, 'first piece is convex')
            c.fact(z3.And(ddim(F) == ddim(c['D']), ddim(R) == ddim(c['D'])), 'dimension')

    @S.inv('cloog_domain_cut_first', 0)
    def _(c):
        i, n = c.v('i'), c.v('n')
        D = c.pre('D')
        Q = blist(D)
        A = c.pred(DOM, c.v('set'))
        c.fact(z3.And(i >= 1, i <= n, n == bn(Q), c.v('set') != 0, ddim(A) == ddim(D)), 'range')
        ro_step(c.st, Q, i)
        ro_step(c.st, Q, ZERO)
        c.fact(z3.Or(mem(bat(Q, ZERO)), mem(A)) == RO(Q, i), 'pieces collected so far')

    def lazyconst(name, P_, fx, fv):
        @S.spec(name, props=['C16'])
        class _:
            def pre(c):
                c.fact(c.a[0] != 0, 'not null')
                c['D'] = c.pred(P_, c.a[0])
                c['n'] = c.case(c.a[2] == 0)
                if not c['n']:
                    c['v'] = c.io(MPZ, c.a[2], 'value')

            def post(c):
                D = c['D']
                c.pred(P_, c.a[0], outs=(D,))
                c.fact((c.ret != 0) == (fx(D, c.a[1]) == 1), 'non-zero exactly when the dimension is fixed')
                if P_ is DOM:
                    c.fact(z3.Implies(z3.And(c.ret != 0, mem(D)), X(c.a[1]) == fv(D, c.a[1])), 'points of the set have that coordinate')
                if not c['n']:
                    v = c.io_post(MPZ, c.a[2], name='value')
                    c.fact(z3.If(c.ret != 0, v == fv(D, c.a[1]), v == c['v']), 'value')
    lazyconst('cloog_domain_lazy_isconstant', DOM, dfix, dfixv)
    lazyconst('cloog_scattering_lazy_isscalar', MAP, mfix, mfixv)
