"""Statements, blocks, strides and the shared state: ownership, reference counts and list contents."""
import z3
from engine import iv, ZERO, simp, I, Pred, UNINIT, SV, Shared, isval
from front import MPZ, INT, T, CHAR
from models import STR
from spec_list import make_list, seq_theory
from spec_constr import CONSTR

PTR = T('ptr', T('struct', 'x'))
ISSTATE = z3.Function('is_state', I, z3.BoolSort())
ISOPT = z3.Function('is_options', I, z3.BoolSort())
STID = z3.Function('statement_identity', I, I, I, I)     # number, name, usr
SEQ = z3.SeqSort(I)
CNT = z3.Function('cnt', SEQ, I)                         # occurrences of one fixed, arbitrary statement
COUNTERS = ['%s_%s' % (a, b) for a in ('block', 'domain', 'loop', 'statement') for b in ('allocated', 'freed', 'max')]


def opt_str(c, p):
    """NULL or an owned string"""
    if c.case(p == 0):
        return
    c.pred(STR, p, outs=(SV(p),))


def stmt_node(c, f):
    c.fact(ISSTATE(f.state), 'statement has a state')
    opt_str(c, f.name)
    return STID(f.number, z3.If(f.name == 0, iv(-1), SV(f.name)), f.usr)


def io_raw(c, addr, name):
    """like io, but the cell may be uninitialised"""
    t = T('ptr', T('struct', 'x'))
    if c.producing:
        return c.io(t, addr, name)
    v = c.eng.load(c.st, c._loc(t, addr), c.line, raw=True)
    return c.fresh(name) if isinstance(v, str) else v


def install(S):
    S.io_raw = io_raw
    S.shared['cloogstate'] = Shared('cloogstate', ISSTATE, consts={'zero': 0, 'one': 1, 'negone': -1}, free=COUNTERS)
    S.shared['cloogoptions'] = Shared('cloogoptions', ISOPT)
    STMTS, SSEG = make_list('statement list', 'cloogstatement', seq_theory(), stmt_node)
    S.STMTS, S.SSEG = STMTS, SSEG
    P = ['C07']

    # ------------------------------------------------------------- state
    @S.spec('cloog_core_state_malloc', props=P)
    class _:
        def pre(c):
            pass

        def post(c):
            w = {k: ZERO for k in COUNTERS}
            c.struct('cloogstate', c.ret, zero=ZERO, one=iv(1), negone=iv(-1), backend=ZERO, **w)

    @S.spec('cloog_core_state_free', props=P)
    class _:
        def pre(c):
            f = c.struct('cloogstate', c.a[0])
            for k in ('zero', 'one', 'negone'):
                c.init(f[k], k)

        def post(c):
            pass

    def leak(kind):
        up, down = 'cloog_%s_leak_up' % kind, 'cloog_%s_leak_down' % kind
        A, F, M = kind + '_allocated', kind + '_freed', kind + '_max'

        def mk(name, isup):
            @S.spec(name, props=P)
            class _:
                def pre(c):
                    c['f'] = c.struct('cloogstate', c.a[0])
                    for k in (A, F, M):
                        c.init(c['f'][k], k)

                def post(c):
                    f = dict(c['f'])
                    if isup:
                        f[A] = simp(f[A] + 1)
                        f[M] = z3.If(f[A] - f[F] > f[M], f[A] - f[F], f[M])
                    else:
                        f[F] = simp(f[F] + 1)
                    c.struct('cloogstate', c.a[0], **f)

            @S.view(name)
            class _:
                def pre(c):
                    c.fact(ISSTATE(c.a[0]), 'valid state')

                def post(c):
                    pass
        mk(up, True)
        mk(down, False)
    for k in ('block', 'loop', 'statement'):
        leak(k)

    # ------------------------------------------------------------- statements
    @S.spec('cloog_statement_malloc', props=P)
    class _:
        def pre(c):
            c.fact(ISSTATE(c.a[0]), 'valid state')

        def post(c):
            c.struct('cloogstatement', c.ret, state=c.a[0], number=ZERO, name=ZERO, usr=ZERO, next=ZERO)

    @S.spec('cloog_statement_alloc', props=P)
    class _:
        def pre(c):
            c.fact(ISSTATE(c.a[0]), 'valid state')

        def post(c):
            c.struct('cloogstatement', c.ret, state=c.a[0], number=c.a[1], name=ZERO, usr=ZERO, next=ZERO)

    @S.spec('cloog_statement_free', props=P)
    class _:
        def pre(c):
            c.pred(STMTS, c.a[0])

        def post(c):
            pass

    @S.inv('cloog_statement_free', 0)
    def _(c):
        c.pred(STMTS, c.v('statement'))

    @S.spec('cloog_statement_copy', props=P)
    class _:
        def pre(c):
            c['L'] = c.pred(STMTS, c.a[0])

        def post(c):
            c.pred(STMTS, c.a[0], outs=(c['L'],))
            c.pred(STMTS, c.ret, outs=(c['L'],))

    @S.inv('cloog_statement_copy', 0)
    def _(c):
        L, a0 = c.pre('L'), c.arg0(0)
        src, st, now = c.v('source'), c.v('statement'), c.v('now')
        done = c.pred(SSEG, a0, src)
        rest = c.pred(STMTS, src)
        c.fact(z3.Concat(done, rest) == L, 'source list unchanged')
        if c.case(st == 0):
            c.fact(done == z3.Empty(SEQ), 'nothing copied yet')
        else:
            l1 = c.pred(SSEG, st, now)
            f, x = STMTS.nodepart(c, now)
            c.fact(f.next == 0, 'the copy is terminated')
            c.fact(z3.Concat(l1, z3.Unit(x)) == done, 'the copy has the statements seen so far, in order')

    @S.spec('cloog_statement_add', props=P)
    class _:
        def pre(c):
            add_pre(c, 'cloogstatement')

        def post(c):
            add_post(c, 'cloogstatement')

    def add_pre(c, sn):
        t = PTR
        c['s'] = c.io(t, c.a[0], 'start')
        c['n'] = io_raw(c, c.a[1], 'now')
        c['e'] = c.case(c['s'] == 0)
        if not c['e']:
            c['f'] = c.struct(sn, c['n'])

    def add_post(c, sn):
        t = PTR
        if c['e']:
            c.io_post(t, c.a[0], c.a[2])
            c.io_post(t, c.a[1], c.a[2])
        else:
            f = {k: v for k, v in c['f'].items() if not isinstance(v, str)}
            f['next'] = c.a[2]
            c.struct(sn, c['n'], **f)
            c.io_post(t, c.a[0], c['s'])
            c.io_post(t, c.a[1], c.a[2])
    S.add_pre, S.add_post = add_pre, add_post

    # ------------------------------------------------------------- blocks
    # a block with references == r, fully owned
    def block_body(c, b):
        f = c.struct('cloogblock', b)
        for k in ('state', 'statement', 'nb_scaldims', 'scaldims', 'depth', 'references', 'usr'):
            c.init(f[k], k)
        c.fact(ISSTATE(f.state), 'block has a state')
        c.fact(f.nb_scaldims >= 0, 'number of scalar dimensions')
        L = c.pred(STMTS, f.statement)
        if not c.case(f.scaldims == 0):
            c['scal'] = c.arr(MPZ, f.scaldims, f.nb_scaldims)
        c.fact(f.references >= 1, 'a live block has a reference')
        return f, L
    BREF = Pred('block reference', [SEQ], None, nullable=True)
    S.BREF = BREF
    BREF.on_produce = lambda st, ins, outs: None

    @S.spec('cloog_block_malloc', props=P)
    class _:
        def pre(c):
            c.fact(ISSTATE(c.a[0]), 'valid state')

        def post(c):
            c.struct('cloogblock', c.ret, state=c.a[0], statement=ZERO, nb_scaldims=ZERO, scaldims=ZERO, depth=ZERO, references=iv(1), usr=ZERO)

    @S.spec('cloog_block_alloc', props=P)
    class _:
        def pre(c):
            c['L'] = c.pred(STMTS, c.a[0])
            c.fact(c.a[0] != 0, 'a statement')
            c.fact(c.a[1] >= 0, 'number of scalar dimensions')
            if not c.case(c.a[2] == 0):
                c['A'] = c.arr(MPZ, c.a[2], c.a[1])

        def post(c):
            f, L = block_body(c, c.ret)
            c.fact(z3.And(f.references == 1, f.statement == c.a[0], f.nb_scaldims == c.a[1], f.scaldims == c.a[2], f.depth == c.a[3], f.usr == 0), 'fields')
            c.fact(L == c['L'], 'statements')
            if 'A' in c.g:
                c.fact(c['scal'] == c['A'], 'scalar dimensions')

    @S.view('cloog_block_alloc')
    class _:
        def pre(c):
            c['L'] = c.pred(STMTS, c.a[0])
            c.fact(c.a[0] != 0, 'a statement')
            c.fact(c.a[1] >= 0, 'number of scalar dimensions')
            if not c.case(c.a[2] == 0):
                c['A'] = c.arr(MPZ, c.a[2], c.a[1])

        def post(c):
            c.st.assume(c.ret != 0)
            c.pred(BREF, c.ret, outs=(c['L'],))

    @S.spec('cloog_block_copy', props=P)
    class _:
        def pre(c):
            if not c.case(c.a[0] == 0):
                c['f'], c['L'] = block_body(c, c.a[0])

        def post(c):
            c.fact(c.ret == c.a[0], 'same block')
            if 'f' in c.g:
                f, L = block_body(c, c.a[0])
                for k, v in c['f'].items():
                    c.fact(f[k] == (v if k != 'references' else v + 1), k)
                c.fact(L == c['L'], 'statements')

    @S.view('cloog_block_copy')
    class _:
        def pre(c):
            c['nul'] = c.case(c.a[0] == 0)
            if not c['nul']:
                c['L'] = c.pred(BREF, c.a[0])

        def post(c):
            c['__ret'] = c.a[0]
            if not c['nul']:
                c.pred(BREF, c.a[0], outs=(c['L'],))
                c.pred(BREF, c.a[0], outs=(c['L'],))

    @S.spec('cloog_block_free', props=P)
    class _:
        def pre(c):
            if not c.case(c.a[0] == 0):
                c['f'], c['L'] = block_body(c, c.a[0])

        def post(c):
            if 'f' in c.g and not c.case(c['f'].references == 1):
                f, L = block_body(c, c.a[0])
                for k, v in c['f'].items():
                    c.fact(f[k] == (v if k != 'references' else v - 1), k)
                c.fact(L == c['L'], 'statements')

    @S.inv('cloog_block_free', 0)
    def _(c):
        b, i = c.v('block'), c.v('i')
        f = c.struct('cloogblock', b, references=ZERO)
        c.fact(z3.And(i >= 0, i <= f.nb_scaldims), 'range')
        sd, nb = c.once('sd', lambda: f.scaldims), c.once('nb', lambda: f.nb_scaldims)
        c.fact(z3.And(f.scaldims == sd, f.nb_scaldims == nb, f.statement == c.once('stm', lambda: f.statement), sd != 0), 'block unchanged')
        c.arr(MPZ, sd, nb, ini=(i, nb))

    @S.view('cloog_block_free')
    class _:
        def pre(c):
            if not c.case(c.a[0] == 0):
                c.pred(BREF, c.a[0])

        def post(c):
            pass

    @S.spec('cloog_block_merge', props=P, raw=('cloog_block_free',))
    class _:
        def pre(c):
            c['z'] = c.case(z3.Or(c.a[0] == 0, c.a[1] == 0))
            if not c['z']:
                c['f'], c['L1'] = block_body(c, c.a[0])
                c['f2'], c['L2'] = block_body(c, c.a[1])
                c.fact(c['f2'].references == 1, 'the merged block is not shared')

        def post(c):
            if not c['z']:
                f, L = block_body(c, c.a[0])
                for k, v in c['f'].items():
                    if k != 'statement':
                        c.fact(f[k] == v, k)
                c.fact(L == z3.Concat(c['L1'], c['L2']), 'statements of both blocks in order')

    @S.inv('cloog_block_merge', 0)
    def _(c):
        st = c.v('statement')
        h = c.once('h', lambda: st)
        l1 = c.pred(SSEG, h, st)
        f, x = STMTS.nodepart(c, st)
        r = c.pred(STMTS, f.next)
        c.fact(z3.And(st != 0, z3.Concat(l1, z3.Unit(x), r) == c.pre('L1')), 'same list')

    @S.view('cloog_block_merge')
    class _:
        def pre(c):
            c['z'] = c.case(z3.Or(c.a[0] == 0, c.a[1] == 0))
            if not c['z']:
                c['L1'] = c.pred(BREF, c.a[0])
                c['L2'] = c.pred(BREF, c.a[1])

        def post(c):
            if not c['z']:
                c.pred(BREF, c.a[0], outs=(z3.Concat(c['L1'], c['L2']),))

    # ------------------------------------------------------------- block lists
    def bl_node(c, f):
        c.fact(f.block != 0, 'list of blocks')
        L = c.pred(BREF, f.block)
        return f.block
    BLIST, BSEG = make_list('block list', 'cloogblocklist', seq_theory(), bl_node)
    S.BLIST = BLIST

    @S.spec('cloog_block_list_malloc', props=P)
    class _:
        def pre(c):
            pass

        def post(c):
            c.struct('cloogblocklist', c.ret, block=ZERO, next=ZERO)

    @S.spec('cloog_block_list_alloc', props=P)
    class _:
        def pre(c):
            c.fact(c.a[0] != 0, 'block')
            c['f'], c['L'] = block_body(c, c.a[0])

        def post(c):
            c.struct('cloogblocklist', c.ret, block=c.a[0], next=ZERO)
            f, L = block_body(c, c.a[0])
            for k, v in c['f'].items():
                c.fact(f[k] == (v if k != 'references' else v + 1), k)
            c.fact(L == c['L'], 'statements')

    @S.view('cloog_block_list_alloc')
    class _:
        def pre(c):
            c.fact(c.a[0] != 0, 'block')
            c['L'] = c.pred(BREF, c.a[0])

        def post(c):
            c.struct('cloogblocklist', c.ret, block=c.a[0], next=ZERO)
            c.pred(BREF, c.a[0], outs=(c['L'],))
            c.pred(BREF, c.a[0], outs=(c['L'],))

    @S.spec('cloog_block_list_free', props=P)
    class _:
        def pre(c):
            c.pred(BLIST, c.a[0])

        def post(c):
            pass

    @S.inv('cloog_block_list_free', 0)
    def _(c):
        c.pred(BLIST, c.v('blocklist'))

    # ------------------------------------------------------------- strides
    def stride_body(c, s):
        f = c.struct('cloogstride', s)
        for k in ('references', 'stride', 'offset', 'factor', 'constraint'):
            c.init(f[k], k)
        if not c.case(f.constraint == 0):
            c['sK'] = c.pred(CONSTR, f.constraint)
        c.fact(f.references >= 1, 'a live stride has a reference')
        return f
    SREF = Pred('stride reference', [I], None, nullable=True)
    S.SREF = SREF
    sfields = {k: z3.Function('stride_' + k, I, I) for k in ('stride', 'offset', 'factor', 'constraint')}
    S.sfields = sfields

    @S.spec('cloog_stride_malloc', props=P)
    class _:
        def pre(c):
            pass

        def post(c):
            c.struct('cloogstride', c.ret, references=iv(1), stride=ZERO, offset=ZERO, factor=ZERO, constraint=ZERO)

    @S.spec('cloog_stride_alloc', props=P)
    class _:
        def pre(c):
            c['s'] = c.io(MPZ, c.a[0], 'stride')
            c['o'] = c.io(MPZ, c.a[1], 'offset')

        def post(c):
            c.struct('cloogstride', c.ret, references=iv(1), stride=c['s'], offset=c['o'], factor=ZERO, constraint=ZERO)
            c.io_post(MPZ, c.a[0], c['s'])
            c.io_post(MPZ, c.a[1], c['o'])

    @S.spec('cloog_stride_alloc_from_constraint', props=P)
    class _:
        def pre(c):
            c['s'] = c.io(MPZ, c.a[0], 'stride')
            c['o'] = c.io(MPZ, c.a[2], 'factor')

        def post(c):
            c.struct('cloogstride', c.ret, references=iv(1), stride=c['s'], offset=iv(-1), factor=c['o'], constraint=c.a[1])
            c.io_post(MPZ, c.a[0], c['s'])
            c.io_post(MPZ, c.a[2], c['o'])

    @S.spec('cloog_stride_copy', props=P)
    class _:
        def pre(c):
            if not c.case(c.a[0] == 0):
                c['f'] = stride_body(c, c.a[0])

        def post(c):
            c.fact(c.ret == c.a[0], 'same stride')
            if 'f' in c.g:
                f = stride_body(c, c.a[0])
                for k, v in c['f'].items():
                    c.fact(f[k] == (v if k != 'references' else v + 1), k)

    @S.view('cloog_stride_copy')
    class _:
        def pre(c):
            c['nul'] = c.case(c.a[0] == 0)
            if not c['nul']:
                c['L'] = c.pred(SREF, c.a[0])

        def post(c):
            c['__ret'] = c.a[0]
            if not c['nul']:
                c.pred(SREF, c.a[0], outs=(c['L'],))
                c.pred(SREF, c.a[0], outs=(c['L'],))

    @S.spec('cloog_stride_free', props=P)
    class _:
        def pre(c):
            if not c.case(c.a[0] == 0):
                c['f'] = stride_body(c, c.a[0])

        def post(c):
            if 'f' in c.g and not c.case(c['f'].references == 1):
                f = stride_body(c, c.a[0])
                for k, v in c['f'].items():
                    c.fact(f[k] == (v if k != 'references' else v - 1), k)

    @S.view('cloog_stride_free')
    class _:
        def pre(c):
            if not c.case(c.a[0] == 0):
                c.pred(SREF, c.a[0])

        def post(c):
            pass
