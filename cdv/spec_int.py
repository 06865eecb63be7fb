"""Contracts for source/int.c"""
import z3
from engine import iv, ZERO, simp, I, Pred, UNINIT
from front import MPZ, INT, T
from models import FDIV, fdiv, gcd, zabs

AI = z3.ArraySort(I, I)
SGCD = z3.Function('seq_gcd', AI, I, I)


def forall_range(lo, hi, f, name='k'):
    k = z3.Int(name + '!q')
    return z3.ForAll([k], z3.Implies(z3.And(lo <= k, k < hi), f(k)))


def install(S):
    def vec_body(c, ins, outs):
        p, = ins
        if c.case(p == 0):
            return (outs if outs is not None else (c.fresh('n'), c.fresh('va', AI)))
        if outs is None:
            f = c.struct('cloog_vec', p)
            a = c.arr(MPZ, f.p, f.size)
            return (f.size, a)
        n, a = outs
        f = c.struct('cloog_vec', p, size=n)
        c.fact(n >= 0)
        c.fact(f.p > 0)
        c.arr(MPZ, f.p, n, arr=a)
    S.VEC = Pred('vec', [I, AI], vec_body, struct={'cloog_vec'})

    @S.spec('cloog_vec_alloc', props=['C05', 'C06'])
    class _:
        def pre(c):
            c.fact(c.a[0] >= 0)

        def post(c):
            n, a = c.pred(S.VEC, c.ret)
            c.fact(c.ret != 0, 'allocation succeeds')
            c.fact(n == c.a[0], 'size')
            c.fact(forall_range(0, n, lambda k: a[k] == 0), 'all elements initialised to zero')

    @S.inv('cloog_vec_alloc', 0)
    def _(c):
        i = c.v('i')
        f = c.struct('cloog_vec', c.v('vec'), size=c.v('size'))
        c.fact(z3.And(i >= 0, i <= c.v('size')), 'range')
        c.fact(f.p > 0)
        a = c.arr(MPZ, f.p, c.v('size'), ini=(ZERO, i))
        c.fact(forall_range(0, i, lambda k: a[k] == 0))

    @S.spec('cloog_vec_free', props=['C05', 'C06'])
    class _:
        def pre(c):
            c.pred(S.VEC, c.a[0])

        def post(c):
            pass

    @S.inv('cloog_vec_free', 0)
    def _(c):
        i = c.v('i')
        f = c.struct('cloog_vec', c.v('vec'))
        c.fact(z3.And(i >= 0, i <= f.size), 'range')
        c.arr(MPZ, f.p, f.size, ini=(i, f.size))

    @S.spec('cloog_seq_first_non_zero', props=['C05'])
    class _:
        def pre(c):
            c['n'] = c.a[1]
            c.fact(c.a[1] >= 0)
            c['A'] = c.io_arr(MPZ, c.a[0], c.a[1])

        def post(c):
            A, n, r = c['A'], c.a[1], c.ret
            c.io_arr_post(MPZ, c.a[0], n, A)
            c.fact(z3.And(r >= -1, r < n), 'range')
            c.fact(z3.Implies(r >= 0, A[r] != 0), 'element is non-zero')
            c.fact(forall_range(0, z3.If(r >= 0, r, n), lambda k: A[k] == 0), 'all earlier elements are zero')

    @S.inv('cloog_seq_first_non_zero', 0)
    def _(c):
        i = c.v('i')
        A = c.peek_arr(c.v('p'))
        c.fact(z3.And(i >= 0, i <= c.v('len')), 'range')
        c.fact(forall_range(0, i, lambda k: A[k] == 0), 'prefix zero')

    def two(c, dst, src, n):
        """dst and src ranges: disjoint or identical"""
        if c.case(dst == src):
            a = c.io_arr(MPZ, dst, n, 'a')
            c['alias'] = True
            return a, a
        c['alias'] = False
        return c.io_arr(MPZ, dst, n, 'd'), c.io_arr(MPZ, src, n, 's')

    def elementwise(name, idx, f, extra_args=0, pre_extra=None, lenarg=-1):
        """contract: dst'[k] = f(c, src[k]) for all k<len, src unchanged"""
        class K:
            def pre(c):
                c['n'] = c.a[lenarg]
                c.fact(c['n'] >= 0)
                if pre_extra:
                    pre_extra(c)
                c['D'], c['A'] = two(c, c.a[0], c.a[1], c['n'])
                if name == 'cloog_seq_scale_down':
                    m, A = c['m'], c['A']
                    c.fact(forall_range(0, c['n'], lambda k: A[k] == m * FDIV(A[k], m)), 'divisor divides every element')

            def post(c):
                A, n = c['A'], c['n']
                R = c.io_arr_post(MPZ, c.a[0], n)
                c.fact(forall_range(0, n, lambda k: f(c, A[k]) == R[k]), 'result elements')
                if not c['alias']:
                    c.io_arr_post(MPZ, c.a[1], n, A)
                if 'm' in c.g:
                    c.io_post(MPZ, c.a[2], c['m'])
        S.spec(name, props=['C05'])(K)

        @S.inv(name, 0)
        def _(c):
            i = c.v('i')
            n = c.v('len')
            A = c.pre('A')
            c.fact(z3.And(i >= 0, i <= n), 'range')
            R = c.peek_arr(c.v('dst'))
            c.fact(forall_range(0, i, lambda k: f(_G(c), A[k]) == R[k]), 'processed prefix')
            if c.pre('alias'):
                c.fact(forall_range(i, n, lambda k: A[k] == R[k]), 'untouched suffix')

    class _G:
        def __init__(self, c):
            self.c = c

        def __getitem__(self, k):
            return self.c.pre(k)

    elementwise('cloog_seq_neg', 0, lambda c, x: -x)
    elementwise('cloog_seq_cpy', 0, lambda c, x: x)

    def sd_pre(c):
        c['m'] = c.io(MPZ, c.a[2], 'm')
        c.fact(c['m'] != 0, 'divisor is not zero')
    elementwise('cloog_seq_scale_down', 0, lambda c, x: FDIV(x, c['m']), pre_extra=sd_pre)

    @S.spec('cloog_seq_combine', props=['C05'])
    class _:
        def pre(c):
            dst, m1, s1, m2, s2, n = c.a
            c.fact(n >= 0)
            c['m1'] = c.io(MPZ, m1, 'm1')
            if c.case(m1 == m2):
                c['m2'] = c['m1']
                c['malias'] = True
            else:
                c['m2'] = c.io(MPZ, m2, 'm2')
                c['malias'] = False
            # dst may coincide with either source
            if c.case(dst == s1):
                c['al'] = 1
                c['A'] = c.io_arr(MPZ, s1, n, 'a')
                if c.case(s1 == s2):
                    c['al'] = 3
                    c['B'] = c['A']
                else:
                    c['B'] = c.io_arr(MPZ, s2, n, 'b')
            elif c.case(dst == s2):
                c['al'] = 2
                c['A'] = c.io_arr(MPZ, s1, n, 'a')
                c['B'] = c.io_arr(MPZ, s2, n, 'b')
            else:
                c['al'] = 0
                c.io_arr(MPZ, dst, n, 'd')
                c['A'] = c.io_arr(MPZ, s1, n, 'a')
                if c.case(s1 == s2):
                    c['al'] = 4
                    c['B'] = c['A']
                else:
                    c['B'] = c.io_arr(MPZ, s2, n, 'b')

        def post(c):
            dst, m1, s1, m2, s2, n = c.a
            A, B = c['A'], c['B']
            R = c.io_arr_post(MPZ, dst, n)
            c.fact(forall_range(0, n, lambda k: R[k] == c['m1'] * A[k] + c['m2'] * B[k]), 'linear combination')
            if c['al'] not in (1, 3):
                c.io_arr_post(MPZ, s1, n, A)
            if c['al'] not in (2, 3, 4):
                c.io_arr_post(MPZ, s2, n, B)
            c.io_post(MPZ, m1, c['m1'])
            if not c['malias']:
                c.io_post(MPZ, m2, c['m2'])

    @S.inv('cloog_seq_combine', 0)
    def _(c):
        i, n = c.v('i'), c.v('len')
        A, B, al = c.pre('A'), c.pre('B'), c.pre('al')
        c.fact(z3.And(i >= 0, i <= n), 'range')
        R = c.peek_arr(c.v('dst'))
        c.fact(forall_range(0, i, lambda k: R[k] == c.pre('m1') * A[k] + c.pre('m2') * B[k]), 'processed prefix')
        if al in (1, 3):
            c.fact(forall_range(i, n, lambda k: A[k] == R[k]), 'suffix')
        if al == 2:
            c.fact(forall_range(i, n, lambda k: B[k] == R[k]), 'suffix')

    @S.spec('cloog_seq_abs_min_non_zero', props=['C05'])
    class _:
        def pre(c):
            c.fact(c.a[1] >= 0)
            c['A'] = c.io_arr(MPZ, c.a[0], c.a[1])

        def post(c):
            A, n, r = c['A'], c.a[1], c.ret
            c.io_arr_post(MPZ, c.a[0], n, A)
            c.fact(z3.And(r >= -1, r < n), 'range')
            c.fact(z3.Implies(r < 0, forall_range(0, n, lambda k: A[k] == 0)), 'no element iff all zero')
            c.fact(z3.Implies(r >= 0, z3.And(A[r] != 0, forall_range(0, n, lambda k: z3.Or(A[k] == 0, zabs(A[r]) <= zabs(A[k]))))), 'least non-zero magnitude')

    @S.inv('cloog_seq_abs_min_non_zero', 0)
    def _(c):
        i, m, n = c.v('i'), c.v('min'), c.v('len')
        A = c.peek_arr(c.v('p'))
        c.fact(z3.And(i >= 0, i <= n, m >= 0, m < i), 'range')
        c.fact(z3.And(A[m] != 0, forall_range(0, i, lambda k: z3.Or(A[k] == 0, zabs(A[m]) <= zabs(A[k])))), 'least so far')

    from models import DVD, DSK, dvd_axioms

    @S.spec('cloog_seq_gcd', props=['C05'], axioms=dvd_axioms)
    class _:
        def pre(c):
            c.fact(c.a[1] >= 0)
            c['A'] = c.io_arr(MPZ, c.a[0], c.a[1])
            c.io(MPZ, c.a[2], 'gcd')

        def post(c):
            A, n = c['A'], c.a[1]
            c.io_arr_post(MPZ, c.a[0], n, A)
            g = c.io_post(MPZ, c.a[2])
            c['gcd'] = g
            c.fact(g >= 0, 'non-negative')
            c.fact(z3.Implies(g == 0, forall_range(0, n, lambda k: A[k] == 0)), 'zero only for the zero vector')
            if c.producing:
                c.fact(z3.Implies(g != 0, forall_range(0, n, lambda k: A[k] == g * FDIV(A[k], g))))
                c.fact(g == SGCD(A, n))   # the three clauses below determine g uniquely
            else:
                c.fact(z3.Implies(g != 0, forall_range(0, n, lambda k: DVD(g, A[k]))), 'divides every element')
                c.fact(z3.Implies(forall_range(0, n, lambda k: DVD(DSK, A[k])), DVD(DSK, g)), 'every common divisor divides it (greatest)')

    @S.inv('cloog_seq_gcd', 0)
    def _(c):
        i, m, n = c.v('i'), c.v('min'), c.v('len')
        A = c.pre('A')
        g = c.eng.load(c.st, c._loc(MPZ, c.v('gcd')), 0)
        c.fact(z3.And(i >= 0, i <= n, m >= 0, m < n), 'range')
        c.fact(g >= 1, 'positive')
        c.fact(DVD(g, A[m]), 'divides the pivot')
        c.fact(forall_range(0, i, lambda k: DVD(g, A[k])), 'divides the prefix')
        c.fact(z3.Implies(forall_range(0, n, lambda k: DVD(DSK, A[k])), DVD(DSK, g)), 'greatest')

    @S.spec('cloog_seq_is_neg', props=['C05'])
    class _:
        def pre(c):
            c.fact(c.a[2] >= 0)
            if c.case(c.a[0] == c.a[1]):
                c['al'] = True
                c['A'] = c['B'] = c.io_arr(MPZ, c.a[0], c.a[2])
            else:
                c['al'] = False
                c['A'] = c.io_arr(MPZ, c.a[0], c.a[2])
                c['B'] = c.io_arr(MPZ, c.a[1], c.a[2])

        def post(c):
            A, B, n = c['A'], c['B'], c.a[2]
            c.io_arr_post(MPZ, c.a[0], n, A)
            if not c['al']:
                c.io_arr_post(MPZ, c.a[1], n, B)
            q = forall_range(0, n, lambda k: A[k] == -B[k])
            c.fact(z3.Or(c.ret == 0, c.ret == 1), 'boolean')
            c.fact((c.ret == 1) == q, 'true exactly when one is the negation of the other')

    @S.inv('cloog_seq_is_neg', 0)
    def _(c):
        i, n = c.v('i'), c.v('len')
        A, B = c.pre('A'), c.pre('B')
        c.fact(z3.And(i >= 0, i <= n), 'range')
        c.fact(forall_range(0, i, lambda k: A[k] == -B[k]), 'prefix negated')

    @S.spec('cloog_seq_normalize', props=['C05'])
    class _:
        def pre(c):
            c.fact(c.a[1] >= 0)
            c['A'] = c.io_arr(MPZ, c.a[0], c.a[1])

        def post(c):
            A, n = c['A'], c.a[1]
            R = c.io_arr_post(MPZ, c.a[0], n)
            if c.producing:
                g = c.fresh('g')
                c.fact(z3.And(g >= 1, forall_range(0, n, lambda k: A[k] == g * R[k])))
                return
            if 'cloog_seq_gcd' in c.eng.used and not c.entails(n == 0):
                g = SGCD(A, n)
                g = z3.If(g == 0, iv(1), g)
                c.fact(g >= 1, 'positive scaling')
                c.fact(forall_range(0, n, lambda k: A[k] == g * R[k]), 'every element divided by the common divisor')
            else:
                j, k = c.fresh('j'), c.fresh('k')
                c.st.assume(z3.And(0 <= j, j < n, 0 <= k, k < n))
                if c.eng.feasible(c.st):
                    c.fact(A[j] * R[k] == A[k] * R[j], 'same direction')
                    c.fact(z3.And((A[j] > 0) == (R[j] > 0), (A[j] < 0) == (R[j] < 0)), 'same signs')
