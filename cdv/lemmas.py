"""Lemmas whose instances the contracts use as facts, proved here with Z3 from the definitions of the functions they mention.

Floor and ceiling quotients are introduced by their defining inequalities, "b divides u" (exact(u, b): b*floor(u/b) = u) by an
explicit witness; statements about sums and counts over prefixes are proved by induction on the length (base and step are two
queries over uninterpreted functions with the recursive definition instantiated at the step).  gcd lemmas are proved by showing
that the pairs have the same common divisors, the gcd being a function of the set of common divisors.
Each entry of LEMMAS is (name, properties, thunk(timeout in ms) -> bool)."""
import z3

I = z3.IntSort()
Ints = z3.Ints


def valid(hyps, goal, timeout):
    for tac in (None, 'qfnia', 'nlsat'):
        s = z3.Solver() if tac is None else z3.Tactic(tac if tac != 'nlsat' else 'qfnra-nlsat').solver()
        s.set('timeout', int(timeout))
        s.add(*hyps)
        s.add(z3.Not(goal))
        try:
            r = s.check()
        except z3.Z3Exception:
            continue
        if r == z3.unsat:
            return True
        if r == z3.sat and tac != 'nlsat':
            return False
    return False


def steps(*qs):
    """all queries (hyps, goal) are valid"""
    def run(timeout):
        return all(valid(h, g, timeout) for h, g in qs)
    return run


def floor_def(q, a, b):
    return z3.And(z3.Implies(b > 0, z3.And(b * q <= a, a < b * q + b)), z3.Implies(b < 0, z3.And(b * q >= a, a > b * q + b)))


def ceil_def(q, a, b):
    return z3.Implies(b > 0, z3.And(b * q >= a, a > b * q - b))


LEMMAS = []


def lemma(name, props, *qs):
    LEMMAS.append((name, props, steps(*qs)))


a, b, c, d, g, k, m, n, q, r, s, t, u, w, x, y = Ints('a b c d g k m n q r s t u w x y')
ALL = ['C10', 'C06', 'C07']

# a product with a factor of at least 1 does not shrink
lemma('product_grows', ALL,
      ([b > 0, t >= 1], b * t >= b),
      ([b > 0, t <= -1], b * t <= -b),
      ([b < 0, t >= 1], b * t <= b),
      ([b < 0, t <= -1], b * t >= -b))


def grows(b, t):
    return z3.And(z3.Implies(z3.And(b > 0, t >= 1), b * t >= b), z3.Implies(z3.And(b > 0, t <= -1), b * t <= -b),
                  z3.Implies(z3.And(b < 0, t >= 1), b * t <= b), z3.Implies(z3.And(b < 0, t <= -1), b * t >= -b))


# u = b k  =>  floor(u/b) = k       (with t = k - q)
lemma('fdiv_exact', ALL, ([b != 0, t == k - q, grows(b, t), b * k == b * q + b * t, floor_def(q, b * k, b)], q == k),
      ([t == k - q], b * k == b * q + b * t))
# n >= m k, m > 0  =>  floor(n/m) >= k
lemma('floor_monotone', ALL, ([m > 0, n >= m * k, floor_def(q, n, m), t == k - q, grows(m, t), m * k == m * q + m * t], q >= k))
# b | u, b | w  =>  b | u - q w     (witnesses k, m; the conclusion's witness is k - q m; exact() then follows by fdiv_exact)
lemma('multiples_closed', ALL, ([u == b * k, w == b * m], u - q * w == b * (k - q * m)))
# KV = c X + R + S Q = 0, F c + 1 = S k  =>  S | X - F R
X_, R_, S_, Q_, F_ = Ints('X R S Q F')
lemma('stride_residue', ALL,
      ([c * X_ + R_ + S_ * Q_ == 0], F_ * (c * X_ + R_ + S_ * Q_) == 0),
      ([F_ * (c * X_ + R_ + S_ * Q_) == 0, F_ * c + 1 == S_ * k, (F_ * c + 1) * X_ == S_ * k * X_], X_ - F_ * R_ == S_ * (k * X_ + F_ * Q_)),
      ([F_ * c + 1 == S_ * k], (F_ * c + 1) * X_ == S_ * k * X_))
# a X + R >= 0, X - d = s t, q = floor((R + a d)/(a s))  =>  X + s q - d >= 0
lemma('bound_on_stride', ALL,
      ([a > 0, s > 0], a * s > 0),
      ([a * X_ + R_ >= 0, X_ - d == s * t, a * X_ - a * d == a * s * t], R_ + a * d >= (a * s) * (-t)),
      ([X_ - d == s * t], a * X_ - a * d == a * s * t),
      # by floor_monotone q >= -t
      ([s > 0, q + t >= 0], s * (q + t) >= 0),
      ([s * (q + t) >= 0, X_ - d == s * t], X_ + s * q - d >= 0))
# KV = c X + R >= 0, c > 0, q = ceil(-R/c)  =>  X - q >= 0      (w = X - q)
lemma('ceil_bound', ALL, ([c > 0, c * X_ + R_ >= 0, ceil_def(q, -R_, c), w == X_ - q, grows(c, w), c * X_ == c * q + c * w], w >= 0),
      ([w == X_ - q], c * X_ == c * q + c * w))
# common divisors
lemma('gcd_abs', ALL, ([a == d * k], -a == d * (-k)))                               # d | a <=> d | -a
lemma('euclid_step', ALL,
      ([c == g * k, d == g * m], c - q * d == g * (k - q * m)),                     # g | c, d  =>  g | c - q d
      ([c - q * d == g * k, d == g * m], c == g * (k + q * m)))                     # g | d, c - q d  =>  g | c
# g | d, d | u (or d = u = 0), X + t = u  =>  g | X + (t mod g)
lemma('coarser_class', ALL,
      ([d == g * m, X_ + t == d * k, r == t - g * q], X_ + r == g * (m * k - q)),
      ([X_ + t == 0, r == t - g * q], X_ + r == g * (-q)))
lemma('shift_class', ALL, ([X_ + u == s * k], X_ - (s - u) == s * (k - 1)))


def induct(name, props, base, step):
    lemma(name, props, base, step)


def fn(name, *sorts):
    return z3.Function(name, *sorts)


# ---- sums over the existentials: with G(i+1) = gcd(G(i), e(i)) dividing G(i) and e(i), the partial sum is a multiple of G(i)
G, e, v, D, W = fn('G', I, I), fn('e', I, I), fn('v', I, I), fn('D', I, I), fn('W', I, I)
i = z3.Int('i')
lemma('kd_multiple', ALL,
      ([D(0) == 0], D(0) == G(0) * 0),
      ([i >= 0, D(i) == G(i) * W(i), D(i + 1) == D(i) + e(i) * v(i), G(i) == G(i + 1) * k, e(i) == G(i + 1) * m],
       D(i + 1) == G(i + 1) * (k * W(i) + m * v(i))))

# ---- counting functions grow with the prefix, by induction on the end j of the longer prefix
CN = fn('CN', I, I)
skip = fn('skip', I, z3.BoolSort())
j = z3.Int('j')
cdef = z3.Implies(j >= 0, CN(j + 1) == z3.If(skip(j), CN(j), CN(j) + 1))
for nm in ('cn_monotone', 'dn_monotone'):
    lemma(nm, ['C01'],
          ([i >= 0, CN(0) == 0], z3.And(CN(0) >= 0)),
          ([j >= 0, CN(j) >= 0, cdef], CN(j + 1) >= 0),
          ([j == i], CN(i) <= CN(j)),
          ([i >= 0, j >= i, CN(i) <= CN(j), cdef], CN(i) <= CN(j + 1)))

# ---- the partial sum without variable p does not depend on p's coefficient
PS, PS2, cf, cf2, vv = fn('PS', I, I), fn('PS2', I, I), fn('cf', I, I), fn('cf2', I, I), fn('vv', I, I)
p = z3.Int('p')


def psdef(PS, cf, i):
    return PS(i + 1) == z3.If(i == p, PS(i), PS(i) + cf(i) * vv(i))


lemma('ps_other', ['C01'],
      ([PS(0) == 0, PS2(0) == 0], PS(0) == PS2(0)),
      ([i >= 0, PS(i) == PS2(i), psdef(PS, cf, i), psdef(PS2, cf2, i), z3.Implies(i != p, cf(i) == cf2(i))], PS(i + 1) == PS2(i + 1)))

# ---- reductions over prefixes of an array of expressions
Tree = z3.DeclareSort('TreeL')
AT = z3.ArraySort(I, Tree)
RF = fn('RF', I, AT, I, I)
ev = fn('evL', Tree, I)
E, h, xx = z3.Const('E', AT), z3.Int('h'), z3.Const('x', Tree)
ty = z3.Int('ty')


def rfdef(E, i):
    v, r = ev(E[i]), RF(ty, E, i)
    return RF(ty, E, i + 1) == z3.If(i == 0, v, z3.If(ty == 0, r + v, z3.If(ty == 1, z3.If(v < r, v, r), z3.If(v > r, v, r))))


E2 = z3.Store(E, h, xx)
lemma('rf_prefix', ['C01', 'C04'],
      ([RF(ty, E, 0) == 0, RF(ty, E2, 0) == 0], RF(ty, E2, 0) == RF(ty, E, 0)),
      ([i >= 0, i < h, RF(ty, E2, i) == RF(ty, E, i), rfdef(E, i), rfdef(E2, i)], RF(ty, E2, i + 1) == RF(ty, E, i + 1)))
lemma('rf_same_value', ['C01', 'C04'],
      ([i >= 0, h >= 0, ev(xx) == ev(E[h]), RF(ty, E2, i) == RF(ty, E, i), rfdef(E, i), rfdef(E2, i)], RF(ty, E2, i + 1) == RF(ty, E, i + 1)))

# ---- lines of coefficients (spec_guard): L(i) = sum over 1 <= j < i of A[j] V[j]
G2 = ['C02']
L, L2 = fn('L', I, I), fn('L2', I, I)
A_, A2_, V_ = fn('A', I, I), fn('A2', I, I), fn('V', I, I)


def ldef(L, A, i):
    return L(i + 1) == L(i) + A(i) * V_(i)


LB = [L(1) == 0, L2(1) == 0]
LD = [i >= 1, ldef(L, A_, i), ldef(L2, A2_, i), z3.Implies(V_(i) == 0, z3.And(A_(i) * V_(i) == 0, A2_(i) * V_(i) == 0))]
lemma('ls_neg', G2, (LB, L2(1) == -L(1)), (LD + [L2(i) == -L(i), z3.Or(A2_(i) == -A_(i), V_(i) == 0)], L2(i + 1) == -L(i + 1)))
lemma('ls_same', G2, (LB, L2(1) == L(1)), (LD + [L2(i) == L(i), z3.Or(A2_(i) == A_(i), V_(i) == 0)], L2(i + 1) == L(i + 1)))
lemma('ls_mod', G2, (LB, L2(1) - L(1) == m * 0),
      (LD + [L2(i) - L(i) == m * k, A2_(i) - A_(i) == m * q], L2(i + 1) - L(i + 1) == m * (k + q * V_(i))),
      (LD + [L2(i) - L(i) == m * k, V_(i) == 0], L2(i + 1) - L(i + 1) == m * k))
lemma('ls_zero', G2, (LB, L(1) == 0), (LD + [L(i) == 0, z3.Or(A_(i) == 0, V_(i) == 0)], L(i + 1) == 0))
l_ = z3.Int('l')
P_, cf_, vv_ = fn('Pl', I, I), fn('cfl', I, I), fn('vvl', I, I)
lemma('ls_ps', G2, ([L(1) == 0, P_(0) == 0], L(1) == P_(0)),
      ([i >= 1, ldef(L, A_, i), L(i) == P_(i - 1), A_(i) == cf_(i - 1), V_(i) == z3.If(i == l_, 0, vv_(i - 1)),
        P_(i) == z3.If(i - 1 == l_ - 1, P_(i - 1), P_(i - 1) + cf_(i - 1) * vv_(i - 1))], L(i + 1) == P_(i)))
rx, ry, qx, qy = Ints('rx ry qx qy')
lemma('mod_cong', G2,
      ([x - y == m * k, rx == x - m * qx, ry == y - m * qy, w == k - qx + qy], rx - ry == m * w),
      ([m > 0, rx >= 0, rx < m, ry >= 0, ry < m, rx - ry == m * w, grows(m, w)], w == 0),
      ([w == 0, rx - ry == m * w], rx == ry))
lemma('add_cong', G2, ([x == m * k, y == m * q], x + y == m * (k + q)))
lemma('mod_small', G2, ([m > 0, c >= 0, c < m, r == c - m * q, r >= 0, r < m, grows(m, q)], r == c))
# ---- elimination of level l with a stride (D = L2 - L)
k1, k2, k3, o_, f_, nb_, kc = Ints('k1 k2 k3 o f nb kc')
T_, SI, SP = fn('T', I, I), fn('SI', I, I), fn('SP', I, I)
Al, Vl = A_(l_), V_(l_)
lemma('elim_sound', G2,
      # without a constraint: every coefficient but that of l is the same
      (LD + [L2(i) == L(i), i < l_, A2_(i) == A_(i)], L2(i + 1) == L(i + 1)),
      (LD + [L2(i) == L(i), i == l_, A2_(i) == 0], L2(i + 1) == L(i + 1) - A_(i) * V_(i)),
      (LD + [L2(i) == L(i) - Al * Vl, i > l_, A2_(i) == A_(i)], L2(i + 1) == L(i + 1) - Al * Vl),
      ([u == -Al * Vl, w - x == Al * o_ + m * k1, Vl - o_ == s * k2, s == m * k3, Al * Vl - Al * o_ == Al * s * k2],
       u + w - x == m * (k1 - Al * k3 * k2)),
      ([Vl - o_ == s * k2], Al * Vl - Al * o_ == Al * s * k2),
      # with a constraint: iterators before l
      (LD + [i < l_, L2(i) - L(i) == t * SI(i - 1) + m * k, SI(i) == SI(i - 1) + cf_(i - 1) * V_(i), A2_(i) - A_(i) - t * cf_(i - 1) == m * q],
       L2(i + 1) - L(i + 1) == t * SI(i) + m * (k + q * V_(i))),
      # l itself
      (LD + [i == l_, L2(i) - L(i) == t * SI(l_ - 1) + m * k, A2_(i) == 0], L2(i + 1) - L(i + 1) == t * SI(l_ - 1) + m * k - Al * Vl),
      # the variables after it
      (LD + [i > l_, i <= nb_, L2(i) - L(i) == u, A2_(i) == A_(i)], L2(i + 1) - L(i + 1) == u),
      # parameters (q-th parameter is variable nb + 1 + q; coefficient cf_(i) here)
      (LD + [i > nb_, L2(i) - L(i) == u + t * SP(i - nb_ - 1) + m * k, SP(i - nb_) == SP(i - nb_ - 1) + cf_(i) * V_(i), A2_(i) - A_(i) - t * cf_(i) == m * q],
       L2(i + 1) - L(i + 1) == u + t * SP(i - nb_) + m * (k + q * V_(i))),
      # together with the constant
      ([t == Al * f_, d == y + r + kc, u == t * y + m * k - Al * Vl + t * r + m * q, w - x == t * kc + m * k1, Vl - f_ * d == s * k2, s == m * k3,
        Al * Vl - Al * f_ * d == Al * s * k2, t * d == t * y + t * r + t * kc, Al * f_ * d == t * d, Al * s * k2 == m * (Al * k3 * k2)],
       u + w - x == m * (k + q + k1 - Al * k3 * k2)),
      ([Vl - f_ * d == s * k2], Al * Vl - Al * f_ * d == Al * s * k2),
      ([d == y + r + kc], t * d == t * y + t * r + t * kc),
      ([t == Al * f_], Al * f_ * d == t * d),
      ([s == m * k3], Al * s * k2 == m * (Al * k3 * k2)))

# ---- bounds of a level (spec_minmax)
M1 = ['C01']
# ceil_def(q, -r, a), floor_def(q, r, -a), with w = x - q
lemma('bound_holds', M1,
      ([a > 0, ceil_def(q, -r, a), w == x - q, a * x == a * q + a * w, grows(a, w)], (a * x + r >= 0) == (x >= q)),
      ([a < 0, floor_def(q, r, -a), w == x - q, a * x == a * q + a * w, grows(-a, w), -a * w == (-a) * w, (-a) * q == -(a * q)], (a * x + r >= 0) == (x <= q)),
      ([w == x - q], a * x == a * q + a * w))
lemma('count_monotone', M1,
      ([i >= 0, CN(0) == 0], z3.And(CN(0) >= 0)),
      ([j >= 0, CN(j) >= 0, cdef], CN(j + 1) >= 0),
      ([j == i], CN(i) <= CN(j)),
      ([i >= 0, j >= i, CN(i) <= CN(j), cdef], CN(i) <= CN(j + 1)))
# x - d = s k, q = ceil((v - d)/s)
lemma('stride_ceil', M1,
      ([s > 0, x - d == s * k, s * q >= n - d, s * q < n - d + s, w == k - q, s * k == s * q + s * w, grows(s, w)], (x >= n) == (x >= s * q + d)),
      ([w == k - q], s * k == s * q + s * w))
# x - d = s k, b = a s, q = ceil(u/(a s))
lemma('stride_bound', M1,
      ([a > 0, s > 0], a * s > 0),
      ([x - d == s * k], a * x - a * d == a * s * k),
      ([a > 0, s > 0, b == a * s, b > 0, x - d == s * k, a * x - a * d == b * k, b * q >= u, b * q < u + b, w == k - q, b * k == b * q + b * w, s * k == s * q + s * w,
        grows(b, w), grows(s, w)], (a * x >= u + a * d) == (x >= s * q + d)),
      ([w == k - q], b * k == b * q + b * w))
# a reduction does not change when two neighbours change places, so it does not depend on the order of its elements


def red(ty, r, x):
    return z3.If(ty == 0, r + x, z3.If(ty == 1, z3.If(x < r, x, r), z3.If(x > r, x, r)))


lemma('red_swap', M1,
      ([], red(t, x, y) == red(t, y, x)),
      ([], red(t, red(t, r, x), y) == red(t, red(t, r, y), x)))

# ---- guards of a constraint set (spec_gset)
B_ = z3.BoolSort()
G3 = ['C02']
GCa, GCb = fn('GCa', I, B_), fn('GCb', I, B_)
ca, cb = fn('ca', I, B_), fn('cb', I, B_)       # the k-th condition
lemma('gc_prefix', G3,
      ([GCa(0), GCb(0)], GCa(0) == GCb(0)),
      ([i >= 0, GCa(i) == GCb(i), ca(i) == cb(i), GCa(i + 1) == z3.And(GCa(i), ca(i)), GCb(i + 1) == z3.And(GCb(i), cb(i))], GCa(i + 1) == GCb(i + 1)))
# a conjunction does not change when two neighbours change places, so it does not depend on the order of its conditions
lemma('gc_swap', G3, ([GCa(i + 1) == z3.And(GCa(i), ca(0)), GCa(i + 2) == z3.And(GCa(i + 1), ca(1)), GCb(i + 1) == z3.And(GCa(i), ca(1)), GCb(i + 2) == z3.And(GCb(i + 1), ca(0))],
                       GCa(i + 2) == GCb(i + 2)))
# all constraints whose first variable is i = the single ones, the lower and the upper bounds
IN_, SN_, LO_, UP_ = fn('INf', I, B_), fn('SNf', I, B_), fn('LOf', I, B_), fn('UPf', I, B_)
ns, sg, lw, okk = z3.Bools('ns sg lw okk')
lemma('first_split', G3,
      ([IN_(0), SN_(0), LO_(0), UP_(0)], IN_(0) == z3.And(SN_(0), LO_(0), UP_(0))),
      ([IN_(i) == z3.And(SN_(i), LO_(i), UP_(i)), IN_(i + 1) == z3.And(IN_(i), z3.Implies(ns, okk)), SN_(i + 1) == z3.And(SN_(i), z3.Implies(z3.And(ns, sg), okk)),
        LO_(i + 1) == z3.And(LO_(i), z3.Implies(z3.And(ns, z3.Not(sg), lw), okk)), UP_(i + 1) == z3.And(UP_(i), z3.Implies(z3.And(ns, z3.Not(sg), z3.Not(lw)), okk))],
       IN_(i + 1) == z3.And(SN_(i + 1), LO_(i + 1), UP_(i + 1))),
      # level 0: every constraint is single
      ([IN_(i) == SN_(i), sg, IN_(i + 1) == z3.And(IN_(i), z3.Implies(ns, okk)), SN_(i + 1) == z3.And(SN_(i), z3.Implies(z3.And(ns, sg), okk))], IN_(i + 1) == SN_(i + 1)))
# no bound among the first k constraints: the bounds hold
lemma('count_zero', G3,
      ([LO_(0)], LO_(0)),
      ([i >= 0, CN(i) >= 0, CN(i + 1) == CN(i) + z3.If(ns, 1, 0), LO_(i + 1) == z3.And(LO_(i), z3.Implies(ns, okk)), z3.Implies(CN(i) == 0, LO_(i)), CN(i + 1) == 0], LO_(i + 1)))
# first variables: LT(k) counts those below i, EQ(k) those at i, LT1(k) those up to i, CT(k) all of the first k constraints
LT_, EQ_, LT1_, CT_ = fn('LTf', I, I), fn('EQf', I, I), fn('LT1f', I, I), fn('CTf', I, I)
vis, blw, at_ = z3.Bools('vis blw at')
one_ = lambda b_: z3.If(b_, 1, 0)
lemma('count_first', G3,
      ([LT_(0) == 0, EQ_(0) == 0, LT1_(0) == 0, CT_(0) == 0], z3.And(LT1_(0) == LT_(0) + EQ_(0), LT1_(0) <= CT_(0))),
      ([i >= 0, z3.Not(z3.And(blw, at_)), LT_(i + 1) == LT_(i) + one_(z3.And(vis, blw)), EQ_(i + 1) == EQ_(i) + one_(z3.And(vis, at_)),
        LT1_(i + 1) == LT1_(i) + one_(z3.And(vis, z3.Or(blw, at_))), CT_(i + 1) == CT_(i) + one_(vis), LT1_(i) == LT_(i) + EQ_(i), LT1_(i) <= CT_(i)],
       z3.And(LT1_(i + 1) == LT_(i + 1) + EQ_(i + 1), LT1_(i + 1) <= CT_(i + 1), EQ_(i) <= EQ_(i + 1))))
