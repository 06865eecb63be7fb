"""Trusted models: GMP integers as mathematical integers, libc allocation, strings, stdio."""
import re
import z3
from front import T, INT, VOID, MPZ, CHAR, ToolLimit
from engine import (iv, ZERO, simp, mk_elem, b2i, UNINIT, ArrVal, SChunk, AChunk, CChunk, PChunk, IChunk, Pred, Prune,
                    PathDead, isval, I, SV)

FDIV = z3.Function('fdiv', I, I, I)
CDIV = z3.Function('cdiv', I, I, I)
GCD = z3.Function('gcd', I, I, I)
MOD = z3.Function('fmod', I, I, I)      # floor modulo


def zi(x):
    return x.as_long() if isval(x) else None


def fdiv(st, a, b):
    a, b = simp(a), simp(b)
    if isval(a) and isval(b) and zi(b) != 0:
        return iv(zi(a) // zi(b))
    if isval(b) and zi(b) == 1:
        return a
    q = FDIV(a, b)
    st.assume(z3.Implies(b > 0, z3.And(b * q <= a, a < b * q + b)))
    st.assume(z3.Implies(b < 0, z3.And(b * q >= a, a > b * q + b)))
    return q


def cdiv(st, a, b):
    a, b = simp(a), simp(b)
    if isval(a) and isval(b) and zi(b) != 0:
        return iv(-((-zi(a)) // zi(b)))
    if isval(b) and zi(b) == 1:
        return a
    q = CDIV(a, b)
    st.assume(z3.Implies(b > 0, z3.And(b * q >= a, a > b * q - b)))
    st.assume(z3.Implies(b < 0, z3.And(b * q <= a, a < b * q - b)))
    return q


def fmod(st, a, b):
    a, b = simp(a), simp(b)
    if isval(a) and isval(b) and zi(b) != 0:
        return iv(zi(a) % zi(b))
    q = fdiv(st, a, b)
    r = MOD(a, b)
    st.assume(r == a - b * q)
    st.assume(z3.Implies(b > 0, z3.And(r >= 0, r < b)))
    return r


def tdivq(st, a, b):
    """truncating quotient through floor division of magnitudes"""
    q = fdiv(st, a, b)
    q2 = cdiv(st, a, b)
    neg = z3.Or(z3.And(a < 0, b > 0), z3.And(a > 0, b < 0))
    return simp(z3.If(neg, q2, q))


def gcd(st, a, b):
    a, b = simp(a), simp(b)
    if isval(a) and isval(b):
        import math
        return iv(math.gcd(zi(a), zi(b)))
    g = GCD(a, b)
    st.assume(g >= 0)
    st.assume(z3.Implies(z3.Or(a != 0, b != 0), g >= 1))
    st.assume(z3.Implies(z3.And(a == 0, b == 0), g == 0))
    st.assume(z3.Implies(a == 0, g == z3.If(b >= 0, b, -b)))
    st.assume(z3.Implies(b == 0, g == z3.If(a >= 0, a, -a)))
    # g divides both: with the floor quotients as witnesses
    qa, qb = FDIV(a, g), FDIV(b, g)
    st.assume(z3.Implies(g > 0, z3.And(a == g * qa, b == g * qb)))
    st.assume(z3.Implies(a != 0, g <= z3.If(a >= 0, a, -a)))
    st.assume(z3.Implies(b != 0, g <= z3.If(b >= 0, b, -b)))
    st.assume(z3.Implies(g > 0, z3.And(DVD(g, a), DVD(g, b))))
    st.assume(z3.Implies(z3.And(DVD(DSK, a), DVD(DSK, b)), DVD(DSK, g)))
    return g


# divisibility as an uninterpreted relation with its standard laws (only used by int.c contracts)
DVD = z3.Function('dvd', I, I, z3.BoolSort())
DSK = z3.Int('any_divisor')
_x, _y, _z = z3.Ints('x! y! z!')
dvd_axioms = [
    z3.ForAll([_x, _y, _z], z3.Implies(z3.And(DVD(_x, _y), DVD(_y, _z)), DVD(_x, _z)), patterns=[z3.MultiPattern(DVD(_x, _y), DVD(_y, _z))]),
    z3.ForAll([_x], z3.And(DVD(_x, 0), DVD(1, _x)), patterns=[DVD(_x, 0)]),
    z3.ForAll([_y], DVD(1, _y), patterns=[DVD(1, _y)]),
]

NUMSTR = Pred('numstr', [I], None, nullable=False)
STR = Pred('heapstr', [I], None, nullable=False)


def _rd(eng, st, addr, line):
    for s2, loc in eng.cell(st, addr, MPZ, line):
        try:
            v = eng.load(s2, loc, line)
        except (PathDead, Prune):
            continue
        yield s2, v


def _wr(eng, st, addr, v, line):
    for s2, loc in eng.cell(st, addr, MPZ, line):
        c, path, idx = loc
        old = eng.load(s2, loc, line, raw=True)
        if isinstance(old, str):
            try:
                eng.prove(s2, False, 'write to uninitialised multi-precision integer', line)
            except (PathDead, Prune):
                pass
            continue
        try:
            eng.store(s2, loc, v, line)
        except (PathDead, Prune):
            continue
        yield s2


def _rds(eng, st, addrs, line):
    if not addrs:
        yield st, []
        return
    for s2, v in _rd(eng, st, addrs[0], line):
        for s3, r in _rds(eng, s2, addrs[1:], line):
            yield s3, [v] + r


def _op(nsrc, f, consts=()):
    """mpz_xxx(r, a.., const..)"""
    def m(eng, st, vs, n, args):
        line = eng.line(n)
        srcs = vs[1:1 + nsrc]
        for s2, xs in _rds(eng, st, srcs, line):
            try:
                v = f(eng, s2, line, *(xs + list(vs[1 + nsrc:])))
            except (PathDead, Prune):
                continue
            for s3 in _wr(eng, s2, vs[0], simp(v), line):
                yield s3, ZERO
    return m


def _rdop(nsrc, f):
    def m(eng, st, vs, n, args):
        for s2, xs in _rds(eng, st, vs[:nsrc], eng.line(n)):
            yield s2, simp(f(eng, s2, eng.line(n), *(xs + list(vs[nsrc:]))))
    return m


def sign(x):
    return z3.If(x > 0, iv(1), z3.If(x < 0, iv(-1), ZERO))


def zabs_dvd(st, x):
    a = zabs(x)
    st.assume(DVD(DSK, a) == DVD(DSK, x))
    st.assume(z3.Implies(x != 0, DVD(a, x)))
    st.assume(DVD(DSK, iv(0)))
    return a


def zabs(x):
    return z3.If(x >= 0, x, -x)


def addmul(eng, st, vs, n, args, sgn=1):
    line = eng.line(n)
    for s2, xs in _rds(eng, st, vs, line):
        for s3 in _wr(eng, s2, vs[0], simp(xs[0] + sgn * xs[1] * xs[2]), line):
            yield s3, ZERO


def swap(eng, st, vs, n, args):
    line = eng.line(n)
    for s2, (a, b) in _rds(eng, st, vs, line):
        for s3 in _wr(eng, s2, vs[0], b, line):
            for s4 in _wr(eng, s3, vs[1], a, line):
                yield s4, ZERO


def minit(eng, st, vs, n, args, val=None):
    line = eng.line(n)
    for s2, loc in eng.cell(st, vs[0], MPZ, line):
        c, path, idx = loc
        try:
            if c.kind == 'A':
                lo, hi = c.ini
                if eng.entails(s2, lo >= hi):
                    s2.replace(c, c.upd(ini=(idx, simp(idx + 1)), arr=z3.Store(c.arr, idx, ZERO)))
                elif eng.entails(s2, idx == lo - 1):
                    s2.replace(c, c.upd(ini=(idx, hi), arr=z3.Store(c.arr, idx, ZERO)))
                else:
                    eng.prove(s2, idx == hi, 'mpz array initialised in order, each element once', line)
                    s2.replace(c, c.upd(ini=(lo, simp(hi + 1)), arr=z3.Store(c.arr, idx, ZERO)))
            else:
                old = eng.load(s2, loc, line, raw=True)
                if not isinstance(old, str):
                    eng.prove(s2, False, 'leak: multi-precision integer initialised twice', line)
                    continue
                eng.store(s2, loc, val if val is not None else ZERO, line)
        except (PathDead, Prune):
            continue
        yield s2, ZERO


def mclear(eng, st, vs, n, args):
    line = eng.line(n)
    for s2, loc in eng.cell(st, vs[0], MPZ, line):
        c, path, idx = loc
        try:
            if c.kind == 'A':
                lo, hi = c.ini
                eng.prove(s2, z3.And(lo <= idx, idx < hi), 'clear of an initialised element', line)
                if eng.entails(s2, idx == lo):
                    s2.replace(c, c.upd(ini=(simp(lo + 1), hi)))
                else:
                    eng.prove(s2, idx == hi - 1, 'mpz array cleared in order, each element once', line)
                    s2.replace(c, c.upd(ini=(lo, simp(hi - 1))))
            else:
                old = eng.load(s2, loc, line, raw=True)
                if isinstance(old, str):
                    eng.prove(s2, False, 'multi-precision integer cleared twice or never initialised', line)
                    continue
                eng.store(s2, loc, UNINIT, line)
        except (PathDead, Prune):
            continue
        yield s2, ZERO


def _divexact(eng, st, line, a, b):
    eng.prove(st, b != 0, 'exact division by zero', line)
    q = fdiv(st, a, b)
    eng.prove(st, q * b == a, 'exact division has no remainder', line)
    return q


def _nz(f):
    def g(eng, st, line, a, b):
        eng.prove(st, b != 0, 'division by zero', line)
        return f(st, a, b)
    return g


def divisible(eng, st, line, a, b):
    if isval(b) and zi(b) == 0:
        return b2i(a == 0)
    r = fmod(st, a, b)
    return z3.If(b == 0, b2i(a == 0), b2i(r == 0))


def get_str(eng, st, vs, n, args):
    for s2, v in _rd(eng, st, vs[2], eng.line(n)):
        p = eng.fresh_addr()
        s2.heap.append(PChunk(NUMSTR, (p,), (v,)))
        yield s2, p


def gmp_free_model(eng, st, vs, n, args):
    line = eng.line(n)
    for c in st.heap:
        if c.kind == 'P' and c.p in (NUMSTR, STR) and c.addr.eq(simp(vs[0])):
            st.replace(c, None)
            yield st, ZERO
            return
    raise ToolLimit('gmp free of unknown pointer')


def get_mem(eng, st, vs, n, args):
    p = vs[2]
    for s2, loc in eng.cell(st, p, T('ptr', T('func')), eng.line(n)):
        eng.store(s2, loc, eng.fn_value('__gmp_free'), eng.line(n))
        yield s2, ZERO


def mpz_models(S):
    B = S.builtins
    B['mpz_init'] = minit
    B['mpz_clear'] = mclear
    B['mpz_set'] = _op(1, lambda e, s, l, a: a)
    B['mpz_set_si'] = B['mpz_set_ui'] = _op(0, lambda e, s, l, c: c)
    B['mpz_abs'] = _op(1, lambda e, s, l, a: zabs_dvd(s, a))
    B['mpz_neg'] = _op(1, lambda e, s, l, a: -a)
    B['mpz_swap'] = swap
    B['mpz_add'] = _op(2, lambda e, s, l, a, b: a + b)
    B['mpz_sub'] = _op(2, lambda e, s, l, a, b: a - b)
    B['mpz_mul'] = _op(2, lambda e, s, l, a, b: a * b)
    B['mpz_add_ui'] = _op(1, lambda e, s, l, a, c: a + c)
    B['mpz_sub_ui'] = _op(1, lambda e, s, l, a, c: a - c)
    B['mpz_mul_si'] = _op(1, lambda e, s, l, a, c: a * c)
    B['mpz_addmul'] = addmul
    B['mpz_submul'] = lambda e, s, v, n, a: addmul(e, s, v, n, a, -1)
    B['mpz_divexact'] = _op(2, _divexact)
    B['mpz_fdiv_q'] = _op(2, _nz(fdiv))
    B['mpz_cdiv_q'] = _op(2, _nz(cdiv))
    B['mpz_tdiv_q'] = _op(2, _nz(tdivq))
    B['mpz_fdiv_r'] = _op(2, _nz(fmod))
    B['mpz_tdiv_r'] = _op(2, _nz(lambda s, a, b: a - b * tdivq(s, a, b)))
    B['mpz_gcd'] = _op(2, lambda e, s, l, a, b: gcd(s, a, b))
    B['mpz_sgn'] = _rdop(1, lambda e, s, l, a: sign(a))
    B['mpz_cmp'] = _rdop(2, lambda e, s, l, a, b: sign(a - b))
    B['mpz_cmpabs'] = _rdop(2, lambda e, s, l, a, b: sign(zabs(a) - zabs(b)))
    B['mpz_cmp_si'] = _rdop(1, lambda e, s, l, a, c: sign(a - c))
    B['mpz_cmp_ui'] = B['mpz_cmp_si']
    def get_si(e, s, l, a):
        a = simp(a)
        if isval(a) and -2**63 <= a.as_long() < 2**63:
            return a
        r = e.fresh('si')
        s.assume(z3.Implies(z3.And(a >= -2**63, a < 2**63), r == a))
        return r
    B['mpz_get_si'] = _rdop(1, get_si)
    B['mpz_divisible_p'] = _rdop(2, divisible)
    B['mpz_get_str'] = get_str
    B['mp_get_memory_functions'] = get_mem
    B['__gmp_free'] = gmp_free_model


# ------------------------------------------------------------------ libc
def sizeof_consts(t):
    out = set()

    def go(x):
        if z3.is_const(x) and x.decl().name().startswith('sizeof!'):
            out.add(x)
        for k in x.children():
            go(k)
    go(t)
    return sorted(out, key=str)


def subst(t, pairs):
    return simp(z3.substitute(t, *pairs)) if pairs else simp(t)


def alloc(eng, st, size, zero, line, count=None):
    """allocate for a byte-size term"""
    size = simp(size)
    cs = sizeof_consts(size)
    a = eng.fresh_addr()
    if not cs:
        # untyped bytes: character buffer
        st.heap.append(AChunk(CHAR, a, size, z3.K(I, ZERO) if zero else eng.fresh('buf', z3.ArraySort(I, I)), 'heap'))
        return a
    types = {c: eng.sizeof_types[c.decl().name()] for c in cs}
    coef = {}
    for c in cs:
        one = subst(size, [(x, iv(1) if x.eq(c) else ZERO) for x in cs])
        base = subst(size, [(x, ZERO) for x in cs])
        coef[c] = simp(one - base)
    structs = [c for c in cs if types[c].k == 'struct']
    if len(cs) == 1:
        c = cs[0]
        t, n = types[c], coef[c]
        if t.k == 'struct':
            if isval(n) and n.as_long() == 1:
                ch = eng.new_struct(t.a, a, 'heap', None)
                if zero:
                    ch = SChunk(ch.s, ch.addr, {k: (ZERO if not isinstance(v, ArrVal) else v) for k, v in ch.f.items()}, ch.region)
                st.heap.append(ch)
                return a
            arrs = {p: eng.fresh('arr', z3.ArraySort(I, I)) for p, tt in eng.db.flat(t.a)}
            st.heap.append(AChunk(t, a, n, arrs, 'heap'))
            return a
        ini = (ZERO, ZERO) if t.k == 'mpz' else None
        if isval(n) and n.as_long() == 1 and t.k != 'mpz' and False:
            st.heap.append(CChunk(t, a, ZERO if zero else UNINIT, 'heap'))
        else:
            eng.prove(st, n >= 0, 'allocation size is not negative', line)
            st.heap.append(AChunk(t, a, n, z3.K(I, ZERO) if zero else eng.fresh('arr', z3.ArraySort(I, I)), 'heap', ini))
        return a
    if len(structs) == 1 and isval(coef[structs[0]]) and coef[structs[0]].as_long() == 1 and len(cs) == 2:
        sc = structs[0]
        oc = [c for c in cs if not c.eq(sc)][0]
        S = types[sc].a
        last, lt = eng.db.fields(S)[-1]
        if lt.k == 'array' and lt.a == types[oc]:
            st.heap.append(eng.new_struct(S, a, 'heap', None, size=simp(coef[oc] + lt.n)))
            return a
    if len(structs) == 2:
        # struct with flexible array of structs: S1 + (n-1) * S2
        for sc in structs:
            oc = [c for c in structs if not c.eq(sc)][0]
            S = types[sc].a
            last, lt = eng.db.fields(S)[-1]
            if lt.k == 'array' and lt.a == types[oc] and isval(coef[sc]) and coef[sc].as_long() == 1:
                st.heap.append(eng.new_struct(S, a, 'heap', None, size=simp(coef[oc] + lt.n)))
                return a
    raise ToolLimit('allocation size %s' % size)


def m_malloc(eng, st, vs, n, args):
    yield st, alloc(eng, st, vs[0], False, eng.line(n))


def m_calloc(eng, st, vs, n, args):
    yield st, alloc(eng, st, simp(vs[0] * vs[1]), True, eng.line(n))


def m_realloc(eng, st, vs, n, args):
    line = eng.line(n)
    p = simp(vs[0])
    for s2, isnull in eng.fork(st, p == 0):
        if isnull:
            yield s2, alloc(eng, s2, vs[1], False, line)
            continue
        old = None
        for exact in (True, False):
            for c in s2.heap:
                if c.kind == 'A' and c.region == 'heap' and (c.base.eq(p) if exact else eng.must_eq(s2, c.base, p)):
                    old = c
                    break
            if old is not None:
                break
        if old is None:
            eng.prove(s2, False, 'realloc of memory not owned', line)
            return
        a = alloc(eng, s2, vs[1], False, line)
        new = s2.heap[-1]
        s2.heap = [x for x in s2.heap if x is not old]
        # contents are kept up to the smaller size; elements beyond are unspecified
        if eng.entails(s2, new.size >= old.size):
            j = z3.Int('j')
            s2.replace(new, new.upd(arr=old.arr, ini=old.ini))
        else:
            s2.replace(new, new.upd(arr=old.arr, ini=old.ini))
        yield s2, a


def m_free(eng, st, vs, n, args):
    line = eng.line(n)
    p = simp(vs[0])
    for s2, isnull in eng.fork(st, p == 0):
        if isnull:
            yield s2, ZERO
        else:
            yield from free_at(eng, s2, p, line)


def free_at(eng, st, p, line, depth=0):
    for exact in (True, False):
        for c in st.heap:
            if c.kind in 'SAC' and (c.addr.eq(p) if exact else eng.must_eq(st, c.addr, p)):
                try:
                    if c.region != 'heap':
                        eng.prove(st, False, 'free of memory that is not an owned heap block', line)
                        return
                    if c.kind == 'S':
                        for q, t in eng.db.flat(c.s):
                            if t.k == 'mpz' and not isinstance(c.f[q], str):
                                eng.prove(st, False, 'leak: multi-precision field %s freed without clear' % q, line)
                                return
                    if c.kind == 'A' and c.ini is not None:
                        eng.prove(st, c.ini[0] >= c.ini[1], 'leak: multi-precision array freed with initialised elements', line)
                except (PathDead, Prune):
                    return
                st.replace(c, None)
                yield st, ZERO
                return
        for c in st.heap:
            if c.kind == 'P' and (c.addr.eq(p) if exact else eng.must_eq(st, c.addr, p)):
                if c.p in (STR, NUMSTR) or getattr(c.p, 'freeable', False):
                    st.replace(c, None)
                    yield st, ZERO
                    return
                if depth < 2 and c.p.body:
                    for s2 in eng.unfold(st, c, None, line):
                        yield from free_at(eng, s2, p, line, depth + 1)
                    return
        for c in st.heap:
            if c.kind == 'I':
                i = eng.ichunk_index(st, c, p, exact)
                if i is not None:
                    eng.extract(st, c, i)
                    yield from free_at(eng, st, p, line, depth)
                    return
    try:
        eng.prove(st, False, 'free of memory that is not owned (double free or dangling pointer)', line)
    except (PathDead, Prune):
        pass


def m_strdup(eng, st, vs, n, args):
    p = eng.fresh_addr()
    st.assume(SV(p) == SV(vs[0]))
    st.heap.append(PChunk(STR, (p,), (SV(vs[0]),)))
    yield st, p


def m_strlen(eng, st, vs, n, args):
    f = z3.Function('strlen', I, I)
    v = f(SV(vs[0]))
    st.assume(v >= 0)
    yield st, v


def lit_facts(eng, st):
    """distinct literals have distinct contents"""
    ls = [SV(a) for a in eng.litaddr.values()]
    if len(ls) > 1:
        st.assume(z3.Distinct(*ls))


def m_strcmp(eng, st, vs, n, args):
    lit_facts(eng, st)
    r = eng.fresh('strcmp')
    st.assume((r == 0) == (SV(vs[0]) == SV(vs[1])))
    yield st, r


def m_strncmp(eng, st, vs, n, args):
    r = eng.fresh('strncmp')
    yield st, r


def noreturn(eng, st, vs, n, args):
    return
    yield


def m_assert_fail(eng, st, vs, n, args):
    sp = eng.specs.contract(eng.curfn)
    if sp is not None and sp.abort_ok:
        return
    txt = eng.strlits.get(zi(simp(vs[0])), '?') if isval(simp(vs[0])) else '?'
    try:
        eng.prove(st, False, 'assert(%s)' % txt, eng.line(n))
    except (PathDead, Prune):
        pass
    return
    yield


FMT = re.compile(r'%(?:%|[-+ #0]*(?:\*|\d+)?(?:\.(?:\*|\d+))?(?:hh|h|ll|l|z)?[a-zA-Z])')


READER = None


def m_fprintf(eng, st, vs, n, args):
    stream, fmt = simp(vs[0]), simp(vs[1])
    rest = list(vs[2:])
    if not isval(fmt) or fmt.as_long() not in eng.strlits:
        raise ToolLimit('fprintf with non-literal format')
    text = eng.strlits[fmt.as_long()]
    toks = []
    pos = 0
    for m in FMT.finditer(text):
        if m.start() > pos:
            toks.append(('lit', text[pos:m.start()]))
        pos = m.end()
        d = m.group(0)
        if d == '%%':
            toks.append(('lit', '%'))
            continue
        if '*' in d:
            w = rest.pop(0)
            toks.append(('width', w))
        v = rest.pop(0)
        if d[-1] == 's':
            vv = simp(v)
            if isval(vv) and vv.as_long() in eng.strlits:
                toks.append(('lit', eng.strlits[vv.as_long()]))
            else:
                for c in st.heap:
                    if c.kind == 'P' and c.p is NUMSTR and c.addr.eq(vv):
                        toks.append(('num', c.outs[0]))
                        break
                else:
                    toks.append(('str', vv))
        elif d[-1] in 'di':
            toks.append(('num', v))
        elif d[-1] == 'u':
            toks.append(('num', v))
        elif d[-1] == 'c':
            toks.append(('chr', v))
        else:
            toks.append(('other', d, v))
    if pos < len(text):
        toks.append(('lit', text[pos:]))
    if 'rd' in st.g and READER is not None:
        sts = [st]
        merged = []
        for t in toks:
            if t[0] == 'lit' and merged and merged[-1][0] == 'lit':
                merged[-1] = ('lit', merged[-1][1] + t[1])
            else:
                merged.append(t)
        for t in merged:
            sts = [s3 for s2 in sts for s3 in READER(eng, s2, stream, t, eng.line(n))]
        for s2 in sts:
            yield s2, eng.fresh('printed')
        return
    for t in toks:
        st.out = st.out + ((stream,) + t,)
    yield st, eng.fresh('printed')


def m_printf(eng, st, vs, n, args):
    yield from m_fprintf(eng, st, [iv(-1)] + vs, n, args)


def m_getenv(eng, st, vs, n, args):
    yield st, eng.fresh('ext')


def libc_models(S):
    B = S.builtins
    B['malloc'] = m_malloc
    B['calloc'] = m_calloc
    B['realloc'] = m_realloc
    B['free'] = m_free
    B['strdup'] = B['__strdup'] = m_strdup
    B['strlen'] = m_strlen
    B['strcmp'] = m_strcmp
    B['strncmp'] = m_strncmp
    B['exit'] = B['abort'] = B['_exit'] = noreturn
    B['__assert_fail'] = m_assert_fail
    B['fprintf'] = m_fprintf
    B['printf'] = m_printf
    B['perror'] = lambda e, s, v, n, a: iter([(s, ZERO)])
    cd = noreturn
    # cloog_die prints and exits: a proved-by-inspection noreturn (its body ends in exit())
    B['cloog_die'] = lambda e, s, v, n, a: noreturn(e, s, v, n, a)
    B['cloog_die'].force = True
    def msg(e, s, v, n, a):
        yield s, ZERO
    msg.force = True
    B['cloog_msg'] = msg
