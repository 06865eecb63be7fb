"""Bidirectional assertion context: the same Python function serves as
 - 'produce': assume the assertion (create chunks, fresh ghosts), and
 - 'consume': check it (find/fold chunks, emit proof obligations)."""
import z3
import engine as E
from engine import (iv, ZERO, simp, I, UNINIT, ArrVal, SChunk, AChunk, CChunk, PChunk, IChunk, Prune, PathDead,
                    SpecMissing, isval)
from front import T, MPZ, INT, ToolLimit


class Fields(dict):
    __getattr__ = dict.__getitem__


class Ctx:
    def __init__(self, eng, st, g, mode, dec, args=None, ret=None, line=0, label='', fn=None, old=None, entry=False,
                 depth=None, call=None):
        self.eng, self.st, self.g, self.mode, self.dec = eng, st, g, mode, dec
        self.pending = []
        self.k = 0
        self.a = args
        self.ret = ret
        self.line, self.label, self.fn, self.old, self.entry = line, label, fn, old, entry
        self.depth = depth
        self.call = call
        self.S = None

    @property
    def producing(self):
        return self.mode == 'produce'

    @property
    def specs(self):
        return self.eng.specs

    @property
    def bounded(self):
        return self.eng.bounded

    # ghosts --------------------------------------------------
    def __getitem__(self, k):
        return self.g[k]

    def __setitem__(self, k, v):
        self.g[k] = v

    def once(self, k, thunk):
        k = 'once_' + k
        if k not in self.g:
            self.g[k] = thunk()
        return self.g[k]

    def pre(self, k):
        """ghost bound by the precondition of the function being verified"""
        p = self.st.g.get('pre')
        if p is None or k not in p:
            raise SpecMissing('no ghost %s' % k)
        return p[k]

    def arg0(self, i):
        """value of the i-th argument at entry of the verified function"""
        return self.st.g['args'][i]

    def v(self, name, old=False):
        """current value of local variable `name` in the executing frame"""
        env = self.old if old else self.st.env
        best = None
        for k, x in env.items():
            if k[0] == self.st.frames and k[1] == name:
                best = x
        if best is None:
            best = self.eng.moved_local(env, self.st.frames, name)
        if best is None:
            raise SpecMissing('no local variable %s in %s' % (name, self.fn))
        if isinstance(best, tuple) and best[0] == 'loc':
            for c in self.st.heap:
                if c.kind == 'C' and c.addr.eq(best[1]):
                    return c.val
            return best[1]
        return best

    def vold(self, name):
        return self.v(name, True)

    def addr(self, name):
        for k, x in self.st.env.items():
            if k[0] == self.st.frames and k[1] == name and isinstance(x, tuple):
                return x[1]
        x = self.eng.moved_local(self.st.env, self.st.frames, name)
        if isinstance(x, tuple):
            return x[1]
        raise SpecMissing('no addressable local %s' % name)

    # logic ---------------------------------------------------
    def fresh(self, name='g', sort=I):
        return self.eng.fresh(name, sort)

    def assume(self, b):
        """definitional fact (an instance of a definition or proved lemma): assumed in both modes"""
        self.st.assume(b)

    def fact(self, b, name=''):
        if self.producing:
            self.st.assume(b if not isinstance(b, bool) else z3.BoolVal(b))
        else:
            self.eng.prove(self.st, b, '%s%s' % (self.label, (': ' + name) if name else ''), self.line)

    def ensure(self, b, name=''):
        """always an obligation when consuming, never assumed when producing"""
        if not self.producing:
            self.eng.prove(self.st, b, '%s: %s' % (self.label, name), self.line)

    def trust(self, f, what):
        """assumed where the assertion is produced, not checked where it is consumed (listed among the assumptions)"""
        if self.producing:
            self.st.assume(f)
            self.eng.models_used.add('trusted: ' + self.label + ': ' + what)

    def separate(self, sname):
        """separately owned structures have different, non-null addresses"""
        ads = [ch.addr for ch in self.st.heap if ch.kind == 'S' and ch.s == sname]
        if ads:
            self.st.assume(z3.And([a != 0 for a in ads]))
        if len(ads) > 1:
            self.st.assume(z3.Distinct(*ads))
        for ch in self.st.heap:
            if ch.kind == 'P' and ch.p.struct and sname in ch.p.struct and ch.ins and ads:
                if len(ch.ins) == 1:
                    self.st.assume(z3.And([ch.ins[0] != a for a in ads]))
                elif len(ch.ins) == 2:
                    self.st.assume(z3.Or(ch.ins[0] == ch.ins[1], z3.And([ch.ins[0] != a for a in ads])))

    def case(self, b):
        if isinstance(b, bool):
            return b
        b = simp(b)
        if z3.is_true(b):
            return True
        if z3.is_false(b):
            return False
        if self.k < len(self.dec):
            d = self.dec[self.k]
        else:
            f1 = self.eng.feasible(self.st, b)
            f2 = self.eng.feasible(self.st, z3.Not(b))
            if f1 and f2:
                self.pending.append(self.dec[:self.k] + [False])
                d = True
            elif f1:
                d = True
            elif f2:
                d = False
            else:
                raise Prune()
            self.dec = self.dec[:self.k] + [d]
        self.k += 1
        self.st.assume(b if d else z3.Not(b))
        return d

    def pick(self, options):
        """nondeterministic choice among Python values (bounded shapes)"""
        for o in options[:-1]:
            if self.choose():
                return o
        return options[-1]

    def choose(self):
        if self.k < len(self.dec):
            d = self.dec[self.k]
        else:
            self.pending.append(self.dec[:self.k] + [False])
            d = True
            self.dec = self.dec[:self.k] + [d]
        self.k += 1
        return d

    def entails(self, b):
        return self.eng.entails(self.st, b)

    def missing(self, what):
        self.eng.prove(self.st, False, '%s: %s' % (self.label, what), self.line)
        raise PathDead()

    # heap ----------------------------------------------------
    def unfold_here(self, c, S=None):
        """unfold predicate chunk inside this context (shares the decision trail)"""
        if self.eng.bounded and c.depth is not None and c.depth <= 0:
            self.eng.bounded_hit = True
            raise Prune()
        self.st.heap = [x for x in self.st.heap if x is not c]
        m, d, s0 = self.mode, self.depth, self.S
        self.mode = 'produce'
        self.depth = None if c.depth is None else c.depth - 1
        self.S = S
        c.p.body(self, c.ins, c.outs)
        self.mode, self.depth, self.S = m, d, s0

    def find_struct(self, S, p, modes=(True, False)):
        st, eng = self.st, self.eng
        p = simp(p)
        for exact in modes:
            for c in st.heap:
                if c.kind == 'S' and c.s == S and (c.addr.eq(p) if exact else eng.must_eq(st, c.addr, p)):
                    return c
            for c in st.heap:
                if c.kind == 'P' and c.p.struct and S in c.p.struct and (c.addr.eq(p) if exact else eng.must_eq(st, c.addr, p)):
                    if c.p.nullable:
                        eng.prove(st, c.addr != 0, '%s: non-null %s' % (self.label, c.p.name), self.line)
                    self.unfold_here(c, S)
                    return self.find_struct(S, p)
            for c in st.heap:
                if c.kind == 'I' and c.p.struct and S in c.p.struct:
                    i = eng.ichunk_index(st, c, p, exact)
                    if i is not None:
                        eng.extract(st, c, i)
                        return self.find_struct(S, p)
        return None

    def struct(self, S, addr, size_=None, region='heap', **fields):
        """own the whole struct. fields: path(with '__' for '.')=value"""
        want = {k.replace('__', '.'): v for k, v in fields.items() if v is not None}
        if self.producing:
            c = self.eng.new_struct(S, addr, region, "fresh", want, size=size_, depth=self.depth)
            for p, t in self.eng.db.flat(S):
                if t.k == 'ptr' and p not in want and not isinstance(c.f[p], ArrVal):
                    self.st.assume(c.f[p] >= 0)
            self.st.heap.append(c)
            self.st.assume(addr != 0)
            return Fields({k.replace('.', '_'): v for k, v in c.f.items()})
        c = self.find_struct(S, addr)
        if c is None:
            self.missing('ownership of struct %s' % S)
        self.st.heap = [x for x in self.st.heap if x is not c]
        for k, v in want.items():
            x = c.f[k]
            self._eq(x, v, 'field %s.%s' % (S, k))
        for k, x in c.f.items():
            if isinstance(x, str) and k not in want:
                pass
        if size_ is not None:
            for k, x in c.f.items():
                if isinstance(x, ArrVal) and x.size is not None:
                    self.eng.prove(self.st, x.size >= size_, '%s: array field %s has room' % (self.label, k), self.line)
        return Fields({k.replace('.', '_'): (v if v is not UNINIT else UNINIT) for k, v in c.f.items()})

    def read(self, S, addr, path):
        """peek at a field value without consuming"""
        for c in self.st.heap:
            if c.kind == 'S' and c.s == S and self.eng.must_eq(self.st, c.addr, addr):
                return c.f[path]
        raise SpecMissing('no struct %s' % S)

    def _eq(self, x, v, what):
        if isinstance(v, str) and v == UNINIT:
            if not (isinstance(x, str) and x == UNINIT):
                self.missing(what + ' must be cleared')
            return
        if isinstance(x, str) and x == UNINIT:
            self.missing(what + ' is uninitialised')
        if isinstance(v, ArrVal):
            self.eng.prove(self.st, x.arr == v.arr, '%s: %s' % (self.label, what), self.line)
            return
        self.eng.prove(self.st, True if x is v or (isinstance(v, z3.ExprRef) and x.eq(v)) else x == v, '%s: %s' % (self.label, what), self.line)

    def init(self, x, what=''):
        """consume-side: value must be initialised"""
        if isinstance(x, str) and x == UNINIT:
            self.missing('uninitialised ' + what)
        return x

    def cell(self, t, addr, val=None, region='stack', name='cell'):
        if self.producing:
            v = val if val is not None else self.fresh(name)
            self.st.heap.append(CChunk(t, addr, v, region, name))
            return v
        for exact in (True, False):
            for c in self.st.heap:
                if c.kind == 'C' and (c.addr.eq(addr) if exact else self.eng.must_eq(self.st, c.addr, addr)):
                    self.st.heap = [x for x in self.st.heap if x is not c]
                    if val is not None:
                        self._eq(c.val, val, 'cell')
                    return c.val
        self.missing('ownership of a cell')

    # borrowed cells: the caller keeps ownership; pre reads, post may update ----------
    def distinct(self, a, b):
        """two cells are different; a field of a structure is never an element of a separately allocated array"""
        a, b = simp(a), simp(b)
        def isel(x):
            return z3.is_app(x) and x.decl().eq(E.ELEM)
        def isfld(x):
            return z3.is_app(x) and x.decl().name().startswith('fld!')
        if not self.producing and ((isel(a) and isfld(b)) or (isel(b) and isfld(a))):
            self.st.assume(a != b)
            return
        self.fact(a != b, 'different numbers')

    def elem_of(self, i, base):
        """argument i points at an element of the array `base`; returns its index"""
        if self.producing:
            L = self.fresh('index')
            self.a = list(self.a)
            self.a[i] = E.mk_elem(base, L)
            self.g.setdefault('__alias', {})[i] = self.a[i]
            return L
        a = simp(self.a[i])
        if z3.is_app(a) and a.decl().eq(E.ELEM) and (a.arg(0).eq(simp(base)) or self.eng.must_eq(self.st, a.arg(0), base)):
            return a.arg(1)
        if self.eng.must_eq(self.st, a, base):
            return z3.IntVal(0)
        self.missing('a pointer into the array')

    def _loc(self, t, addr):
        alts = list(self.eng.cell(self.st, addr, t, self.line))
        if not alts:
            raise PathDead()
        s2, loc = alts[0] if len(alts) == 1 else alts[self.pick(list(range(len(alts))))]
        self.st = s2
        return loc

    def io(self, t, addr, name='io'):
        """precondition side: value of the cell the caller lends"""
        if self.producing:
            v = self.fresh(name)
            self.st.heap.append(CChunk(t, addr, v, 'arg', name))
            self.st.assume(addr > 0)
            return v
        return self.eng.load(self.st, self._loc(t, addr), self.line)

    def io_post(self, t, addr, val=None, name='cell'):
        """postcondition side: the lent cell holds val (or anything, if None)"""
        if self.producing:
            v = val if val is not None else self.fresh(name)
            loc = self._loc(t, addr)
            if loc[0].kind == 'C' and loc[0].region == 'const' and val is not None:     # a shared constant the callee gives back as it was
                self.eng.prove(self.st, self.eng.load(self.st, loc, self.line) == val, '%s: shared constant %s unchanged' % (self.label, loc[0].name), self.line)
                return v
            self.eng.store(self.st, loc, v, self.line)
            return v
        for exact in (True, False):
            for c in self.st.heap:
                if c.kind == 'C' and c.region == 'arg' and (c.addr.eq(addr) if exact else self.eng.must_eq(self.st, c.addr, addr)):
                    self.st.heap = [x for x in self.st.heap if x is not c]
                    if isinstance(c.val, str):
                        self.missing('lent cell left uninitialised')
                    if val is not None:
                        self._eq(c.val, val, name)
                    return c.val
        self.missing('lent cell returned')

    def io_arr(self, et, base, size, name='arr'):
        """array range lent by the caller (may be part of a larger array)"""
        if self.producing:
            if self.eng.bounded:
                k = self.pick(list(range(self.eng.bounded + 1)))
                self.st.assume(size == k)
                if not self.eng.feasible(self.st):
                    raise Prune()
                size = simp(z3.IntVal(k))
            a = self.fresh(name, z3.ArraySort(I, I))
            self.st.heap.append(AChunk(et, base, size, a, 'arg', (ZERO, size) if et.k == 'mpz' else None))
            self.st.assume(base > 0)
            return a
        c, off = self._range(base, size, et)
        if c is None:
            return self.fresh(name, z3.ArraySort(I, I))
        if isval(off) and off.as_long() == 0:
            return c.arr
        j = z3.Int('j')
        return z3.Lambda([j], z3.Select(c.arr, j + off))

    def _range(self, base, size, et):
        base = simp(base)
        b0, off = (base.arg(0), base.arg(1)) if z3.is_app(base) and base.decl().eq(E.ELEM) else (base, ZERO)
        for s2, (c, path, idx) in self._arrloc(b0, off, et, size):
            return c, idx
        return None, None

    def _arrloc(self, b0, off, et, size):
        eng, st = self.eng, self.st
        for exact in (True, False):
            for c in st.heap:
                if c.kind == 'A' and (c.base.eq(b0) if exact else eng.must_eq(st, c.base, b0)):
                    eng.prove(st, z3.Implies(size > 0, z3.And(off >= 0, off + size <= c.size)), '%s: array range in bounds' % self.label, self.line)
                    if c.ini is not None:
                        eng.prove(st, z3.Implies(size > 0, z3.And(c.ini[0] <= off, off + size <= c.ini[1])), '%s: array range initialised' % self.label, self.line)
                    yield st, (c, None, off)
                    return
            for c in st.heap:
                if c.kind == 'C' and c.t == et and (c.addr.eq(b0) if exact else eng.must_eq(st, c.addr, b0)) and eng.entails(st, size <= 1):
                    raise ToolLimit('single cell used as array range')
            for c in st.heap:
                if c.kind == 'P' and getattr(c.p, 'cells', False) and (c.addr.eq(b0) if exact else eng.must_eq(st, c.addr, b0)):
                    self.unfold_here(c)
                    yield from self._arrloc(b0, off, et, size)
                    return
        if eng.entails(st, size <= 0):
            return
        self.missing('ownership of an array range')

    def io_arr_post(self, et, base, size, arr=None, name='arr'):
        if self.producing:
            a = arr if arr is not None else self.fresh(name, z3.ArraySort(I, I))
            c, off = self._range(base, size, et)
            if c is None:
                return a
            if isval(off) and off.as_long() == 0 and (self.entails(size == c.size)):
                self.st.replace(c, c.upd(arr=a))
            else:
                j = z3.Int('j')
                self.st.replace(c, c.upd(arr=z3.Lambda([j], z3.If(z3.And(j >= off, j < off + size), z3.Select(a, j - off), z3.Select(c.arr, j)))))
            return a
        for c in self.st.heap:
            if c.kind == 'A' and c.region == 'arg' and self.eng.must_eq(self.st, c.base, base):
                self.st.heap = [x for x in self.st.heap if x is not c]
                if c.ini is not None:
                    self.eng.prove(self.st, z3.And(c.ini[0] == 0, c.ini[1] == c.size), '%s: lent array stays initialised' % self.label, self.line)
                if arr is not None:
                    self.eng.prove(self.st, c.arr == arr, '%s: array contents' % self.label, self.line)
                return c.arr
        self.missing('lent array returned')

    def arr(self, et, base, size, ini=None, arr=None, region='heap', sizes=None):
        """array of scalars. ini defaults to fully initialised for mpz"""
        if et.k == 'mpz' and ini is None:
            ini = (ZERO, size)
        if self.producing:
            a = arr if arr is not None else self.fresh('arr', z3.ArraySort(I, I))
            self.st.heap.append(AChunk(et, base, size, a, region, ini))
            self.st.assume(base > 0)
            return a
        for exact in (True, False):
            for c in self.st.heap:
                if c.kind == 'A' and (c.base.eq(base) if exact else self.eng.must_eq(self.st, c.base, base)):
                    self.st.heap = [x for x in self.st.heap if x is not c]
                    self.eng.prove(self.st, c.size == size, '%s: array size' % self.label, self.line)
                    if ini is not None:
                        self.eng.prove(self.st, z3.And(c.ini[0] == ini[0], c.ini[1] == ini[1]), '%s: initialised elements' % self.label, self.line)
                    if arr is not None:
                        self.eng.prove(self.st, c.arr == arr, '%s: array contents' % self.label, self.line)
                    return c.arr
        if self.entails(size == 0):
            return self.fresh('arr', z3.ArraySort(I, I))
        self.missing('ownership of array')

    def peek_arr(self, base):
        for c in self.st.heap:
            if c.kind == 'A' and self.eng.must_eq(self.st, c.base, base):
                return c.arr
        raise SpecMissing('no array')

    def peek_iter(self, P, A):
        for exact in (True, False):
            for c in self.st.heap:
                if c.kind == 'I' and c.p is P and (c.A.eq(A) if exact else self.eng.entails(self.st, c.A == A)):
                    return c.E[0]
        return None

    def peek_chunk(self, base):
        for exact in (True, False):
            for c in self.st.heap:
                if c.kind in 'A' and (c.base.eq(base) if exact else self.eng.must_eq(self.st, c.base, base)):
                    return c
        return None

    def pred(self, P, *ins, outs=None):
        ins = tuple(simp(x) for x in ins)
        if isinstance(outs, (list, tuple)) is False and outs is not None:
            outs = (outs,)
        if self.producing:
            if outs is None:
                outs = tuple(self.fresh(P.name + str(i), s) for i, s in enumerate(P.outs))
            d = self.depth if self.depth is not None else (self.eng.bounded or None)
            self.st.heap.append(PChunk(P, ins, outs, d))
            if getattr(P, 'on_produce', None):
                P.on_produce(self.st, ins, outs)
            return outs[0] if len(outs) == 1 else outs
        got = self._consume_pred(P, ins)
        if outs is not None:
            for x, y in zip(got, outs):
                if x is None or y is None or x.eq(y):
                    continue
                if getattr(P, 'components', None) and x.sort() == P.outs[0]:
                    # the abstract value is the tuple of its components
                    if not self.entails(x == y):
                        for nm_, fc in P.components:
                            self.eng.prove(self.st, fc(x, y) if not isinstance(fc, z3.FuncDeclRef) else fc(x) == fc(y), '%s: %s: %s unchanged' % (self.label, P.name, nm_), self.line)
                        self.st.assume(x == y)
                    continue
                self.eng.prove(self.st, x == y, '%s: %s describes the same value' % (self.label, P.name), self.line)
        return got[0] if len(got) == 1 else got

    def _consume_pred(self, P, ins):
        for exact in (True, False):
            for c in self.st.heap:
                if c.kind == 'P' and c.p is P and all((x.eq(y) if exact else self.eng.must_eq(self.st, x, y)) for x, y in zip(c.ins, ins)):
                    self.st.heap = [x for x in self.st.heap if x is not c]
                    return c.outs
            for c in self.st.heap:
                if c.kind == 'I' and c.p is P:
                    i = self.eng.ichunk_index(self.st, c, ins[0], exact)
                    if i is not None:
                        self.eng.extract(self.st, c, i)
                        return self._consume_pred(P, ins)
        if getattr(P, 'lookup', None):
            r = P.lookup(self, ins)
            if r is not None:
                return r
        if P.body is None:
            self.missing('ownership: %s' % P.name)
        r = P.body(self, ins, None)
        return r if isinstance(r, tuple) else (r,)

    def iter(self, P, A, lo, hi, E_=None):
        if self.producing:
            if E_ is None:
                E_ = self._fresh_E(P)
            d = self.depth if self.depth is not None else (self.eng.bounded or None)
            self.st.heap.append(IChunk(P, A, lo, hi, E_, (), d))
            return E_[0] if len(E_) == 1 else E_
        eng, st = self.eng, self.st
        cand = [c for c in st.heap if c.kind == 'I' and c.p is P]
        pickc = None
        for c in cand:
            if c.A.eq(A):
                pickc = c
                break
        if pickc is None:
            for c in cand:
                if eng.must_eq(st, c.lo, lo) and not eng.entails(st, c.lo >= c.hi):
                    # same base array up to holes/ends?
                    ext = c.A
                    for h in c.holes:
                        ext = z3.Store(ext, h, z3.Select(A, h))
                    if eng.entails(st, A == ext) or eng.entails(st, A == z3.Store(ext, c.hi, z3.Select(A, c.hi))):
                        pickc = c
                        break
        if pickc is None:
            if eng.entails(st, lo >= hi):
                r = self._fresh_E(P)
                return r[0] if len(r) == 1 else r
            if P.nullable and not any(isval(simp(x)) and False for x in ()) and eng.entails(st, _all_null(A, lo, hi)) :
                r = self._fresh_E(P)
                if getattr(P, 'null_elems', None):
                    P.null_elems(st, r, lo, hi)
                return r[0] if len(r) == 1 else r
            # build from single elements (concrete short ranges)
            n = simp(hi - lo)
            if isval(n) and n.as_long() <= 8:
                Es = list(self._fresh_E(P))
                for k in range(n.as_long()):
                    o = self._consume_pred(P, (simp(z3.Select(A, simp(lo + k))),))
                    Es = self._est(P, Es, simp(lo + k), o, simp(lo + k + 1))
                return Es[0] if len(Es) == 1 else tuple(Es)
            # one element more than an empty range
            if eng.entails(st, hi == lo + 1):
                Es = list(self._fresh_E(P))
                o = self._consume_pred(P, (simp(z3.Select(A, lo)),))
                Es = self._est(P, Es, lo, o, hi)
                return Es[0] if len(Es) == 1 else tuple(Es)
            self.missing('ownership of the elements of an array (%s)' % P.name)
        c = pickc
        st.heap = [x for x in st.heap if x is not c]
        # shrink: leading / trailing elements that were taken out
        clo0, chi0, holes0 = c.lo, c.hi, list(c.holes)
        for h in list(holes0):
            if eng.entails(st, z3.And(h == clo0, clo0 < lo)):
                clo0 = simp(clo0 + 1)
                holes0.remove(h)
            elif eng.entails(st, z3.And(h == chi0 - 1, chi0 > hi)):
                chi0 = simp(chi0 - 1)
                holes0.remove(h)
        c = IChunk(c.p, c.A, clo0, chi0, c.E, holes0, c.depth)
        Es = list(c.E)
        ext = c.A
        for h in c.holes:
            o = self._consume_pred(P, (simp(z3.Select(A, h)),))
            Es = self._est(P, Es, h, o, hi)
            ext = z3.Store(ext, h, z3.Select(A, h))
        chi = c.hi
        n = 0
        if P.nullable and getattr(P, 'null_elems', None) and not eng.must_eq(st, chi, hi) and eng.entails(st, z3.And(chi <= hi, _all_null(A, chi, hi))):
            r = self._fresh_E(P)
            k = z3.Int('k!q')
            for e, x in zip(r, Es):
                st.assume(z3.ForAll([k], z3.Implies(z3.And(c.lo <= k, k < chi), e[k] == x[k]), patterns=[e[k]]))
            P.null_elems(st, r, chi, hi)
            eng.prove(st, c.lo == lo, '%s: range of owned elements' % self.label, self.line)
            eng.prove(st, forall_eq(ext, A, lo, chi), '%s: owned elements are those of the array' % self.label, self.line)
            return r[0] if len(r) == 1 else r
        while not eng.must_eq(st, chi, hi):
            n += 1
            if n > 3 or not eng.entails(st, chi < hi):
                eng.prove(st, chi == hi, '%s: range of owned elements' % self.label, self.line)
                break
            o = self._consume_pred(P, (simp(z3.Select(A, chi)),))
            Es = self._est(P, Es, chi, o, simp(chi + 1))
            ext = z3.Store(ext, chi, z3.Select(A, chi))
            chi = simp(chi + 1)
        eng.prove(st, c.lo == lo, '%s: range of owned elements' % self.label, self.line)
        if not ext.eq(A):
            eng.prove(st, ext == A, '%s: owned elements are those of the array' % self.label, self.line)
        return Es[0] if len(Es) == 1 else tuple(Es)


    def _fresh_E(self, P):
        r = tuple(self.fresh(P.name + 's', z3.ArraySort(I, s)) for s in P.outs)
        if getattr(P, 'on_iter', None):
            P.on_iter(self.st, r)
        return r

    def _est(self, P, Es, h, o, hi):
        out = []
        for e, x in zip(Es, o):
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_SELECT and x.arg(0).eq(e) and x.arg(1).eq(h):
                out.append(e)
                continue
            n = z3.Store(e, h, x)
            if getattr(P, 'on_store', None):
                P.on_store(self.eng, self.st, e, h, x, n, hi)
            out.append(n)
        return out


def forall_eq(A, B, lo, hi):
    if A.eq(B):
        return True
    k = z3.Int('k!q')
    return z3.ForAll([k], z3.Implies(z3.And(lo <= k, k < hi), A[k] == B[k]))


def _all_null(A, lo, hi):
    k = z3.Int('k!q')
    return z3.ForAll([k], z3.Implies(z3.And(lo <= k, k < hi), A[k] == 0))


class Contract:
    def __init__(self, pre, post, assumed=False, noreturn=False, note='', props=(), axioms=(), view=None, raw=(), abort_ok=False, light=False, join=False):
        self.join = join            # paths that reach a loop head in the same frame are continued once, from their common facts
        self.light = light          # feasibility and pointer equality are decided from quantifier-free linear facts only
        self.abort_ok = abort_ok    # a failing assert() stops the program; its absence is not part of the contract
        self.raw = raw              # callees whose full (not reference-token) contract this proof uses
        self.view = view            # contract callers use (same function, seen through reference tokens)
        self.axioms = axioms
        self.pre, self.post, self.assumed, self.noreturn, self.note, self.props = pre, post, assumed, noreturn, note, props
        self.requires_output = False


class LoopInv:
    def __init__(self, inv):
        self.inv = inv


class LoopPP:
    def __init__(self, pre, post):
        self.pre, self.post = pre, post


class Specs:
    def __init__(self):
        self.contracts = {}
        self.loops = {}
        self.builtins = {}
        self.externals = []
        self.fnptrs = []
        self.axioms = []
        self.gvals = {}
        self.proved = set()
        self.shared = {}

    def contract(self, name):
        return self.contracts.get(name)

    def loop(self, fn, i):
        return self.loops.get((fn, i))

    def builtin(self, name):
        return self.builtins.get(name)

    def external(self, eng, st, name, vs, n, args):
        for f in self.externals:
            r = f(eng, st, name, vs, n, args)
            if r is not None:
                return r
        return None

    def fnptr(self, eng, st, fv, vs, n, callee):
        for f in self.fnptrs:
            r = f(eng, st, fv, vs, n, callee)
            if r is not None:
                return r
        return None

    def global_value(self, eng, name, t):
        if name in self.gvals:
            return self.gvals[name]
        return eng.fresh('glob_' + name)

    # decorators ----------------------------------------------
    def spec(self, name, **kw):
        """class with static pre(c)/post(c)"""
        def deco(cls):
            self.contracts[name] = Contract(cls.pre, cls.post, **kw)
            return cls
        return deco

    def view(self, name):
        """how callers see a reference-counted or statistics function (never inlined)"""
        def deco(cls):
            self.contracts[name].view = Contract(cls.pre, cls.post)
            return cls
        return deco

    def inv(self, fn, idx=0):
        def deco(f):
            self.loops[(fn, idx)] = LoopInv(f)
            return f
        return deco

    def pploop(self, fn, idx=0):
        def deco(cls):
            self.loops[(fn, idx)] = LoopPP(cls.pre, cls.post)
            return cls
        return deco
