"""CDV: a contract-based deductive verifier for C, by symbolic execution of the
clang AST with separation-logic style ownership and SMT (z3) discharge.

Modular: a call is replaced by the callee's contract (consume pre / produce post);
a callee without a contract is inlined.  Loops are cut by invariants; without one
(or in 'bounded' mode) they are unrolled and the result is labelled bounded."""
import json, time, itertools, os
import z3
from front import T, INT, VOID, MPZ, FUNC, CHAR, ToolLimit
import front

I = z3.IntSort()
z3.set_param('smt.random_seed', 1)


def iv(n):
    return z3.IntVal(n)


ZERO = iv(0)
ELEM = z3.Function('elem', I, I, I)
SV = z3.Function('strval', I, I)         # content identity of an immutable C string
_fld = {}


def FLD(name):
    if name not in _fld:
        _fld[name] = z3.Function('fld!' + name, I, I)
    return _fld[name]


def simp(x):
    if isinstance(x, z3.ExprRef):
        return z3.simplify(x)
    return x


def isval(x):
    return z3.is_int_value(x)


def mk_elem(base, idx):
    if isinstance(idx, int):
        idx = iv(idx)
    idx = simp(idx)
    if z3.is_app(base) and base.decl().eq(ELEM):
        return mk_elem(base.arg(0), base.arg(1) + idx)
    if isval(idx) and idx.as_long() == 0:
        return base
    return ELEM(base, idx)


def b2i(b):
    if z3.is_true(b):
        return iv(1)
    if z3.is_false(b):
        return ZERO
    return z3.If(b, iv(1), ZERO)


def i2b(v):
    """C truth value of an int/pointer term"""
    if isval(v):
        return z3.BoolVal(v.as_long() != 0)
    if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ITE:
        a, b, c = v.children()
        if isval(b) and isval(c):
            bb, cc = b.as_long() != 0, c.as_long() != 0
            if bb and not cc:
                return a
            if cc and not bb:
                return z3.Not(a)
    return v != 0


UNINIT = 'UNINIT'


class ArrVal:
    """value of an array-typed field: a z3 array (or dict of arrays for struct elements)"""
    __slots__ = ('arr', 'size')

    def __init__(self, arr, size):
        self.arr, self.size = arr, size


class SChunk:
    kind = 'S'
    __slots__ = ('s', 'addr', 'f', 'region', 'depth')

    def __init__(self, s, addr, f, region='heap', depth=None):
        self.s, self.addr, self.f, self.region, self.depth = s, addr, f, region, depth

    def set(self, path, v):
        f = dict(self.f)
        f[path] = v
        return SChunk(self.s, self.addr, f, self.region, self.depth)

    def __repr__(self):
        return '%s@%s{%s}' % (self.s, self.addr, ', '.join('%s=%s' % (k, v.arr if isinstance(v, ArrVal) else v) for k, v in self.f.items()))


class AChunk:
    kind = 'A'
    __slots__ = ('et', 'base', 'size', 'arr', 'region', 'ini', 'depth')

    def __init__(self, et, base, size, arr, region='heap', ini=None, depth=None):
        # ini: for mpz element type, (lo,hi) range of initialised elements;
        # for other types None
        self.et, self.base, self.size, self.arr, self.region, self.ini, self.depth = et, base, size, arr, region, ini, depth

    @property
    def addr(self):
        return self.base

    def upd(self, **k):
        c = AChunk(self.et, self.base, self.size, self.arr, self.region, self.ini, self.depth)
        for a, b in k.items():
            setattr(c, a, b)
        return c

    def __repr__(self):
        return '%s[%s]@%s=%s ini=%s' % (self.et, self.size, self.base, self.arr, self.ini)


class CChunk:
    kind = 'C'
    __slots__ = ('t', 'addr', 'val', 'region', 'name', 'depth')

    def __init__(self, t, addr, val, region='stack', name=''):
        self.t, self.addr, self.val, self.region, self.name = t, addr, val, region, name
        self.depth = None

    def set(self, v):
        return CChunk(self.t, self.addr, v, self.region, self.name)

    def __repr__(self):
        return '%s %s@%s=%s' % (self.t, self.name, self.addr, self.val)


class PChunk:
    kind = 'P'
    __slots__ = ('p', 'ins', 'outs', 'depth')

    def __init__(self, p, ins, outs, depth=None):
        self.p, self.ins, self.outs, self.depth = p, tuple(ins), tuple(outs), depth

    @property
    def addr(self):
        return self.ins[0]

    def __repr__(self):
        return '%s(%s; %s)' % (self.p.name, ', '.join(map(str, self.ins)), ', '.join(map(str, self.outs)))


class IChunk:
    """iterated separating conjunction: for lo<=i<hi, i not in holes: p(A[i]; E_1[i], ...)"""
    kind = 'I'
    __slots__ = ('p', 'A', 'lo', 'hi', 'E', 'holes', 'depth')

    def __init__(self, p, A, lo, hi, E, holes=(), depth=None):
        self.p, self.A, self.lo, self.hi, self.E, self.holes, self.depth = p, A, lo, hi, tuple(E), tuple(holes), depth

    @property
    def addr(self):
        return None

    def __repr__(self):
        return 'iter %s(%s[%s..%s) \\ %s)' % (self.p.name, self.A, self.lo, self.hi, self.holes)


class State:
    __slots__ = ('env', 'heap', 'pc', 'out', 'g', 'frames', 'bounded')

    def __init__(self):
        self.env = {}
        self.heap = []
        self.pc = ()
        self.out = ()
        self.g = {}
        self.frames = 0
        self.bounded = False

    def copy(self):
        s = State()
        s.env = dict(self.env)
        s.heap = list(self.heap)
        s.pc = self.pc
        s.out = self.out
        s.g = dict(self.g)
        s.frames = self.frames
        s.bounded = self.bounded
        return s

    def assume(self, b):
        if b is True or z3.is_true(b):
            return
        self.pc = (self.pc, b)

    def replace(self, old, new):
        for i, c in enumerate(self.heap):
            if c is old:
                if new is None:
                    del self.heap[i]
                else:
                    self.heap[i] = new
                return
        raise AssertionError('chunk not in heap')


def pclist(pc):
    r = []
    while pc:
        pc, b = pc
        r.append(b)
    r.reverse()
    return r


class Prune(Exception):
    """current path is infeasible / beyond the bound"""


class PathDead(Exception):
    """current path cannot continue after a failed obligation"""


_BASE = []


def load_baseline():
    if not _BASE:
        p = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'baseline.json')
        _BASE.append(json.load(open(p)) if os.path.exists(p) else {})
    return _BASE[0]


class SpecMissing(Exception):
    """a loop/helper specification no longer applies to this source"""


class Retry(Exception):
    pass


class Obl:
    __slots__ = ('fn', 'name', 'line', 'ok', 'why', 'model', 'time', 'path')

    def __init__(self, fn, name, line, ok, why='', model=None, t=0, path=None):
        self.fn, self.name, self.line, self.ok, self.why, self.model, self.time, self.path = fn, name, line, ok, why, model, t, path


class Pred:
    """user predicate. body(c, ins, outs): bidirectional definition. In produce mode
    `outs` are given; in consume mode outs is None and the computed outs are returned."""

    def __init__(self, name, outs, body, struct=None, peek=None, nullable=True, drop=None, access=None):
        self.name, self.outs, self.body = name, outs, body
        self.struct = struct       # set of struct names this predicate can expose, or None
        self.peek = peek           # dict field -> fn(ins, outs) readable without unfolding
        self.nullable = nullable
        self.drop = drop
        self.access = access       # access(c, chunk, S) extra facts needed before unfolding for S


class Shared:
    """objects of a struct type that many owners share: constant fields read the same value everywhere,
    free fields (statistics) may be written and read as anything, all other writes are violations"""

    def __init__(self, S, valid, consts=None, free=(), fields=None):
        self.S, self.valid, self.consts, self.free, self.fields = S, valid, consts or {}, set(free), fields

    def read(self, eng, st, p, path, line):
        if path in self.consts:
            return iv(self.consts[path])
        if path in self.free:
            return eng.fresh(path)
        f = z3.Function('%s.%s' % (self.S, path), I, I)
        return f(p)

    def write(self, eng, st, p, path, v, line):
        if path not in self.free:
            eng.fail(st, 'write to a field of a shared object (%s.%s)' % (self.S, path), line)


_qcache = {}


def simple(b):
    """quantifier-free and linear"""
    k = b.get_id()
    r = _qcache.get(k)
    if r is None:
        seen = set()
        todo = [b]
        r = True
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_quantifier(x) or (z3.is_mul(x) and sum(not z3.is_int_value(y) for y in x.children()) > 1):
                r = False
                break
            todo.extend(x.children())
        _qcache[k] = (r, b)          # keep b alive: ids are reused
        return r
    return r[0]


class Solver:
    filt = None

    def __init__(self, timeout=8000, axioms=()):
        self.s = z3.Solver()
        self.s.set('random_seed', 1)
        self.stack = []
        self.timeout = timeout
        self.time = 0.0
        self.calls = 0
        for a in axioms:
            self.s.add(a)
        self.axioms = list(axioms)
        self.fast = 0
        self.deadline = None

    def sync(self, pc):
        l = pclist(pc)
        k = 0
        n = min(len(l), len(self.stack))
        while k < n and l[k] is self.stack[k]:
            k += 1
        d = len(self.stack) - k
        if d:
            self.s.pop(d)
            del self.stack[k:]
        for b in l[k:]:
            self.s.push()
            if self.filt is None or self.filt(b):
                self.s.add(b)
            self.stack.append(b)

    def check(self, pc, extra=None, timeout=None):
        t = time.time()
        if self.deadline and t > self.deadline:
            raise ToolLimit('function time budget exhausted')
        self.sync(pc)
        self.s.set('timeout', timeout or self.timeout)
        self.calls += 1
        if extra is None:
            r = self.s.check()
        else:
            self.s.push()
            self.s.add(extra)
            r = self.s.check()
            if r == z3.sat:
                try:
                    self.model = self.s.model()
                except z3.Z3Exception:
                    self.model = None
            self.s.pop()
        self.time += time.time() - t
        return r


class Engine:
    def __init__(self, db, specs, bounded=0, inline_only=(), timeout=8000, budget=300, unroll=4, verbose=False):
        self.db = db
        self.specs = specs          # Specs registry
        self.bounded = bounded      # 0: deductive; k>0: depth/unroll bound
        self.inline_only = set(inline_only)
        self.obls = []
        self.counter = itertools.count(1)
        self.addrc = itertools.count(1)
        self.solver = Solver(timeout, specs.axioms)
        self.light, self.use_light = None, False
        self.timeout = timeout
        self.strlits = {}
        self.litaddr = {}
        self.gaddr = {}
        self.fnaddr = {}
        self.addrfn = {}
        self.unroll = unroll
        self.used = set()           # contracts used
        self.inlined = set()
        self.models_used = set()
        self.loops_cut = 0
        self.loops_unrolled = set()
        self.bounded_hit = False
        self.paths = 0
        self.curfn = None
        self.callstack = []
        self.addr_taken = {}
        self.budget = budget
        self.verbose = verbose
        self.vacuous = []
        self.reached = set()
        self.stop_on_fail = 6
        self.loop_index = {}
        self.loop_moves = {}
        self.baseline = load_baseline()
        self.baseline_names = self.baseline.get('', ())

    # ------------------------------------------------------------ fresh things
    def fresh(self, name='v', sort=I):
        return z3.Const('%s!%d' % (name, next(self.counter)), sort)

    def fresh_addr(self):
        return iv(10 ** 9 + 1000 * next(self.addrc))

    def strlit(self, s):
        if s not in self.litaddr:
            a = iv(10 ** 7 + 1000 * len(self.litaddr))
            self.litaddr[s] = a
            self.strlits[a.as_long()] = s
        return self.litaddr[s]

    def fn_value(self, name):
        if name not in self.fnaddr:
            a = iv(10 ** 6 + 1000 * len(self.fnaddr))
            self.fnaddr[name] = a
            self.addrfn[a.as_long()] = name
        return self.fnaddr[name]

    # ------------------------------------------------------------ logic
    def light_check(self, st, extra):
        """check with the quantifier-free, linear facts only (unsat is conclusive)"""
        if self.light is None:
            self.light = Solver(self.timeout, ())
            self.light.filt = simple
        self.light.deadline = self.solver.deadline
        r = self.light.check(st.pc, extra, timeout=300)
        return r

    def feasible(self, st, extra=None):
        if self.use_light:
            return self.light_check(st, extra) != z3.unsat
        r = self.solver.check(st.pc, extra, timeout=200)
        return r != z3.unsat

    def entails(self, st, b, timeout=1000):
        b = simp(b)
        if z3.is_true(b):
            return True
        if z3.is_false(b):
            return False
        if self.use_light:
            if self.light_check(st, z3.Not(b)) == z3.unsat:
                return True
            if timeout <= 500:
                return False
            timeout = 200
        return self.solver.check(st.pc, z3.Not(b), timeout=timeout) == z3.unsat

    def must_eq(self, st, a, b):
        if a is b or (isinstance(a, z3.ExprRef) and a.eq(b)):
            return True
        return self.entails(st, a == b, timeout=500)

    def prove(self, st, goal, name, line=0):
        t0 = time.time()
        fn = self.curfn
        full = '%s: %s' % (fn, name)
        g = goal if isinstance(goal, bool) else simp(goal)
        if g is True or z3.is_true(g):
            self.obls.append(Obl(fn, name, line, True))
            return True
        if g is False or z3.is_false(g):
            r = self.solver.check(st.pc, None, timeout=self.timeout)
            if r == z3.unsat:
                self.obls.append(Obl(fn, name, line, True, t=time.time() - t0))
                raise Prune()
            self._fail(st, name, line, 'definitely false on a reachable path' if r == z3.sat else 'unknown', goal, r, t0)
            return False
        r = self.solver.check(st.pc, z3.Not(g))
        model = None
        if r == z3.sat:
            model = getattr(self.solver, 'model', None)
        if r == z3.unknown:
            r, model = self._retry(st, g)
        if r == z3.unsat:
            self.obls.append(Obl(fn, name, line, True, t=time.time() - t0))
            st.assume(g)
            return True
        self._fail(st, name, line, 'counter-model' if r == z3.sat else 'solver returned unknown', g, r, t0, model)
        st.assume(g)
        return False

    def _retry(self, st, g):
        """second opinion with fresh solvers (no incrementality; NIA tactic; cvc5)"""
        for mk in (lambda: z3.Solver(), lambda: z3.Then('simplify', 'solve-eqs', 'smt').solver()):
            s = mk()
            s.set('timeout', self.timeout * 2)
            for a in getattr(self, 'axioms', self.specs.axioms):
                s.add(a)
            for b in pclist(st.pc):
                s.add(b)
            s.add(z3.Not(g))
            r = s.check()
            self.solver.calls += 1
            if r != z3.unknown:
                return r, (s.model() if r == z3.sat else None)
        return z3.unknown, None

    def _fail(self, st, name, line, why, g, r, t0, model=None):
        ms = None
        if model is not None:
            try:
                ms = {str(d): str(model[d]) for d in model.decls() if d.arity() == 0}
            except Exception:
                ms = None
        if st.g.get('approx') and 'leak' not in name and 'not owned' not in name:
            # the path depends on the arbitrary answer of an isl query without a contract: not a proof of a violation
            why = 'unknown (the path depends on %s, which has no contract)' % st.g['approx']
        o = Obl(self.curfn, name, line, False, why, ms, time.time() - t0)
        o.path = list(st.g.get('trail', ()))
        if self.verbose:
            print('  FAIL', self.curfn, name, 'line', line, why, '| goal', str(g)[:400])
            if self.verbose > 1:
                print('   heap:', *st.heap, sep='\n      ')
                print('   pc:', *pclist(st.pc), sep='\n      ')
                print('   model', ms)
        self.obls.append(o)
        if sum(1 for x in self.obls if not x.ok) >= self.stop_on_fail:
            raise ToolLimit('too many failures')

    def fail(self, st, name, line=0):
        """an obligation that is false on this path (if the path is feasible)"""
        self.prove(st, False, name, line)
        raise PathDead()

    def fork(self, st, b):
        """yield (state, truth) for each feasible truth value of b"""
        b = simp(b) if not isinstance(b, bool) else z3.BoolVal(b)
        if z3.is_true(b):
            yield st, True
            return
        if z3.is_false(b):
            yield st, False
            return
        f1 = self.feasible(st, b)
        f2 = self.feasible(st, z3.Not(b))
        if f1 and f2:
            st.g.setdefault('forkpc', st.pc)
            s2 = st.copy()
            st.assume(b)
            yield st, True
            s2.assume(z3.Not(b))
            yield s2, False
        elif f1:
            st.assume(b)
            yield st, True
        elif f2:
            st.assume(z3.Not(b))
            yield st, False

    # ------------------------------------------------------------ specs
    def run_spec(self, sfn, st, g, mode, **kw):
        """run a bidirectional assertion; yields (state, ghosts)"""
        work = [[]]
        while work:
            dec = work.pop()
            s2 = st.copy()
            c = Ctx(self, s2, dict(g), mode, dec, **kw)
            try:
                sfn(c)
            except Prune:
                work.extend(c.pending)
                continue
            except PathDead:
                work.extend(c.pending)
                continue
            work.extend(c.pending)
            if c.dec:
                c.st.g.setdefault('forkpc', st.pc)
            yield c.st, c.g

    # ------------------------------------------------------------ heap search
    def find_struct(self, st, p, S, line=0, what='access'):
        """make an SChunk that contains struct S at address p explicit. Yields (st, chunk, prefix)"""
        p = simp(p)
        # elements of struct arrays are handled by the caller
        for exact in (True, False):
            for c in st.heap:
                if c.kind == 'S':
                    pre = self.db.first_prefix(c.s, S)
                    if pre is None:
                        continue
                    if (c.addr.eq(p) if exact else self.must_eq(st, c.addr, p)):
                        yield st, c, pre
                        return
            for c in st.heap:
                if c.kind == 'P' and c.p.struct and S in c.p.struct:
                    if (c.addr.eq(p) if exact else self.must_eq(st, c.addr, p)):
                        for s2 in self.unfold(st, c, S, line):
                            yield from self.find_struct(s2, p, S, line, what)
                        return
            for c in st.heap:
                if c.kind == 'I' and c.p.struct and S in c.p.struct:
                    idx = self.ichunk_index(st, c, p, exact)
                    if idx is not None:
                        self.extract(st, c, idx)
                        yield from self.find_struct(st, p, S, line, what)
                        return
        # case analysis: p may be one of several addresses (only tried when nothing matches outright)
        cands = [c for c in st.heap if c.kind in 'SP' and (c.kind == 'S' and self.db.first_prefix(c.s, S) is not None or c.kind == 'P' and c.p.struct and S in c.p.struct)]
        for c in cands:
            if self.feasible(st, c.addr == p):
                s2 = st.copy()
                s2.assume(c.addr == p)
                st.assume(c.addr != p)
                yield from self.find_struct(s2, p, S, line, what)
        try:
            self.fail(st, 'memory safety: %s of struct %s not owned/possibly invalid' % (what, S), line)
        except (PathDead, Prune):
            return

    def ichunk_index(self, st, c, p, exact):
        # p of the form Select(A, i)
        if z3.is_app(p) and p.decl().kind() == z3.Z3_OP_SELECT:
            A, i = p.arg(0), p.arg(1)
            if (A.eq(c.A) or self.must_eq(st, z3.Select(c.A, i), p)) and self.entails(st, z3.And(c.lo <= i, i < c.hi, *[i != h for h in c.holes])):
                return i
        return None

    def extract(self, st, c, i):
        n = IChunk(c.p, c.A, c.lo, c.hi, c.E, c.holes + (i,), c.depth)
        st.replace(c, n)
        st.heap.append(PChunk(c.p, (simp(z3.Select(c.A, i)),), [z3.Select(e, i) for e in c.E], c.depth))
        if getattr(c.p, 'on_extract', None):
            c.p.on_extract(self, st, c, i)
        if getattr(c.p, 'on_produce', None):
            c.p.on_produce(st, (simp(z3.Select(c.A, i)),), [z3.Select(e, i) for e in c.E])

    def unfold(self, st, c, S=None, line=0):
        """unfold predicate chunk c in st"""
        if c.p.nullable:
            ok = self.prove(st, c.addr != 0, 'null dereference (predicate %s)' % c.p.name, line)
            if not ok:
                pass
        if self.bounded and c.depth is not None and c.depth <= 0:
            self.bounded_hit = True
            return
        st.heap = [x for x in st.heap if x is not c]

        def body(cx):
            cx.depth = None if c.depth is None else c.depth - 1
            cx.S = S
            c.p.body(cx, c.ins, c.outs)
        for s2, g in self.run_spec(body, st, {}, 'produce'):
            if self.feasible(s2):
                yield s2

    # ------------------------------------------------------------ cells
    def cell(self, st, addr, t, line=0):
        """locate the memory cell at addr of type t. Yields (st, getter, setter)"""
        addr = simp(addr)
        if z3.is_app(addr) and addr.num_args() == 1 and addr.decl().name().startswith('fld!'):
            S, path = addr.decl().name()[4:].split('.', 1)
            for c in st.heap:
                if c.kind == 'C' and (c.addr.eq(addr) or z3.is_app(c.addr) and c.addr.decl().eq(addr.decl()) and self.must_eq(st, c.addr, addr)):
                    yield st, (c, None, None)
                    return
            sh = self.shared(st, addr.arg(0), S)
            if sh is not None:
                yield st, (CChunk(t, addr, sh.read(self, st, addr.arg(0), path, line), 'const', S + '.' + path), None, None)
                return
            for s2, c, pre in self.find_struct(st, addr.arg(0), S, line):
                if isinstance(c.f.get(pre + path), ArrVal):
                    v = c.f[pre + path]
                    if v.size is not None:
                        self.prove(s2, v.size > 0, 'array field index in bounds', line)
                    yield s2, (c, pre + path, ZERO)
                else:
                    yield s2, (c, pre + path, None)
            return
        if z3.is_app(addr) and addr.decl().eq(ELEM):
            base, idx = addr.arg(0), addr.arg(1)
            yield from self.acell(st, base, idx, t, line)
            return
        for exact in (True, False):
            for c in st.heap:
                if c.kind == 'C' and (c.addr.eq(addr) if exact else self.must_eq(st, c.addr, addr)):
                    yield st, (c, None, None)
                    return
                if c.kind == 'A' and (c.base.eq(addr) if exact else self.must_eq(st, c.base, addr)):
                    self.bounds(st, c, ZERO, line)
                    yield st, (c, None, ZERO)
                    return
            # first scalar of a struct
            for c in st.heap:
                if c.kind == 'S' and (c.addr.eq(addr) if exact else self.must_eq(st, c.addr, addr)):
                    p0, t0 = self.db.flat(c.s)[0]
                    if t0 == t:
                        yield st, (c, p0, None)
                        return
            for c in st.heap:
                if c.kind == 'P' and c.p.struct is None and (c.addr.eq(addr) if exact else self.must_eq(st, c.addr, addr)):
                    if getattr(c.p, 'cells', False):
                        for s2 in self.unfold(st, c, None, line):
                            yield from self.cell(s2, addr, t, line)
                        return
        if not exact:
            pass
        # field of some struct, reached through a pointer equal to &chunk->field
        for c in list(st.heap):
            if c.kind == 'S':
                for p, tt in self.db.flat(c.s):
                    if tt == t and not self.is_first(c.s, p):
                        fa = FLD(c.s + '.' + p)(c.addr)
                        if self.must_eq(st, fa, addr):
                            yield st, (c, p, None)
                            return
        # case split over the known cells
        for c in list(st.heap):
            if c.kind == 'C' and c.t == t and self.feasible(st, c.addr == addr):
                s2 = st.copy()
                s2.assume(c.addr == addr)
                st.assume(c.addr != addr)
                yield s2, (c, None, None)
        for c in list(st.heap):
            if c.kind == 'S':
                for p, tt in self.db.flat(c.s):
                    if tt == t and not self.is_first(c.s, p):
                        fa = FLD(c.s + '.' + p)(c.addr)
                        if self.feasible(st, fa == addr):
                            s2 = st.copy()
                            s2.assume(fa == addr)
                            st.assume(fa != addr)
                            yield s2, (c, p, None)
        try:
            self.fail(st, 'memory safety: cell access not owned/possibly invalid (%s)' % t, line)
        except (PathDead, Prune):
            return

    def acell(self, st, base, idx, t, line):
        # array field of a struct?
        if z3.is_app(base) and base.num_args() == 1 and base.decl().name().startswith('fld!'):
            S, path = base.decl().name()[4:].split('.', 1)
            for s2, c, pre in self.find_struct(st, base.arg(0), S, line):
                v = c.f.get(pre + path)
                if isinstance(v, ArrVal):
                    if v.size is not None:
                        self.prove(s2, z3.And(idx >= 0, idx < v.size), 'array field index in bounds', line)
                    yield s2, (c, pre + path, idx)
                else:
                    raise ToolLimit('element of non-array field')
            return
        for exact in (True, False):
            for c in st.heap:
                if c.kind == 'A' and (c.base.eq(base) if exact else self.must_eq(st, c.base, base)):
                    self.bounds(st, c, idx, line)
                    yield st, (c, None, idx)
                    return
            for c in st.heap:
                if c.kind == 'A' and z3.is_app(c.base) and c.base.decl().eq(ELEM):
                    if (c.base.arg(0).eq(base) if exact else self.must_eq(st, c.base.arg(0), base)):
                        j = simp(idx - c.base.arg(1))
                        if self.entails(st, z3.And(j >= 0, j < c.size)):
                            yield st, (c, None, j)
                            return
            for c in st.heap:
                if c.kind == 'C' and (c.addr.eq(base) if exact else self.must_eq(st, c.addr, base)) and self.must_eq(st, idx, ZERO):
                    yield st, (c, None, None)
                    return
            for c in st.heap:
                if c.kind == 'P' and getattr(c.p, 'cells', False) and (c.addr.eq(base) if exact else self.must_eq(st, c.addr, base)):
                    for s2 in self.unfold(st, c, None, line):
                        yield from self.acell(s2, base, idx, t, line)
                    return
        try:
            self.fail(st, 'memory safety: array element access not owned/possibly invalid (%s)' % t, line)
        except (PathDead, Prune):
            return

    def bounds(self, st, c, idx, line):
        self.prove(st, z3.And(idx >= 0, idx < c.size), 'array index in bounds', line)

    def is_first(self, S, path):
        return self.db.flat(S)[0][0] == path

    def load(self, st, loc, line=0, raw=False):
        c, path, idx = loc
        if c.kind == 'C':
            v = c.val
        elif c.kind == 'S':
            v = c.f[path]
            if isinstance(v, ArrVal):
                return simp(z3.Select(v.arr, idx))
        else:
            if c.ini is not None and not raw:
                self.prove(st, z3.And(idx >= c.ini[0], idx < c.ini[1]), 'read of initialised element', line)
            if isinstance(c.arr, dict):
                return z3.Select(c.arr[path], idx)
            return simp(z3.Select(c.arr, idx))
        if isinstance(v, str) and v == UNINIT:
            if raw:
                return UNINIT
            self.prove(st, False, 'read of uninitialised memory', line)
            raise PathDead()
        return v

    def store(self, st, loc, v, line=0):
        c, path, idx = loc
        if c.kind == 'C' and c.region == 'const':
            self.fail(st, 'write to a shared constant (%s)' % c.name, line)
        if c.kind == 'C':
            n = c.set(v)
        elif c.kind == 'S':
            o = c.f[path]
            if isinstance(o, ArrVal):
                n = c.set(path, ArrVal(z3.Store(o.arr, idx, v), o.size))
            else:
                n = c.set(path, v)
        else:
            if v is UNINIT:
                v = self.fresh('uninit')
            if c.ini is not None:
                self.prove(st, z3.And(idx >= c.ini[0], idx < c.ini[1]), 'write to initialised element', line)
            if isinstance(c.arr, dict):
                a = dict(c.arr)
                a[path] = z3.Store(a[path], idx, v)
                n = c.upd(arr=a)
            else:
                n = c.upd(arr=z3.Store(c.arr, idx, v))
        st.replace(c, n)

    def new_struct(self, S, addr, region='heap', fill=None, fields=None, size=None, depth=None):
        """fill: None -> UNINIT ; 'fresh' -> symbolic"""
        f = {}
        for p, t in self.db.flat(S):
            if fields and p in fields:
                f[p] = fields[p]
                continue
            if t.k == 'array':
                if t.a.k == 'struct':
                    for q, tt in self.db.flat(t.a.a):
                        f[p + '[].' + q] = ArrVal(self.fresh(q, z3.ArraySort(I, I)), size)
                    continue
                # a trailing [1] array is the pre-C99 flexible array member: its room is not known when the struct is produced
                flex = fill == 'fresh' and t.n == 1 and p == self.db.flat(S)[-1][0]
                f[p] = ArrVal(self.fresh(p, z3.ArraySort(I, I)), size if size is not None else (None if flex or t.n is None else iv(t.n)))
            elif fill == 'fresh':
                f[p] = self.fresh(S + '.' + p)
            else:
                f[p] = UNINIT
        return SChunk(S, addr, f, region, depth)

    # ------------------------------------------------------------ lvalues
    # LV: ('var', vid, T) | ('mem', addr, T) | ('fld', base, S, path, T)
    def lv_addr(self, st, lv):
        k = lv[0]
        if k == 'mem':
            return lv[1]
        if k == 'fld':
            _, base, S, path, t = lv
            flat = self.db.flat(S)
            first = flat[0][0]
            if first == path or first.startswith(path + '.'):
                return base
            return FLD(S + '.' + path)(base)
        raise ToolLimit('address of register variable')

    def shared(self, st, base, S):
        """handler of a struct type whose objects are shared and read-only for the code under contract"""
        h = self.specs.shared.get(S)
        if h is None:
            return None
        base = simp(base)
        for c in st.heap:
            if c.kind in 'S' and c.s == S and (c.addr.eq(base) or self.must_eq(st, c.addr, base)):
                return None
        if h.valid is not None and not self.entails(st, h.valid(base)):
            return None
        return h

    def lv_locs(self, st, lv, line):
        """yield (st, loc) for scalar lvalues"""
        k = lv[0]
        if k == 'mem':
            yield from self.cell(st, lv[1], lv[2], line)
        elif k == 'fld':
            _, base, S, path, t = lv
            base = simp(base)
            # element of an array-of-struct field
            if z3.is_app(base) and base.decl().eq(ELEM) or self._is_arrstruct(base, S):
                bb, idx = (base.arg(0), base.arg(1)) if z3.is_app(base) and base.decl().eq(ELEM) else (base, ZERO)
                if z3.is_app(bb) and bb.num_args() == 1 and bb.decl().name().startswith('fld!'):
                    S2, p2 = bb.decl().name()[4:].split('.', 1)
                    for s2, c, pre in self.find_struct(st, bb.arg(0), S2, line):
                        pp = pre + p2 + '[].' + path
                        v = c.f.get(pp)
                        if v is None:
                            raise ToolLimit('struct array field ' + pp)
                        if v.size is not None:
                            self.prove(s2, z3.And(idx >= 0, idx < v.size), 'array field index in bounds', line)
                        yield s2, (c, pp, idx)
                    return
                for exact in (True, False):
                    for c in st.heap:
                        if c.kind == 'A' and isinstance(c.arr, dict) and (c.base.eq(bb) if exact else self.must_eq(st, c.base, bb)):
                            self.bounds(st, c, idx, line)
                            yield st, (c, path, idx)
                            return
            fd = FLD(S + '.' + path)
            for c in st.heap:
                if c.kind == 'C' and z3.is_app(c.addr) and c.addr.decl().eq(fd) and (c.addr.arg(0).eq(base) or self.must_eq(st, c.addr.arg(0), base)):
                    yield st, (c, None, None)
                    return
            for s2, c, pre in self.find_struct(st, base, S, line):
                yield s2, (c, pre + path, None)
        else:
            raise ToolLimit('lv_locs ' + k)

    def _is_arrstruct(self, base, S):
        if z3.is_app(base) and base.num_args() == 1 and base.decl().name().startswith('fld!'):
            S2, p2 = base.decl().name()[4:].split('.', 1)
            for p, t in self.db.flat(S2):
                if p == p2 and t.k == 'array' and t.a.k == 'struct':
                    return True
        return False

    def lv_read(self, st, lv, line):
        if lv[0] == 'var':
            v = st.env[lv[1]]
            if isinstance(v, str) and v == UNINIT:
                try:
                    self.fail(st, 'read of uninitialised variable %s' % lv[1][1], line)
                except (PathDead, Prune):
                    return
            yield st, v
            return
        # peek through predicates without unfolding
        if lv[0] == 'fld':
            _, base, S, path, t = lv
            b = simp(base)
            sh = self.shared(st, b, S)
            if sh is not None:
                yield st, sh.read(self, st, b, path, line)
                return
            for c in st.heap:
                if c.kind == 'P' and c.p.peek and (S + '.' + path) in c.p.peek and (c.addr.eq(b) or self.must_eq(st, c.addr, b)):
                    if c.p.nullable:
                        self.prove(st, c.addr != 0, 'null dereference (predicate %s)' % c.p.name, line)
                    yield st, c.p.peek[S + '.' + path](c.ins, c.outs)
                    return
        for s2, loc in self.lv_locs(st, lv, line):
            try:
                v = self.load(s2, loc, line)
            except (PathDead, Prune):
                continue
            yield s2, v

    def lv_write(self, st, lv, v, line):
        if lv[0] == 'var':
            st.env[lv[1]] = v
            yield st
            return
        if lv[0] == 'fld':
            sh = self.shared(st, lv[1], lv[2])
            if sh is not None:
                try:
                    sh.write(self, st, simp(lv[1]), lv[3], v, line)
                except (PathDead, Prune):
                    return
                yield st
                return
        for s2, loc in self.lv_locs(st, lv, line):
            try:
                self.store(s2, loc, v, line)
            except (PathDead, Prune):
                continue
            yield s2


from interp import Interp  # noqa: E402  (mixin with the statement/expression semantics)
from ctx import Ctx        # noqa: E402


class Verifier(Interp, Engine):
    pass
