"""C statement / expression semantics over symbolic states (generators, DFS)."""
import re
import z3
from front import T, INT, VOID, MPZ, FUNC, CHAR, ToolLimit
import engine as E
from engine import (iv, ZERO, simp, mk_elem, b2i, i2b, UNINIT, ArrVal, SChunk, AChunk, CChunk,
                    PChunk, IChunk, Prune, PathDead, SpecMissing, Retry, isval, FLD, I, ELEM)

EXPRS = ('Expr', 'Literal', 'Operator')


def kids(n):
    return [i for i in n.get('inner', ()) if i and i.get('kind') and not i['kind'].endswith('Comment') and not i['kind'].endswith('Attr')]


def strip_expr(n):
    while n['kind'] in ('ParenExpr', 'ConstantExpr') or (n['kind'] in ('ImplicitCastExpr', 'CStyleCastExpr') and n.get('castKind') in ('NoOp', 'LValueToRValue', 'BitCast', 'IntegralCast', 'FunctionToPointerDecay', 'ArrayToPointerDecay')):
        n = kids(n)[-1]
    return n


def lit_zero(n):
    n = strip_expr(n)
    return n['kind'] == 'IntegerLiteral' and n['value'] == '0'


def local_decls(f):
    """parameters and locals of a function, in order"""
    r = []

    def walk(n):
        if n.get('kind') in ('ParmVarDecl', 'VarDecl') and 'name' in n:
            r.append((n['name'], n['type']['qualType']))
        for i in n.get('inner', ()):
            if i:
                walk(i)
    walk(f)
    return r


def count_loops(f):
    r = [0]

    def walk(n):
        if n.get('kind') in ('ForStmt', 'WhileStmt', 'DoStmt') and not (n['kind'] == 'DoStmt' and lit_zero(kids(n)[1])):
            r[0] += 1
        for i in n.get('inner', ()):
            if i:
                walk(i)
    walk(f)
    return r[0]


def tdiv(a, b):
    """C truncating division"""
    q = a / b  # z3 Int: floor for b>0 (euclid)
    if isval(a) and isval(b) and b.as_long() != 0:
        x, y = a.as_long(), b.as_long()
        r = abs(x) // abs(y)
        return iv(r if (x < 0) == (y < 0) else -r)
    return z3.If(a >= 0, a / b, -((-a) / b))


def tmod(a, b):
    return simp(a - b * tdiv(a, b))


def is_prefix(p, pc):
    while pc is not p:
        if not pc:
            return False
        pc = pc[0]
    return True


class Interp:
    # ------------------------------------------------------------ helpers
    def line(self, n):
        return n.get('_line', 0)

    def typ(self, n):
        return self.db.ty(n['type'].get('desugaredQualType') or n['type']['qualType']) if False else self.db.ty(n['type']['qualType'])

    def vid(self, st, decl):
        return (st.frames, decl['name'], decl['id'])

    def var_lv(self, st, ref):
        d = ref['referencedDecl']
        t = self.db.ty(d['type']['qualType'])
        if d['kind'] in ('VarDecl', 'ParmVarDecl'):
            v = self.vid(st, d)
            if v in st.env:
                x = st.env[v]
                if isinstance(x, tuple) and x[0] == 'loc':
                    return ('mem', x[1], t)
                return ('var', v, t)
            # global
            return ('mem', self.global_addr(st, d['name']), t)
        raise ToolLimit('lvalue decl ' + d['kind'])

    def global_addr(self, st, name):
        if name not in self.gaddr:
            self.gaddr[name] = iv(5 * 10 ** 6 + 1000 * len(self.gaddr))
        a = self.gaddr[name]
        if not any(c.kind in 'SC' and c.region == 'static' and c.addr.eq(a) for c in st.heap):
            q, init, unit = self.db.globals.get(name, (None, None, None))
            if q is None:
                raise ToolLimit('unknown global ' + name)
            t = self.db.ty(q)
            if t.k == 'struct':
                f = {}
                flat = self.db.flat(t.a) if t.a in self.db.records else []
                vals = kids(init) if init else []
                for (p, tt), vn in zip(flat, vals):
                    r = list(self.ev(st, vn))
                    if len(r) == 1:
                        f[p] = r[0][1]
                for p, tt in flat:
                    if p not in f:
                        f[p] = self.fresh(name + '.' + p) if not ('const' in q and init) else ZERO
                st.heap.append(SChunk(t.a, a, f, 'static'))
            else:
                st.heap.append(CChunk(t, a, self.specs.global_value(self, name, t), 'static', name))
        return a

    # ------------------------------------------------------------ lvalues
    def lv(self, st, n):
        k = n['kind']
        if k == 'ParenExpr':
            yield from self.lv(st, kids(n)[0])
        elif k == 'DeclRefExpr':
            d = n['referencedDecl']
            if d['kind'] == 'FunctionDecl':
                yield st, ('fn', d['name'])
            else:
                yield st, self.var_lv(st, n)
        elif k == 'UnaryOperator' and n['opcode'] == '*':
            t = self.typ(n)
            for s2, v in self.ev(st, kids(n)[0]):
                yield s2, ('mem', v, t)
        elif k == 'UnaryOperator' and n['opcode'] == '__extension__':
            yield from self.lv(st, kids(n)[0])
        elif k == 'ArraySubscriptExpr':
            a, b = kids(n)
            t = self.typ(n)
            for s2, p in self.ev(st, a):
                for s3, i in self.ev(s2, b):
                    yield s3, ('mem', mk_elem(p, i), t)
        elif k == 'MemberExpr':
            base = kids(n)[0]
            f = n['name']
            t = self.typ(n)
            if n.get('isArrow'):
                bt = self.typ(base)
                if bt.k != 'ptr' or bt.a.k != 'struct':
                    raise ToolLimit('-> on ' + str(bt))
                for s2, p in self.ev(st, base):
                    yield s2, ('fld', p, bt.a.a, f, t)
            else:
                for s2, l in self.lv(st, base):
                    if l[0] == 'fld':
                        yield s2, ('fld', l[1], l[2], l[3] + '.' + f, t)
                    elif l[0] == 'mem':
                        yield s2, ('fld', l[1], l[2].a, f, t)
                    else:
                        raise ToolLimit('. on ' + l[0])
        elif k in ('ImplicitCastExpr', 'CStyleCastExpr') and n.get('castKind') in ('NoOp',):
            yield from self.lv(st, kids(n)[-1])
        elif k == 'StringLiteral':
            yield st, ('mem', self.strlit(self.strtext(n)), self.typ(n))
        elif k == 'PredefinedExpr':
            yield st, ('mem', self.strlit('__func__'), T('ptr', CHAR))
        else:
            raise ToolLimit('lvalue ' + k)

    def strtext(self, n):
        import json
        v = n['value']
        try:
            return json.loads(v)
        except Exception:
            return v.strip('"').encode().decode('unicode_escape')

    # ------------------------------------------------------------ expressions
    def ev(self, st, n):
        k = n['kind']
        m = getattr(self, 'ev_' + k, None)
        if m is None:
            raise ToolLimit('expression ' + k)
        return m(st, n)

    def ev_ParenExpr(self, st, n):
        return self.ev(st, kids(n)[0])

    def ev_ConstantExpr(self, st, n):
        return self.ev(st, kids(n)[0])

    def ev_IntegerLiteral(self, st, n):
        yield st, iv(int(n['value']))

    def ev_CharacterLiteral(self, st, n):
        yield st, iv(int(n['value']))

    def ev_FloatingLiteral(self, st, n):
        yield st, self.fresh('flt')

    def ev_StringLiteral(self, st, n):
        yield st, self.strlit(self.strtext(n))

    def ev_PredefinedExpr(self, st, n):
        yield st, self.strlit('__func__')

    def ev_ImplicitValueInitExpr(self, st, n):
        yield st, ZERO

    def ev_InitListExpr(self, st, n):
        raise ToolLimit('InitListExpr value')

    def ev_StmtExpr(self, st, n):
        body = kids(n)[0]
        for s2, out in self.exec(st, body):
            if out is None:
                yield s2, ZERO
            elif isinstance(out, tuple) and out[0] == 'exprval':
                yield s2, out[1]
            else:
                raise ToolLimit('control flow out of a statement expression')

    def ev_DeclRefExpr(self, st, n):
        d = n['referencedDecl']
        if d['kind'] == 'EnumConstantDecl':
            if d['name'] not in self.db.enums:
                raise ToolLimit('enum ' + d['name'])
            yield st, iv(self.db.enums[d['name']])
            return
        if d['kind'] == 'FunctionDecl':
            yield st, self.fn_value(d['name'])
            return
        yield from self.lv_read(st, self.var_lv(st, n), self.line(n))

    def ev_MemberExpr(self, st, n):
        for s2, l in self.lv(st, n):
            yield from self.lv_read(s2, l, self.line(n))
    ev_ArraySubscriptExpr = ev_MemberExpr

    def sizeof(self, t):
        if t.k == 'char':
            return iv(1)
        if t.k == 'array' and t.n is not None:
            return t.n * self.sizeof(t.a)
        return z3.Int('sizeof!' + t.key())

    def ev_UnaryExprOrTypeTraitExpr(self, st, n):
        if n.get('name') != 'sizeof':
            raise ToolLimit('trait')
        if 'argType' in n:
            t = self.db.ty(n['argType']['qualType'])
        else:
            t = self.typ(kids(n)[0])
        s = self.sizeof(t)
        self.sizeof_types = getattr(self, 'sizeof_types', {})
        self.sizeof_types['sizeof!' + t.key()] = t
        if not isval(simp(s)):
            st.assume(s >= 1)
        yield st, s

    def ev_ImplicitCastExpr(self, st, n):
        ck = n['castKind']
        sub = kids(n)[-1]
        if ck == 'LValueToRValue':
            for s2, l in self.lv(st, sub):
                if l[0] == 'fn':
                    yield s2, self.fn_value(l[1])
                    continue
                t = l[2] if l[0] != 'fld' else l[4]
                if t.k == 'struct':
                    yield from self.read_struct(s2, l, t, self.line(n))
                else:
                    yield from self.lv_read(s2, l, self.line(n))
        elif ck == 'ArrayToPointerDecay':
            if strip_expr(sub)['kind'] == 'StringLiteral':
                yield from self.ev(st, strip_expr(sub))
                return
            for s2, l in self.lv(st, sub):
                yield s2, self.lv_addr(s2, l)
        elif ck in ('FunctionToPointerDecay', 'BuiltinFnToFnPtr'):
            for s2, l in self.lv(st, sub):
                if l[0] == 'fn':
                    yield s2, self.fn_value(l[1])
                else:
                    yield s2, self.lv_addr(s2, l) if l[0] != 'var' else s2.env[l[1]]
        elif ck in ('NoOp', 'BitCast', 'IntegralCast', 'PointerToIntegral', 'IntegralToPointer', 'ToVoid', 'LValueBitCast',
                    'IntegralToFloating', 'FloatingToIntegral', 'FloatingCast', 'ConstructorConversion'):
            if ck == 'ToVoid':
                for s2, v in self.ev(st, sub):
                    yield s2, ZERO
            else:
                yield from self.ev(st, sub)
        elif ck == 'NullToPointer':
            yield st, ZERO
        elif ck in ('PointerToBoolean', 'IntegralToBoolean'):
            for s2, v in self.ev(st, sub):
                yield s2, b2i(i2b(v))
        else:
            raise ToolLimit('cast ' + ck)
    ev_CStyleCastExpr = ev_ImplicitCastExpr

    def read_struct(self, st, l, t, line):
        """struct rvalue: dict of fields"""
        addr = self.lv_addr(st, l)
        for s2, c, pre in self.find_struct(st, addr, t.a, line):
            d = {p: c.f[pre + p] for p, _ in self.db.flat(t.a) if pre + p in c.f}
            yield s2, d

    def ev_ConditionalOperator(self, st, n):
        c, a, b = kids(n)
        for s2, t in self.cond(st, c):
            yield from self.ev(s2, a if t else b)

    def ev_UnaryOperator(self, st, n):
        op = n['opcode']
        sub = kids(n)[0]
        if op == '&':
            for s2, l in self.lv(st, sub):
                if l[0] == 'fn':
                    yield s2, self.fn_value(l[1])
                else:
                    yield s2, self.lv_addr(s2, l)
        elif op == '*':
            for s2, l in self.lv(st, n):
                if l[2].k == 'func':
                    yield s2, l[1]
                else:
                    yield from self.lv_read(s2, l, self.line(n))
        elif op in ('++', '--'):
            d = 1 if op == '++' else -1
            for s2, l in self.lv(st, sub):
                for s3, v in self.lv_read(s2, l, self.line(n)):
                    t = l[2] if l[0] != 'fld' else l[4]
                    nv = mk_elem(v, d) if t.k == 'ptr' else simp(v + d)
                    for s4 in self.lv_write(s3, l, nv, self.line(n)):
                        yield s4, (v if n.get('isPostfix') else nv)
        elif op == '-':
            for s2, v in self.ev(st, sub):
                yield s2, simp(-v)
        elif op == '+' or op == '__extension__':
            yield from self.ev(st, sub)
        elif op == '!':
            for s2, v in self.ev(st, sub):
                yield s2, b2i(simp(z3.Not(i2b(v))))
        elif op == '~':
            for s2, v in self.ev(st, sub):
                yield s2, simp(-v - 1)
        else:
            raise ToolLimit('unary ' + op)

    def ev_CompoundAssignOperator(self, st, n):
        a, b = kids(n)
        op = n['opcode'][:-1]
        for s2, l in self.lv(st, a):
            for s3, x in self.lv_read(s2, l, self.line(n)):
                for s4, y in self.ev(s3, b):
                    t = l[2] if l[0] != 'fld' else l[4]
                    if t.k == 'ptr':
                        v = mk_elem(x, y if op == '+' else -y)
                    else:
                        v = self.arith(s4, op, x, y, n)
                    for s5 in self.lv_write(s4, l, v, self.line(n)):
                        yield s5, v

    def arith(self, st, op, x, y, n=None):
        if op == '+':
            return simp(x + y)
        if op == '-':
            return simp(x - y)
        if op == '*':
            return simp(x * y)
        if op in ('/', '%'):
            self.prove(st, y != 0, 'division by zero', self.line(n) if n else 0)
            return simp(tdiv(x, y)) if op == '/' else tmod(x, y)
        cmpf = {'<': lambda: x < y, '<=': lambda: x <= y, '>': lambda: x > y, '>=': lambda: x >= y,
                '==': lambda: x == y, '!=': lambda: x != y}
        if op in cmpf:
            return b2i(simp(cmpf[op]()))
        if op == '<<' and isval(y):
            return simp(x * (2 ** y.as_long()))
        if op == '>>' and isval(y):
            return simp(x / (2 ** y.as_long()))
        if op in '&|^':
            if isval(x) and isval(y):
                a, b = x.as_long(), y.as_long()
                return iv({'&': a & b, '|': a | b, '^': a ^ b}[op])
            f = z3.Function('bit' + {'&': 'and', '|': 'or', '^': 'xor'}[op], I, I, I)
            r = f(x, y)
            if op == '&':
                st.assume(z3.Implies(z3.And(x >= 0, y >= 0), z3.And(r >= 0, r <= x, r <= y)))
                # powers of two: x&y is 0 or y
                if isval(y) and y.as_long() > 0 and (y.as_long() & (y.as_long() - 1)) == 0:
                    st.assume(z3.Or(r == 0, r == y))
                    st.assume(z3.Implies(x == y, r == y))
                    st.assume(z3.Implies(x == 0, r == 0))
            return r
        raise ToolLimit('operator ' + op)

    def ev_BinaryOperator(self, st, n):
        op = n['opcode']
        a, b = kids(n)
        if op == '=':
            ta = self.typ(a)
            for s2, l in self.lv(st, a):
                for s3, v in self.ev(s2, b):
                    if isinstance(v, dict):
                        yield from self.write_struct(s3, l, ta, v, self.line(n))
                        continue
                    for s4 in self.lv_write(s3, l, v, self.line(n)):
                        yield s4, v
            return
        if op == ',':
            for s2, _ in self.ev(st, a):
                yield from self.ev(s2, b)
            return
        if op in ('&&', '||'):
            for s2, t in self.cond(st, n):
                yield s2, iv(1 if t else 0)
            return
        ta, tb = self.typ(a), self.typ(b)
        for s2, x in self.ev(st, a):
            for s3, y in self.ev(s2, b):
                if op in '+-' and (ta.k == 'ptr' or tb.k == 'ptr'):
                    if ta.k == 'ptr' and tb.k == 'ptr':
                        yield s3, self.ptrdiff(s3, x, y)
                    elif ta.k == 'ptr':
                        yield s3, mk_elem(x, y if op == '+' else -y)
                    else:
                        yield s3, mk_elem(y, x)
                else:
                    try:
                        v = self.arith(s3, op, x, y, n)
                    except (PathDead, Prune):
                        continue
                    yield s3, v

    def ptrdiff(self, st, x, y):
        def dec(p):
            if z3.is_app(p) and p.decl().eq(ELEM):
                return p.arg(0), p.arg(1)
            return p, ZERO
        (bx, ix), (by, iy) = dec(x), dec(y)
        if self.must_eq(st, bx, by):
            return simp(ix - iy)
        raise ToolLimit('pointer difference')

    def write_struct(self, st, l, t, v, line):
        addr = self.lv_addr(st, l)
        for s2, c, pre in self.find_struct(st, addr, t.a, line):
            n = c
            for p, x in v.items():
                n = n.set(pre + p, x)
            s2.replace(c, n)
            yield s2, v

    def cond(self, st, n):
        """evaluate condition, forking; yields (state, bool)"""
        k = n['kind']
        if k == 'ParenExpr':
            yield from self.cond(st, kids(n)[0])
            return
        if k == 'ImplicitCastExpr' and n['castKind'] in ('IntegralCast', 'NoOp', 'PointerToBoolean', 'IntegralToBoolean'):
            yield from self.cond(st, kids(n)[0])
            return
        if k == 'UnaryOperator' and n['opcode'] == '!':
            for s2, t in self.cond(st, kids(n)[0]):
                yield s2, not t
            return
        if k == 'BinaryOperator' and n['opcode'] in ('&&', '||'):
            a, b = kids(n)
            for s2, t in self.cond(st, a):
                if t == (n['opcode'] == '||'):
                    yield s2, t
                else:
                    yield from self.cond(s2, b)
            return
        for s2, v in self.ev(st, n):
            for s3, t in self.fork(s2, i2b(v)):
                tr = s3.g.get('trail', ())
                s3.g['trail'] = tr + ((self.line(n), t),)
                yield s3, t

    # ------------------------------------------------------------ calls
    def ev_CallExpr(self, st, n):
        ks = kids(n)
        callee = strip_expr(ks[0])
        args = ks[1:]
        line = self.line(n)
        if callee['kind'] == 'DeclRefExpr' and callee['referencedDecl']['kind'] == 'FunctionDecl':
            name = callee['referencedDecl']['name']
            for s2, vs in self.ev_args(st, args):
                yield from self.call(s2, name, vs, n, args)
            return
        # through a function pointer
        for s2, fv in self.ev(st, ks[0]):
            for s3, vs in self.ev_args(s2, args):
                yield from self.call_ptr(s3, fv, vs, n, args, ks[0])

    def call_ptr(self, st, fv, vs, n, args, calleenode):
        fv = simp(fv)
        if isval(fv) and fv.as_long() in self.addrfn:
            yield from self.call(st, self.addrfn[fv.as_long()], vs, n, args)
            return
        r = self.specs.fnptr(self, st, fv, vs, n, calleenode)
        if r is not None:
            yield from r
            return
        # known targets?
        cands = [a for a in self.addrfn if self.feasible(st, fv == a)]
        if cands and self.entails(st, z3.Or([fv == a for a in cands])):
            for a in cands:
                s2 = st.copy()
                s2.assume(fv == a)
                if self.feasible(s2):
                    yield from self.call(s2, self.addrfn[a], vs, n, args)
            return
        raise ToolLimit('call through unresolved function pointer, line %d' % self.line(n))

    def ev_args(self, st, args):
        if not args:
            yield st, []
            return
        for s2, v in self.ev(st, args[0]):
            for s3, r in self.ev_args(s2, args[1:]):
                yield s3, [v] + r

    def call(self, st, name, vs, n, args):
        line = self.line(n)
        m = self.specs.builtin(name)
        if m is not None and not (name in self.db.funcs and not getattr(m, 'force', False)):
            self.models_used.add(name)
            try:
                yield from m(self, st, vs, n, args)
            except PathDead:
                return
            return
        sp = self.specs.contract(name)
        if sp is not None and name not in self.inline_only and not (self.bounded and sp.view is None and name in self.db.funcs and name not in self.specs.proved and not sp.assumed):
            yield from self.apply_contract(st, name, sp, vs, line)
            return
        if name in self.db.funcs:
            yield from self.inline(st, name, vs, line)
            return
        r = self.specs.external(self, st, name, vs, n, args)
        if r is not None:
            self.models_used.add(name)
            yield from r
            return
        raise ToolLimit('no contract or body for %s (line %d)' % (name, line))

    def apply_contract(self, st, name, sp, vs, line):
        self.used.add(name)
        cur = self.specs.contract(self.curfn)
        if sp.view is not None and not (cur is not None and name in cur.raw):
            sp = sp.view
        for s2, g in self.run_spec(sp.pre, st, {}, 'consume', args=vs, line=line, label='precondition of ' + name):
            if not self.feasible(s2):
                continue
            ret = None
            rt = self.ret_type(name)
            if rt.k != 'void':
                ret = self.fresh('ret_' + name)
                if rt.k == 'ptr':
                    s2.assume(ret >= 0)
            for s3, g2 in self.run_spec(sp.post, s2, g, 'produce', args=vs, ret=ret, line=line, label='postcondition of ' + name, call=name):
                if not sp.noreturn:
                    yield s3, (g2.get('__ret', ret) if ret is not None else ZERO)

    def ret_type(self, name):
        d = self.db.decls.get(name) or self.db.funcs.get(name)
        q = d['type']['qualType']
        i = q.rindex('(') if q.count('(') == 1 else self._retsplit(q)
        return self.db.ty(q[:i].strip())

    def _retsplit(self, q):
        # find the '(' opening the parameter list: matching the final ')'
        d = 0
        for i in range(len(q) - 1, -1, -1):
            if q[i] == ')':
                d += 1
            elif q[i] == '(':
                d -= 1
                if d == 0:
                    return i
        return q.index('(')

    def params(self, fn):
        return [i for i in self.db.funcs[fn].get('inner', []) if i['kind'] == 'ParmVarDecl']

    def body_of(self, fn):
        return [i for i in self.db.funcs[fn].get('inner', []) if i['kind'] == 'CompoundStmt'][0]

    def taken(self, fn):
        if fn not in self.addr_taken:
            s = set()

            def walk(n):
                if n.get('kind') == 'UnaryOperator' and n.get('opcode') == '&':
                    x = kids(n)[0]
                    while x['kind'] == 'ParenExpr':
                        x = kids(x)[0]
                    if x['kind'] == 'DeclRefExpr':
                        s.add(x['referencedDecl']['id'])
                for i in n.get('inner', ()):
                    if i:
                        walk(i)
            walk(self.db.funcs[fn])
            # number the loops
            cnt = [0]

            def walk2(n):
                if n.get('kind') in ('ForStmt', 'WhileStmt', 'DoStmt'):
                    if not (n['kind'] == 'DoStmt' and lit_zero(kids(n)[1])):
                        self.loop_index[n['id'] + fn] = cnt[0]
                        cnt[0] += 1
                for i in n.get('inner', ()):
                    if i:
                        walk2(i)
            walk2(self.db.funcs[fn])
            self.addr_taken[fn] = s
        return self.addr_taken[fn]

    # Loops and locals are named in the specs as in the tree the specs were written for (baseline.json).  When a function
    # of that tree has since lost loops to helpers, or had locals renamed, the two functions below find them again.  They
    # only decide which annotation is tried where: every annotation is still an obligation.
    def moved_loops(self, F):
        if F not in self.loop_moves:
            mv = {}
            b = self.baseline.get(F)
            if b and F in self.db.funcs:
                own, allp = [], []

                def walk(n, fn, seen):
                    if n.get('kind') in ('ForStmt', 'WhileStmt', 'DoStmt') and not (n['kind'] == 'DoStmt' and lit_zero(kids(n)[1])):
                        if fn == F:
                            own.append(n['id'])
                        allp.append(n['id'])
                    for i in n.get('inner', ()):
                        if i:
                            walk(i, fn, seen)
                    if n.get('kind') == 'CallExpr':
                        x = kids(n)[0]
                        while x['kind'] in ('ImplicitCastExpr', 'ParenExpr'):
                            x = kids(x)[0]
                        h = x.get('referencedDecl', {}).get('name') if x['kind'] == 'DeclRefExpr' else None
                        if h in self.db.funcs and h not in seen and self.specs.contract(h) is None and self.specs.builtin(h) is None \
                                and h not in self.baseline_names and any(i['kind'] == 'CompoundStmt' for i in self.db.funcs[h].get('inner', [])):
                            walk(self.body_of(h), h, seen | {h})
                walk(self.body_of(F), F, {F})
                if len(own) != b['loops'] and len(allp) == b['loops'] and len(set(allp)) == len(allp):
                    mv = {x: k for k, x in enumerate(allp)}
            self.loop_moves[F] = mv
        return self.loop_moves[F]

    def returned_for(self, caller, fn, name):
        """the local that helper fn returns, if the caller stores the result in `name`"""
        found, rets = [], set()

        def callee(n):
            n = strip_expr(n)
            if n['kind'] == 'CallExpr':
                x = strip_expr(kids(n)[0])
                return x.get('referencedDecl', {}).get('name') if x['kind'] == 'DeclRefExpr' else None

        def walk(n):
            if n.get('kind') == 'BinaryOperator' and n.get('opcode') == '=':
                l, r = kids(n)
                l = strip_expr(l)
                if l['kind'] == 'DeclRefExpr' and l['referencedDecl']['name'] == name and callee(r) == fn:
                    found.append(1)
            if n.get('kind') == 'VarDecl' and n.get('name') == name and n.get('init') and kids(n) and callee(kids(n)[-1]) == fn:
                found.append(1)
            for i in n.get('inner', ()):
                if i:
                    walk(i)

        def walkr(n):
            if n.get('kind') == 'ReturnStmt' and kids(n):
                x = strip_expr(kids(n)[0])
                rets.add(x['referencedDecl']['name'] if x['kind'] == 'DeclRefExpr' else None)
            for i in n.get('inner', ()):
                if i:
                    walkr(i)
        walk(self.db.funcs[caller])
        if len(found) == 1:
            walkr(self.db.funcs[fn])
            if len(rets) == 1:
                return rets.pop()
        return None

    def moved_local(self, env, frame, name):
        fn = self.callstack[-1] if self.callstack else None
        b = self.baseline.get(fn)
        if b:
            now, base = local_decls(self.db.funcs[fn]), [tuple(x) for x in b['locals']]
            ty = [t for m, t in base if m == name]
            if ty and name not in [m for m, t in now]:
                old, new = {m for m, t in base}, {m for m, t in now}
                if len(now) == len(base):
                    cand = {now[k][0] for k in range(len(now)) if base[k][0] == name and now[k][1] == base[k][1] and now[k][0] not in old}
                else:
                    cand = {m for m, t in now if m not in old and t == ty[0]}
                if len(cand) == 1:
                    m = cand.pop()
                    for k, x in env.items():
                        if k[0] == frame and k[1] == m:
                            return x
        if len(self.callstack) > 1 and fn not in self.baseline_names:
            m = self.returned_for(self.callstack[-2], fn, name)
            for k, x in env.items():
                if k[0] == frame and k[1] == m:
                    return x
        best = None
        for k, x in env.items():
            if k[0] < frame and k[1] == name and (best is None or k[0] >= best[0]):
                best = (k[0], x)
        return best[1] if best and len(self.callstack) > 1 else None

    def inline(self, st, name, vs, line):
        depth = self.callstack.count(name)
        if depth >= 1 and not self.bounded:
            raise ToolLimit('recursive function %s without a contract' % name)
        if depth >= self.bounded + 1 and self.bounded:
            self.bounded_hit = True
            return
        if len(self.callstack) > 30:
            raise ToolLimit('inlining too deep')
        self.inlined.add(name)
        old = st.frames
        for s2, r in self.run_body(st, name, vs):
            s2.frames = old
            yield s2, r

    def run_body(self, st, name, vs):
        """execute function body; yields (state, retval) with the frame popped (caller restores .frames)"""
        self.taken(name)
        fr = next(self.counter)
        old = st.frames
        st.frames = fr
        for p, v in zip(self.params(name), vs):
            if 'name' not in p:
                continue
            self.declare(st, name, p, v)
        # a generator cannot keep callstack state across yields safely unless restored around each step
        gen = self.exec(st, self.body_of(name))
        while True:
            self.callstack.append(name)
            cf = self.curinl if hasattr(self, 'curinl') else None
            self.curinl = name
            try:
                s2, out = next(gen)
            except StopIteration:
                return
            finally:
                self.callstack.pop()
                self.curinl = cf
            r = ZERO
            if isinstance(out, tuple) and out[0] == 'ret':
                r = out[1]
            elif out is not None:
                raise ToolLimit('stray control flow ' + str(out))
            try:
                self.drop_locals(s2, [k for k in s2.env if k[0] == fr], self.line(self.db.funcs[name]))
            except (PathDead, Prune):
                continue
            yield s2, r

    def declare(self, st, fn, d, v):
        t = self.db.ty(d['type']['qualType'])
        vid = self.vid(st, d)
        if vid in st.env:
            self.drop_locals(st, [vid], self.line(d))
        if t.k == 'struct':
            a = self.fresh_addr()
            if isinstance(v, dict):
                f = dict(v)
                ch = self.new_struct(t.a, a, 'stack', None, f)
            else:
                ch = self.new_struct(t.a, a, 'stack', None)
            st.heap.append(ch)
            st.env[vid] = ('loc', a)
        elif t.k == 'mpz':
            a = self.fresh_addr()
            st.heap.append(CChunk(MPZ, a, UNINIT if v is None else v, 'stack', d['name']))
            st.env[vid] = ('loc', a)
        elif t.k == 'array':
            a = self.fresh_addr()
            if t.a.k == 'struct':
                raise ToolLimit('local array of structs')
            if t.a.k == 'mpz':
                st.heap.append(AChunk(MPZ, a, iv(t.n), self.fresh('arr', z3.ArraySort(I, I)), 'stack', (ZERO, ZERO)))
            else:
                if t.n is None:
                    raise ToolLimit('VLA')
                st.heap.append(AChunk(t.a, a, iv(t.n), v if v is not None else self.fresh('arr', z3.ArraySort(I, I)), 'stack', None))
            st.env[vid] = ('loc', a)
        elif d['id'] in self.taken(self.owner_fn(d, fn)):
            a = self.fresh_addr()
            st.heap.append(CChunk(t, a, UNINIT if v is None else v, 'stack', d['name']))
            st.env[vid] = ('loc', a)
        else:
            st.env[vid] = UNINIT if v is None else v

    def owner_fn(self, d, fn):
        return fn

    def drop_locals(self, st, vids, line):
        for k in vids:
            x = st.env.pop(k, None)
            if isinstance(x, tuple) and x[0] == 'loc':
                for c in list(st.heap):
                    if c.kind in 'SCA' and c.region == 'stack' and c.addr.eq(x[1]):
                        if c.kind == 'C' and c.t.k == 'mpz' and not (isinstance(c.val, str) and c.val == UNINIT):
                            self.prove(st, False, 'leak: multi-precision local %s not cleared' % c.name, line)
                            raise PathDead()
                        if c.kind == 'S':
                            for p, t in self.db.flat(c.s):
                                if t.k == 'mpz' and not isinstance(c.f[p], str):
                                    self.prove(st, False, 'leak: multi-precision field %s of local not cleared' % p, line)
                                    raise PathDead()
                        st.heap.remove(c)

    # ------------------------------------------------------------ statements
    def exec(self, st, n):
        k = n['kind']
        m = getattr(self, 'ex_' + k, None)
        if m is not None:
            return m(st, n)
        if any(x in k for x in EXPRS):
            return self.ex_expr(st, n)
        raise ToolLimit('statement ' + k)

    def ex_expr(self, st, n):
        for s2, v in self.ev(st, n):
            yield s2, None

    def ex_NullStmt(self, st, n):
        yield st, None

    def ex_CompoundStmt(self, st, n):
        ss = kids(n)
        mark = None
        for s2, out in self.seq(st, ss, 0):
            # leave scope
            names = []
            for s in ss:
                if s['kind'] == 'DeclStmt':
                    for d in kids(s):
                        if d['kind'] == 'VarDecl':
                            names.append((s2.frames, d['name'], d['id']))
            try:
                self.drop_locals(s2, names, self.line(n))
            except (PathDead, Prune):
                continue
            yield s2, out

    def seq(self, st, ss, i):
        if i >= len(ss):
            yield st, None
            return
        for s2, out in self.exec(st, ss[i]):
            if out is None:
                yield from self.seq(s2, ss, i + 1)
            elif isinstance(out, tuple) and out[0] == 'goto':
                for j in range(len(ss)):
                    if ss[j]['kind'] == 'LabelStmt' and ss[j].get('declId') == out[1]:
                        if j <= i:
                            raise ToolLimit('backward goto')
                        yield from self.seq(s2, ss, j)
                        break
                else:
                    yield s2, out
            else:
                yield s2, out

    def ex_GotoStmt(self, st, n):
        yield st, ('goto', n['targetLabelDeclId'])

    def ex_LabelStmt(self, st, n):
        yield from self.exec(st, kids(n)[0])

    def ex_DeclStmt(self, st, n):
        yield from self.decls(st, [d for d in kids(n) if d['kind'] == 'VarDecl'], 0)

    def decls(self, st, ds, i):
        if i >= len(ds):
            yield st, None
            return
        d = ds[i]
        if d.get('storageClass') == 'static':
            raise ToolLimit('static local')
        init = [x for x in kids(d) if any(y in x['kind'] for y in EXPRS)] if d.get('init') else []
        fn = self.callstack[-1]
        if not init:
            self.declare(st, fn, d, None)
            yield from self.decls(st, ds, i + 1)
            return
        t = self.db.ty(d['type']['qualType'])
        if init[0]['kind'] == 'InitListExpr':
            if t.k == 'struct':
                flat = self.db.flat(t.a)
                vals = []
                def flatten(x):
                    if x['kind'] == 'InitListExpr':
                        for y in kids(x):
                            flatten(y)
                    else:
                        vals.append(x)
                flatten(init[0])
                for s2, vs in self.ev_args(st, vals):
                    f = {}
                    for (p, tt), v in zip(flat, vs):
                        f[p] = UNINIT if tt == MPZ else v       # a zeroed multi-precision integer still has to be initialised
                    for p, tt in flat[len(vs):]:
                        f[p] = UNINIT if tt == MPZ else ZERO
                    self.declare(s2, fn, d, f)
                    yield from self.decls(s2, ds, i + 1)
                return
            if t.k == 'array':
                for s2, vs in self.ev_args(st, [x for x in kids(init[0])]):
                    a = self.fresh('arr', z3.ArraySort(I, I))
                    a = z3.K(I, ZERO)
                    for j, v in enumerate(vs):
                        a = z3.Store(a, iv(j), v)
                    self.declare(s2, fn, d, a)
                    yield from self.decls(s2, ds, i + 1)
                return
            raise ToolLimit('init list')
        for s2, v in self.ev(st, init[0]):
            self.declare(s2, fn, d, v)
            yield from self.decls(s2, ds, i + 1)

    def ex_IfStmt(self, st, n):
        ks = kids(n)
        c, a = ks[0], ks[1]
        b = ks[2] if len(ks) > 2 else None
        for s2, t in self.cond(st, c):
            if t:
                yield from self.exec(s2, a)
            elif b is not None:
                yield from self.exec(s2, b)
            else:
                yield s2, None

    def ex_ReturnStmt(self, st, n):
        ks = kids(n)
        if not ks:
            yield st, ('ret', ZERO)
            return
        for s2, v in self.ev(st, ks[0]):
            yield s2, ('ret', v)

    def ex_BreakStmt(self, st, n):
        yield st, 'break'

    def ex_ContinueStmt(self, st, n):
        yield st, 'continue'

    def ex_SwitchStmt(self, st, n):
        ks = kids(n)
        c, body = ks[0], ks[-1]
        flat = []     # (label or None, stmt)

        def add(s):
            if s['kind'] == 'CaseStmt':
                kk = kids(s)
                flat.append((('case', kk[0]), None))
                add(kk[-1])
            elif s['kind'] == 'DefaultStmt':
                flat.append((('default',), None))
                add(kids(s)[-1])
            else:
                flat.append((None, s))
        for s in kids(body):
            add(s)
        labels = [(i, l) for i, (l, _) in enumerate(flat) if l]
        for s2, v in self.ev(st, c):
            vals = []
            for i, l in labels:
                if l[0] == 'case':
                    r = list(self.ev(s2, l[1]))
                    vals.append((i, r[0][1]))
            default = [i for i, l in labels if l[0] == 'default']

            def runfrom(s, i):
                for s3, out in self.seq(s, [x for l, x in flat[i:] if x is not None], 0):
                    yield s3, (None if out == 'break' else out)
            for i, cv in vals:
                s3 = s2.copy()
                s3.assume(v == cv)
                if self.feasible(s3):
                    yield from runfrom(s3, i)
            s3 = s2.copy()
            for i, cv in vals:
                s3.assume(v != cv)
            if self.feasible(s3):
                if default:
                    yield from runfrom(s3, default[0])
                else:
                    yield s3, None

    # ------------------------------------------------------------ loops
    def ex_ForStmt(self, st, n):
        ks = n['inner']           # init, condvar, cond, inc, body (with {} for missing)
        init, _, cond, inc, body = ks[0], ks[1], ks[2], ks[3], ks[4]
        if init and init.get('kind'):
            for s2, out in self.exec(st, init):
                yield from self.loop(s2, n, cond if cond.get('kind') else None, body, inc if inc.get('kind') else None, False)
        else:
            yield from self.loop(st, n, cond if cond.get('kind') else None, body, inc if inc.get('kind') else None, False)

    def ex_WhileStmt(self, st, n):
        ks = kids(n)
        yield from self.loop(st, n, ks[0], ks[-1], None, False)

    def ex_DoStmt(self, st, n):
        body, cond = kids(n)
        if lit_zero(cond):
            for s2, out in self.exec(st, body):
                yield s2, (None if out in ('break', 'continue') else out)
            return
        yield from self.loop(st, n, cond, body, None, True)

    def loop(self, st, n, cond, body, inc, dowhile):
        fn = self.callstack[-1]
        idx = self.loop_index.get(n['id'] + fn)
        mv = self.moved_loops(self.callstack[0]).get(n['id'])
        if mv is not None:
            fn, idx = self.callstack[0], mv
        sp = None if (self.bounded or fn in self.inline_only) else self.specs.loop(fn, idx)
        if sp is None:
            yield from self.unroll_loop(st, n, cond, body, inc, dowhile, 0, fn, idx)
        elif hasattr(sp, 'inv'):
            yield from self.inv_loop(st, n, cond, body, inc, dowhile, sp, fn, idx)
        else:
            yield from self.pp_loop(st, n, cond, body, inc, dowhile, sp, fn, idx)

    def unroll_loop(self, st, n, cond, body, inc, dowhile, k, fn, idx):
        def step(s, k):
            for s2, out in self.exec(s, body):
                if out in (None, 'continue'):
                    if inc is not None:
                        for s3, _ in self.ev(s2, inc):
                            yield from self.unroll_loop(s3, n, cond, body, inc, False, k + 1, fn, idx)
                    else:
                        yield from self.unroll_loop(s2, n, cond, body, inc, False, k + 1, fn, idx)
                elif out == 'break':
                    yield s2, None
                else:
                    yield s2, out
        if dowhile and k == 0:
            yield from step(st, 0)
            return
        if cond is None:
            if k > self.unroll:
                self.bounded_hit = True
                return
            yield from step(st, k)
            return
        before = len(E.pclist(st.pc))
        for s2, t in self.cond(st, cond):
            if not t:
                yield s2, None
                continue
            decided = len(E.pclist(s2.pc)) == before
            lim = 200 if decided else self.unroll
            if k >= lim:
                self.bounded_hit = True
                self.loops_unrolled.add((fn, idx))
                continue
            yield from step(s2, k)

    def assigned(self, *nodes):
        s = set()

        def tgt(x):
            while x['kind'] == 'ParenExpr':
                x = kids(x)[0]
            if x['kind'] == 'DeclRefExpr':
                s.add((x['referencedDecl']['name'], x['referencedDecl']['id']))

        def walk(n):
            k = n.get('kind')
            if k == 'BinaryOperator' and n['opcode'] == '=' or k == 'CompoundAssignOperator':
                tgt(kids(n)[0])
            if k == 'UnaryOperator' and n['opcode'] in ('++', '--'):
                tgt(kids(n)[0])
            for i in n.get('inner', ()):
                if i:
                    walk(i)
        for n in nodes:
            if n is not None:
                walk(n)
        return s

    def inv_loop(self, st, n, cond, body, inc, dowhile, sp, fn, idx):
        self.loops_cut += 1
        line = self.line(n)
        lname = 'loop %d of %s' % (idx, fn)
        mods = self.assigned(cond, body, inc)
        if dowhile:
            # execute the first iteration, then it is a while loop
            for s2, out in self.exec(st, body):
                if out in (None, 'continue'):
                    yield from self.inv_loop(s2, n, cond, body, inc, False, sp, fn, idx)
                elif out == 'break':
                    yield s2, None
                else:
                    yield s2, out
            return
        inv = sp.inv
        for s2, g in self.run_spec(inv, st, {}, 'consume', line=line, label=lname + ': invariant on entry', fn=fn, entry=True):
            if not self.feasible(s2):
                continue
            LG = g
            H = set()
            cur = self.specs.contracts.get(self.curfn)
            join = cur is not None and cur.join and fn == self.curfn and not self.bounded
            if join:
                H = self.frameH.setdefault((fn, idx), set())
                seen = self.joined.setdefault((fn, idx), [])
                if any(is_prefix(pc, s2.pc) and sig == self.signature(s2, mods, H, pc) for sig, pc in seen):
                    self.joins += 1
                    continue
                full = s2
                s2 = s2.copy()
                s2.pc = s2.g.pop('forkpc', s2.pc)
                weak = s2.pc
            while True:
                mark = len(self.obls)
                try:
                    res = self.inv_iter(s2, cond, body, inc, inv, LG, mods, H, line, lname, fn)
                    break
                except Retry as r:
                    del self.obls[mark:]
                    if len(H) > 60:
                        raise ToolLimit('loop frame inference diverges')
            if join:
                seen.append((self.signature(full, mods, H, weak), weak))
            yield from res

    def signature(self, st, mods, H, weak):
        """the part of a state that survives a loop: frame and variables the loop does not change (and ghosts)"""
        def x(v):
            if isinstance(v, ArrVal):
                return 'arr ' + v.arr.sexpr() + (v.size.sexpr() if isinstance(v.size, z3.ExprRef) else str(v.size))
            if isinstance(v, z3.ExprRef):
                return v.sexpr()
            if isinstance(v, (tuple, list)):
                return [x(y) for y in v]
            return str(v)
        mod = {(st.frames, n, d) for n, d in mods}
        out = [(str(k), x(v)) for k, v in st.env.items() if k not in mod]
        for c in st.heap:
            if c.kind == 'C':
                out.append(('C', x(c.addr), '' if ('c', c.addr.sexpr()) in H else x(c.val)))
            elif c.kind == 'S':
                out.append(('S', c.s, x(c.addr), [(k, '' if ('f', c.addr.sexpr(), k) in H else x(v)) for k, v in sorted(c.f.items())]))
            elif c.kind == 'A':
                out.append(('A', x(c.base), x(c.size), '' if ('a', c.base.sexpr()) in H else x(c.arr), x(c.ini)))
            elif c.kind == 'P':
                out.append(('P', c.p.name, x(c.ins), x(c.outs)))
            else:
                out.append(('I', c.p.name, x(c.A), x(c.lo), x(c.hi), x(c.E), x(c.holes)))
        for k, v in sorted(st.g.items(), key=lambda z: str(z[0])):
            if k not in ('pre', 'forkpc', 'trail') and not str(k).startswith('once_'):
                out.append(('g', str(k), x(v)))
        known = self.symbols(weak)
        ren = {}

        def canon(m):
            y = m.group(0)
            return y if y in known else ren.setdefault(y, '@%d' % len(ren))
        return re.sub(r'[^\s()\'",|]+![0-9]+', canon, str(out))

    def symbols(self, pc):
        if not pc:
            return frozenset()
        r = self.symcache.get(id(pc))
        if r is None:
            r = (frozenset(m for b in E.pclist(pc) for m in re.findall(r'[^\s()\'",|]+![0-9]+', b.sexpr())), pc)
            self.symcache[id(pc)] = r
        return r[0]

    def havoc_frame(self, st, mods, H, LG):
        for (name, did) in mods:
            v = (st.frames, name, did)
            if v in st.env and not (isinstance(st.env[v], tuple)):
                nv = self.fresh(name)
                st.env[v] = nv
        for i, c in enumerate(st.heap):
            if c.kind == 'C' and ('c', c.addr.sexpr()) in H:
                if c.t.k == 'mpz' and ('u', c.addr.sexpr()) in H:
                    st.heap[i] = c.set(UNINIT)
                else:
                    st.heap[i] = c.set(self.fresh(c.name or 'cell'))
            elif c.kind == 'S':
                nc = c
                for p in c.f:
                    if ('f', c.addr.sexpr(), p) in H:
                        o = c.f[p]
                        nc = nc.set(p, ArrVal(self.fresh(p, z3.ArraySort(I, I)), o.size) if isinstance(o, ArrVal) else self.fresh(p))
                st.heap[i] = nc
            elif c.kind == 'A' and ('a', c.base.sexpr()) in H:
                st.heap[i] = c.upd(arr=self.fresh('arr', z3.ArraySort(I, I)))
        if ('out',) in H:
            st.out = ()

    def inv_iter(self, s2, cond, body, inc, inv, LG, mods, H, line, lname, fn):
        base = s2.copy()
        self.havoc_frame(base, mods, H, LG)
        frame_heap = list(base.heap)
        frame_out = base.out
        results = []
        any_feas = False
        for s3, g3 in self.run_spec(inv, base, LG, 'produce', line=line, label=lname, fn=fn):
            if not self.feasible(s3):
                continue
            any_feas = True
            conds = self.cond(s3, cond) if cond is not None else [(s3, True)]
            for s4, t in conds:
                if not t:
                    results.append((s4, None))
                    continue
                for s5, out in self.exec(s4, body):
                    if out in (None, 'continue'):
                        if inc is not None:
                            for s6, _ in self.ev(s5, inc):
                                self.back_edge(s6, inv, LG, frame_heap, frame_out, H, line, lname, fn)
                        else:
                            self.back_edge(s5, inv, LG, frame_heap, frame_out, H, line, lname, fn)
                    elif out == 'break':
                        results.append((s5, None))
                    else:
                        results.append((s5, out))
        if not any_feas:
            self.vacuous.append(lname)
        return results

    def back_edge(self, st, inv, LG, frame_heap, frame_out, H, line, lname, fn):
        for s2, g in self.run_spec(inv, st, LG, 'consume', line=line, label=lname + ': invariant preserved', fn=fn):
            if not self.feasible(s2):
                continue
            self.compare_frame(s2, frame_heap, frame_out, H, line, lname)

    def compare_frame(self, st, frame_heap, frame_out, H, line, lname):
        n0 = len(H)
        rest = list(st.heap)
        todo = []
        for c in frame_heap:
            for i, d in enumerate(rest):
                if d is c:
                    del rest[i]
                    break
            else:
                todo.append(c)
        self.frame_rest(st, todo, rest, frame_out, H, line, lname)
        if len(H) > n0:
            raise Retry()

    def frame_rest(self, st, todo, rest, frame_out, H, line, lname):
        for ci, c in enumerate(todo):
            if c.kind in 'SCA':
                m = None
                for d in rest:
                    if d.kind == c.kind and d.addr.eq(c.addr):
                        m = d
                        break
                if m is None:
                    for d in rest:
                        if d.kind == c.kind and self.must_eq(st, d.addr, c.addr):
                            m = d
                            break
                if m is None:
                    if c.kind in 'S' and c.region == 'static':
                        continue
                    self.prove_quiet_fail(st, lname + ': memory owned before the loop is lost in an iteration (%s)' % (c,), line)
                    continue
                rest.remove(m)
                if c.kind == 'C':
                    cu, mu = isinstance(c.val, str), isinstance(m.val, str)
                    if cu and mu:
                        continue
                    if cu != mu or not self.must_eq(st, c.val, m.val):
                        key = ('c', c.addr.sexpr())
                        if cu and not mu and c.t.k == 'mpz':
                            self.prove_quiet_fail(st, lname + ': initialisation state changes in an iteration (%s)' % c.name, line)
                            continue
                        if cu and not mu:
                            # first assigned inside the loop
                            key2 = ('c', c.addr.sexpr())
                            if key2 in H:
                                continue
                        if key in H:
                            continue
                        H.add(key)
                elif c.kind == 'S':
                    for p in c.f:
                        a, b = c.f[p], m.f.get(p)
                        if a is b:
                            continue
                        if isinstance(a, str) and isinstance(b, str):
                            continue
                        key = ('f', c.addr.sexpr(), p)
                        if isinstance(a, ArrVal):
                            same = a.arr.eq(b.arr) or self.entails(st, a.arr == b.arr)
                        elif isinstance(a, str) or isinstance(b, str):
                            same = False
                        else:
                            same = self.must_eq(st, a, b)
                        if not same and key not in H:
                            H.add(key)
                else:
                    same = not isinstance(c.arr, dict) and (c.arr.eq(m.arr) or self.entails(st, c.arr == m.arr))
                    key = ('a', c.base.sexpr())
                    if not same and key not in H:
                        H.add(key)
                    if c.ini is not None and not (m.ini is not None and self.must_eq(st, c.ini[0], m.ini[0]) and self.must_eq(st, c.ini[1], m.ini[1])):
                        self.prove_quiet_fail(st, lname + ': initialised range changes in an iteration', line)
            elif c.kind == 'P':
                # was unfolded and maybe refolded: fold back and compare
                def fb(cx):
                    cx.pred(c.p, *c.ins, outs=c.outs)
                s0 = st.copy()
                s0.heap = rest
                for s2, g in self.run_spec(fb, s0, {}, 'consume', line=line, label=lname + ': frame unchanged'):
                    if self.feasible(s2):
                        self.frame_rest(s2, todo[ci + 1:], list(s2.heap), frame_out, H, line, lname)
                return
            else:
                # iterated chunk with different holes: refold each hole
                m = None
                for d in rest:
                    if d.kind == 'I' and d.p is c.p and d.A.eq(c.A):
                        m = d
                if m is None:
                    self.prove_quiet_fail(st, lname + ': iterated ownership lost', line)
                    continue
                s0 = st.copy()
                s0.heap = rest
                cx = Ctx_(self, s0, line, lname + ': frame unchanged')
                try:
                    for h in m.holes:
                        if any(h.eq(x) for x in c.holes):
                            continue
                        outs = cx.pred(c.p, simp(z3.Select(c.A, h)))
                        outs = outs if isinstance(outs, tuple) else (outs,)
                        for e, o in zip(c.E, outs):
                            self.prove(cx.st, z3.Select(e, h) == o, lname + ': frame element unchanged', line)
                except (PathDead, Prune):
                    return
                rest = [x for x in cx.st.heap if x is not m]
                st.pc = cx.st.pc
        # chunks that appeared
        for d in rest:
            if d.kind in 'SC' and d.region == 'static':
                continue
            if d.kind == 'P' and self.droppable(st, d):
                continue
            if d.kind == 'I' and self.entails(st, d.lo >= d.hi):
                continue
            self.prove_quiet_fail(st, lname + ': memory leaked by an iteration (%s)' % (d,), line)
        if st.out is not frame_out and st.out != frame_out:
            if ('out',) in H:
                pass
            else:
                self.prove_quiet_fail(st, lname + ': output not described by the invariant', line)

    def droppable(self, st, d):
        if d.p.nullable and self.entails(st, d.addr == 0):
            return True
        if d.p.drop:
            return d.p.drop(self, st, d)
        return False

    def prove_quiet_fail(self, st, name, line):
        try:
            self.prove(st, False, name, line)
        except (Prune, PathDead):
            pass

    def pp_loop(self, st, n, cond, body, inc, dowhile, sp, fn, idx):
        """loop contract: pre/post, verified like a tail-recursive procedure"""
        self.loops_cut += 1
        line = self.line(n)
        lname = 'loop %d of %s' % (idx, fn)
        mods = self.assigned(cond, body, inc)
        if dowhile:
            raise ToolLimit('pp loop on do-while')

        def snapshot(s):
            return {k: v for k, v in s.env.items() if k[0] == s.frames}
        for s2, g in self.run_spec(sp.pre, st, {}, 'consume', line=line, label=lname + ': precondition on entry', fn=fn, entry=True):
            if not self.feasible(s2):
                continue
            LG = {k: v for k, v in g.items() if k.startswith('once_')}
            old = snapshot(s2)
            # 1. verify the body generically
            H = set()
            while True:
                mark = len(self.obls)
                try:
                    self.pp_body(s2, cond, body, inc, sp, LG, mods, H, line, lname, fn, snapshot)
                    break
                except Retry:
                    del self.obls[mark:]
                    if len(H) > 60:
                        raise ToolLimit('loop frame inference diverges')
            # 2. continue after the loop with the postcondition
            s3 = s2.copy()
            self.havoc_frame(s3, mods, H, LG)
            for s4, g4 in self.run_spec(sp.post, s3, dict(g), 'produce', line=line, label=lname, fn=fn, old=old):
                if self.feasible(s4):
                    yield s4, None

    def pp_body(self, s2, cond, body, inc, sp, LG, mods, H, line, lname, fn, snapshot):
        base = s2.copy()
        self.havoc_frame(base, mods, H, LG)
        frame_heap = list(base.heap)
        frame_out = base.out
        any_feas = False

        def finish(s, g3, old3):
            for s7, _ in self.run_spec(sp.post, s, g3, 'consume', line=line, label=lname + ': postcondition', fn=fn, old=old3):
                if self.feasible(s7):
                    self.compare_frame(s7, frame_heap, frame_out, H, line, lname)
        for s3, g3 in self.run_spec(sp.pre, base, LG, 'produce', line=line, label=lname, fn=fn):
            if not self.feasible(s3):
                continue
            any_feas = True
            old3 = snapshot(s3)
            for s4, t in (self.cond(s3, cond) if cond is not None else [(s3, True)]):
                if not t:
                    finish(s4, g3, old3)
                    continue
                for s5, out in self.exec(s4, body):
                    if out in (None, 'continue'):
                        for s6 in ([x for x, _ in self.ev(s5, inc)] if inc is not None else [s5]):
                            for s7, g7 in self.run_spec(sp.pre, s6, LG, 'consume', line=line, label=lname + ': precondition of next iteration', fn=fn):
                                if not self.feasible(s7):
                                    continue
                                old7 = snapshot(s7)
                                self.havoc_frame(s7, mods, H, LG)
                                for s8, g8 in self.run_spec(sp.post, s7, dict(g7), 'produce', line=line, label=lname, fn=fn, old=old7):
                                    if self.feasible(s8):
                                        finish(s8, g3, old3)
                    elif out == 'break':
                        finish(s5, g3, old3)
                    else:
                        raise ToolLimit('return inside a pre/post loop')
        if not any_feas:
            self.vacuous.append(lname)

    # ------------------------------------------------------------ top level
    def verify(self, fn):
        """verify one function against its contract. Returns dict."""
        import time
        sp = self.specs.contract(fn)
        self.curfn = fn
        self.add_axioms(sp.axioms)
        self.use_light = sp.light and not self.bounded
        self.frameH, self.joined, self.joins, self.symcache = {}, {}, 0, {}
        self.solver.deadline = time.time() + self.budget
        t0 = time.time()
        err = None
        posts = 0
        try:
            st = State_()
            params = self.params(fn)
            args = []
            for p in params:
                t = self.db.ty(p['type']['qualType'])
                if t.k == 'struct':
                    d = {q: self.fresh(p.get('name', 'p') + '.' + q) for q, tt in self.db.flat(t.a)}
                    args.append(d)
                else:
                    a = self.fresh(p.get('name', 'p'))
                    if t.k == 'ptr':
                        st.assume(a >= 0)
                    if 'unsigned' in p['type']['qualType']:
                        st.assume(a >= 0)
                    args.append(a)
            rt = self.ret_type(fn)
            self.precases = 0
            for s2, g in self.run_spec(sp.pre, st, {}, 'produce', args=args, fn=fn, label='pre', depth=self.bounded or None):
                if not self.feasible(s2):
                    continue
                s2.g.pop('forkpc', None)
                self.joined = {}
                self.precases += 1
                if g.get('__alias'):
                    args = [g['__alias'].get(i, x) for i, x in enumerate(args)]
                s2.g['pre'] = g
                s2.g['args'] = args
                s2.bounded = bool(self.bounded)
                for s3, r in self.run_body(s2, fn, args):
                    self.paths += 1
                    if sp.noreturn:
                        self.prove_quiet_fail(s3, 'function must not return', 0)
                        continue
                    for s4, g4 in self.run_spec(sp.post, s3, g, 'consume', args=args, ret=(r if rt.k != 'void' else None), fn=fn, label='postcondition'):
                        if not self.feasible(s4):
                            continue
                        posts += 1
                        self.leak_check(s4, sp)
            if self.precases == 0:
                self.vacuous.append('precondition of ' + fn)
            if posts == 0 and not sp.noreturn and not any(not o.ok for o in self.obls):
                self.vacuous.append('no path of %s reaches its postcondition' % fn)
        except ToolLimit as e:
            err = str(e)
        except SpecMissing as e:
            err = 'spec does not apply: %s' % e
        except z3.Z3Exception as e:
            if self.verbose > 1:
                raise
            err = 'z3: %s' % e
        except RecursionError:
            err = 'recursion limit'
        fails = [o for o in self.obls if not o.ok]
        return dict(fn=fn, obligations=len(self.obls), discharged=len(self.obls) - len(fails), fails=fails, error=err,
                    paths=self.paths, posts=posts, used=sorted(self.used), inlined=sorted(self.inlined),
                    models=sorted(self.models_used), bounded_hit=self.bounded_hit, loops_cut=self.loops_cut,
                    vacuous=self.vacuous, solver_s=self.solver.time, solver_calls=self.solver.calls, wall=time.time() - t0,
                    unrolled=sorted(self.loops_unrolled), names=sorted({o.name for o in self.obls}))

    def add_axioms(self, ax):
        self.axioms = list(self.specs.axioms)
        for a in ax:
            self.axioms.append(a)
            self.solver.s.add(a)

    def leak_check(self, st, sp):
        for c in st.heap:
            if c.kind in 'SC' and c.region == 'static':
                continue
            if c.kind == 'P' and self.droppable(st, c):
                continue
            if c.kind == 'I' and (self.entails(st, c.lo >= c.hi)):
                continue
            if c.kind == 'A' and getattr(c, 'region', '') == 'static':
                continue
            self.prove_quiet_fail(st, 'leak: memory/reference still owned at return: %s' % (self.describe(c)), 0)

    def describe(self, c):
        if c.kind == 'P':
            return 'predicate ' + c.p.name
        if c.kind == 'S':
            return 'struct ' + c.s
        if c.kind == 'A':
            return 'array of ' + str(c.et)
        return c.kind


def State_():
    return E.State()


def Ctx_(eng, st, line, label):
    from ctx import Ctx
    return Ctx(eng, st, {}, 'consume', [], line=line, label=label)
