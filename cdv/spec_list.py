"""Generic ownership predicates for NULL-terminated singly linked lists.

LIST(p; L): p is NULL or the first node of a list whose nodes (and what they own) are owned; L is its abstract value.
SEG(p, q; L): the nodes from p up to, not including, q.
`node(c, f)` is the ownership of everything a node owns except the node struct and the rest of the list;
`empty`, `cons`, `app` build the abstract value."""
import z3
from engine import iv, ZERO, simp, I, Pred, UNINIT


class ListTheory:
    def __init__(self, sort, empty, cons, app, facts=None):
        self.sort, self.empty, self.cons, self.app, self.facts = sort, empty, cons, app, facts


def seq_theory(elem=I):
    s = z3.SeqSort(elem)
    return ListTheory(s, lambda c: z3.Empty(s), lambda c, x, r: z3.Concat(z3.Unit(x), r), lambda c, a, b: z3.Concat(a, b))


def make_list(name, struct, th, node, next_='next', on_produce=None):
    """returns (LIST, SEG)"""
    def nodepart(c, p):
        """own node p; returns (fields, its abstract element)"""
        f = c.struct(struct, p)
        for k, v in f.items():
            if isinstance(v, str):
                c.missing('node field %s is not initialised' % k)
        return f, node(c, f)

    def lbody(c, ins, outs):
        p = ins[0]
        if c.case(p == 0):
            if c.producing:
                c.st.assume(outs[0] == th.empty(c))
                return None
            return (th.empty(c),)
        f, x = nodepart(c, p)
        r = c.pred(LIST, f[next_])
        L = th.cons(c, x, r)
        if c.producing:
            c.st.assume(outs[0] == L)
        return (L,)

    def sbody(c, ins, outs):
        p, q = ins
        if not c.producing:
            c.separate(struct)
        if c.case(p == q):
            if not c.producing:
                return (th.empty(c),)
            # inductive definition without the p != q guard (so that extending at the end is always valid)
            if c.choose():
                c.st.assume(outs[0] == th.empty(c))
                return None
        if c.producing:
            c.st.assume(p != 0)
        else:
            if c.entails(p == 0):
                c.missing('list segment does not reach its end')
        f, x = nodepart(c, p)
        r = c.pred(SEG, f[next_], q)
        L = th.cons(c, x, r)
        if c.producing:
            c.st.assume(outs[0] == L)
        return (L,)

    def segs(c, p):
        for exact in (True, False):
            for ch in c.st.heap:
                if ch.kind == 'P' and ch.p is SEG and (ch.ins[0].eq(p) if exact else c.eng.must_eq(c.st, ch.ins[0], p)):
                    return ch
        return None

    def drop(c, ch):
        c.st.heap = [x for x in c.st.heap if x is not ch]

    def llook(c, ins):
        ch = segs(c, ins[0])
        if ch is None:
            return None
        drop(c, ch)
        r = c.pred(LIST, ch.ins[1])
        return (th.app(c, ch.outs[0], r),)

    def slook(c, ins):
        ch = segs(c, ins[0])
        if ch is None:
            return None
        if c.entails(ch.ins[1] == ins[1]):
            drop(c, ch)
            return (ch.outs[0],)
        drop(c, ch)
        q2 = ch.ins[1]
        f, x = nodepart(c, q2)
        if c.entails(f[next_] == ins[1]):
            r = th.empty(c)
        else:
            r = c.pred(SEG, f[next_], ins[1])
        return (th.app(c, ch.outs[0], th.cons(c, x, r)),)

    LIST = Pred(name, [th.sort], lbody, struct={struct}, nullable=True)
    SEG = Pred(name + ' segment', [th.sort], sbody, struct={struct}, nullable=False)
    LIST.lookup, SEG.lookup = llook, slook
    LIST.node = SEG.node = node
    LIST.th = th
    LIST.nodepart = nodepart

    def onp(st, ins, outs):
        if th.facts:
            th.facts(st, outs[0])
        if on_produce:
            on_produce(st, ins, outs)
        st.assume(ins[0] >= 0)

    def onl(st, ins, outs):
        onp(st, ins, outs)
        st.assume(z3.Implies(ins[0] == 0, outs[0] == th.empty(None)))
    LIST.on_produce = onl
    SEG.on_produce = onp
    return LIST, SEG
