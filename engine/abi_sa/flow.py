"""Forward must-analysis of facts over a CFG: facts come from branch conditions (what a boolean being true or false implies) and
from instructions (gen/kill).  Used to show that every path to a point has passed a test."""
TOP = None  # every fact (unreachable)


def meet(a, b):
    if a is TOP: return b
    if b is TOP: return a
    return a & b


def join(a, b):
    if a is TOP or b is TOP: return TOP
    return a | b


class Implied:
    """facts implied by boolean SSA values being true / false; atoms: inst -> (facts when true, facts when false) or None"""
    def __init__(self, fn, atom):
        self.fn = fn; self.atom = atom; self.memo = {}

    def op(self, o, busy):
        if o[0] == "c": return (TOP, frozenset()) if o[1] == 0 else (frozenset(), TOP)
        if o[0] == "v" and o[1] in self.fn.insts: return self.val(self.fn.insts[o[1]], busy)
        return (frozenset(), frozenset())

    def val(self, i, busy=()):
        if i.id in self.memo: return self.memo[i.id]
        if i.id in busy: return (TOP, TOP)
        b2 = busy + (i.id,)
        r = self._val(i, b2)
        if not busy: self.memo[i.id] = r
        return r

    def _val(self, i, busy):
        a = self.atom(i)
        if a is not None: return frozenset(a[0]), frozenset(a[1])
        o = i.op
        if o in ("zext", "sext", "trunc", "freeze", "bitcast"): return self.op(i.ops[0], busy)
        if o == "phi":
            t, f = TOP, TOP
            for x in i.ops:
                y = self.op(x, busy); t = meet(t, y[0]); f = meet(f, y[1])
            return t, f
        if o == "select":
            c, a, b = (self.op(x, busy) for x in i.ops)
            return meet(join(c[0], a[0]), join(c[1], b[0])), meet(join(c[0], a[1]), join(c[1], b[1]))
        if o in ("and", "or", "xor"):
            a, b = (self.op(x, busy) for x in i.ops)
            if o == "and": return join(a[0], b[0]), meet(a[1], b[1])
            if o == "or": return meet(a[0], b[0]), join(a[1], b[1])
            if i.ops[1][0] == "c" and i.ops[1][1] & 1: return a[1], a[0]
            return frozenset(), frozenset()
        if o == "icmp" and i.d["pred"] in ("eq", "ne") and i.ops[1][0] == "c":
            x = i.ops[0]
            if x[0] == "v" and x[1] in self.fn.insts and self.boolean(self.fn.insts[x[1]]):
                a = self.op(x, busy)
                if (i.d["pred"] == "ne") == (i.ops[1][1] == 0): return a
                return a[1], a[0]
        return frozenset(), frozenset()

    def boolean(self, i, d=0):
        if i.ty == "i1": return True
        if d < 6 and i.op in ("zext", "trunc", "freeze", "select", "phi", "and", "or"):
            return all(x[0] == "c" and x[1] in (0, 1) or x[0] == "v" and x[1] in self.fn.insts and self.boolean(self.fn.insts[x[1]], d + 1) or x[0] == "c" and i.op == "and"
                       for x in (i.ops[1:] if i.op == "select" else i.ops))
        return False


class Flow:
    def __init__(self, fn, atom=lambda i: None, gen=lambda i: (), kill=None, entry=frozenset()):
        """kill(i, facts) -> facts to remove"""
        self.fn = fn; self.imp = Implied(fn, atom); self.gen = gen; self.kill = kill
        self.inn = {fn.entry: frozenset(entry)}
        work = [fn.entry]
        while work:
            b = work.pop()
            for s, facts in self.edges(b):
                n = meet(self.inn.get(s, TOP), facts)
                if s not in self.inn or n != self.inn[s]: self.inn[s] = n; work.append(s)

    def step(self, facts, i):
        if self.kill:
            k = self.kill(i, facts)
            if k: facts = facts - k
        g = self.gen(i)
        return facts | frozenset(g) if g else facts

    def edges(self, b):
        facts = self.inn[b]
        l = self.fn.blocks[b]
        for i in l[:-1]: facts = self.step(facts, i)
        t = l[-1]
        pre = facts
        facts = self.step(facts, t)
        if t.op == "br" and len(t.ops) == 3 and t.ops[0][0] == "v" and t.ops[0][1] in self.fn.insts:
            # dumped as [cond, false block, true block]
            c = self.imp.val(self.fn.insts[t.ops[0][1]])
            tb, fb = t.d["succ"][0], t.d["succ"][1]
            for s, x in ((tb, c[0]), (fb, c[1])):
                f = join(facts, x)
                if f is not TOP: yield s, f
            return
        for s in self.fn.succ[b]: yield s, facts
        if self.fn.unwind.get(b) is not None: yield self.fn.unwind[b], pre if self.kill is None else self.step(pre, t)

    def at(self, i):
        """facts that hold just before instruction i (TOP when unreachable)"""
        if i.bb not in self.inn: return TOP
        facts = self.inn[i.bb]
        for j in self.fn.blocks[i.bb]:
            if j is i: return facts
            facts = self.step(facts, j)
        return facts
