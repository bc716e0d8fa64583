"""In-memory form of irtool's output: functions, CFG, dominators."""
from collections import defaultdict


class Inst:
    __slots__ = ("id", "op", "ty", "ops", "d", "bb", "fn", "idx")

    def __init__(self, d, bb, fn, idx):
        self.id = d["id"]; self.op = d["op"]; self.ty = d.get("ty"); self.ops = d["ops"]; self.d = d
        self.bb = bb; self.fn = fn; self.idx = idx

    def get(self, k, dflt=None):
        return self.d.get(k, dflt)

    @property
    def callee(self):
        return self.d.get("callee")

    @property
    def loc(self):
        return self.d.get("loc") or []

    def where(self):
        l = self.loc
        if not l:
            return self.fn.q
        return "%s:%d (%s)" % (l[0][0], l[0][1], l[0][2])

    def chain(self):
        return " <- ".join("%s:%d(%s)" % (a[0].split("/")[-1], a[1], a[2]) for a in self.loc[:6])

    def __repr__(self):
        return "<%s %%%d %s in %s>" % (self.op, self.id, self.callee or "", self.fn.q)


class Fn:
    def __init__(self, d, mod):
        self.name = d["name"]; self.dem = d["dem"]; self.q = d["q"]; self.d = d; self.mod = mod
        self.file = d.get("file", ""); self.line = d.get("line", 0)
        self.args = d["args"]
        self.insts = {}
        self.blocks = {}
        self.order = []
        for b in d["blocks"]:
            l = []
            for n, i in enumerate(b["insts"]):
                x = Inst(i, b["id"], self, n)
                l.append(x); self.insts[x.id] = x
            self.blocks[b["id"]] = l; self.order.append(b["id"])
        self.entry = self.order[0] if self.order else None
        self.succ = {}; self.unwind = {}
        for b, l in self.blocks.items():
            t = l[-1]
            self.unwind[b] = None
            if t.op == "br": s = list(dict.fromkeys(t.d["succ"]))
            elif t.op == "switch": s = list(dict.fromkeys([t.d["default"]] + [c[1] for c in t.d["cases"]]))
            elif t.op == "invoke": s = [t.d["normal"]]; self.unwind[b] = t.d["unwind"]
            else: s = []
            self.succ[b] = s
        self.pred = defaultdict(list)
        for b, s in self.succ.items():
            for x in s: self.pred[x].append(b)
        # normal-flow reachability (exceptional edges ignored)
        self.reach = self._reach()
        self.can_return = self._can_return()
        self._dom = None

    def term(self, b):
        return self.blocks[b][-1]

    def _reach(self):
        seen = {self.entry}; st = [self.entry]
        while st:
            for s in self.succ[st.pop()]:
                if s not in seen: seen.add(s); st.append(s)
        return seen

    def _can_return(self):
        ok = set(b for b in self.reach if self.term(b).op == "ret" or (self.term(b).op == "invoke" and False))
        st = list(ok)
        while st:
            for p in self.pred[st.pop()]:
                if p in self.reach and p not in ok: ok.add(p); st.append(p)
        return ok

    @property
    def rpo(self):
        if not hasattr(self, "_rpo"):
            seen = set(); out = []
            st = [(self.entry, iter(self.succ[self.entry]))]; seen.add(self.entry)
            while st:
                b, it = st[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s); st.append((s, iter(self.succ[s]))); break
                else:
                    out.append(b); st.pop()
            self._rpo = out[::-1]
            self._rpoi = {b: i for i, b in enumerate(self._rpo)}
        return self._rpo

    @property
    def idom(self):
        if self._dom is None:
            rpo = self.rpo; idx = self._rpoi
            dom = {self.entry: self.entry}
            ch = True
            while ch:
                ch = False
                for b in rpo[1:]:
                    ps = [p for p in self.pred[b] if p in dom]
                    n = ps[0]
                    for p in ps[1:]:
                        a, c = p, n
                        while a != c:
                            while idx[a] > idx[c]: a = dom[a]
                            while idx[c] > idx[a]: c = dom[c]
                        n = a
                    if dom.get(b) != n: dom[b] = n; ch = True
            self._dom = dom
        return self._dom

    def dominates(self, a, b):
        """block a dominates block b (normal flow)"""
        d = self.idom
        if b not in d: return True
        while True:
            if a == b: return True
            if b == self.entry: return False
            b = d[b]

    def inst_dominates(self, a, b):
        if a.bb == b.bb: return a.idx < b.idx
        return self.dominates(a.bb, b.bb)

    def all(self):
        for b in self.order:
            for i in self.blocks[b]: yield i

    def loops(self):
        return self.d.get("loops") or []

    def where(self):
        return "%s:%d" % (self.file, self.line)

    def __repr__(self):
        return "<fn %s>" % self.q


class Mod:
    def __init__(self, d):
        self.d = d
        self.fns = {}
        for f in d["functions"]:
            x = Fn(f, self)
            self.fns[x.name] = x
        self.decls = d["decls"]
        self.globals = d.get("globals", {})
        self.types = d.get("types", [])
        self._str = {}

    def q(self, name):
        f = self.decls.get(name)
        return f["q"] if f else (name or "")

    def dem(self, name):
        f = self.decls.get(name)
        return f["dem"] if f else (name or "")

    def byq(self, q):
        return [f for f in self.fns.values() if f.q == q]

    def gbytes(self, name):
        g = self.globals.get(name)
        if not g or "hex" not in g: return None
        return bytes.fromhex(g["hex"])

    def _grefs(self, o):
        if not isinstance(o, list) or not o: return
        if o[0] == "g": yield o[1]
        elif o[0] == "cgep": yield from self._grefs(o[1])
        elif o[0] == "ce":
            for x in o[2:]: yield from self._grefs(x)

    def fixed(self, name):
        """does the global keep its initial value?  constants, and function-local statics that are only ever loaded"""
        g = self.globals.get(name)
        if not g: return False
        if g.get("const"): return True
        if not name.startswith("_ZZ") or "hex" not in g: return False
        if not hasattr(self, "_wr"):
            self._wr = set()
            for f in self.fns.values():
                for i in f.all():
                    for k, o in enumerate(i.ops):
                        if i.op == "load": continue
                        self._wr.update(self._grefs(o))
            for x in self.globals.values():
                for _, p in x.get("ptrs", []): self._wr.update(self._grefs(p))
        return name not in self._wr

    def cstr(self, op):
        """constant C string an operand points at, or None"""
        off = 0
        if op[0] == "cgep":
            if op[2].get("vars"): return None
            off = op[2]["off"]; op = op[1]
        if op[0] != "g": return None
        b = self.gbytes(op[1])
        if b is None or not self.globals[op[1]]["const"]: return None
        b = b[off:]
        return b
