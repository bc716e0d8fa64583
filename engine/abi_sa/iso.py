"""Two instantiations of the same template compared instruction by instruction: everything reached through the differing parameter
(the conversion state) is one opaque object, calls are matched by name with the state type left out, and matched callees are compared
in turn."""
import re
from collections import Counter

ADDR = ("getelementptr", "bitcast", "load", "addrspacecast")


class Diff(Exception):
    def __init__(self, where, why, definite=False): super().__init__(why); self.where = where; self.why = why; self.definite = definite


class Iso:
    def __init__(self, m, left, right, same):
        """left/right: regexes of the state types; same: {(left name, right name)} functions that are interchangeable by contract"""
        self.m = m; self.l = re.compile(left); self.r = re.compile(right); self.same = same
        self.done = {}; self.pairs = []; self.contract = set()

    def norm(self, name, rx):
        d = rx.sub("STATE", self.m.dem(name))
        return re.sub(r"\s+const$", "", d)

    def state_params(self, f, rx):
        """indices of the parameters that are the state"""
        d = self.m.dem(f.name)
        a = split_params(d)
        ks = [k for k, x in enumerate(a) if rx.search(x) and x.rstrip().endswith(("&", "*"))]
        sret = len(f.args) - len(a) if not is_method(d) else 0
        return {k + max(0, sret) for k in ks}

    def compare(self, a, b, pa, pb):
        """a, b: function names; pa, pb: parameter indices that stand for the state"""
        key = (a, b, tuple(sorted(pa)), tuple(sorted(pb)))
        if key in self.done: return
        self.done[key] = True
        fa, fb = self.m.fns.get(a), self.m.fns.get(b)
        if fa is None or fb is None: raise Diff("%s / %s" % (self.m.dem(a)[:80], self.m.dem(b)[:80]), "one of them has no body")
        self.pairs.append((fa, fb))
        # shape first
        va, vb = {}, {}
        for k in range(len(fa.args)): va[k] = ("S",) if k in pa else ("p", k)
        for k in range(len(fb.args)): vb[k] = ("S",) if k in pb else ("p", k)
        if len(fa.args) != len(fb.args): raise Diff(fa.q, "different numbers of parameters")
        la, lb = self.linear(fa, va), self.linear(fb, vb)
        bm = {}
        for (x, bx), (y, by) in zip(la, lb):
            if bm.setdefault(bx, by) != by: raise Diff(x.where(), "different control flow")
        k = 0
        for (x, bx), (y, by) in zip(la, lb):
            self.inst(x, y, va, vb, bm, k); k += 1
        if len(la) != len(lb):
            n = min(len(la), len(lb)); z = (la + lb[n:])[n][0] if len(la) > n else lb[n][0]
            raise Diff(z.where(), "more is done in one of the two")

    def linear(self, f, env):
        """the instructions in depth-first block order, without those that only compute addresses inside the state"""
        seen = set(); out = []; st = [f.entry]
        while st:
            b = st.pop()
            if b in seen: continue
            seen.add(b)
            nx = list(f.succ[b]) + ([f.unwind[b]] if f.unwind[b] is not None else [])
            if f.term(b).op == "br": nx = list(f.term(b).d["succ"])
            st += reversed(nx)
            for i in f.blocks[b]:
                if i.op in ADDR and i.ops and i.ops[0][0] == "v" and env.get(i.ops[0][1]) == ("S",) and all(o[0] == "c" for o in i.ops[1:]): env[i.id] = ("S",); continue
                out.append((i, b))
        return out

    def operand(self, o, env):
        if o[0] == "v": return env.get(o[1], ("?", o[1]))
        return o

    def opnd_eq(self, x, y, va, vb, pend):
        if x[0] == "v" and y[0] == "v":
            a, b = va.get(x[1]), vb.get(y[1])
            if a is None and b is None: pend.append((x[1], y[1])); return True       # a use before the definition is met (phi)
            return a == b
        if x[0] == "bb" and y[0] == "bb": return True
        if x == y: return True
        if x[0] == "g" and y[0] == "g":
            ga, gb = self.m.globals.get(x[1]), self.m.globals.get(y[1])
            if ga and gb and ga.get("hex") is not None and ga.get("hex") == gb.get("hex"): return True
            return self.norm(x[1], self.l) == self.norm(y[1], self.r)
        return False

    def inst(self, x, y, va, vb, bm, k):
        if x.op != y.op: raise Diff(x.where(), "%s against %s" % (x.op, y.op))
        if x.op in ("call", "invoke"):
            ca, cb = x.callee, y.callee
            if (ca is None) != (cb is None): raise Diff(x.where(), "an indirect call in one of the two")
            if ca != cb:
                na, nb = self.norm(ca, self.l), self.norm(cb, self.r)
                if na != nb: raise Diff(x.where(), "%s is called in one, %s in the other" % (na[:80], nb[:80]), True)
                q = (self.m.q(ca), self.m.q(cb))
                if q in self.same: self.contract.add(q)
                else:
                    pa = {j for j, o in enumerate(x.ops) if self.operand(o, va) == ("S",)}
                    pb = {j for j, o in enumerate(y.ops) if self.operand(o, vb) == ("S",)}
                    self.compare(ca, cb, pa, pb)
        elif x.get("pred") != y.get("pred"): raise Diff(x.where(), "different comparisons", True)
        if x.op in ("getelementptr", "alloca", "load", "store", "extractvalue", "insertvalue"):
            if x.op == "alloca":
                if x.get("size") != y.get("size") and not self.l.search(x.get("aty") or ""): raise Diff(x.where(), "different local objects")
            elif (x.get("off"), x.get("vars"), x.get("idx")) != (y.get("off"), y.get("vars"), y.get("idx")) and x.op != "getelementptr" or x.get("off") != y.get("off"): raise Diff(x.where(), "different parts of an object")
        if len(x.ops) != len(y.ops): raise Diff(x.where(), "different operands")
        if x.op == "phi":
            pass
        else:
            pend = []
            for a, b in zip(x.ops, y.ops):
                if not self.opnd_eq(a, b, va, vb, pend): raise Diff(x.where(), "%s with %s against %s" % (x.op, a, b), a[0] == "c" and b[0] == "c" and x.op != "getelementptr")
        if x.op == "br" and x.get("succ") and len(x.d["succ"]) == 2:
            for s, t in zip(x.d["succ"], y.d["succ"]):
                if s in bm and bm[s] != t: raise Diff(x.where(), "different branches")
        va[x.id] = vb[y.id] = ("i", k)


def is_method(d): return False


def split_params(d):
    """the parameter types of a demangled function"""
    depth = 0; end = None
    k = len(d) - 1
    while k >= 0 and d[k] != ")": k -= 1
    j = k; par = 0
    while j >= 0:
        if d[j] == ")": par += 1
        elif d[j] == "(":
            par -= 1
            if par == 0: break
        j -= 1
    out = []; cur = ""; depth = 0
    for c in d[j + 1:k]:
        if c in "<([": depth += 1
        elif c in ">)]": depth -= 1
        if c == "," and depth == 0: out.append(cur.strip()); cur = ""
        else: cur += c
    if cur.strip(): out.append(cur.strip())
    return out


def features(m, name, rx, iso, seen=None):
    """what a function and everything reached from it through the state can do: constants tested, functions called, errors raised"""
    out = set(); st = [name]; seen = set()
    while st:
        n = st.pop()
        if n in seen: continue
        seen.add(n)
        f = m.fns.get(n)
        if f is None: continue
        for b, l in f.blocks.items():
            for i in l:
                if i.op in ("icmp", "fcmp"):
                    for o in i.ops:
                        if o[0] == "c" and o[1] not in (0, 1, -1): out.add(("tests", o[1], i.get("pred")))
                elif i.op in ("mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "add", "sub"):
                    for o in i.ops:
                        if o[0] == "c": out.add((i.op, o[1]))
                elif i.op in ("call", "invoke"):
                    c = i.callee
                    if c is None: out.add(("indirect",)); continue
                    d = iso.norm(c, rx)
                    if c.startswith("llvm."): continue
                    if rx.search(m.dem(c)) and c in m.fns and not any(m.q(c) in p for p in iso.same): st.append(c)
                    else:
                        out.add(("calls", d) + tuple(o[1] for o in i.ops if o[0] == "c"))
    return out
