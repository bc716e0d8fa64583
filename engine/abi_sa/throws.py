"""Which exceptions can leave each function: a fixpoint over the call graph with catch clauses applied, and the places where an
exception would meet a noexcept boundary (std::terminate)."""
import re
from . import build

RESOURCE = {"std::bad_alloc", "std::bad_array_new_length", "std::length_error", "std::logic_error"}
PARENT = {"std::bad_array_new_length": "std::bad_alloc", "std::length_error": "std::logic_error", "std::out_of_range": "std::logic_error", "std::invalid_argument": "std::logic_error",
          "std::domain_error": "std::logic_error", "std::range_error": "std::runtime_error", "std::overflow_error": "std::runtime_error", "std::underflow_error": "std::runtime_error"}
HELPER = {"std::__throw_length_error": "std::length_error", "std::__throw_bad_alloc": "std::bad_alloc", "std::__throw_bad_array_new_length": "std::bad_array_new_length",
          "std::__throw_logic_error": "std::logic_error", "std::__throw_out_of_range_fmt": "std::out_of_range", "std::__throw_out_of_range": "std::out_of_range",
          "std::__throw_bad_function_call": "std::bad_function_call", "std::__throw_bad_variant_access": "std::bad_variant_access",
          "std::__throw_bad_optional_access": "std::bad_optional_access", "std::__throw_invalid_argument": "std::invalid_argument", "std::__throw_system_error": "std::system_error"}


def isa(t, c):
    if c == "std::exception": return t != "unknown"
    while t is not None:
        if t == c: return True
        t = PARENT.get(t)
    return False


def tname(mod, o):
    """typeinfo operand -> class name"""
    while isinstance(o, list) and o and o[0] in ("cgep",): o = o[1]
    if not isinstance(o, list) or not o or o[0] != "g": return None
    g = mod.globals.get(o[1]) or {}
    d = g.get("dem") or mod.dem(o[1])
    m = re.match(r"typeinfo for (.*)$", d)
    if m: return m.group(1)
    return o[1]


class Throws:
    def __init__(self, mod):
        self.mod = mod
        self.sum = {}
        self.terms = []
        ch = True
        order = list(mod.fns.values())
        for f in order: self.sum[f.name] = frozenset()
        self._ext = {}
        self.prep = {f.name: self._prep(f) for f in order}
        callers = {}
        for f in order:
            for i in self.prep[f.name][0]:
                if i.callee in self.sum: callers.setdefault(i.callee, set()).add(f.name)
        work = [f.name for f in order]; inw = set(work)
        while work:
            n = work.pop(); inw.discard(n)
            s = self.flow(mod.fns[n], None)
            if s != self.sum[n]:
                self.sum[n] = s
                for c in callers.get(n, ()):
                    if c not in inw: inw.add(c); work.append(c)
        for f in order: self.flow(f, self.terms)

    def _prep(self, f):
        calls = [i for i in f.all() if i.op in ("call", "invoke")]
        return calls, {}

    def external(self, name, q):
        r = self._ext.get(name)
        if r is None: r = self._ext[name] = self._external(name, q)
        return r

    def _external(self, name, q):
        d = self.mod.decls.get(name) or {}
        if d.get("nounwind") or name.startswith("llvm.") or name.startswith(("__cxa_", "_ZdlPv", "_ZdaPv")): return frozenset()
        if q in HELPER: return frozenset([HELPER[q]])
        if name.startswith(("_Znwm", "_Znam")): return frozenset(["std::bad_alloc"])
        if q.startswith("std::"):
            base = q.split("::")[-1]
            if base.startswith("~"): return frozenset()
            if base in ("substr", "at", "replace", "erase", "insert", "compare", "copy", "_M_check", "append") and "basic_string" in q:
                return frozenset(["std::bad_alloc", "std::length_error", "std::out_of_range"])
            return frozenset(["std::bad_alloc", "std::length_error"])
        if q.startswith(("eosio::", "abieos::", "abieos_", "zoo::")): return frozenset(["unknown"])
        return frozenset()  # C library

    def of(self, i):
        """exceptions a call can raise"""
        n = i.callee
        if not n:
            return frozenset(["std::runtime_error", "std::bad_alloc", "std::length_error"])
        if n == "__cxa_throw": return frozenset([tname(self.mod, i.ops[1]) or "unknown"])
        if n == "__cxa_rethrow": return frozenset(["rethrow"])
        if i.get("nounwind") and n not in self.sum: return frozenset()
        if n in self.sum: return self.sum[n]
        return self.external(n, self.mod.q(n))

    def pad(self, f, b):
        """landing pad of a block: (instruction, leads to terminate, leads to resume)"""
        memo = self.prep[f.name][1]
        if b in memo: return memo[b]
        lp = next((i for i in f.blocks[b] if i.op == "landingpad"), None)
        term = resume = False
        seen = {b}; st = [b]
        while st:
            x = st.pop(); stop = False
            for i in f.blocks[x]:
                if i.op in ("call", "invoke") and i.callee:
                    if i.callee == "__cxa_begin_catch": stop = True; break
                    if i.callee in ("__clang_call_terminate", "_ZSt9terminatev"): term = True; stop = True; break
                if i.op == "resume": resume = True
            if stop: continue
            for s in f.succ[x]:
                if s not in seen: seen.add(s); st.append(s)
        memo[b] = (lp, term, resume)
        return memo[b]

    def flow(self, f, terms):
        out = set()
        for i in self.prep[f.name][0]:
            ex = self.of(i)
            if not ex: continue
            if "rethrow" in ex: ex = frozenset(["std::runtime_error", "std::bad_alloc", "unknown"])
            if i.op == "call": out |= ex; continue
            lp, term, resume = self.pad(f, i.d["unwind"])
            if lp is None: out |= ex; continue
            left = set(ex)
            catch_all = False
            for c in lp.d.get("clauses") or []:
                t = c[1] if isinstance(c, list) and len(c) == 2 and c[0] in ("catch", "filter") else c
                if t in (None, ["null"], "null"): catch_all = True
                else:
                    nm = tname(self.mod, t)
                    left = {x for x in left if not isa(x, nm)}
            if term and left:
                if terms is not None: terms.append((f, i, frozenset(left)))
                left = set()
            elif catch_all: left = set()
            out |= left
        if f.d.get("nounwind"): return frozenset()
        return frozenset(out)
