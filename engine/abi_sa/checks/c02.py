"""Every typed reader is analysed with the stream invariant of C01.  Wherever it sizes storage (resize, reserve, a sized
constructor, an array new) by a value that is not a constant, the state must imply that count times element size does not exceed
what remains of the input at that moment.  Every loop that adds elements one at a time must read at least one byte from the input
in each round: the readers that consume input on every successful path are computed over the call graph."""
from ..eng import *
from ..streams import StreamInterp, stream_call, reachable, tagged
from ..lib import lib
from ..flow import Flow, TOP
from .c01 import readers
import re

TECHNIQUE = "class-invariant abstract interpretation (linear relations) of every allocation site, and a consumption effect analysis of element loops"
LEVEL = "proof"
NOTE = ("The product count*sizeof(element) that is compared with the remaining input may wrap; then the count exceeds max_size of the "
        "vector and the standard library refuses it without claiming memory.")
SINK = re.compile(r"^std::(__cxx11::)?(vector|basic_string|deque|list)::(resize|reserve|assign|insert|append|vector|basic_string|deque|list|_M_(default_append|default_initialize|fill_\w+|create_storage|replace_aux|create))$|^operator new(\[\])?$|^std::__new_allocator::allocate$|^std::_Vector_base::_(Vector_base|M_allocate|M_create_storage)$")
ADD = re.compile(r"^std::(__cxx11::)?(vector|deque|list|set|map|multiset|multimap|_Rb_tree|unordered_\w+)::(emplace|emplace_back|push_back|emplace_front|push_front|insert|try_emplace|emplace_hint|insert_or_assign|operator\[\]|_M_emplace\w*|_M_insert\w*|resize)$")
WIDTH = {"char": 1, "signed char": 1, "unsigned char": 1, "bool": 1, "short": 2, "unsigned short": 2, "int": 4, "unsigned int": 4, "long": 8, "unsigned long": 8,
         "float": 4, "double": 8, "__int128": 16, "unsigned __int128": 16}


def element(dem):
    m = re.search(r"(?:vector|deque|list)<(.*)$", dem.split("(")[0])
    if not m: return 1
    s = m.group(1); d = 0
    for k, c in enumerate(s):
        if c == "<": d += 1
        elif c == ">": d -= 1
        if c == "," and d == 0: s = s[:k]; break
    return WIDTH.get(s.strip(), 1)


def is_reader(m, f):
    """typed readers: functions named *from_bin taking a stream"""
    return re.search(r"(^|::)\w*from_bin\w*$", f.q) is not None


def sinks(m, f):
    for i in f.all():
        if i.op in ("call", "invoke") and i.callee and SINK.match(m.q(i.callee)): yield i


def remaining(ip, st):
    for base, r in st.mem.items():
        for o, c in r.cells.items():
            if not isinstance(o, int) or not isinstance(c[1], P): continue
            d = r.cells.get(o + 8)
            if d is None or not isinstance(d[1], P) or d[1].base is not c[1].base: continue
            b = c[1].base
            if b.op == "region" and b.args[1] in ("input", "arg") and ip.extent(st, b) is not None:
                yield ip.sval(st, d[1].off) - ip.sval(st, c[1].off)


def allocations(rep, m):
    und = []
    for f in reachable(m, "sa_|abieos_"):
        if not is_reader(m, f): continue
        ss = list(sinks(m, f))
        if not ss: continue
        bad = {}; n = [0]

        def call(ip, nn, st, ev, i, a):
            if i in ss and not (len(a) > 2 and any(isinstance(x, P) for x in a[1:3])):   # copies of a range are bounded by their source
                q = m.q(i.callee); w = 1 if "new" in q else element(m.dem(i.callee))
                if q.endswith("::allocate"): w = 1
                for x in a[:1] if q.startswith("operator") else a[1:]:
                    if not isinstance(x, V) or isinstance(x, P): continue
                    x = ip.norm(st, x)
                    if x.is_const() or x.w < 32: continue
                    n[0] += 1
                    lo, hi = ip.urange(st, x)
                    ok = hi <= 64
                    by = x if w == 1 else ip.mul(st, x, const(x.w, w))
                    for rem in remaining(ip, st):
                        if ip.prove_le(st, ip.uval(st, by) - rem): ok = True
                    if not ok: bad[i.where()] = "%s is called with a count that the remaining input does not bound" % q.replace("std::", "").replace("__cxx11::", "")
            return stream_call(ip, nn, st, ev, i, a)
        ip = StreamInterp(m, f, None); ip.default_model = call
        ip.models = {k: v for k, v in ip.models.items() if not SINK.match(k)} if isinstance(ip.models, dict) else ip.models
        st = State(); ip.argv = {}
        for k, a in enumerate(f.args):
            st.env[k] = P(term(64, 0, ADDR_HI, "region", (k, "arg")), const(64, 0)) if a["ty"] == "ptr" else ip.opaque(st, ibits(a["ty"]) or 64, ("arg", k), a["ty"])
            ip.argv[k] = st.env[k]
        try: ip.run(st)
        except TooBig:
            if not bad: und.append(m.dem(f.name)); continue
        if n[0] or bad:
            rep.ob("storage is claimed only for what the input holds", m.dem(f.name), not bad, "; ".join("%s at %s" % (v, k) for k, v in bad.items()))
    rep.note("functions not decided", und)
    if len(und) > 2: raise build.Broken("the analysis of %s does not converge" % ", ".join(und[:4]))


class Consume:
    """functions that return only after having read at least one byte of input"""
    def __init__(self, m):
        self.m = m; self.yes = set()
        self.cand = [f for f in m.fns.values() if f.blocks and self.streamy(f)]
        while True:
            new = {f.name for f in self.cand if f.name not in self.yes and self.always(f)}
            if not new: break
            self.yes |= new

    def streamy(self, f): return re.search(r"input_stream", self.m.dem(f.name)) is not None

    def reads(self, i):
        if i.op not in ("call", "invoke") or not i.callee: return False
        if i.callee in self.yes: return True
        q = self.m.q(i.callee)
        if q in ("eosio::input_stream::read", "eosio::input_stream::skip", "eosio::input_stream::read_reuse_storage"):
            return i.ops[-1 if i.op == "call" else -1][0] == "c" and i.ops[-1][1] >= 1 or any(o[0] == "c" and o[1] >= 1 for o in i.ops[1:])
        return False

    def always(self, f):
        fl = Flow(f, gen=lambda i: ("read",) if self.reads(i) else ())
        rets = [b[-1] for b in f.blocks.values() if b and b[-1].op == "ret"]
        return all(fl.at(r) is TOP or "read" in fl.at(r) for r in rets)


def loops(rep):
    m = lib(); c = Consume(m)
    n = 0
    for f in m.fns.values():
        if not f.blocks or f.q.startswith("std::") or not c.streamy(f) or "from_bin" not in m.dem(f.name): continue
        if not any(i.op in ("call", "invoke") and i.callee and ADD.match(m.q(i.callee)) for i in f.all()): continue
        adds = [i for i in f.all() if i.op in ("call", "invoke") and i.callee and ADD.match(m.q(i.callee))]
        rd = {i.bb for i in f.all() if c.reads(i)}
        for i in adds:
            succ = {}
            def nxt(b): return list(f.succ[b]) + ([f.unwind[b]] if f.unwind.get(b) is not None else [])
            # is the block on a cycle at all?
            def cyc(avoid):
                seen = set(); work = [s for s in nxt(i.bb)] if i.bb not in avoid else []
                while work:
                    b = work.pop()
                    if b == i.bb: return True
                    if b in seen or b in avoid: continue
                    seen.add(b); work.extend(nxt(b))
                return False
            if not cyc(set()): continue
            n += 1
            # the element and the read may share a block; any read in the block itself counts
            rep.ob("an element is added only together with input read", "%s: %s" % (m.dem(f.name)[:150], m.q(i.callee).split("::")[-1]), not cyc(rd),
                   "%s: elements are added in a loop that can go round without reading input" % i.where())
    rep.note("functions that always read input", len(c.yes))


def run(rep, tier):
    allocations(rep, readers())
    loops(rep)
    rep.need("storage is claimed only for what the input holds", 4); rep.need("an element is added only together with input read", 10)
