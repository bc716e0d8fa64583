"""Every cycle of the library's call graph is enumerated.  A cycle is accepted only with a static argument that its depth is
bounded: (1) an integer parameter grows along the cycle and a comparison with a small constant dominates the recursive calls, (2)
the explicit stack's size is compared with a small constant before the recursive call, (3) it only walks a value that already
exists (destructors, copies, writers), whose depth the readers bound, (4) the JSON parser's recursive entry is not used.  The
ABI-driven conversions, which recurse through virtual calls, are checked separately: no serializer starts the conversion of an
element while starting its own, and every loop that drives the explicit stack tests the stack size against a small constant in
each iteration."""
import re
from ..eng import *
from ..lib import lib
from ..flow import Flow
from ..graph import *

TECHNIQUE = "call-graph cycle analysis with dominating-guard dataflow"
LEVEL = "proof"
NOTE = "The JSON parser is taken to report a key or the end of the object right after the start of an object. Recursion inside the standard library's containers (tree height) is excluded."
LIMIT = 1024
STACKFAM = ("abieos::json_to_bin", "abieos::bin_to_json")


def size_this(f, o):
    """the container whose size() an operand is"""
    o, _ = origin(f, o)
    if o[0] == "v" and o[1] in f.insts:
        i = f.insts[o[1]]
        if i.op in ("call", "invoke") and i.callee and re.search(r"^std::(vector|deque|stack|__cxx11::list)::size$", f.mod.q(i.callee)): return place(f, i.ops[0])
    return None


class Guards:
    """facts: ("arg", k) parameter k is at most LIMIT; ("size", place) the container at place holds at most LIMIT elements"""
    def __init__(self, mod): self.mod = mod; self.memo = {}; self.post = {}

    def atom(self, f):
        def at(i):
            u = upper_bound(i, LIMIT)
            if not u: return None
            o, t, fl = u
            src, k = origin(f, o)
            facts = []
            if k >= 0 and src[0] == "v" and src[1] < len(f.args): facts.append(("arg", src[1]))
            s = size_this(f, o)
            if s: facts.append(("size", s))
            return (facts if t else (), facts if fl else ()) if facts else None
        return at

    def gen(self, f, fl):
        def g(i):
            if i.op not in ("call", "invoke") or not i.callee: return ()
            q = self.mod.q(i.callee)
            if q == "eosio::check" and i.ops:
                imp = fl["x"].imp.op(i.ops[0], ())[0]
                return imp or ()
            c = self.mod.fns.get(i.callee)
            if c is None or c.q.startswith("std::"): return ()
            out = []
            ints = [k for k, a in enumerate(c.args) if a["ty"].startswith("i") and a["ty"] != "i1"]
            if not ints: return ()
            p = self.returns(c)
            for k in ints:
                if ("arg", k) in p and k < len(i.ops):
                    src, add = origin(f, i.ops[k])
                    if add >= 0 and src[0] == "v" and src[1] < len(f.args): out.append(("arg", src[1]))
            return out
        return g

    def returns(self, c):
        """facts about its parameters that hold whenever c returns normally"""
        if c.name not in self.post:
            self.post[c.name] = frozenset()
            fl = self.flow(c)
            r = None
            for b in c.order:
                t = c.term(b)
                if t.op == "ret":
                    x = fl.at(t)
                    if x is not None: r = x if r is None else r & x
            self.post[c.name] = r or frozenset()
            self.memo.pop(c.name, None)
        return self.post[c.name]

    def flow(self, f):
        if f.name not in self.memo:
            h = {}
            class L(Flow):
                def __init__(s, *a): h["x"] = s; super().__init__(*a)
            self.memo[f.name] = L(f, self.atom(f), self.gen(f, h))
        return self.memo[f.name]


def param_bounded(m, G, comp):
    """(1): some integer parameter of every function is passed on unchanged or increased along every edge; cycles need an increment and a guard"""
    fns = [m.fns[n] for n in comp]
    cs = set(comp)
    ints = {f.name: [k for k, a in enumerate(f.args) if a["ty"].startswith("i") and a["ty"] != "i1"] for f in fns}
    if not all(ints.values()): return False
    # choose the last integer parameter; try all choices of a common name would be over-engineering
    par = {n: v[-1] for n, v in ints.items()}
    plain, grow, unguarded = [], [], []
    for f in fns:
        fl = G.flow(f)
        for i in calls(f):
            if i.callee not in cs: continue
            facts = fl.at(i)
            if facts is None: continue
            src, k = origin(f, i.ops[par[i.callee]])
            if src != ["v", par[f.name]] and tuple(src[:2]) != ("v", par[f.name]) or k < 0: return False
            e = (f.name, i.callee)
            if k == 0: plain.append(e)
            if ("arg", par[f.name]) not in facts: unguarded.append(e)
    return acyclic(comp, plain) and acyclic(comp, unguarded)


def stack_bounded(m, G, comp):
    """(2): constant-argument specialisation is acyclic apart from edges guarded by an explicit-stack size test"""
    cs = set(comp)
    start = {n: len(m.fns[n].args) - 1 for n in comp}
    if any(m.fns[n].args[start[n]]["ty"] != "i1" for n in comp): return False
    nodes = [(n, v) for n in comp for v in (0, 1)]
    edges = []
    guarded = True
    for n, v in nodes:
        f = m.fns[n]
        fl = G.flow(f)
        for i in pruned_calls(f, {start[n]: v}):
            if i.callee in cs:
                o = i.ops[start[i.callee]]
                e = evalb(f, o, {start[n]: bool(v)})
                vs = (0, 1) if e is None else (int(e),)
                for w in vs: edges.append(((n, v), (i.callee, w)))
    return acyclic(nodes, edges)


def evalb(f, o, env, d=0):
    """boolean value of an operand under known values, or None"""
    if o[0] == "c": return bool(o[1] & 1) if abs(o[1]) <= 1 else None
    if o[0] != "v" or d > 12: return None
    if o[1] in env: return env[o[1]]
    i = f.insts.get(o[1])
    if i is None: return None
    if i.op in ("trunc", "zext", "freeze"): return evalb(f, i.ops[0], env, d + 1)
    if i.op == "xor" and i.ops[1][0] == "c":
        x = evalb(f, i.ops[0], env, d + 1)
        return None if x is None else x != bool(i.ops[1][1] & 1)
    if i.op == "and":
        x, y = (evalb(f, a, env, d + 1) for a in i.ops)
        return False if x is False or y is False else True if x and y else None
    if i.op == "or":
        x, y = (evalb(f, a, env, d + 1) for a in i.ops)
        return True if x or y else False if x is False and y is False else None
    if i.op == "icmp" and i.ops[1][0] == "c" and i.d["pred"] in ("eq", "ne"):
        x = evalb(f, i.ops[0], env, d + 1)
        if x is not None and i.ops[1][1] in (0, 1, -1): return (x == bool(i.ops[1][1])) == (i.d["pred"] == "eq")
    return None


def pruned_calls(f, env, assume=lambda i: None):
    """calls reachable when the given arguments have the given boolean values"""
    env = {k: bool(v) for k, v in env.items()}
    for i in f.all():
        a = assume(i)
        if a is not None: env[i.id] = a
    seen = {f.entry}; st = [f.entry]
    while st:
        b = st.pop()
        t = f.term(b)
        nxt = list(f.succ[b])
        if t.op == "br" and len(t.ops) == 3:
            v = evalb(f, t.ops[0], env)
            if v is not None: nxt = [t.d["succ"][0 if v else 1]]
        for s in nxt:
            if s not in seen: seen.add(s); st.append(s)
    return [i for i in f.all() if i.bb in seen and i.op in ("call", "invoke")]


def traversal(m, f):
    q = f.q
    base = re.sub(r"\(.*", "", q).split("::")[-1]
    if re.match(r"(std|__gnu_cxx)::", q): return True
    if "'lambda" in f.dem or "lambda" in f.dem: return True
    if base.startswith("~") or base.startswith("operator"): return True
    parts = q.split("::")
    if len(parts) > 1 and parts[-1] == parts[-2]: return True  # constructor
    if re.match(r"(auto |void |decltype|std::enable_if).*", q): return True
    return base in ("to_bin", "to_json", "to_key", "for_each_field", "for_each_method", "swap", "from_bin_skip")


READER = re.compile(r"\b(from_bin|from_json|get_type|resolve|fill|receive_event|convert)\b|input_stream|json_token_stream")


def recursion(rep, m):
    g = {f.name: [i.callee for i in calls(f) if i.callee in m.fns] for f in m.fns.values()}
    G = Guards(m)
    n = 0
    for comp in sccs(g):
        fs = [m.fns[x] for x in comp]
        qs = sorted({f.q for f in fs})
        if all(q.startswith(("std::", "__gnu_cxx::")) for q in qs) and not any("abieos" in f.dem or "eosio" in f.dem for f in fs) or all(q == "std::_Rb_tree::_M_erase" for q in qs): continue
        n += 1
        if all(q.startswith("rapidjson::") for q in qs):
            out = sorted({f.q for f in m.fns.values() if f.name not in comp for c in g[f.name] if c in comp} - {"rapidjson::GenericReader::Transit"})
            rep.ob("a recursion is bounded", "JSON parser", not out, "the recursive-descent entry of the parser is called by " + ", ".join(out[:3]))
            continue
        own = [f for f in fs if not f.q.startswith(("std::", "__gnu_cxx::"))]
        if not any(READER.search(f.dem) for f in own) and all(traversal(m, f) for f in fs):
            rep.ob("a recursion only walks an existing value", "%s (%d functions)" % (min((re.sub(r"\(.*", "", f.dem) for f in own), key=len, default=qs[0])[:120], len(fs)), True)
            continue
        ts = sorted({t for f in own for t in re.findall(r"\b(?:from_bin|from_json)(?:<[^()]*>)?\((?!std::)(\w[\w:]*)&", f.dem)})
        named = sorted({f.q for f in own if traversal(m, f) is False})
        subj = ",".join(ts or named)[:160] or qs[0]
        ok = param_bounded(m, G, comp) or stack_bounded(m, G, comp)
        rep.ob("a recursion is bounded", subj, ok, "recursion without a depth limit through %s" % ", ".join("%s (%s)" % (f.q, f.where()) for f in own if f.q in named)[:400],
               key="recursion:" + subj)
    rep.note("call-graph cycles", n)
    return G


def virtual(rep, m):
    """serializers: starting one value never starts another of the same kind of family"""
    n = 0
    for f in m.fns.values():
        if f.q not in STACKFAM or "pseudo_" not in f.dem: continue
        kind = re.search(r"pseudo_(\w+)\*", f.dem)
        if not kind or f.args[-1]["ty"] != "i1": continue
        kind = kind.group(1); jv = "jvalue_to_bin_state" in f.dem
        start = len(f.args) - 1
        fam = "reorderable" if jv else "json" if "json_to_bin_state" in f.dem else "binary"
        def assume(i):
            # right after the start of an object the parser reports a key or the end
            if i.op in ("call", "invoke") and i.callee and re.search(r"optional::(operator bool|has_value)$", m.q(i.callee)) and starts: return True
            return None
        starts = fam == "json" and kind == "object" and any(i.callee and m.q(i.callee).endswith("::get_start_object") for i in calls(f))
        v = [i for i in pruned_calls(f, {start: 1}, assume) if not i.callee or i.callee in m.fns and m.q(i.callee) == "abieos::bin_to_json" and len(m.fns[i.callee].args) == 4]
        n += 1
        label = "%s %s" % (fam, kind)
        if kind in ("optional", "extension"):
            bad = []
        elif jv:
            # structural descent: each such call is preceded by narrowing the received value
            off = [i for i in f.all() if i.op == "store"]
            fl = Flow(f, gen=lambda i: ("narrowed",) if i.op == "store" and i.ops[0][0] != "c" and (place(f, i.ops[1]) or ((), ()))[0][1] in ("0", "1") else ())
            bad = []
            for i in v:
                x = fl.at(i)
                if x is not None and "narrowed" not in x: bad.append(i)
        else: bad = v
        rep.ob("starting a value does not start its elements", label, not bad, "; ".join("the conversion of an element is started recursively at %s" % i.where() for i in bad[:2]))
    return n


def loops(rep):
    m = module(["src:abi.cpp"], "c03drv", roots=r"^eosio::abi_type::(json_to_bin|bin_to_json)", keep=r"^std::|~|^rapidjson|json_token_stream::|^eosio::(to_bin|from_bin|unhex|to_json|from_json|convert_)",
               inline=r"^eosio::|^abieos::")
    n = 0
    for f in m.fns.values():
        if not f.q.startswith("eosio::abi_type"): continue
        G = Guards(m)
        for l in f.loops():
            blocks = set(l["blocks"])
            virt = [i for b in blocks for i in f.blocks[b] if i.op in ("call", "invoke") and not i.callee]
            if not virt: continue
            n += 1
            # the stack is the container whose emptiness ends the loop
            ctl = [place(f, i.ops[0]) for b in blocks for i in f.blocks[b] if i.op in ("call", "invoke") and i.callee and re.search(r"^std::vector::(empty|back|pop_back)$", m.q(i.callee))]
            jv = any("jvalue" in m.q(i.callee or "") for i in calls(f))
            if jv: continue
            fl = Flow(f, G.atom(f), kill=lambda i, facts: facts if i in virt else ())
            def bounded(x): return x is None or any(t[0] == "size" and t[1] in ctl for t in x)
            ok = all(bounded(fl.at(i)) for i in virt) or all(bounded(x) for b in l["latches"] if b in fl.inn for s, x in fl.edges(b) if s == l["header"])
            rep.ob("each step of an explicit-stack loop tests the stack size", f.q, ok, "the loop at %s can continue without comparing the stack size with a small constant" % virt[0].where())
    if n < 3: raise build.Broken("the conversion loops are not where they were")


def tree(rep, m):
    """the reorderable conversion's input tree: the builder's explicit stack is tested on every event"""
    G = Guards(m)
    ev = [f for f in m.fns.values() if f.q == "abieos::receive_event"]
    if not ev: raise build.Broken("receive_event is gone")
    for f in ev:
        fl = G.flow(f)
        for i in calls(f):
            if i.callee and re.search(r"json_to_j(object|array)$", m.q(i.callee)):
                x = fl.at(i)
                ok = x is None or any(t[0] == "size" for t in x)
                rep.ob("the JSON tree's depth is tested before it grows", "%s at line order %d" % (m.q(i.callee), [j for j in calls(f) if j.callee == i.callee].index(i)), ok, "reached at %s without comparing the stack size with a small constant" % i.where())
    # nothing else grows the tree
    grow = sorted({f.q for f in m.fns.values() for i in calls(f) if i.callee and "json_to_jvalue_stack_entry" in m.dem(i.callee) and re.search(r"::(push_back|emplace_back|emplace|insert)$", m.q(i.callee)) and not f.q.startswith("std::")})
    known = {"abieos::json_to_jobject", "abieos::json_to_jarray", "abieos::json_to_jvalue", "abieos::receive_event"}
    callers = sorted({f.q for f in m.fns.values() for i in calls(f) if i.callee and m.q(i.callee) in ("abieos::json_to_jobject", "abieos::json_to_jarray")} - known)
    rep.ob("the JSON tree's depth is tested before it grows", "functions that extend the tree", not (set(grow) - known) and not callers, ", ".join(sorted((set(grow) - known) | set(callers))))


def run(rep, tier):
    m = lib()
    recursion(rep, m)
    virtual(rep, m)
    loops(rep)
    tree(rep, m)
    rep.need("a recursion is bounded", 4); rep.need("starting a value does not start its elements", 12); rep.need("each step of an explicit-stack loop tests the stack size", 2)
