"""Wire structures: every member visited once under its name, in the published order, with the published wire type.

Every `eosio_for_each_field` overload is found in the syntax tree and instantiated in a generated driver; the sequence of visited
(label, member offset, type) is read from the compiled visitor and compared with (1) the layout of the type in the debug information and
(2) the published wire formats of nodeos (engine/data/published.txt), with C++ types reduced to wire types. The alternatives of the
protocol variants and the values of the protocol enumerations are compared with the same table."""
import os, re
from .. import build
from ..reflect import Reflection, plain, args_of

TECHNIQUE = "clang AST discovery of all reflected types + comparison of compiled visit sequences with debug-information layouts and the published wire tables"
LEVEL = "proof"
ONCE = "members visited exactly once under their names"
ORDER = "published member order and types"
ALTS = "published order of variant alternatives"
ENUM = "published enumeration values"
TABLE = os.path.join(build.ENGINE, "data", "published.txt")
INTS = {"bool": "bool", "char": "int8", "signed char": "int8", "unsigned char": "uint8", "short": "int16", "unsigned short": "uint16", "int": "int32", "unsigned int": "uint32",
        "long": "int64", "unsigned long": "uint64", "long long": "int64", "unsigned long long": "uint64", "__int128": "int128", "unsigned __int128": "uint128", "float": "float32", "double": "float64"}
LEAF = {"eosio::name": "name", "eosio::input_stream": "bytes", "eosio::bytes": "bytes", "eosio::unsigned_int": "varuint32", "eosio::signed_int": "varint32", "eosio::block_timestamp": "block_timestamp",
        "eosio::time_point": "time_point", "eosio::time_point_sec": "time_point_sec", "eosio::symbol": "symbol", "eosio::symbol_code": "symbol_code", "eosio::asset": "asset",
        "std::basic_string_view<char, std::char_traits<char>>": "string"}
TOP = ["public_key", "private_key", "signature"]


def table():
    structs, variants, enums = {}, {}, {}
    for l in open(TABLE):
        l = l.split("#")[0].strip()
        if not l: continue
        kind, name, rest = (l.split(None, 2) + [""])[:3]
        {"struct": structs, "variant": variants, "enum": enums}[kind][name] = rest.split()
    return structs, variants, enums


class Wire:
    def __init__(self, r):
        self.r = r; self.by = {}
        for k in range(len(r.ts)):
            q = r.full(k)
            if q: self.by.setdefault(q, k)

    def canon(self, t, deep=None):
        """the wire form of a C++ type; `deep`: expand structures, except those being expanded"""
        t = plain(t).replace("const ", "").strip()
        if t in INTS: return INTS[t]
        if t in LEAF: return LEAF[t]
        if t.startswith("std::basic_string<char"): return "string"
        a = args_of(t); c = lambda x: self.canon(x, deep)
        h = t.split("<")[0]
        if h in ("std::vector", "std::list", "std::deque", "std::set"):
            e = c(a[0])
            return "bytes" if e in ("int8", "uint8") else e + "[]"
        if h == "std::optional": return c(a[0]) + "?"
        if h == "eosio::might_not_exist": return c(a[0]) + "$"
        if h == "std::variant": return "<" + ",".join(c(x) for x in a) + ">"
        if h in ("std::pair", "std::tuple"): return "(" + ",".join(c(x) for x in a) + ")"
        if h == "eosio::opaque": return "bytes"
        if h == "eosio::fixed_bytes": return "fixed%s" % a[0]
        if h == "std::array":
            e = c(a[0]); return "fixed%s" % a[1] if e in ("int8", "uint8") else "%s[%s]" % (e, a[1])
        d = self.r.types.get(t)
        if d is not None and d["kind"].endswith("enumeration_type"): return INTS.get(plain(d.get("base") or ""), "uint8")
        if deep is not None and t in self.by and t not in deep:
            return "{" + ",".join("%s:%s" % (n, self.canon(x, deep | {t})) for n, o, x in self.r.visited(self.by[t])) + "}"
        return self.short(t)

    def short(self, q):
        q = q.split("<")[0]
        for p in ("eosio::ship_protocol::", "eosio::", "chain_types::"):
            if q.startswith(p): return q[len(p):]
        return q


def deep_table(structs, w, seen=frozenset()):
    """expansion of a wire form of the table"""
    def sub(m):
        n = m.group(0)
        if n in structs and n not in seen and n not in LEAF.values():
            return "{" + ",".join("%s:%s" % (x.split(":", 1)[0], deep_table(structs, x.split(":", 1)[1], seen | {n})) for x in structs[n]) + "}"
        return n
    return re.sub(r"[A-Za-z_][A-Za-z_0-9.]*", sub, w)


def norm(s): return s.replace("::", ".")


def run(rep, tier):
    structs, variants, enums = table()
    names = list(variants)
    def make(vs): return Reflection([("eosio::" if v in TOP else "eosio::ship_protocol::") + v for v in vs])
    try: r = make(names)
    except build.Broken as e:
        rep.unknown(ALTS, "variants", "%s" % e); r = make([]); names = []
    w = Wire(r); done = set()
    for k, (ns, t) in enumerate(r.ts):
        sub = (ns + "::" if ns else "") + t
        q = r.full(k)
        if not q:
            rep.unknown(ONCE, sub, "no layout of the type"); continue
        if q in done: continue
        done.add(q)
        vs = r.visited(k); ms = r.members(q)
        if any(o is None or n is None for n, o, _ in vs):
            rep.unknown(ONCE, sub, "a visited member is not recognised")
        else:
            bad = None
            for n, o, _ in ms:
                c = [v for v in vs if v[1] == o]
                if not c: bad = "member '%s' is not visited" % n
                elif len(c) > 1: bad = "member '%s' is visited %d times" % (n, len(c))
                elif c[0][0] != n: bad = "member '%s' is visited under the name '%s'" % (n, c[0][0])
                if bad: break
            if not bad and len(vs) != len(ms): bad = "%d visits for %d members" % (len(vs), len(ms))
            rep.ob(ONCE, sub, not bad, bad)
        s = norm(w.short(q))
        if s not in structs: continue
        got = ["%s:%s" % (n, norm(w.canon(x))) for n, o, x in vs]
        ok = got == structs[s]
        if not ok:         # the same format through differently named structures
            a = ["%s:%s" % (n, norm(w.canon(x, frozenset({q})))) for n, o, x in vs]
            b = ["%s:%s" % (x.split(":", 1)[0], deep_table(structs, x.split(":", 1)[1], frozenset({s}))) for x in structs[s]]
            ok = a == b
        msg = None
        if not ok:
            i = next((i for i in range(max(len(got), len(structs[s]))) if got[i:i + 1] != structs[s][i:i + 1]), 0)
            msg = "member %d is '%s', the published format has '%s'" % (i + 1, (got[i:i + 1] or ["nothing"])[0], (structs[s][i:i + 1] or ["nothing"])[0])
        rep.ob(ORDER, sub, ok, msg)
    have = {norm(w.short(q)) for q in done}
    for s in structs:
        if s not in have: rep.unknown(ORDER, s, "no reflected structure of this name")
    for k, v in enumerate(names):
        a = r.alternatives(k)
        if a is None: rep.unknown(ALTS, v, "not a variant"); continue
        got = [norm(w.canon(x)) for x in a]; ok = got == variants[v]
        if not ok:
            ok = [norm(w.canon(x, frozenset())) for x in a] == [deep_table(structs, x) for x in variants[v]]
        rep.ob(ALTS, v, ok, "the alternatives are %s, the published order is %s" % (", ".join(got), ", ".join(variants[v])))
    es = {norm(w.short(q)): t for q, t in r.types.items() if t["kind"].endswith("enumeration_type")}
    for e, vals in enums.items():
        if e not in es: rep.unknown(ENUM, e, "no such enumeration"); continue
        base = INTS.get(plain(es[e].get("base") or ""), "?")
        got = {n: v for n, v in es[e]["enum"]}; pub = {x.split("=")[0]: int(x.split("=")[1]) for x in vals[1:]}
        bad = "it is encoded as %s, published as %s" % (base, vals[0]) if base != vals[0] else next(("'%s' is %d, published as %d" % (n, got[n], v) for n, v in pub.items() if n in got and got[n] != v), None)
        if not bad and set(got) != set(pub): rep.unknown(ENUM, e, "the enumerators are named differently"); continue
        rep.ob(ENUM, e, not bad, bad)
    rep.need(ONCE, 80); rep.need(ORDER, 60); rep.need(ALTS, 30); rep.need(ENUM, 1)
