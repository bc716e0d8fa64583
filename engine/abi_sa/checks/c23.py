"""The loading of an ABI definition (eosio::convert and everything it reaches: the type lookup, the resolvers, the visitor) is interpreted
abstractly from the IR of the current tree with containers and texts modelled, for every definition of a bounded family: every kind of
reference (names, suffixes, nestings) in every position, names that sort early and late, duplicates, empty names, alias and base chains
and cycles.  The outcome is compared with the rules for legal definitions: a legal one loads and every entry of the table designates
exactly what its text names; an illegal one is refused with the matching error.  Later requests for types are compared the same way."""
import itertools
from ..abires import *
from ..texts import pool
from .. import build

TECHNIQUE = "abstract interpretation of the ABI loader with modelled containers over a bounded family of definitions, against a reference resolver"
LEVEL = "other"
NOTE = "Definitions are enumerated from a bounded family (chains up to eight, two or three definitions interacting); action and table types are not checked at load by design. Which of several errors a definition with several is refused with is not judged."

BUILTIN = ("bool int8 uint8 int16 uint16 int32 uint32 int64 uint64 int128 uint128 varuint32 varint32 float32 float64 float128 time_point time_point_sec block_timestamp_type "
           "name bytes string checksum160 checksum256 checksum512 public_key private_key signature symbol symbol_code asset").split()
MSG = {"rec": "Recursion limit reached", "nest": "Invalid nesting", "unknown": "Unknown type", "noname": "Missing name", "redef": "Redefined type", "base": "Base not a struct", "ext": "Extension typedef"}


class Bad(Exception): pass


class Ref:
    """the reference reading of a definition: table of entries, or the set of errors it contains"""
    def __init__(self, defs):
        self.errs = set(); self.al, self.stru, self.var = {}, {}, {}; self.names = set(BUILTIN) | {"extended_asset"}; self.derived = {}
        for t, d in ((self.al, defs[0]), (self.stru, defs[1]), (self.var, defs[2])):
            for x in d:
                n = x[0]
                if not n: self.errs.add("noname"); continue
                if n in self.names: self.errs.add("redef"); continue
                self.names.add(n); t[n] = x[1] if t is not self.stru else (x[1], x[2])
        for n in self.al: self.tryit(lambda: self.find(n, ()))
        for n in self.stru:
            self.tryit(lambda: self.fields(n, ()))
            for f, t in self.stru[n][1]: self.tryit(lambda: self.find(t, ()))
        for n in self.var:
            for t in self.var[n]: self.tryit(lambda: self.find(t, ()))

    def tryit(self, f):
        try: f()
        except Bad as e: self.errs.add(e.args[0])

    def kind(self, n):
        """kind of a resolved name"""
        return self.derived[n][0] if n in self.derived else "struct" if n in self.stru or n == "extended_asset" else "variant" if n in self.var else "builtin"

    def find(self, n, seen):
        """the entry a text designates (never an alias)"""
        if n in self.al:
            if n in seen: raise Bad("rec")
            t = self.find(self.al[n], seen + (n,))
            if self.kind(t) == "extension": raise Bad("ext")
            return t
        if n in self.names or n in self.derived: return n
        for s, k, no in (("?", "optional", ("optional", "array", "extension")), ("[]", "array", ("optional", "array", "extension")), ("$", "extension", ("extension",))):
            if n.endswith(s):
                b = self.find(n[:-len(s)], seen)
                if self.kind(b) in no: raise Bad("nest")
                self.derived[n] = (k, b); return n
        raise Bad("unknown")

    def fields(self, n, seen):
        if n == "extended_asset": return [("quantity", "asset"), ("contract", "name")]
        if n in seen: raise Bad("rec")
        b, fs = self.stru[n]; out = []
        if b:
            t = self.find(b, ())
            if self.kind(t) != "struct": raise Bad("base")
            out = self.fields(t, seen + (n,))
        return out + [(f, self.find(t, ())) for f, t in fs]

    def table(self):
        out = {n: ("builtin", None) for n in BUILTIN}
        for n in self.al: out[n] = ("alias", self.find(n, ()))
        for n in list(self.stru) + ["extended_asset"]: out[n] = ("struct", self.fields(n, ()))
        for n in self.var: out[n] = ("variant", [(t, self.find(t, ())) for t in self.var[n]])
        for n, (k, b) in self.derived.items(): out[n] = (k, b)
        return out


SER = {"optional": "abieos15pseudo_optional", "array": "abieos12pseudo_array", "extension": "abieos16pseudo_extension", "struct": "abieos13pseudo_object", "variant": "abieos14pseudo_variant"}


def brief(d):
    o = ["%s = %s" % x for x in d[0]] + ["struct %s%s {%s}" % (n, " : " + b if b else "", ", ".join("%s %s" % (t, f) for f, t in fs)) for n, b, fs in d[1]] + ["variant %s <%s>" % (n, ", ".join(ts)) for n, ts in d[2]]
    return "; ".join(o) or "(empty)"


REFS = ["uint8", "string", "asset", "extended_asset", "a1", "z1", "m1", "b1", "y1", "k1", "nosuch", ""]
SUF = ["", "?", "[]", "$", "?$", "[]$", "??", "[]?", "?[]", "[][]", "$?", "$[]", "$$", "[", "]", "[]]"]


def family():
    base = ([("a1", "m1"), ("z1", "uint8")], [("m1", "", [("f", "uint8")]), ("b1", "m1", [("g", "string")]), ("y1", "", [("h", "b1"), ("i", "k1[]")])], [("k1", ["m1", "uint8"])])
    def plus(t=(), s=(), v=(), b=base): return (list(t) + b[0], list(s) + b[1], list(v) + b[2])
    yield "empty", ([], [], []), ()
    yield "base", base, tuple(r + s for r in REFS for s in SUF)
    for r, s in itertools.product(REFS, SUF):
        t = r + s
        for n in ("a0", "zz"):
            yield "alias", plus(t=[(n, t)]), ()
            yield "field", plus(s=[(n, "", [("p", t), ("q", "uint8")])]), ()
            if "$" not in s: yield "alternative", plus(v=[(n, ["uint8", t])]), ()
            yield "base of", plus(s=[(n, t, [("p", "name")])]), ()
        yield "field of a derived structure", plus(s=[("n1", "y1", [("p", t)]), ("n2", "n1", [("q", t)])]), ()
        # a reference through an alias: the suffixed type behind a name, used with another suffix
        for u in ("", "?", "[]", "$"):
            if s in ("", "?", "[]", "$", "?$"):
                yield "suffix on an alias", plus(t=[("al", t)], s=[("n1", "", [("p", "al" + u)])]), ()
                yield "suffix on an alias", plus(t=[("zl", t), ("al", "zl" + u)]), ()
    for n in ("new", "uint8", "asset", "extended_asset", "m1", "a1", "k1", ""):
        for a in range(3):
            yield "name", plus(*[[x] if k == a else [] for k, x in enumerate([(n, "uint8"), (n, "", [("p", "uint8")]), (n, ["uint8"])])]), ()
            for b in range(a, 3):
                d = ([], [], [])
                for c in (a, b): d[c].append([(n, "uint8"), (n, "", [("p", "uint8")]), (n, ["uint8"])][c])
                yield "name twice", d, ()
    for n in BUILTIN: yield "built-in redefined", ([(n, "bool")], [], []), ()
    for order in (1, -1):
        for k in range(1, 9):
            ns = ["n%d" % j for j in range(k)][::order]
            for end in ("uint8", "m1", "uint8[]", "m1?", "nosuch", "uint8$", ns[0]):
                yield "alias chain", plus(t=[(ns[j], ns[j + 1] if j + 1 < k else end) for j in range(k)]), tuple(ns) + tuple(n + s for n in ns[:2] for s in ("?", "[]", "$")) if k < 4 else ()
            for end in ("", "m1", "extended_asset", "k1", "uint8", "a1", ns[0]):
                yield "base chain", plus(s=[(ns[j], ns[j + 1] if j + 1 < k else end, [("p%d" % j, "uint8"), ("q%d" % j, "z1")]) for j in range(k)]), ()
    for k in range(1, 4):
        ns = ["n%d" % j for j in range(k)]; al = ["l%d" % j for j in range(k)]
        for a, b in ((ns, al), (al, ns)):
            for end in ("", a[0], b[0], "y1"):
                yield "bases through aliases", plus(t=[(b[j], a[j]) for j in range(k)], s=[(a[j], b[j + 1] if j + 1 < k else end, [("p%d" % j, "z1[]")]) for j in range(k)]), ()
    for u in ("?", "[]", "$", "[]$"):
        yield "recursive structure", plus(s=[("r1", "", [("p", "r1" + u)])]), ("r1" + u,)
        yield "recursive structure", plus(s=[("r1", "m1", [("p", "r2" + u)]), ("r2", "m1", [("p", "r1" + u)])]), ()
        if "$" not in u: yield "recursive variant", plus(s=[("r1", "", [("p", "r2" + u)])], v=[("r2", ["r1" + u, "r2" + u])]), ()
    for k in range(0, 5): yield "many fields", plus(s=[("n1", "b1", [("p%d" % j, REFS[j]) for j in range(k)]), ("n2", "n1", [("q%d" % j, REFS[j] + "[]") for j in range(k)])]), ()
    for k in range(0, 5): yield "many alternatives", plus(v=[("n1", [REFS[5 + j] for j in range(k)])]), ()


def message(T, info):
    return info[2] if info and len(info) > 2 else None


def compare(ip, st, T, want):
    """differences between the loaded table and the expected one"""
    got = T.table(st)
    for k in sorted(want):
        if k not in got: return "'%s' is not in the loaded ABI" % k
        kind, c, ser, nm = T.entry(ip, st, k); wk, wc = want[k]
        if kind != wk: return "'%s' is loaded as %s, not %s" % (k, {"alias_def": "an unresolved alias", "struct_def": "an unresolved structure", "variant_def": "an unresolved variant", None: "unknown"}.get(kind, kind), wk)
        if wc is not None and c != wc: return "'%s' designates %s, expected %s" % (k, c, wc)
        if nm != k: return "the entry '%s' is called '%s'" % (k, nm)
        if wk in SER and (ser is None or SER[wk] not in ser): return "the serializer of '%s' (%s) is %s" % (k, wk, ser)
    for k in got:
        if k not in want:
            kind, c, ser, nm = T.entry(ip, st, k)
            if kind in ("alias_def", "struct_def", "variant_def", None): return "'%s' is left unresolved" % k
            if kind not in ("optional", "array", "extension"): return "'%s' (%s) is not a type of the definition" % (k, kind)
    return None


def judge(T, job):
    """[(rule, subject, ok, message)]; ok None: undecided"""
    cat, d, asks = job; out = []; R = Ref(d); sub = "%s: %s" % (cat, brief(d))
    rule = "a legal definition loads and every type designates what it names" if not R.errs else "an illegal definition is refused with the matching error"
    try:
        ip, outs = T.load(d)
        if ip.unknown if hasattr(ip, "unknown") and isinstance(ip.unknown, list) else False: pass
        for o in outs:
            if o.kind == "ret":
                if R.errs: return [(rule, sub, False, "it is accepted; expected the error '%s'" % "' or '".join(MSG[e] for e in sorted(R.errs)))]
                bad = compare(ip, o.state, T, R.table())
                if bad: return [(rule, sub, False, bad)]
            elif o.kind == "throw":
                m = message(T, o.info)
                if not R.errs: return [(rule, sub, False, "it is refused with '%s'" % m)]
                if m is None: out.append((rule, sub, None, "the error's text is not known"))
                elif m not in [MSG[e] for e in R.errs]: return [(rule, sub, False, "it is refused with '%s'; expected '%s'" % (m, "' or '".join(MSG[e] for e in sorted(R.errs))))]
            elif o.kind != "unreachable": out.append((rule, sub, None, "it ends in %s" % o.kind))
        if not any(o.kind in ("ret", "throw") for o in outs): out.append((rule, sub, None, "no outcome"))
        if not out: out.append((rule, sub, True, None))
    except (Undecided, build.Broken) as e: return [(rule, sub, None, str(e)[:200])]
    except Exception as e: return [(rule, sub, None, "%s: %s" % (type(e).__name__, str(e)[:200]))]
    st = next((o.state for o in outs if o.kind == "ret"), None)
    if st is None: return out
    rule = "a later request gives the type the text designates, or the matching error"
    for a in asks:
        Q = Ref(d); err = None
        try: want = Q.find(a, ())
        except Bad as e: err = e.args[0]
        sub = "'%s' of %s" % (a, cat)
        try:
            ip2, outs2 = T.query(st, a); ok = True; msg = None
            for o in outs2:
                if o.kind == "ret":
                    w = T.who(o.value)
                    if err: ok, msg = False, "it is accepted; expected '%s'" % MSG[err]
                    elif w is None: ok, msg = None, "the result is not known"
                    elif w != want: ok, msg = False, "the result is '%s', expected '%s'" % (w, want)
                    else:
                        msg = compare(ip2, o.state, T, Q.table()); ok = msg is None
                elif o.kind == "throw":
                    m = message(T, o.info)
                    if not err: ok, msg = False, "it is refused with '%s'" % m
                    elif m is None: ok, msg = None, "the error's text is not known"
                    elif m != MSG[err]: ok, msg = False, "it is refused with '%s', expected '%s'" % (m, MSG[err])
                elif o.kind != "unreachable": ok, msg = None, "it ends in %s" % o.kind
                if ok is not True: break
            out.append((rule, sub, ok, msg))
        except (Undecided, build.Broken) as e: out.append((rule, sub, None, str(e)[:200]))
        except Exception as e: out.append((rule, sub, None, "%s: %s" % (type(e).__name__, str(e)[:200])))
    return out


def run(rep, tier):
    T = Loader(); jobs = list(family())
    n = {}
    for c, d, a in jobs: n[c] = n.get(c, 0) + 1
    for res in pool(jobs, lambda j: judge(T, j)):
        for rule, sub, ok, msg in res:
            if ok is None: rep.unknown(rule, sub, msg)
            else: rep.ob(rule, sub, ok, msg, key="%s:%s" % (rule[:24], sub))
    rep.note("definitions", n)
    rep.need("a legal definition loads and every type designates what it names", 300)
    rep.need("an illegal definition is refused with the matching error", 800)
    rep.need("a later request gives the type the text designates, or the matching error", 100)
