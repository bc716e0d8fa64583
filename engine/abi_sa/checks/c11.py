"""Loading an empty ABI definition is interpreted abstractly; each built-in name must be in the table as a built-in type whose serializer
is the one of the C++ type of that name.  Each of the three conversions of each serializer is interpreted: it must read and write that
very type, passing on the object it read.  The binary reader of the type is interpreted and its items expanded down to bytes: they must
be the published encoding of the name (fixed widths, variable-length integers, length-prefixed data, discriminated alternatives)."""
from ..abires import Loader, kind_of, split, params, match
from ..reflect import args_of, plain
from .. import codec, build
from ..codec import P, const, mkterm, term, analyse, module, Undecided, short, INTS
from ..eng import KEEP
from ..models import MODELS
from ..texts import pool
import re

TECHNIQUE = "abstract interpretation of the loader on the empty definition, of each built-in serializer, and of each binary reader down to bytes"
LEVEL = "other"
NOTE = "The published encodings are a table in the check. The text forms of the types belong to C12, C13, C18 and C19; agreement of writers with readers to C09."
NAMES = "the built-in name designates the codec of its type"
SLOT = "the conversion reads and writes the type of the serializer"
WIRE = "the type has the published binary form"

FB = lambda n: "eosio::fixed_bytes<%d" % n
TYPES = {"bool": "bool", "int8": "signed char", "uint8": "unsigned char", "int16": "short", "uint16": "unsigned short", "int32": "int", "uint32": "unsigned int", "int64": "long", "uint64": "unsigned long",
         "int128": "__int128", "uint128": "unsigned __int128", "varuint32": "eosio::unsigned_int", "varint32": "eosio::signed_int", "float32": "float", "float64": "double", "float128": FB(16),
         "time_point": "eosio::time_point", "time_point_sec": "eosio::time_point_sec", "block_timestamp_type": "eosio::block_timestamp", "name": "eosio::name", "bytes": "eosio::bytes", "string": "std::string",
         "checksum160": FB(20), "checksum256": FB(32), "checksum512": FB(64), "public_key": "std::variant<std::array<char, 33>,std::array<char, 33>,eosio::webauthn_public_key>",
         "private_key": "std::variant<std::array<char, 32>,std::array<char, 32>>", "signature": "std::variant<std::array<char, 65>,std::array<char, 65>,eosio::webauthn_signature>",
         "symbol": "eosio::symbol", "symbol_code": "eosio::symbol_code", "asset": "eosio::asset"}
V = "varuint"
D = (0, 1, 3)


def data(*pre): return [tuple(pre) + ((V, n), n) for n in D]


PUB = {n: [(w,)] for n, w in {"bool": 1, "int8": 1, "uint8": 1, "int16": 2, "uint16": 2, "int32": 4, "uint32": 4, "int64": 8, "uint64": 8, "int128": 16, "uint128": 16, "float32": 4, "float64": 8, "float128": 16, "time_point": 8,
                             "time_point_sec": 4, "block_timestamp_type": 4, "name": 8, "checksum160": 20, "checksum256": 32, "checksum512": 64, "symbol": 8, "symbol_code": 8, "asset": 16}.items()}
for x in ("varuint32", "varint32"): PUB[x] = [((V, n),) for n in D]
for x in ("bytes", "string"): PUB[x] = data()
PUB["public_key"] = [((V, 0), 33), ((V, 1), 33)] + data((V, 2), 34)
PUB["private_key"] = [((V, 0), 32), ((V, 1), 32)]
PUB["signature"] = [((V, 0), 65), ((V, 1), 65)] + [a + b[:] for a in data((V, 2), 65) for b in data()]


def tidy(t):
    """short canonical name of a C++ type"""
    t = plain(t.strip()).strip()
    t = re.sub(r"\bconst\b|&", "", t).strip()
    t = re.sub(r"(\d+)ul\b", r"\1", t)
    if t.startswith(("std::basic_string<char", "std::basic_string_view<char", "std::__cxx11::basic_string<char")) or t in ("std::string", "std::string_view"): return "std::string"
    if t.startswith("eosio::fixed_bytes<"): return "eosio::fixed_bytes<%s" % args_of(t)[0]
    if t.startswith("std::variant<"): return "std::variant<%s>" % ",".join(tidy(a) for a in args_of(t))
    if t.startswith("std::array<"): a = args_of(t); return "std::array<%s, %s>" % (a[0].replace("unsigned ", ""), a[1])
    return t


BACK = {v: k for k, v in TYPES.items()}


def slotmod():
    return module(["src:abi.cpp"], "builtins", roots=r"abi_serializer_impl::", keep=KEEP + r"|^eosio::(from_bin|to_bin|from_json|to_json|check)$|^abieos::\w+_state::get_\w+$")


class _I: id = -1; ty = None; fn = None


def slot(job):
    """(ok, message) of one conversion of one serializer"""
    name, T = job; m = slotmod(); f = m.fns[name]
    M = dict(MODELS); wrong = []
    def note(st, e): st.aux[("seq",)] = st.aux.get(("seq",), ()) + (e,)
    def typ(i): ps = split(params(m.dem(i.callee))); return tidy(ps[0]) if ps else "?"
    def use(what, gives):
        def g(ip, n, st, ev, i, a):
            t = typ(i)
            if t != T: wrong.append("%s of %s at %s" % (what, t, i.where()))
            if gives:
                if not isinstance(a[0], P): raise Undecided("a value read to an unknown place at %s" % i.where())
                w = min(size(T), 8)
                for q in range(0, size(T), w): ip.store(st, ip.padd(a[0], const(64, q)), mkterm(term(8 * w, 0, (1 << 8 * w) - 1, "sym", ("valread", q))), w, _I)
                st.aux[("obj",)] = a[0].base; note(st, (what,))
            else:
                o = a[0]; ok = None
                if isinstance(o, P) and o.base is st.aux.get(("obj",)): ok = True
                elif isinstance(o, P) and size(T) <= 16 and T != "bool":
                    w = min(size(T), 8); v = ip.norm(st, ip.load(st, o, w, "i%d" % (8 * w), _I))
                    ok = True if "valread" in repr(v) else False if v.is_const() else None
                elif not isinstance(o, P):
                    v = ip.norm(st, o) if hasattr(o, "w") else None
                    if v is not None and v.is_const() and T != "bool": ok = False
                    elif v is not None and "valread" in repr(v): ok = True
                note(st, (what, ok))
            return [(st, None, list(ev))]
        return g
    for q, w in (("from_bin", "reading"), ("from_json", "JSON reading")): M["eosio::" + q] = use(w, True)
    for q, w in (("to_bin", "writing"), ("to_json", "JSON writing")): M["eosio::" + q] = use(w, False)
    want = ("reading", "JSON writing") if "bin_to_json" in f.q else ("JSON reading", "writing")
    try: ip, outs = analyse(m, name, [("this", "obj"), ("state", "obj"), const(1, 0), ("type", "obj"), const(1, 1)], None, unroll=8, models=M, limit=200)
    except Undecided as e: return None, str(e)
    except Exception as e: return None, "%s: %s" % (type(e).__name__, str(e)[:120])
    if wrong: return False, "the conversion of %s does the %s" % (T, wrong[0])
    rets = [o for o in outs if o.kind == "ret"]
    if not rets: return None, "no outcome"
    for o in rets:
        s = o.state.aux.get(("seq",), ())
        if tuple(e[0] for e in s) != want: return None, "the conversion is not a reading and a writing (%s)" % ", ".join(e[0] for e in s)
        if s[1][1] is None and BACK.get(T) not in ("bool", "string", "public_key", "signature"): return None, "what is written could not be related to what was read"
        if s[1][1] is False: return False, "what is written is not what was read"
    return True, None


def size(T):
    if T in ("eosio::unsigned_int", "eosio::signed_int"): return 4
    for k, v in TYPES.items():
        if v == T and len(PUB[k]) == 1 and not isinstance(PUB[k][0][0], tuple): return PUB[k][0][0]
    return 64


def expand(P_, t, depth=0):
    """the byte-level forms a reader takes: sets of tuples of widths and (varuint, n)"""
    k = t if t in P_ else next((x for x in P_ if tidy(x) == tidy(t)), None)
    if k is None:
        if t in INTS: return {(INTS[t],)}
        mm = re.match(r"std::array<(?:unsigned |signed )?char, (\d+)", t)
        if mm: return {(int(mm.group(1)),)}
        raise Undecided("no reader of %s" % t)
    if depth > 8: raise Undecided("a recursive type")
    out = set()
    for evs in codec.shapes(k, P_[k][0], (0, 1, 2, 3)):
        forms = {()}
        for e in evs:
            if e[0] == "raw": xs = {(e[1],)}
            elif e[0] == "varuint": xs = {((V, e[1]),)}
            elif e[1] == k: raise Undecided("a recursive type")
            else: xs = expand(P_, e[1], depth + 1)
            forms = {a + b for a in forms for b in xs}
        out |= forms
    return out


def squash(f):
    out = []
    for x in f:
        if isinstance(x, int) and out and isinstance(out[-1], int): out[-1] += x
        elif x != 0: out.append(x)
    return tuple(x for x in out if x != 0)


def wire(job):
    name, T = job
    try:
        P_, _, _ = codec.pairs(); t = next((k for k in P_ if tidy(k) == T), None)
        if t is None: return None, "no reader of %s" % T
        got = {squash(f) for f in expand(P_, t)}
        keep = lambda f: not any(isinstance(x, tuple) and x[1] == 2 for x in f[1 if len(PUB[name]) > 1 and name.endswith(("key", "signature")) else 0:])
        got = {f for f in got if keep(f)}; want = {squash(f) for f in PUB[name]}
        if got == want: return True, None
        x = sorted(got - want, key=str)[:1] or sorted(want - got, key=str)[:1]
        return False, "the reader takes %s" % say(x[0]) if got - want else "the reader does not take %s" % say(x[0])
    except Undecided as e: return None, str(e)
    except Exception as e: return None, "%s: %s" % (type(e).__name__, str(e)[:150])


def say(f): return ", ".join("%d bytes" % x if isinstance(x, int) else "a variable-length %d" % x[1] for x in f) or "nothing"


def run(rep, tier):
    L = Loader(); m = L.m
    try:
        ip, outs = L.load(([], [], []))
        o = next((o for o in outs if o.kind == "ret"), None)
        bound = {}
        if o is None: rep.unknown(NAMES, "the table", "the load of an empty definition has no outcome")
        else:
            for n in list(TYPES) + ["extended_asset"]:
                if n not in L.table(o.state): rep.ob(NAMES, n, False, "the name is not known to a loaded ABI"); continue
                kind, c, ser, nm = L.entry(ip, o.state, n)
                if n == "extended_asset":
                    rep.ob(NAMES, n, kind == "struct" and c == [("quantity", "asset"), ("contract", "name")], "it is %s %s" % (kind, c)); continue
                if ser in (None, "?"): rep.unknown(NAMES, n, "the serializer is not known") if ser else rep.ob(NAMES, n, False, "it has no serializer"); continue
                t = serializer_type(m, ser)
                if t is None: rep.unknown(NAMES, n, "the serializer is %s" % ser[:80]); continue
                if nm != n: rep.ob(NAMES, n, False, "the entry is called '%s'" % nm); continue
                if kind != "builtin": rep.ob(NAMES, n, False, "it is loaded as %s" % kind); continue
                if t == TYPES[n]: bound[n] = t; rep.ob(NAMES, n, True)
                elif t in BACK: rep.ob(NAMES, n, False, "it converts as %s" % BACK[t])
                elif t.startswith("eosio::fixed_bytes<") or t in INTS: rep.ob(NAMES, n, False, "it converts as %s" % t)
                else: rep.unknown(NAMES, n, "it converts as %s" % t)
    except (Undecided, build.Broken) as e: rep.unknown(NAMES, "the table", str(e)[:200])
    except Exception as e: rep.unknown(NAMES, "the table", "%s: %s" % (type(e).__name__, str(e)[:200]))
    sm = slotmod(); codec.codecmod(); jobs = []
    for n in sorted(sm.fns):
        f = sm.fns[n]
        if not f.q.split("::")[-1] in ("json_to_bin", "bin_to_json") or "abi_serializer_impl<" not in f.dem: continue
        d = f.dem; k = d.index("abi_serializer_impl<") + len("abi_serializer_impl"); T = tidy(args_of(plain("x" + d[k:match(d, k)]))[0])
        if T not in BACK: continue
        conv = "bin_to_json" if f.q.endswith("bin_to_json") else "jvalue_to_bin" if "jvalue_to_bin_state" in d else "json_to_bin"
        if T == "eosio::bytes" or T == "std::string" and conv != "bin_to_json": continue        # texts converted without a reader of their own: C05, C12
        jobs.append((n, T, conv))
    for (n, T, conv), (ok, msg) in zip(jobs, pool([(n, T) for n, T, c in jobs], slot)):
        sub = "%s of %s" % (conv, BACK[T])
        if ok is None: rep.unknown(SLOT, sub, msg)
        else: rep.ob(SLOT, sub, ok, msg)
    for n, (ok, msg) in zip(TYPES, pool(list(TYPES.items()), wire)):
        if ok is None: rep.unknown(WIRE, n, msg)
        else: rep.ob(WIRE, n, ok, msg)
    rep.need(NAMES, 32); rep.need(SLOT, 80); rep.need(WIRE, 31)


def serializer_type(m, g):
    d = m.dem(g) if not g.startswith("(") else g
    if "abi_serializer_for<" not in d: d = demangle(g)
    k = d.find("abi_serializer_for<")
    if k < 0: return None
    k += len("abi_serializer_for")
    return tidy(args_of(plain("x" + d[k:match(d, k)]))[0])


def demangle(g):
    import subprocess
    try: return subprocess.run(["c++filt", g], capture_output=True, text=True).stdout.strip()
    except OSError: return g
