"""Readers of variants and fixed-size arrays are interpreted abstractly over unknown alternatives and elements, for every discriminant
or count a varuint32 can hold (each small one, and every larger magnitude symbolically): a legal one must select its own alternative
or read exactly the elements, any other must be refused.  Variable-length integers are refused beyond the groups their width holds and
are otherwise the sum of their groups, bit for bit; booleans hold only 0 or 1.  Variant names in JSON are interpreted as symbolic
texts.  The ABI-driven machines are interpreted over every small structure: every element access must be inside its container, and
discriminants and names outside the variant are refused."""
import re
from ..varu import *
from ..varu import _I
from ..steps import survey, structures, others, V_, S, A, B, C, text_of
from ..texts import feas_setup, byte_at

TECHNIQUE = "abstract interpretation of readers over every discriminant, count and group number; bit-exact values of variable-length integers"
LEVEL = "proof"
NOTE = "Discriminants are given in their shortest encoding. Structures of the ABI-driven machines are bounded as in C16."
DISC = "a variant discriminant selects its own alternative or is refused"
COUNT = "a fixed-size array takes exactly its own count"
VALUE = "a variable-length integer is the sum of its groups"
LIMIT = "a variable-length integer of too many groups is refused"
BOOL = "a bool holds 0 or 1"
NAME = "a variant name selects its own alternative or is refused"
RANGE = "no element is accessed outside its container"
ABI = "ABI-driven conversions refuse discriminants and names outside the variant"


def values():
    """every 32-bit value: (description, low, bits)"""
    for d in range(64): yield str(d), d, [d >> j & 1 for j in range(32)]
    for p in range(6, 32): yield "2^%d or more" % p, None, [bit(j) for j in range(p)] + [1] + [0] * (31 - p)


def discriminants(rep):
    m = module(["drv:ranges"], "ranges")
    for name in sorted(m.fns):
        mm = re.match(r"sa_r([vab])(\d)$", name)
        if not mm: continue
        kind, N = mm.group(1), int(mm.group(2))
        rule = DISC if kind == "v" else COUNT
        what = "from_bin of a variant of %d alternative%s" % (N, "s" * (N > 1)) if kind == "v" else "from_bin of T[%d]" % N + (" (plain elements)" if kind == "b" else "")
        for d, lo, bits in values():
            sub = "%s, %s %s" % (what, "discriminant" if kind == "v" else "count", d)
            bs = [mkbits(g) for g in groups(bits)]
            M = read_models(bs)
            rd = M["eosio::probe_in::read"]
            def read(ip, n, st, ev, i, a):
                if st.aux.get(("k",), 0) < len(bs): return rd(ip, n, st, ev, i, a)
                ln = ip.norm(st, a[2])
                st.aux[("items",)] = st.aux.get(("items",), ()) + (("raw", ln.c if ln.is_const() else None),); return None
            def item(ip, n, st, ev, i, a):
                t = re.search(r"item<(\d+)>", m.dem(i.callee))
                off = a[0].off.c if isinstance(a[0], P) and a[0].off.is_const() and a[0].base is ip.argregs["v"] else None
                x = st.aux.get(("items",), ())
                if len(x) > 16: raise build.Broken("too many items")
                st.aux[("items",)] = x + ((int(t.group(1)), off),); return None
            M["eosio::probe_in::read"] = read; M["eosio::from_bin"] = item
            M["eosio::probe_in::check_available"] = lambda *a: None
            M["eosio::probe_in::remaining"] = lambda *a: mkterm(term(64, 1 << 50, 1 << 51, "sym", ("remaining",)))
            acc = []
            def access(k, st, p, size, inst):
                if isinstance(p, P) and p.base.op == "region" and p.base.args[0] == "v" and k == "store":
                    if not p.off.is_const() or p.off.c >= 4096: acc.append(inst.where())
            try: ip, outs = analyse(m, name, ["v", ("s", "obj")], None, unroll=24, models=M, limit=400, access=[access])
            except (build.Broken, TooBig) as e: rep.unknown(rule, sub, str(e)); continue
            if not outs: rep.unknown(rule, sub, "no outcome"); continue
            legal = lo is not None and (lo < N if kind == "v" else lo == N)
            bad = "the object is written at an unknown place (%s)" % acc[0] if acc else None
            for o in outs:
                it = o.state.aux.get(("items",), ())
                if o.kind == "throw":
                    if legal: bad = "it is refused"
                    elif it: bad = "items are read before it is refused" if kind == "v" else bad
                elif o.kind != "ret": bad = o.kind
                elif not legal: bad = "it is accepted, and %d item%s read" % (len(it), "s are" if len(it) != 1 else " is")
                elif kind == "v":
                    if len(it) != 1 or it[0][0] != lo: bad = "alternative %s is read" % ", ".join(str(x[0]) for x in it)
                    ix = ip.norm(o.state, ip.load(o.state, P(ip.argregs["v"], const(64, 4)), 1, "i8", _I))
                    if ix.is_const() and ix.c != lo: bad = "the object holds alternative %d" % ix.c
                elif kind == "a":
                    if [x[1] for x in it] != [4 * k for k in range(N)]: bad = "%d elements are read" % len(it) if len(it) != N else "elements are read into other places"
                elif sum(x[1] or 0 for x in it if x[0] == "raw") != 2 * N: bad = "%s bytes are read" % sum(x[1] or 0 for x in it)
            rep.ob(rule, sub, bad is None, "%s: %s" % (sub, bad), key="%s:%s" % (rule, name))


NAMES = ("a", "ab", "b", "abc")


def names(rep):
    m = module(["drv:ranges"], "ranges")
    for N in range(1, 5):
        name = "sa_jv%d" % N
        tests = [(t, None) for t in NAMES + ("", "A", "abcd", "ba", "a\0", "c", "b ")] + [(None, n) for n in range(0, 6)]
        for t, n in tests:
            sub = "from_json of a variant of %d alternative%s, type name %s" % (N, "s" * (N > 1), repr(t) if t is not None else "of %d characters" % n)
            M = dict(MODELS)
            def get(ip, nn, st, ev, i, a):
                b = P(ip.region("text", kind="bytes"), const(64, 0)); ln = const(64, len(t) if t is not None else n)
                if i.get("sret"): ip.store(st, a[0], ln, 8, _I); ip.store(st, ip.padd(a[0], const(64, 8)), b, 8, _I); return None
                return Agg([ln, b])
            def item(ip, nn, st, ev, i, a):
                w = re.search(r"item<(\d+)>", m.dem(i.callee))
                st.aux[("items",)] = st.aux.get(("items",), ()) + (int(w.group(1)),); return None
            def cmp(ip, nn, st, ev, i, a):
                """characters one by one: equal so far, or different here"""
                if not a[2].is_const(): return MODELS["memcmp"](ip, nn, st, ev, i, a)
                out = []; live = [st]
                for q in range(a[2].c):
                    nxt = []
                    for s in live:
                        c = ip.icmp(s, "eq", *[ip.load(s, ip.padd(a[z], const(64, q)), 1, "i8", i) for z in (0, 1)])
                        out += [(x, const(32, 1), list(ev)) for x in ip.assume(s.copy(), c, False)]
                        nxt += ip.assume(s.copy(), c, True)
                    live = nxt
                return out + [(s, const(32, 0), list(ev)) for s in live]
            M["memcmp"] = M["bcmp"] = cmp
            M["eosio::probe_text::get_string"] = get; M["eosio::from_json"] = item
            M["eosio::probe_text::get_start_array"] = M["eosio::probe_text::get_end_array"] = lambda *a: None
            def setup(ip, st):
                for k, c in enumerate(t or ""): st.feas[byte_at(ip.region("text", kind="bytes"), k)] = 1 << ord(c)
            try: ip, outs = analyse(m, name, ["v", ("s", "obj")], setup, unroll=24, models=M, limit=2000)
            except (build.Broken, TooBig) as e: rep.unknown(NAME, sub, str(e)); continue
            bad = None; und = None
            txt = ip.region("text", kind="bytes")
            for o in outs:
                it = o.state.aux.get(("items",), ())
                if o.kind == "throw":
                    if t is not None and t in NAMES[:N]: bad = "it is refused"
                elif o.kind != "ret": und = o.kind
                elif len(it) != 1: bad = "%d values are read" % len(it)
                elif t is not None:
                    if t not in NAMES[:N]: bad = "it is accepted as %r" % NAMES[it[0]]
                    elif NAMES[it[0]] != t: bad = "it selects %r" % NAMES[it[0]]
                else:
                    w = NAMES[it[0]]
                    if len(w) != n: bad = "a name of another length is accepted as %r" % w
                    elif any(o.state.feas.get(byte_at(txt, k), FULL) != 1 << ord(c) for k, c in enumerate(w)): und = "the characters of an accepted name are not known"
            if bad is None and und: rep.unknown(NAME, sub, und)
            else: rep.ob(NAME, sub, bad is None and bool(outs), "%s: %s" % (sub, bad), key="%s:%s" % (NAME, name))


def run(rep, tier):
    discriminants(rep); names(rep)
    readers(rep, VALUE, LIMIT); bools(rep, BOOL)
    survey(rep, structures() + others(), ("bj", "js", "jv"), {"range": RANGE})
    vs = [t for t in structures() + others() if "variant" in repr(t)]
    survey(rep, vs, ("bj", "js", "jv"), {"accepts": ABI})
    rep.need(DISC, 300); rep.need(COUNT, 200); rep.need(VALUE, 25); rep.need(LIMIT, 5); rep.need(BOOL, 250); rep.need(NAME, 30)
