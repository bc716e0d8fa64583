"""Every name reader (lenient, strict, JSON, compile-time) and the name printer are inlined into a driver and analysed by
abstract interpretation over input bytes (for the printer: over the 13 digit groups of the value) with exact 256-entry value
tables per byte, so that the result is a function table for every text of length 0..15 and for every 64-bit value at once.
Compile-time rejection is decided by compile-fail witnesses."""
from ..eng import *

TECHNIQUE = "abstract interpretation with exact per-byte value tables; compile-fail witnesses"
LEVEL = "proof"
ALPHA = ".12345abcdefghijklmnopqrstuvwxyz"
DIG = {ord(c): k for k, c in enumerate(ALPHA)}
LEGAL = mask(ALPHA)
LEGAL13 = mask(ALPHA[:16])


def legal(n):
    return [LEGAL if k < 12 else LEGAL13 for k in range(n)]


def expect_bits(text, n):
    """bit position -> (byte term, set of characters for which it is 1) of the value of a legal text"""
    exp = {}
    for k in range(min(n, 13)):
        b = byte_at(text, k)
        if k < 12:
            for j in range(5): exp[64 - 5 * (k + 1) + j] = (b, mask([c for c in DIG if DIG[c] >> j & 1]))
        else:
            for j in range(4): exp[j] = (b, mask([c for c in ALPHA[:16] if DIG[ord(c)] >> j & 1]))
    return exp


def value_ok(v, text, n, feas):
    """does the value agree with the name encoding for every legal text in the box feas?  (ok, detail) ; None = not determined"""
    if v.bits is None or None in v.bits: return None, "the value is not a bit-exact function of the text"
    exp = expect_bits(text, n)
    lg = legal(n)
    for k, b in enumerate(v.bits):
        if k in exp:
            t, T = exp[k]
            m = feas.get(t, FULL) & lg[t.args[0][2]]
            if b == 0: got = 0
            elif b == 1: got = FULL
            elif b[0] == "f" and b[1] is t: got = b[2]
            else: return False, "bit %d depends on another character" % k
            d = (got ^ T) & m
            if d: return False, "bit %d is wrong for character '%s' at position %d" % (k, chr(bits_of(d)[0]), t.args[0][2])
        else:
            if b == 0: continue
            if b == 1: return False, "bit %d is set" % k
            if b[0] != "f" or b[2] & feas.get(b[1], FULL) & LEGAL: return False, "bit %d is set for some text" % k
    return True, None


def box(st, text, n):
    return [st.feas.get(byte_at(text, k), FULL) for k in range(n)]


def setfeas(n):
    def f(ip, st):
        t = ip.argregs["text"]
        for k, m in enumerate(legal(n)): st.feas[byte_at(t, k)] = m
    return f


def strict_reader(rep, mod, name, n, result, rule, reject_kind):
    """result(ip, outcome) -> [(outcome, state, value when the outcome accepts, None when it rejects)]"""
    def each(setup):
        ip, outs = analyse(mod, name, [("text", "bytes"), "r"], setup)
        return ip, [r for o in outs for r in result(ip, o)]
    ip, outs = each(None)
    text = ip.argregs["text"]
    lg = legal(min(n, 13))
    for o, st, v in outs:
        if v is None:
            if reject_kind and o.kind != reject_kind: rep.violation("%s:%s:%s" % (rule, name, o.kind), "%s: %s ends by %s" % (rule, name, o.kind))
            continue
        b = box(st, text, min(n, 13))
        bad = next((k for k, m in enumerate(b) if m & ~lg[k]), None)
        rep.ob(rule, "%s accepts only legal texts of %d characters" % (name, n), n <= 13 and bad is None,
               "accepts a text longer than 13 characters" if n > 13 else "accepts character code %s at position %s" % (bits_of(b[bad] & ~lg[bad])[:4] if bad is not None else "", bad))
        ok, why = value_ok(v, text, n, st.feas)
        if ok is None: raise build.Broken("%s: %s" % (name, why))
        rep.ob("value", "%s, %d characters" % (name, n), ok, why)
    if n <= 13:
        ip, outs = each(setfeas(n))
        for o, st, v in outs:
            rep.ob(rule, "%s accepts every legal text of %d characters" % (name, n), v is not None,
                   "a legal text is rejected (%s)" % (o.info,))


def printed(rep, ip, name, st, out, ln, dg):
    d = ip.load_const(st, out, 0, 8, "ptr")
    if not ln.is_const() or not isinstance(d, P) or not d.off.is_const(): raise build.Broken("%s: the text is not determined" % name)
    L_ = ln.c
    f = [st.feas[x] for x in dg]
    size = 1
    for m in f: size *= bin(m).count("1")
    if not rep.ob("printer inverse", "%s text of %d characters" % (name, L_), L_ <= 13, "longer than 13 characters"): return size
    for k in range(13):
        if k >= L_:
            rep.ob("printer inverse", "%s, %d characters, digit %d dropped" % (name, L_, k), f[k] == 1, "digit value %s is not printed" % bits_of(f[k] & ~1)[:3])
            continue
        c = ip.norm(st, ip.load_const(st, d.base, sgn(d.off.c, 64) + k, 1, "i8"))
        if c.dep is None or (c.dep and c.dep is not dg[k]):
            if c.dep is None and depends(c) is None: raise build.Broken("%s: character %d is not a function of one digit" % (name, k))
            rep.ob("printer inverse", "%s, %d characters, character %d" % (name, L_, k), False, "printed from the wrong digit"); continue
        vs = vals(c)
        bad = [x for x in bits_of(f[k]) if DIG.get(vs[x]) != x]
        rep.ob("printer inverse", "%s, %d characters, character %d" % (name, L_, k), not bad, "digit %s is printed as character code %s, which reads back differently" % (bad[:3], [vs[x] for x in bad[:3]]))
        if k == L_ - 1:
            rep.ob("one text per value", "%s, %d characters" % (name, L_), not f[k] & 1, "a trailing '.' is printed")
    return size


def run(rep, tier):
    mod = module(["drv:names", "src:crypto.cpp"], "names")
    for n in range(16):
        for name in ("sa_lenient_%d" % n, "sa_lenient_sv_%d" % n, "sa_lenient_str_%d" % n, "sa_hash_name_%d" % n):
            ip, outs = analyse(mod, name, [("text", "bytes")], setfeas(min(n, 13)))
            text = ip.argregs["text"]
            for o in outs:
                if n > 13 and "hash" in name: continue
                if not rep.ob("returns", name, o.kind == "ret", "a legal name text makes it end by %s %s" % (o.kind, o.info)): continue
                ok, why = value_ok(o.value, text, n, o.state.feas)
                if ok is None: raise build.Broken("%s: %s" % (name, why))
                rep.ob("value", "%s, %d characters" % (name, n), ok, why)

        def r_try(ip, o):
            if o.kind != "ret": return [(o, o.state, None)]
            r = []
            for st, t in truth(ip, o.state, o.value):
                if t is None: raise build.Broken("acceptance of %s is not determined" % ip.fn.name)
                r.append((o, st, ip.load_const(st, ip.argregs["r"], 0, 8, "i64") if t else None))
            return r
        strict_reader(rep, mod, "sa_try_strict_%d" % n, n, r_try, "acceptance", "ret")
        r_val = lambda ip, o: [(o, o.state, o.value if o.kind == "ret" else None)]
        strict_reader(rep, mod, "sa_strict_%d" % n, n, r_val, "acceptance", "throw")
        strict_reader(rep, mod, "sa_name_ctor_%d" % n, n, r_val, "acceptance", "throw")
    # one character
    b = term(8, 0, 255, "byte", ("c",))
    for feas, want in ((LEGAL, True), (FULL & ~LEGAL, False)):
        ip, outs = analyse(mod, "sa_char_to_value", [mkterm(b)], lambda ip, st: st.feas.__setitem__(b, feas))
        for o in outs:
            if rep.ob("acceptance", "name::char_to_value on %s characters" % ("legal" if want else "illegal"), (o.kind == "ret") == want, "ends by %s for %r" % (o.kind, [chr(x) for x in bits_of(o.state.feas.get(b, FULL))[:4]])) and want:
                vs = vals(o.value) if o.value.dep is not None else None
                if vs is None: raise build.Broken("name::char_to_value is not a table")
                bad = [c for c in DIG if feas & o.state.feas.get(b, FULL) >> c & 1 and vs[c] != DIG[c]]
                rep.ob("value", "name::char_to_value", not bad, "wrong digit for %r" % [chr(c) for c in bad][:4])
    # compile-time reader: constants computed by the compiler
    for g, sh, k in (("sa_ct0", 59, 32), ("sa_ct5", 34, 32), ("sa_ct11", 4, 32), ("sa_ct12", 0, 16)):
        img = mod.gbytes(g)
        if img is None: raise build.Broken("the compile-time names are not constants")
        for j in range(k):
            got = int.from_bytes(img[8 * j:8 * j + 8], "little")
            rep.ob("compile-time value", "%s '%s'" % (g, ALPHA[j]), got == j << sh, "is 0x%x, not 0x%x" % (got, j << sh))
    pre = '#include <eosio/name.hpp>\n#include <eosio/chain_conversions.hpp>\nusing namespace eosio;\nconstexpr uint64_t x = string_to_name_strict<%s>();\n'
    lit = lambda s: ",".join("'%s'" % c for c in s)
    for s, want in [("a" * 12 + "j", True), ("abcde", True), ("a" * 12 + "k", False), ("a" * 12 + "z", False), ("a" * 14, False), ("A", False), ("a6", False), ("a0", False), ("a-", False), ("." * 13, True), ("." * 14, False), ("a" * 11 + "Z", False)]:
        ok, err = syntax_ok(pre % lit(s))
        rep.ob("compile-time acceptance", "'%s'" % s, ok == want, "is %s" % ("accepted" if ok else "rejected: " + err[:200]))
    # the printer
    for name in ("sa_name_to_string", "sa_name_str"):
        dg = [term(8, 0, 31 if k < 12 else 15, "byte", ("d%d" % k,)) for k in range(13)]
        bits = list(mkterm(dg[12]).bits[:4])
        for k in range(11, -1, -1): bits += list(mkterm(dg[k]).bits[:5])

        def setup(ip, st):
            for k, d in enumerate(dg): st.feas[d] = (1 << (32 if k < 12 else 16)) - 1
        ip, outs = analyse(mod, name, [mkbits(bits), "out"], setup)
        out = ip.argregs["out"]
        rets = [o for o in outs if o.kind == "ret"]
        tot = 0
        for o in outs:
            if o.kind == "throw" and "length" in str(o.info): continue
            if not rep.ob("returns", name, o.kind == "ret", "printing a name ends by %s %s" % (o.kind, o.info)): continue
            ln0 = ip.load_const(o.state, out, 8, 8, "i64")
            for st, ln in cases(ip, o.state, ln0): tot += printed(rep, ip, name, st, out, ln, dg)
        rep.ob("printer total", name, tot >= 1 << 64, "only %d values produce a text" % tot)
    rep.need("value", 16 * 6); rep.need("printer inverse", 150)
