"""Every reader of textual values (hex strings of free and fixed length, base-58 digits, symbol codes, symbols, assets, the three time
types, decimal floating-point numbers, 128-bit decimals) is inlined into a driver and analysed by abstract interpretation over boxes of
texts: a reference automaton per grammar partitions the texts of each length into products of character sets that are entirely legal or
entirely illegal, and the analysis must derive the same verdict for the whole box and, for accepted texts, that the result is the
function of the characters which the text denotes.  A dataflow rule over the whole library demands that the verdict of every parsing or
validating step is examined by its caller."""
import re
from ..eng import *
from ..texts import *
from ..lib import lib

TECHNIQUE = "abstract interpretation over boxes of texts derived from reference grammars; def-use rule on parser verdicts"
LEVEL = "bounded"
NOTE = "texts up to the lengths enumerated below; calendar dates are sampled, times of day are covered completely; strtof/strtod are trusted to report where they stopped"
UP = mask("ABCDEFGHIJKLMNOPQRSTUVWXYZ"); SP = mask(" ")
HEX = mask("0123456789abcdefABCDEF")
B58 = mask("123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz")
DEAD = None


def paths(step, start, n, final):
    """partition of the n-character texts by the automaton: [(box, labels, accepted, state)]; step(state) -> [(mask, label, next)]"""
    out = []

    def go(st, box, lab):
        if len(box) == n: out.append((box, lab, final(st), st)); return
        rest = FULL
        for m, l, nx in step(st):
            rest &= ~m
            go(nx, box + [m], lab + [l])
        if rest: out.append((box + [rest] + [FULL] * (n - len(box) - 1), lab, False, DEAD))
    go(start, [], [])
    return out


def code_step(k, maxlen=7, spaces=True):
    if k == 0: return ([(SP, "", 0)] if spaces else []) + [(UP, "c", 1)]
    return [(UP, "c", k + 1)] if k < maxlen else []


def code_want(text, lab, shift=0, w=64):
    want = {}; i = 0
    for k, l in enumerate(lab):
        if l == "c": want[byte_at(text, k)] = [c << (8 * i + shift) for c in range(256)]; i += 1
    return want


def digits_want(text, lab, which, scale=1):
    ks = [k for k, l in enumerate(lab) if l and l in which]
    return {byte_at(text, k): [(c - 48) * scale * 10 ** (len(ks) - 1 - i) for c in range(256)] for i, k in enumerate(ks)}


HV = [int(chr(c), 16) if chr(c) in "0123456789abcdefABCDEF" else 0 for c in range(256)]


def cell(off, size, want, const_=0):
    """a value rule: the result field at off is the sum of functions of characters want(text)"""
    def f(ip, st):
        t = ip.argregs["text"]
        v = ip.norm(st, ip.load_const(st, ip.argregs["r"], off, size, "i%d" % (8 * size)))
        return sum_value(st, v, want(t), const_, 8 * size)
    return f


def allof(*fs):
    def f(ip, st):
        for g in fs:
            r = g(ip, st)
            if r[0] is not True: return r
        return True, None
    return f


def hex_value(n):
    return allof(*[cell(i, 1, (lambda i: lambda t: {byte_at(t, 2 * i): [16 * v for v in HV], byte_at(t, 2 * i + 1): HV})(i)) for i in range(n // 2)])


def lit(s): return [mask(c) for c in s]


def hex_jobs():
    for n in range(0, 9):
        for k in range(n): yield [HEX] * k + [FULL & ~HEX] + [FULL] * (n - k - 1), False
        yield [HEX] * n, n % 2 == 0


def symbol_jobs(tier):
    for nd in range(0, 5):
        for dbox, ok in (number_boxes(255, nd, fine=True) if nd else [([], False)]):
            for n in (range(0, 10) if nd == 1 and tier == "quick" or tier != "quick" and nd < 4 else range(0, 3)):
                for box, lab, acc, _ in paths(code_step, 0, n, lambda s: s != 0):
                    yield dbox + [mask(",")] + box, ok and acc, ["d"] * nd + [""] + lab
            yield dbox, False, None
            if ok: yield dbox + [FULL & ~DIGITS & ~mask(","), FULL, FULL], False, None
            if not nd: yield [FULL & ~DIGITS, FULL, FULL], False, None


def asset_jobs(tier):
    # (phase, integer digits, fraction digits, letters); phases: 0 spaces, 1 sign, 2 integer, 3 fraction, 4 code spaces, 5 code
    mi, mf = (3, 3) if tier == "quick" else (4, 4)

    def step(s):
        ph, i, f, l = s
        out = []
        if ph == 0: out.append((mask("-"), "-", (1, 0, 0, 0)))
        if ph <= 2 and i < mi: out.append((DIGITS, "i", (2, i + 1, 0, 0)))
        if ph <= 2: out.append((mask("."), ".", (3, i, 0, 0)))
        if ph == 3 and f < mf: out.append((DIGITS, "f", (3, i, f + 1, 0)))
        if ph == 0: out.append((SP, "", (0, 0, 0, 0)))
        elif ph < 5: out.append((SP, "", (4, i, f, 0)))
        if l < 7: out.append((UP, "c", (5, i, f, l + 1)))
        return out
    for n in range(0, 6 if tier == "quick" else 8):
        for box, lab, acc, s in paths(step, (0, 0, 0, 0), n, lambda s: s[3] > 0):
            if s is DEAD and len(lab) < n and (lab.count("i") == mi or lab.count("f") == mf):
                # the digit run was cut off by the bound of the partition, not by the grammar
                bad = box[len(lab)] & ~DIGITS
                box = box[:len(lab)] + [bad] + box[len(lab) + 1:]
            yield box, acc, lab
    for neg in (0, 1):
        M = (1 << 63) - 1 + neg
        for n in (18, 19, 20):
            for box, ok in number_boxes(M, n, fine=False):
                if n > 19 and box[0] != mask("0"): box = [mask("1")] + box[1:19] + [mask("0123456789")]
                for dot in (None, 0, 4, n):
                    b = lit("-" * neg) + (box if dot is None else box[:dot] + [mask(".")] + box[dot:]) + lit(" EOS")
                    yield b, ok, ["-"] * neg + (["i"] * n if dot is None else ["i"] * dot + ["."] + ["f"] * (n - dot)) + ["", "c", "c", "c"]
    for k in (254, 255, 256, 257): yield lit("0.") + lit("0" * k) + lit(" EOS"), k <= 255, ["i", "."] + ["f"] * k + ["", "c", "c", "c"]
    for n in range(1, 10): yield lit("1 ") + [UP] * n, n <= 7, ["i", ""] + ["c"] * n


DATES = ["1970-01-01", "1970-12-31", "1971-02-28", "1972-02-29", "1999-12-31", "2000-02-29", "2000-03-01", "2001-04-30", "2018-06-15", "2038-01-19", "2096-02-29", "2100-02-28", "2100-03-01", "2105-10-31"]
NODATES = ["1971-02-29", "2000-02-30", "2100-02-29", "2019-04-31", "2019-06-31", "2019-09-31", "2019-11-31", "1999-02-31", "1969-12-31", "0000-01-01", "2107-01-01", "9999-12-31"]
TOD = [mask("01"), DIGITS, mask(":"), mask("012345"), DIGITS, mask(":"), mask("012345"), DIGITS]
TOD2 = [mask("2"), mask("0123"), mask(":"), mask("012345"), DIGITS, mask(":"), mask("012345"), DIGITS]


def days(s):
    import datetime
    return (datetime.date(*map(int, s.split("-"))) - datetime.date(1970, 1, 1)).days


def time_jobs(kind):
    """(box, want, (days, number of fraction digits or None))"""
    for d in DATES:
        for tod in (TOD, TOD2): yield lit(d + "T") + tod, True, (days(d), None)
    for d in NODATES: yield lit(d + "T") + TOD, False, None
    for d in ("2019-01-31", "2019-03-31", "2019-05-31", "2019-07-31", "2019-08-31", "2019-10-31"): yield lit(d + "T00:00:00"), True, None
    d0 = lit("2018-06-15T"); dd = days("2018-06-15")
    yield lit("2106-02-07T06:28:15"), True, None
    yield lit("2106-02-07T06:28:16"), False, None
    for m, ds in [("0", "0"), ("1", "3456789"), ("23456789", "0123456789")]: yield [DIGITS] * 4 + [mask("-"), mask(m), mask(ds), mask("-"), DIGITS, DIGITS] + lit("T") + TOD, False, None
    for m, ds in [("0", "0"), ("3", "23456789"), ("456789", "0123456789")]: yield lit("2018-07-") + [mask(m), mask(ds)] + lit("T") + TOD, False, None
    for m, ds in [("2", "456789"), ("3456789", "0123456789")]: yield d0 + [mask(m), mask(ds)] + TOD[2:], False, None
    for p in (3, 6): yield d0 + TOD[:p] + [mask("6789"), DIGITS] + TOD[p + 2:], False, None
    full = [DIGITS] * 4 + lit("-") + [DIGITS] * 2 + lit("-") + [DIGITS] * 2 + lit("T") + [DIGITS] * 2 + lit(":") + [DIGITS] * 2 + lit(":") + [DIGITS] * 2
    for k in range(19):
        yield full[:k] + [FULL & ~full[k]] + [FULL] * (18 - k), False, None
        yield full[:k], False, None
    yield d0 + TOD + [FULL & ~mask(".")], False, None
    for n in range(0, 8):
        ok = True if kind == "tps" else n <= 6
        yield d0 + TOD + [mask(".")] + [DIGITS] * n, ok, (dd, n)
        for k in (range(n + 1) if n < 7 else ()):
            if k < 7: yield d0 + TOD + [mask(".")] + [DIGITS] * k + [FULL & ~DIGITS] + [FULL] * (n - k), False, None


def tod_want(t, scale):
    w = {}
    for k, m in ((11, 36000), (12, 3600), (14, 600), (15, 60), (17, 10), (18, 1)): w[byte_at(t, k)] = [(c - 48) * m * scale for c in range(256)]
    return w


def tp_want(frac):
    def f(t):
        w = tod_want(t, 1000000)
        for i in range(frac or 0): w[byte_at(t, 20 + i)] = [(c - 48) * 10 ** (5 - i) for c in range(256)]
        return w
    return f


def work(tier):
    """[(driver, box, accepted, value rule)]"""
    W = []
    for box, ok in hex_jobs():
        for d in ("try_unhex", "try_unhex2"):
            if d == "try_unhex2" and len(box) % 2: continue         # even lengths are the caller's obligation
            if len(box) % 2 == 0 or not ok: W.append((d, box, ok, hex_value(len(box)) if ok else None)) if len(box) % 2 == 0 else None
        for d in ("txt_hexvec", "txt_bytes", "txt_jbytes"): W.append((d, box, ok, None))
    for d, N in (("c160", 20), ("c256", 32), ("c512", 64), ("f128", 16)):
        for n in (0, 2, N * 2 - 2, N * 2 - 1, N * 2, N * 2 + 1, N * 2 + 2, N * 4): W.append(("txt_" + d, [HEX] * n, n == 2 * N, hex_value(n) if n == 2 * N else None))
        for k in (0, 1, N, 2 * N - 2, 2 * N - 1): W.append(("txt_" + d, [HEX] * k + [FULL & ~HEX] + [HEX] * (2 * N - 1 - k), False, None))
    for n in range(0, 11):
        for box, lab, acc, _ in paths(code_step, 0, n, lambda s: s != 0):
            W.append(("txt_symcode", box, acc, cell(0, 8, lambda t, lab=lab: code_want(t, lab)) if acc else None))
        for box, lab, acc, _ in paths(lambda k: code_step(k, 7, False), 0, n, lambda s: True):
            W.append(("txt_symcode_ctor", box, acc, cell(0, 8, lambda t, lab=lab: code_want(t, lab)) if acc else None))
    for box, acc, lab in symbol_jobs(tier):
        W.append(("txt_symbol", box, acc, cell(0, 8, lambda t, lab=lab: {**digits_want(t, lab, "d"), **code_want(t, lab, 8)}) if acc else None))
    for box, acc, lab in asset_jobs(tier):
        val = None
        if acc: val = allof(cell(0, 8, lambda t, lab=lab: digits_want(t, lab, "if", -1 if "-" in lab else 1)), cell(8, 8, lambda t, lab=lab: code_want(t, lab, 8), lab.count("f")))
        W.append(("txt_asset", box, acc, val))
        if len(box) < 5: W.append(("txt_asset_fs", box, acc, val))
    for kind in ("tp", "tps", "bts"):
        for box, ok, v in time_jobs(kind):
            val = None
            if v and kind == "tp": val = cell(0, 8, tp_want(v[1]), v[0] * 86400000000)
            if v and kind == "tps": val = cell(0, 4, lambda t: tod_want(t, 1), v[0] * 86400)
            W.append(("txt_" + kind, box, ok, val))
    for n in range(0, 7):
        W.append(("txt_base58", [B58] * min(n, 2), True, None)) if n < 3 else None
        for k in range(n): W.append(("txt_base58", [B58] * k + [FULL & ~B58] + [B58] * (n - k - 1), False, None))
        W.append(("txt_dec16", [DIGITS] * n, True, None))
        for k in range(n): W.append(("txt_dec16", [DIGITS] * k + [FULL & ~DIGITS] + [FULL] * (n - k - 1), False, None))
    return [w for w in W if all(w[1])]


def m_errno(ip, n, st, ev, i, a): return P(ip.region("errno", kind="obj"), const(64, 0))


def m_strto(ip, n, st, ev, i, a):
    """strtof/strtod: stops somewhere in the text (start when there is no number) and may set errno"""
    p = a[0]
    e = term(64, 0, 1 << 32, "strto", ("end",)); st.aux[("strto", "start")] = p; st.aux[("strto", "end")] = e
    ip.store(st, a[1], P(p.base, ip.add(st, p.off, mkterm(e))), 8, i)
    x = term(32, 0, (1 << 32) - 1, "strto", ("errno",))
    ip.store(st, P(ip.region("errno", kind="obj"), const(64, 0)), mkterm(x), 4, i)
    return mkterm(term(64, 0, (1 << 64) - 1, "strto", ("value",)))


def floats(rep, mod):
    mm = dict(MODELS); mm.update({"__errno_location": m_errno, "strtof": m_strto, "strtod": m_strto, "__isoc23_strtof": m_strto, "__isoc23_strtod": m_strto})
    for nm in ("f32", "f64"):
        for n in (0, 1, 3, 8):
            ip, outs = analyse(mod, "sa_txt_" + nm, [("text", "bytes"), const(64, n), "r"], None, models=mm)
            what = "%s of %d characters" % ("float32" if nm == "f32" else "float64", n)
            for o in outs:
                if o.kind != "ret": continue
                e = o.state.aux.get(("strto", "end"))
                if not rep.ob("floating-point text", what + " is not accepted without being parsed", e is not None and n > 0, "accepted without a number"): continue
                x = mkterm(term(32, 0, (1 << 32) - 1, "strto", ("errno",)))
                d = L({e: 1}, -n)
                rep.ob("floating-point text", what + " is consumed completely", ip.prove_le(o.state, d) and ip.prove_le(o.state, d.scale(-1)), "text after the number is ignored")
                rep.ob("floating-point text", what + " is representable", ip.urange(o.state, ip.norm(o.state, x)) == (0, 0) or ip.icmp(o.state, "eq", x, const(32, 0)) == const(1, 1), "a range error is ignored")
            if n: rep.ob("floating-point text", what + " can be accepted", any(o.kind == "ret" for o in outs), "always rejected")


VERDICT = re.compile(r"(::|^)(string_to_(utc_seconds|utc_microseconds|symbol_code|symbol|asset)|unhex|char_to_name_digit_strict|try_string_to_name_strict|ripemd160_digest)$")


def verdicts(rep):
    """the i1 result of a parsing step is used"""
    m = lib()
    seen = 0
    for f in m.fns.values():
        for b in f.order:
            for i in f.blocks[b]:
                if i.op not in ("call", "invoke") or not i.callee: continue
                q = m.q(i.callee)
                if not VERDICT.search(re.sub(r"<.*>", "", q).split("(")[0]): continue
                if not i.get("ty") or i.get("ty") == "void": continue
                used = any(["v", i.id] in [o for o in j.ops if isinstance(o, list)] for bb in f.order for j in f.blocks[bb])
                rep.ob("verdict examined", "%s called by %s" % (q.split("(")[0], f.q.split("(")[0]), used, "the result of the parsing step is ignored")


def run(rep, tier):
    mod = module(["drv:texts", "src:crypto.cpp"], "texts")
    W = work(tier)

    def one(w):
        d, box, acc, val = w
        name = "sa_" + d

        def go(box):
            args = [("text", "bytes"), const(64, len(box)), "r"] + (["e"] if d == "try_unhex2" else [])
            ip, outs = analyse(mod, name, args, feas_setup(box), access=[bounded(len(box))], unroll=320, limit=400)
            r = []
            for o in outs:
                if "try" in d and o.kind == "ret": r += [(t, s, None) for s, t in truth(ip, o.state, o.value)]
                else: r.append((o.kind == "ret", o.state, o.info or o.kind))
            return ip, r
        return decide(go, box, acc, val)
    names = {"try_unhex": "eosio::unhex", "try_unhex2": "abieos::unhex", "txt_hexvec": "from_json_hex", "txt_bytes": "from_json(bytes)", "txt_jbytes": "json_to_bin(bytes)"}
    for (d, box, acc, val), res in zip(W, pool(W, one)):
        for rule, ok, why in res:
            what = "%s, text %s" % (names.get(d, "reader of " + d[4:]), show(box))
            if ok is None: rep.unknown(rule, what, why)
            else: rep.ob(rule, what, ok, why)
    floats(rep, mod)
    verdicts(rep)
    rep.need("accepted", 250); rep.need("rejected", 700); rep.need("value", 200); rep.need("verdict examined", 8)
