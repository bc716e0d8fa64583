"""The object every shape of input leaves behind is rendered by each JSON writer of its type under abstract interpretation, the writers
of its parts opaque: the tokens written must be one JSON value, with the parts in the order they were read.  The string writer is
interpreted on every combination of byte classes; integers and the forms of floating-point numbers are rendered down to the byte.
The ABI-driven decoder's text is compared with one grammar per shape of type."""
import itertools, json, re
from ..jsonout import *
from ..codec import _I
from ..texts import *
from ..steps import survey, structures, others

TECHNIQUE = "abstract interpretation of every JSON writer into a token sequence checked against the JSON grammar; strings by byte class"
LEVEL = "bounded"
NOTE = ("Counts are represented by 0, 1 and 3, strings by lengths up to 4 over 17 classes of bytes (thorough: all combinations of 4). The digits fpconv "
        "produces are assumed to be decimal digits with a nonzero first one.")
VALUE = "what is written is one JSON value"
ORDER = "members and elements are written in order, each once"
TEXT = "strings are quoted, escaped and valid UTF-8"
INT = "integers are written as numbers, quoted when wider than 32 bits"
DIGITS = "the digits are those of the value"
FLOAT = "floating-point values are written as JSON numbers or quoted"
HEX = "bytes are written as pairs of hex digits"
ABI = "the ABI-driven decoder writes separators, names and values in place"
SCALAR = ("char", "signed char", "unsigned char", "short", "unsigned short", "int", "unsigned int", "long", "unsigned long", "__int128", "unsigned __int128")
NUMBER = re.compile(r"-?(0|[1-9]\d*)(\.\d+)?([eE][+-]?\d+)?\Z")


def _types(job):
    t, r, ws = job
    try: return judge(t, r, ws)
    except Exception as e: return "%s: %s" % (type(e).__name__, e)


def order(evs, toks):
    """(ok, why): None when the items of the values are not known"""
    if not toks or toks[0] not in (("lit", "{"), ("lit", "[")): return None, ""
    want = [k for k, e in enumerate(evs) if e[0] == "item"]
    got = []; name = True; d = 0
    for j, x in enumerate(toks):
        if x[0] == "value" or x[0] == "string":
            nxt = next((y for y in toks[j + 1:] if not (y[0] == "lit" and y[1] in " \n\t\r")), None)
            if x[0] == "string" and (nxt == ("lit", ":") or x[1] is not None): continue
            got.append(x[2])
    known = [k for k in got if k is not None]
    if any(a > b or a == b and evs[a][0] == "item" for a, b in zip(known, known[1:])): return False, "the parts are written in the order %s" % ", ".join(map(str, known))
    if None in got: return None, ""
    miss = [k for k in want if k not in known]
    if len(miss) and all(evs[k][1] == "bool" for k in miss) and evs and evs[-1][0] != "bool":      # presence flags are not written
        pass
    elif miss: return False, "part %d (%s) is not written" % (miss[0], evs[miss[0]][1])
    return True, ""


def types(rep):
    W = writers(); P_, noread, nowrite = pairs()
    jobs = [(t, P_[t][0], ws) for t, ws in sorted(W.items()) if t in P_ and t not in INTS and t != SV]
    if len(jobs) < 120: raise build.Broken("only %d types with a JSON writer were found" % len(jobs))
    for (t, r, ws), res in zip(jobs, pool(jobs, _types)):
        if isinstance(res, str): rep.unknown(VALUE, t, res); continue
        where = jsonmod().fns[ws[0][1]]
        for sink, evs, toks in [x if len(x) == 3 else (None, (), x[1]) for x in res]:
            if sink is None: rep.unknown(VALUE, t, toks); continue
            sub = "%s to %s" % (t, sink)
            g = grammar(toks)
            rep.ob(VALUE, sub, g is None, "%s: %s" % (sub, g), key="value:" + t)
            if g is None:
                ok, why = order(evs, toks)
                if ok is not None: rep.ob(ORDER, sub, ok, "%s: %s" % (sub, why), key="order:" + t)
    rep.note("types with a JSON writer", len(jobs))


def evaluate(ip, text, toks, chars):
    """the bytes written for concrete characters; None when a token is not a function of single bytes"""
    out = bytearray()
    for t in toks:
        if t[0] == "lit": out.append(ord(t[1])); continue
        if t[0] != "byte": return None
        r = bytes_of(t[1])
        if r is None: return None
        tab, c = r
        for b, x in tab.items():
            k = next((k for k in range(len(chars)) if byte_at(text, k) == b), None)
            if k is None: return None
            c += x[chars[k]]
        out.append(c & 255)
    return bytes(out)


def rg(a, b): return sum(1 << c for c in range(a, b + 1))


CLASSES = [rg(32, 126) & ~(1 << 34) & ~(1 << 92), 1 << 34, 1 << 92, rg(0, 31), 1 << 127, rg(0x80, 0x8f), rg(0x90, 0x9f), rg(0xa0, 0xbf), rg(0xc0, 0xc1), rg(0xc2, 0xdf),
           1 << 0xe0, rg(0xe1, 0xef) & ~(1 << 0xed), 1 << 0xed, 1 << 0xf0, rg(0xf1, 0xf3), 1 << 0xf4, rg(0xf5, 0xff)]
TM = FM = None


def textmod(): return module(["drv:json"], "jsontext", roots=r"^sa_(text|hex)$", keep=r"^eosio::(vector_stream|fixed_buf_stream|size_stream)::write$", types=True)


def _texts(cls):
    """None, ("bad", why) or ("?", why) for a combination of byte classes"""
    box = [CLASSES[c] for c in cls]; r = _box(box)
    if r and r[0] == "?" and len(cls) <= 2:         # byte by byte
        vs = [bits_of(b) for b in box]
        if len(cls) == 2: vs = [v if len(v) <= 32 else v[:4] + v[-4:] for v in vs]
        rs = [_box([1 << c for c in t]) for t in itertools.islice(itertools.product(*vs), 1100)]
        bad = next((x for x in rs if x and x[0] == "bad"), None)
        if bad: return bad
        if not any(rs) and len(cls) == 1: return None
    return r


def _box(box):
    m = TM; n = len(box)
    f = next(k for k in m.fns if m.q(k) == "sa_text")
    W = Json(m); W.models_ = M = W.json_models(); del M["eosio::to_json"]
    try: ip, outs = analyse(m, f, [("text", "bytes"), const(64, n), ("sink", "obj")], feas_setup(box, more=lambda ip, st: setattr(W, "ip", ip)), unroll=40, models=M, default_model=W.default, limit=400, access=[bounded(n)])
    except OutOfText as e: return ("bad", "a string of %d bytes is read outside its bounds (%s)" % (n, e))
    except Exception as e: return ("?", "%s: %s" % (type(e).__name__, e))
    text = ip.argregs["text"]
    if not outs: return ("?", "no outcome")
    for o in outs:
        cs = [bits_of(o.state.feas.get(byte_at(text, k), FULL) & m_) for k, m_ in enumerate(box)]
        if not all(cs): continue
        for chars in itertools.product(*[(c if n == 1 else sorted({c[0], c[-1]})) for c in cs]):
            if o.kind != "ret": 
                if len(outs) > 1: return ("?", "more than one outcome")
                return ("bad", "the string %s cannot be written" % repr(bytes(chars))[1:])
            w = evaluate(ip, text, o.state.aux.get(("out",), ()), chars)
            if w is None: return ("?", "the bytes written are not functions of single bytes")
            why = None
            try: s = json.loads(w.decode("utf-8"))
            except ValueError as e: why = "not a JSON string"; s = None
            if why is None and not isinstance(s, str): why = "not a JSON string"
            if why is None:
                try: v = bytes(chars).decode("utf-8")
                except ValueError: v = None
                if v is not None and s != v: why = "another string"
                elif v is None and not "".join(x for x in s if x != "?") in ("", _valid(bytes(chars))): why = "text that is not in it"
            if why:
                if len(outs) > 1 and not all(len(c) == 1 for c in cs): return ("?", "more than one outcome")
                return ("bad", "the string %s is written as %s, which is %s" % (repr(bytes(chars))[1:], repr(w)[1:], why))
    return None


def _valid(b):
    """the valid characters of b, invalid bytes and question marks skipped one by one"""
    out = ""; k = 0
    while k < len(b):
        for j in (1, 2, 3, 4):
            try: out += b[k:k + j].decode("utf-8"); k += j; break
            except ValueError: pass
        else: k += 1
    return out.replace("?", "")


def strings(rep, tier):
    global TM
    TM = textmod()
    f = next((k for k in TM.fns if TM.q(k) == "sa_text"), None)
    n = len(CLASSES); lead = (9, 10, 11, 12, 13, 14, 15); cont = (5, 6, 7)
    jobs = [c for k in range(4) for c in itertools.product(range(n), repeat=k)]
    if tier == "thorough": jobs += list(itertools.product(range(n), repeat=4))
    else: jobs += [c for c in itertools.product((13, 14, 15, 9, 1), cont + (0, 9), cont + (0, 1, 10), cont + (0, 3, 11))]
    und = 0; why = ""
    for c, r in zip(jobs, pool(jobs, _texts)):
        sub = "bytes %s" % show([CLASSES[k] for k in c])
        if r is None: rep.ob(TEXT, sub, True)
        elif r[0] == "bad": rep.ob(TEXT, sub, False, r[1], key="text")
        else: und += 1; why = r[1]
    if und: rep.unknown(TEXT, "%d combinations of byte classes" % und, why)


def hexs(rep):
    m = textmod(); f = next(k for k in m.fns if m.q(k) == "sa_hex")
    for n in range(4):
        W = Json(m); W.models_ = M = W.json_models(); del M["eosio::to_json_hex"]
        sub = "%d bytes" % n
        try: ip, outs = analyse(m, f, [("text", "bytes"), const(64, n), ("sink", "obj")], lambda ip, st: setattr(W, "ip", ip), unroll=40, models=M, default_model=W.default, limit=400, access=[bounded(n)])
        except OutOfText as e: rep.ob(HEX, sub, False, "data of %d bytes is read outside its bounds (%s)" % (n, e), key="hex"); continue
        except Exception as e: rep.unknown(HEX, sub, "%s: %s" % (type(e).__name__, e)); continue
        text = ip.argregs["text"]
        for o in outs:
            bad = None
            if o.kind != "ret": bad = "writing %d bytes fails" % n
            for v in range(256):
                if bad: break
                chars = [v, 255 - v, v ^ 0x5a][:n]
                w = evaluate(ip, text, o.state.aux.get(("out",), ()), chars)
                if w is None: rep.unknown(HEX, sub, "the characters are not functions of single bytes"); break
                if w.upper() != b'"' + bytes(chars).hex().upper().encode() + b'"': bad = "the bytes %s are written as %s" % (bytes(chars).hex(), repr(w)[1:])
            else: rep.ob(HEX, sub, not bad, bad or "", key="hex")
            if bad: rep.ob(HEX, sub, False, bad, key="hex")


def interval(ip, st, t):
    """the values of quotients and remainders of a number in a known range"""
    lo, hi = ip.trange(st, t)
    if t.op in ("udiv", "urem"):
        a, c = t.args[0].l, t.args[1]; alo = ahi = a.c
        for x, k in a.d.items():
            u, v = interval(ip, st, x)
            alo += k * (u if k > 0 else v); ahi += k * (v if k > 0 else u)
        if t.op == "udiv": lo = max(lo, alo // c); hi = min(hi, ahi // c)
        elif 0 <= alo and ahi < c: lo = max(lo, alo); hi = min(hi, ahi)
    return lo, hi


def shape(ip, st, toks):
    """the tokens of a number: [(lo, hi)] of every character"""
    out = []
    for t in toks:
        if t[0] == "lit": out.append((ord(t[1]), ord(t[1])))
        elif t[0] == "byte":
            v = ip.trunc(st, t[1], 8) if t[1].w > 8 else t[1]; lo, hi = ip.urange(st, v)
            if lo == 48 and len(v.lin) == 1 and v.lin[0][0].op == "bits":        # a digit that is not zero?
                x = next((b[1] for b in v.lin[0][0].args if b not in (0, 1) and b[0] == "x"), None)
                if x is not None and hi <= 57 and interval(ip, st, x)[0] >= 1: lo = 49
            out.append((lo, hi))
        else: return None
    return out


def numtext(sh):
    """the text with d for a digit, z for a nonzero digit, ? otherwise"""
    out = ""
    for lo, hi in sh:
        out += chr(lo) if lo == hi else "z" if lo >= 49 and hi <= 57 else "d" if lo >= 48 and hi <= 57 else "?"
    return out


def digit_of(v):
    """the term whose value the character is, less '0'"""
    if not isinstance(v, V) or len(v.lin) != 1: return None
    t, k = v.lin[0]
    if t.op == "bits" and k == 1 and v.c == 0:
        x = {b[1] for b in t.args if b not in (0, 1) and b[0] == "x"}; x = x.pop() if len(x) == 1 else None
        if x is None: return None
        ok = all((b == ("x", x, j)) or (b == 1 and j in (4, 5)) or (b == 0 and j > 5) for j, b in enumerate(t.args))
        return x if ok else None
    return t if k == 1 and v.c == 48 else None


def chain(ip, st, toks):
    """are the characters the decimal digits of one number, the value or its opposite?"""
    ds = [t[1] for t in toks if t[0] == "byte"]; lits = [t[1] for t in toks if t[0] == "lit" and t[1] not in '"']
    neg = lits == ["-"]
    if lits and not neg: return ds == [] and lits == ["0"]
    cur = None
    for k, v in enumerate(reversed(ds)):
        x = digit_of(v)
        if x is None: return False
        if k == 0:
            if x.op == "urem" and x.args[1] == 10: cur = x.args[0].l
            else: cur = L({x: 1}, 0)
            start = cur
        last = k == len(ds) - 1
        if x.op == "urem" and x.args[1] == 10 and x.args[0].l.key() == cur.key(): pass
        elif len(cur.d) == 1 and cur.c == 0 and next(iter(cur.d)) is x and interval(ip, st, x)[1] <= 9: pass
        else: return False
        if not last:
            q = term(x.w, 0, (1 << x.w) - 1, "udiv", (LH(cur), 10)); cur = L({q: 1}, 0)
        else:       # nothing is left
            lo = hi = cur.c
            for y, c in cur.d.items(): u, w = interval(ip, st, y); lo += c * u; hi += c * w
            if not 0 <= lo <= hi <= 9: return False
    if not ds: return False
    # the number the digits are of
    ts = list(start.d.items())
    if start.c == 0 and len(ts) == 1 and ts[0][1] == 1:
        if ts[0][0].op == "sym" and ts[0][0].args[0] == "value": return not neg
        if ts[0][0].op == "abs": return True
        if ts[0][0].op == "bits":      # passed in two halves
            b = ts[0][0].args
            return not neg and all(x not in (0, 1) and x[0] == "x" and x[1].op == "sym" and x[1].args == ("value", j // 64) and x[2] == j % 64 for j, x in enumerate(b)) and len(b) == 128
    if start.c == 0 and len(ts) == 2 and all(t.op == "sym" and t.args[0] == "value" for t, _ in ts): return not neg and {t.args[1]: c for t, c in ts} == {0: 1, 1: 1 << 64}
    return False


def _ints(t):
    m = jsonmod(); w = next(n for s, n in writers()[t] if s == "vector_stream")
    W = Json(m); W.t = t; W.models_ = M = W.json_models()
    args = []
    for k, a in enumerate(m.fns[w].d.get("args", ())):
        if a["ty"] == "ptr": args.append("sink")
        else: n = int(a["ty"][1:]); args.append(mkterm(term(n, 0, (1 << n) - 1, "sym", ("value", k))))
    try: ip, outs = analyse(m, w, args, lambda ip, st: setattr(W, "ip", ip), unroll=80, models=M, default_model=W.default, limit=400)
    except Exception as e: return "%s: %s" % (type(e).__name__, e)
    res = [(o.kind, numtext(shape(ip, o.state, o.state.aux.get(("out",), ())) or [(0, 255)]), o.kind == "ret" and chain(ip, o.state, o.state.aux.get(("out",), ()))) for o in outs]
    wit = None
    n = 8 * INTS[t]; un = t.startswith("unsigned"); lo, hi = (0, (1 << n) - 1) if un else (-(1 << n - 1), (1 << n - 1) - 1)
    for v in sorted({x for x in [0, 1, 2, 9, 10, 11, 19, 99, 100, 101, 127, 128, 255, lo, hi, lo + 1, hi - 1, hi // 2, 1234567890123456789012345678901234567890 & hi] + [10 ** k for k in range(39)] + [10 ** k - 1 for k in range(39)] + [-(10 ** k) for k in range(39)] if lo <= x <= hi}, key=abs):
        a2 = []; x = v & (1 << n) - 1
        for a in args: 
            if isinstance(a, str): a2.append(a)
            else: a2.append(const(a.w, x & (1 << a.w) - 1)); x >>= a.w
        try: ip2, o2 = analyse(m, w, a2, lambda ip, st: setattr(W, "ip", ip), unroll=80, models=M, default_model=W.default, limit=400)
        except Exception: continue
        if len(o2) != 1 or o2[0].kind != "ret": continue
        toks = o2[0].state.aux.get(("out",), ())
        if any(x[0] != "lit" for x in toks): continue
        got = "".join(x[1] for x in toks); want = '"%d"' % v if INTS[t] > 4 else "%d" % v
        if got != want: wit = "%d is written as %s" % (v, got); break
    return res, wit


def ints(rep):
    W = writers()
    ts = [t for t in SCALAR if t in W]
    for t, res in zip(ts, pool(ts, _ints)):
        if isinstance(res, str): rep.unknown(INT, t, res); continue
        quoted = INTS[t] > 4
        res, wit = res
        if wit: rep.ob(INT, t, False, wit, key="int:" + t); continue
        for kind, s, proven in res:
            sub = "%s as %s" % (t, s)
            if kind != "ret": rep.unknown(INT, sub, "an outcome of kind %s" % kind); continue
            if "?" in s: rep.unknown(INT, sub, "a character is not known to be a digit"); continue
            body = s[1:-1] if len(s) > 1 and s[0] == s[-1] == '"' else s
            if (body != s) != quoted: rep.ob(INT, sub, False, "%s is written %s quotes" % (t, "with" if body != s else "without"), key="int:" + t); continue
            if not re.match(r"-?[zd0-9]+\Z", body): rep.ob(INT, sub, False, "%s is written as %s" % (t, s), key="int:" + t); continue
            if t.startswith("unsigned") and body[0] == "-": rep.unknown(INT, sub, "a negative form of an unsigned type"); continue
            b = body.lstrip("-")
            if len(b) > 1 and b[0] in "d0": rep.unknown(INT, sub, "the first digit is not known to be nonzero"); continue
            rep.ob(INT, sub, True)
            if proven: rep.ob(DIGITS, sub, True)
            else: rep.unknown(DIGITS, sub, "the characters are not recognised as the digits of the value")


def truth(x, v):
    """the value of a floating-point term for the given number; None when it is not known"""
    if isinstance(x, V):
        if not x.lin: return None
        if len(x.lin) != 1 or x.lin[0][1] != 1 or x.c: return None
        x = x.lin[0][0]
    if x.op == "sym" and x.args[0] == "value": return v
    if x.op == "fp":
        try: return float(x.args[0].replace("Inf", "inf"))
        except ValueError: return None
    if x.op == "fpext": return truth(x.args[1], v)
    if x.op == "fabs": 
        a = truth(x.args[0], v); return None if a is None else abs(a)
    if x.op == "fpclass":
        a = truth(x.args[0], v)
        if a is None: return None
        bit = 3 if a != a else (512 if a > 0 else 4) if abs(a) == float("inf") else (64 if str(a)[0] != "-" else 32) if a == 0 else 256 if a > 0 else 8
        return int(bool(x.args[1] & bit))
    if x.op == "fcmp":
        a, b = truth(x.args[1], v), truth(x.args[2], v)
        if a is None or b is None: return None
        nan = a != a or b != b; p = x.args[0]
        r = {"eq": a == b, "ne": a != b, "lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b, "rd": True, "no": False}.get(p[1:])
        if p in ("ord", "uno"): return int(nan == (p == "uno"))
        if r is None: return None
        return int(r and not nan if p[0] == "o" else r or nan)
    return None


def _emit(job):
    nd, neg = job; bad = []; und = []; n = 0
    m = FM
    for K in range(-345, 311):
        if not -330 <= K + nd <= 310: continue
        if len(bad) > 3 or len(und) > 9: break
        n += 1
        try:
            ip, outs = analyse(m, "emit_digits", [("digits", "bytes"), const(32, nd), ("dest", "bytes"), const(32, K), const(1, neg)], unroll=40, limit=300)
            for o in outs:
                if o.kind != "ret" or not o.value.is_const(): und.append((K, "the length is not known")); continue
                s = z = ""; digits = ip.argregs["digits"]
                for k in range(o.value.c):
                    c = ip.norm(o.state, ip.load(o.state, P(ip.argregs["dest"], const(64, k)), 1, "i8", _I))
                    j = None
                    if len(c.lin) == 1 and c.lin[0][1] == 1 and c.c == 0: j = next((j for j in range(nd) if c.lin[0][0] == byte_at(digits, j)), None)
                    if c.is_const(): x = y = chr(c.c & 255)
                    elif any(t == byte_at(ip.argregs["dest"], k) for t, _ in c.lin): bad.append("%d digits with exponent %d: character %d is not written" % (nd, K, k)); break
                    elif j is None: und.append((K, "a character is not one of the digits")); break
                    else: x = "7"; y = "0" if j else "7"
                    s += x; z += y
                if len(s) < o.value.c: continue
                if not NUMBER.match(s) or not NUMBER.match(z): bad.append("%d digits with exponent %d are written as %s" % (nd, K, s))
                elif o.value.c + neg > 25: bad.append("%d digits with exponent %d take %d characters" % (nd, K, o.value.c + neg))
        except Exception as e: und.append((K, "%s: %s" % (type(e).__name__, e)))
    return n, bad, und


def floats(rep):
    global FM
    W_ = writers(); m = jsonmod()
    for t in ("float", "double"):
        for sink, w in W_.get(t, ()):
            W = Json(m); W.t = t; W.models_ = M = W.json_models()
            def dtoa(ip, n, st, ev, i, a):
                st.aux[("fp",)] = (a[1].base, a[1].off); return mkterm(term(32, 0, 25, "sym", ("fplen",)))
            M["fpconv_dtoa"] = dtoa
            for b in (32, 64):
                M["llvm.fabs.f%d" % b] = lambda ip, n, st, ev, i, a, b=b: mkterm(term(b, 0, (1 << b) - 1, "fabs", (a[0],)))
                M["llvm.is.fpclass.f%d" % b] = lambda ip, n, st, ev, i, a: mkterm(term(1, 0, 1, "fpclass", (a[0], a[1].c)))
            sub = "%s to %s" % (t, sink)
            try:
                ip, outs = analyse(m, w, [mkterm(term(8 * sizeof(t), 0, (1 << 8 * sizeof(t)) - 1, "sym", ("value",))), "sink"], lambda ip, st: setattr(W, "ip", ip), models=M, default_model=W.default, limit=300)
            except Exception as e: rep.unknown(FLOAT, sub, "%s: %s" % (type(e).__name__, e)); continue
            for name, v in (("+infinity", float("inf")), ("-infinity", float("-inf")), ("NaN", float("nan")), ("1", 1.0), ("-1", -1.0), ("0", 0.0), ("1e300", 1e300), ("1e-300", 1e-300)):
                hit = False
                for o in outs:
                    if o.kind != "ret": continue
                    cs = [(k, r) for k, r in o.state.rng.items() if k.op in ("fcmp", "fpclass")]
                    ts = [(truth(k, v), r) for k, r in cs]
                    if any(x is not None and not r[0] <= x <= r[1] for x, r in ts): continue
                    hit = True
                    toks = o.state.aux.get(("out",), ())
                    sure = all(x is not None for x, r in ts)
                    fp = any(x[:2] == ("value", "fp") for x in toks)
                    txt = "".join(x[1] if x[0] == "lit" else "<number>" if x[:2] == ("value", "fp") else "?" for x in toks)
                    if fp: ok = len(toks) == 1 and v == v and abs(v) != float("inf")
                    else: ok = len(txt) > 2 and txt[0] == '"' == txt[-1] and not any(c in txt[1:-1] for c in '"\\?') or bool(NUMBER.match(txt))
                    if ok: rep.ob(FLOAT, "%s: %s as %s" % (sub, name, txt), True)
                    elif sure: rep.ob(FLOAT, "%s: %s" % (sub, name), False, "%s is written as %s" % (name, txt), key="float:%s:%s" % (t, name))
                    else: rep.unknown(FLOAT, "%s: %s" % (sub, name), "the path is not known")
                if not hit: rep.unknown(FLOAT, "%s: %s" % (sub, name), "no outcome")
    FM = module(["drv:json", "c:fpconv.c"], "jsonfp", roots=r"^emit_digits$|^fpconv_dtoa$|^grisu2$", keep=r"^emit_digits$|^grisu2$", types=True)
    if "emit_digits" not in FM.fns: rep.unknown(FLOAT, "emit_digits", "the function is not there"); return
    jobs = [(nd, neg) for nd in range(1, 18) for neg in (0, 1)]
    for (nd, neg), (n, bad, und) in zip(jobs, pool(jobs, _emit)):
        sub = "%d digits%s, %d exponents" % (nd, ", negative" if neg else "", n)
        if bad: rep.ob(FLOAT, sub, False, bad[0], key="emit")
        elif und: rep.unknown(FLOAT, sub, "exponent %d: %s" % und[0])
        else: rep.ob(FLOAT, sub, True)
    # the sign and the parts put together
    def grisu(ip, n, st, ev, i, a):
        ip.store(st, a[2], mkterm(term(32, 0, (1 << 32) - 1, "sym", ("K",))), 4, _I); return mkterm(term(32, 1, 17, "sym", ("ndigits",)))
    def emit(ip, n, st, ev, i, a):
        st.aux[("emit",)] = (a[2].base, ip.norm(st, a[2].off), ip.norm(st, a[1]), ip.norm(st, a[3]), ip.norm(st, a[4])); return mkterm(term(32, 1, 24, "sym", ("emitted",)))
    sub = "the sign and the parts of a number"
    try: ip, outs = analyse(FM, "fpconv_dtoa", [mkterm(term(64, 0, (1 << 64) - 1, "sym", ("value",))), ("dest", "obj")], models=dict(MODELS, grisu2=grisu, emit_digits=emit), limit=300)
    except Exception as e: rep.unknown(FLOAT, sub, "%s: %s" % (type(e).__name__, e)); return
    for o in outs:
        st = o.state; e = st.aux.get(("emit",)); d = ip.argregs["dest"]
        if o.kind != "ret": rep.unknown(FLOAT, sub, "an outcome of kind %s" % o.kind); continue
        def lit(n):
            s = ""
            for k in range(n):
                c = ip.norm(st, ip.load(st, P(d, const(64, k)), 1, "i8", _I)); s += chr(c.c & 255) if c.is_const() else "?"
            return s
        v = ip.norm(st, o.value)
        if e is None:
            if not v.is_const(): rep.unknown(FLOAT, sub, "the length is not known"); continue
            s = lit(v.c)
            if s.lstrip("-") in ("nan", "inf"): continue        # not reached: such values are handled before
            rep.ob(FLOAT, sub + ": " + s, bool(NUMBER.match(s)), "a number is written as %s" % s, key="dtoa")
            continue
        if e[0] is not d or not e[1].is_const(): rep.unknown(FLOAT, sub, "the digits are not written to the result"); continue
        k = e[1].c; s = lit(k)
        r = v.lin and len(v.lin) == 1 and v.lin[0][0].args[:1] == ("emitted",) and v.lin[0][1] == 1
        if not r: rep.unknown(FLOAT, sub, "the length is not known"); continue
        bad = "%s precedes the digits" % repr(s) if s not in ("", "-") else "the length given does not cover the characters written" if v.c != k else None
        rep.ob(FLOAT, sub + ": " + s + "<digits>", bad is None, bad or "", key="dtoa")


def run(rep, tier):
    types(rep)
    strings(rep, tier)
    hexs(rep)
    ints(rep)
    floats(rep)
    survey(rep, structures() + others(), ("bj",), {"bytes": ABI})
    rep.need(VALUE, 400); rep.need(ORDER, 200); rep.need(TEXT, 5000); rep.need(HEX, 4); rep.need(INT, 20); rep.need(DIGITS, 20); rep.need(FLOAT, 60); rep.need(ABI, 100)
