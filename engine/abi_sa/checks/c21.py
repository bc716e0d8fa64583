"""The asset and extended_asset operators are interpreted abstractly over unknown operands within the legal range (and divisors and
factors of any value).  On every path that returns, the analysis must show that the symbols (and contracts) are equal, that the stored
amount is within plus or minus 2^62-1, and that it is the sum, difference, product or quotient; on every path that fails, that no
legal operands lead there.  No division may be executed with a zero divisor or as the overflowing one."""
from ..eng import *
from ..varu import _I
from ..texts import pool

TECHNIQUE = "abstract interpretation of the operators: path conditions contradict mixed symbols, illegal ranges and refused legal operands"
LEVEL = "proof"
NOTE = "Operands are within the legal range (binary input is not range-checked when it is read)."
MIX = "operands of different symbols or contracts are refused"
LIM = "a result outside the legal range is refused"
VAL = "the result is the one of the operation"
OKS = "legal operands are not refused"
DIV = "no division by zero and no overflowing division is executed"
MX = (1 << 62) - 1


def T(n, w=64, lo=0, hi=None): return mkterm(term(w, lo, (1 << w) - 1 if hi is None else hi, "sym", (n,)))
def amount(n): return T(n + ".amount", 64, -MX, MX)
def wide(n): return T(n, 64, -(1 << 63), (1 << 63) - 1)
def c64(n): return const(64, n & (1 << 64) - 1)


def possible(ip, st, *conds):
    """can the state be one of (condition, truth) ...?"""
    live = [st.copy()]
    for f, truth in conds:
        nxt = []
        for s in live:
            c = f(s)
            if isinstance(c, bool):
                if c is truth: nxt.append(s)
            elif not c.lin:
                if bool(c.c) is truth: nxt.append(s)
            else: nxt += ip.assume(s, c, truth)
        live = nxt
    return live


#      name: (arguments, operation, operands, same symbol demanded, same contract demanded)
def table():
    out = {}
    for n, op in (("add", "+"), ("sub", "-"), ("quot", "/"), ("eq", "eq"), ("ne", "ne"), ("lt", "slt"), ("le", "sle"), ("gt", "sgt"), ("ge", "sge")):
        out[n] = (["r", "a", "b"], op, "ab", True, False)
        if n not in ("quot", "gt"): out["x" + n] = (["r", "a", "b"], op, "ab", True, True)
    for n, op in (("addto", "+"), ("subfrom", "-")):
        out[n] = (["r", "b"], op, "rb", True, False); out["x" + n] = (["r", "b"], op, "rb", True, True)
    for n in ("neg", "xneg"): out[n] = (["r", "a"], "neg", "a", False, False)
    for n, op in (("mul", "*"), ("div", "/")):
        out[n + "by"] = (["r", "n"], op, "rn", False, False); out[n] = (["r", "a", "n"], op, "an", False, False)
    out["mulr"] = (["r", "a", "n"], "*", "an", False, False)
    out["set"] = (["r", "n"], "set", "n", False, False); out["make"] = (["r", "n", "s"], "set", "n", False, False)
    return out


def flag(ip, v, t):
    """the condition 'the bool v is t'"""
    b = v.bits
    if b is not None and not any(b[1:]) and isinstance(b[0], tuple) and b[0][0] == "x" and b[0][1].w == 1 and b[0][2] == 0:
        return (lambda s: mkterm(b[0][1], 1)), bool(t)
    return (lambda s: ip.icmp(s, "eq", v, const(8, int(t)))), True


CMP = {"eq": lambda x, y: x == y, "ne": lambda x, y: x != y, "slt": lambda x, y: x < y, "sle": lambda x, y: x <= y, "sgt": lambda x, y: x > y, "sge": lambda x, y: x >= y}


def trunc_div(a, b): return abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)


def expected(op, x, same):
    """(legal, result)"""
    if not same: return False, None
    if op == "/" and x[1] == 0: return False, None
    r = {"+": lambda: x[0] + x[1], "-": lambda: x[0] - x[1], "*": lambda: x[0] * x[1], "/": lambda: trunc_div(*x), "neg": lambda: -x[0], "set": lambda: x[0]}
    v = int(CMP[op](*x)) if op in CMP else r[op]()
    return op in CMP or abs(v) <= MX, v


EDGE = (0, 1, -1, 2, -3, 10, MX, -MX, MX - 1, 1 - MX, 1 << 61, -(1 << 61), (1 << 61) - 1, 1 << 31, -(1 << 31), 10 ** 9)
FAR = EDGE + (MX + 1, -MX - 1, -(1 << 63), (1 << 63) - 1, 1 << 32, 1 << 33, -(1 << 32))
SYM = 0x4d5953_04
SYMS = ((SYM, SYM), (SYM, SYM ^ 1), (SYM, SYM ^ 1 << 8), (SYM, SYM + (0x41 << 32)), (SYM, 0x4d5953_0400000000))
CON = 0x5530ea033482a600
CONS = ((CON, CON), (CON, CON ^ 16), (CON, CON ^ 1 << 63))


def witness(m, name, row, hints=()):
    """operands for which the operator certainly does something else than it should: (rule, text)"""
    args, op, ops, samesym, samecon = row
    near = tuple(dict.fromkeys(v for v in EDGE + hints if abs(v) <= MX)); far = tuple(dict.fromkeys(FAR + hints))
    pairs = [(a, b) for a in near for b in (far if "n" in ops else near)] if len(ops) == 2 else [(a,) for a in (far if ops == "n" else near)]
    jobs = [(x, SYMS[0], CONS[0]) for x in pairs]
    if samesym: jobs += [(x, s, CONS[0]) for x in pairs for s in SYMS[1:]]
    if samecon: jobs += [(x, SYMS[0], c) for x in pairs for c in CONS[1:]]
    if op == "/" and "n" in ops: jobs.append(((-(1 << 63), -1), SYMS[0], CONS[0]))
    for x, sy, co in jobs:
        legal, want = expected(op, x, (not samesym or sy[0] == sy[1]) and (not samecon or co[0] == co[1] or op in ("eq", "ne")))
        if op in ("eq", "ne") and co[0] != co[1]: want = int(op == "ne")
        who = dict(zip(ops, range(2))); wrong = []
        def divided(ip, st, i, a, b):
            if not b.lin and (b.c == 0 or not a.lin and i.op[0] == "s" and sgn(b.c, b.w) == -1 and a.c == 1 << a.w - 1): wrong.append(i)
        def setup(ip, st):
            ip.divided = divided
            for k, r in enumerate(ops):
                if r == "n": continue
                b = P(ip.argregs[r], const(64, 0))
                for o, v in ((0, x[k]), (8, sy[k]), (16, co[k])): ip.store(st, ip.padd(b, const(64, o)), c64(v), 8, _I)
        al = [c64(x[who["n"]]) if z == "n" else c64(SYM) if z == "s" else z for z in args]
        try: ip, outs = analyse(m, "sa_as_" + name, al, setup, unroll=24, limit=400)
        except Exception: continue
        if len(outs) != 1: continue
        o = outs[0]
        text = ", ".join(["amounts " + " and ".join(map(str, x))] + (["symbols %x and %x" % sy] if sy[0] != sy[1] else []) + (["contracts %x and %x" % co] if co[0] != co[1] else []))
        if wrong: return DIV, "%s: the division at %s is executed" % (text, wrong[0].where())
        if o.kind == "throw":
            if legal and abs(x[0]) <= MX: return OKS, "%s: refused" % text
            continue
        if o.kind != "ret": continue
        v = ip.norm(o.state, ip.load(o.state, P(ip.argregs["r"], const(64, 0)), 1 if op in CMP else 8, "i8" if op in CMP else "i64", _I))
        got = None if v.lin else v.c if op in CMP else sgn(v.c, 64)
        if abs(x[0]) > MX and "n" not in ops[:1]: continue
        if not legal: return (MIX if sy[0] != sy[1] or co[0] != co[1] else DIV if op == "/" else LIM), "%s: accepted%s" % (text, "" if got is None else " with result %d" % got)
        if got is not None and got != want: return VAL, "%s: the result is %d" % (text, got)
    return None


def one(job):
    name, row = job
    args, op, ops, samesym, samecon = row
    m = module(["drv:assets"], "assets")
    res = []                # (rule, subject, discharged)
    def analysed(amount):
        divs = []
        def divided(ip, st, i, a, b):
            z = bool(possible(ip, st, (lambda s: ip.icmp(s, "eq", b, const(b.w, 0)), True)))
            over = i.op in ("sdiv", "srem") and bool(possible(ip, st, (lambda s: ip.icmp(s, "eq", b, const(b.w, -1 & (1 << b.w) - 1)), True), (lambda s: ip.icmp(s, "eq", a, const(a.w, 1 << a.w - 1)), True)))
            divs.append((i.where(), z, over))
        def setup(ip, st):
            ip.divided = divided; ip.keep = True
            for r in "abr":
                if r not in ip.argregs: continue
                b = P(ip.argregs[r], const(64, 0))
                for o, v in ((0, amount(r)), (8, T(r + ".symbol")), (16, T(r + ".contract"))): ip.store(st, ip.padd(b, const(64, o)), v, 8, _I)
        ip, outs = analyse(m, "sa_as_" + name, [wide("n") if x == "n" else T("s") if x == "s" else x for x in args], setup, unroll=24, limit=2000)
        return ip, outs, divs
    title = "operation '%s'" % name
    try:
        ip, outs, divs = analysed(amount)
        if "n" in ops and op == "/": divs = analysed(wide)[2]
    except Exception as e: return [(VAL, title, None, "%s" % e)]
    for w, z, over in sorted(set(divs)):
        res.append((DIV, "%s, division at %s" % (title, w), not z and not over, "it divides by zero" if z else "it may overflow"))
    x = [wide("n") if o == "n" else amount(o) for o in ops]
    def exact(s):
        y = [ip.sext(s, v, 128) for v in x]
        return {"+": lambda: ip.add(s, *y), "-": lambda: ip.sub(s, *y), "*": lambda: ip.mul(s, *y), "neg": lambda: ip.sub(s, const(128, 0), y[0]), "set": lambda: y[0]}[op]()
    same = [(lambda s: ip.icmp(s, "eq", T(ops[0] + ".symbol"), T(ops[1] + ".symbol")))] if samesym else []
    samec = [(lambda s: ip.icmp(s, "eq", T(ops[0] + ".contract"), T(ops[1] + ".contract")))] if samecon else []
    hi = lambda s: ip.icmp(s, "sgt", exact(s), const(128, MX)); lo = lambda s: ip.icmp(s, "slt", exact(s), const(128, -MX & (1 << 128) - 1))
    zero = lambda s: ip.icmp(s, "eq", x[1], const(64, 0))
    ranged = op in ("+", "-", "*", "neg", "set")
    for k, o in enumerate(outs):
        st = o.state
        sub = "%s, path %d (%s)" % (title, k, o.info[2] if o.kind == "throw" and isinstance(o.info, tuple) and len(o.info) > 2 and o.info[2] else o.kind)
        if o.kind == "throw":
            if name == "make" and possible(ip, st, (hi, False), (lo, False)): continue         # the symbol is not valid
            conds = [(f, True) for f in same + (samec if op not in ("eq", "ne") else [])] + ([(hi, False), (lo, False)] if ranged else []) + ([(zero, False)] if op == "/" else [])
            res.append((OKS, sub, not possible(ip, st, *conds), "legal operands are refused"))
        elif o.kind == "ret":
            if op in ("eq", "ne") and samecon: same2 = []        # different contracts compare unequal
            else: same2 = same + samec
            if same2: res.append((MIX, sub, not any(possible(ip, st, (f, False)) for f in same2), "operands of different symbols or contracts are accepted"))
            if ranged: res.append((LIM, sub, not possible(ip, st, (hi, True)) and not possible(ip, st, (lo, True)), "a result outside the legal range is accepted"))
            r = P(ip.argregs["r"], const(64, 0))
            if op in CMP:
                v = ip.norm(st, ip.load(st, r, 1, "i8", _I)); good = True
                eqs = [(lambda s: ip.icmp(s, op, *x))] if not samecon or op not in ("eq", "ne") else [(lambda s: ip.icmp(s, "eq", *x))] + samec
                if samecon and op in ("eq", "ne"):
                    t = op == "eq"
                    good = not any(possible(ip, st, flag(ip, v, t), (f, False)) for f in eqs)
                    good = good and not possible(ip, st, flag(ip, v, not t), *[(f, True) for f in eqs])
                else:
                    for t in (0, 1): good = good and not possible(ip, st, flag(ip, v, t), (eqs[0], not t))
                good = good and not possible(ip, st, (lambda s: ip.icmp(s, "ugt", v, const(8, 1)), True))
                res.append((VAL, sub, good, "the result is not the comparison of the amounts"))
            else:
                v = ip.norm(st, ip.load(st, r, 8, "i64", _I))
                w = ip.sdiv(st, *x) if op == "/" else ip.trunc(st, exact(st), 64)
                good = ip.norm(st, w) == v or not possible(ip, st, (lambda s: ip.icmp(s, "eq", v, w), False))
                if name in ("quot",): kept = True
                else:
                    keep = {8: T("s") if name == "make" else T(("a" if "a" in args else "r") + ".symbol")}
                    if name[0] == "x": keep[16] = T(("a" if "a" in args else "r") + ".contract")
                    kept = all(not possible(ip, st, (lambda s: ip.icmp(s, "eq", ip.norm(s, ip.load(s, ip.padd(r, const(64, q)), 8, "i64", _I)), y), False)) for q, y in keep.items())
                res.append((VAL, sub, good and kept, "the result is not that of the operation" if not good else "the result has another symbol or contract"))
        else: res.append((VAL, sub, None, o.kind))
    if not outs: res.append((VAL, title, None, "no outcome"))
    if any(not ok for _, _, ok, _ in res):
        hints = {v for o in outs for t, r in o.state.rng.items() if t.op == "sym" for v in r} | {c for o in outs for t in o.state.known if t.op == "icmp" for y in t.args[1:] if isinstance(y, V) and not y.lin and y.w == 64 for c in (sgn(y.c, 64), sgn(y.c, 64) + 1, sgn(y.c, 64) - 1)}
        w = witness(m, name, row, tuple(sorted(v for v in hints if abs(v) < 1 << 63))[:12])
        if w: res = [x for x in res if x[2]] + [(w[0], title, False, w[1])]
        else: res = [(r, s, ok or None, why) for r, s, ok, why in res]
    return res


def run(rep, tier):
    m = module(["drv:assets"], "assets")
    jobs = sorted(table().items())
    for (name, row), res in zip(jobs, pool(jobs, one)):
        for rule, sub, ok, why in res:
            if ok is None: rep.unknown(rule, sub, why)
            else: rep.ob(rule, sub, ok, "%s: %s" % (sub, why), key="%s:%s" % (rule, name))
    rep.need(MIX, 15); rep.need(LIM, 10); rep.need(VAL, 25); rep.need(OKS, 20); rep.need(DIV, 3)
