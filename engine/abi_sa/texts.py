"""Boxes of texts (one set of characters per position) and values that are sums of functions of single characters."""
from .eng import *

DIGITS = mask("0123456789")
ANY = FULL


def feas_setup(box, text="text", more=None):
    def f(ip, st):
        t = ip.argregs[text]
        for k, m in enumerate(box):
            if m != FULL: st.feas[byte_at(t, k)] = m
        if more: more(ip, st)
    return f


def perbyte(v):
    """{byte term: 256 values}, constant of a value that is a sum of functions of single bytes; None when it is not"""
    return bytes_of(v)


def sum_value(st, v, want, wc=0, w=None):
    """does v equal wc + sum of want[byte][character] (mod 2^w) for every text of the state's box?  (True/False/None, detail)"""
    w = w or v.w
    if isinstance(v, P): return None, "the value is a pointer"
    r = perbyte(v)
    if r is None: return None, "the value is not a sum of functions of single characters"
    got, c = r
    M = (1 << w) - 1
    tot = c - wc
    for b in set(got) | set(want):
        g = got.get(b); x = want.get(b)
        base = None
        for ch in bits_of(st.feas.get(b, FULL)):
            d = ((g[ch] if g else 0) - (x[ch] if x else 0)) & M
            if base is None: base = d; first = ch
            elif d != base:
                return False, "the value is wrong for character %r at position %s (compared with %r)" % (chr(ch), b.args[0][2] if len(b.args[0]) > 2 else b, chr(first))
        if base is None: return True, None      # no text
        tot += base
    if tot & M: return False, "the value is off by %d" % sgn(tot & M, w)
    return True, None


def show(box):
    """readable form of a box"""
    out = ""; esc = lambda c: chr(c) if 32 <= c < 127 else "\\x%02x" % c
    for m in box:
        cs = bits_of(m)
        if m == FULL: out += "?"
        elif m == DIGITS: out += "#"
        elif len(cs) == 1: out += esc(cs[0])
        elif len(cs) > 128: out += "[^%s]" % "".join(esc(c) for c in bits_of(FULL & ~m))
        else:
            out += "[%s]" % ("".join(map(esc, cs)) if len(cs) < 6 or cs[-1] - cs[0] + 1 != len(cs) else esc(cs[0]) + "-" + esc(cs[-1]))
    return '"%s"' % (out if len(out) < 200 else out[:200] + "...")


def number_boxes(M, n, fine=False):
    """partition of the n-digit texts (n >= 1) into boxes: [(box, in range 0..M)]; with fine, the longer texts are split where their
    leading digits leave the range"""
    s = str(M)
    if n < len(s): return [([DIGITS] * n, True)]
    out = []
    z = n - len(s)
    for k in range(z):
        if fine:
            for box, ok in number_boxes(M, len(s)):
                if box[0] == mask("0"): continue
                box = [box[0] & ~mask("0")] + box[1:]
                out.append(([mask("0")] * k + box + [DIGITS] * (z - k), False))
            continue
        out.append(([mask("0")] * k + [mask("123456789")] + [DIGITS] * (n - k - 1), False))
    pre = [mask("0")] * z
    for k, c in enumerate(s):
        lo = [x for x in "0123456789" if x < c]; hi = [x for x in "0123456789" if x > c]
        rest = [DIGITS] * (len(s) - k - 1)
        if lo: out.append((pre + [mask(lo)] + rest, True))
        if hi: out.append((pre + [mask(hi)] + rest, False))
        pre = pre + [mask(c)]
    out.append((pre, True))
    return out


def decimal(text, start, n, sign=1, scale=1):
    """expected contribution tables of n digits from position start"""
    want = {}
    for k in range(n):
        m = sign * scale * 10 ** (n - 1 - k)
        want[byte_at(text, start + k)] = [(c - 48) * m for c in range(256)]
    return want


_job = None


def _call(k): return _job[0](_job[1][k])


def pool(jobs, f):
    """run f on the jobs in forked processes; results in order"""
    global _job
    import multiprocessing as mp
    jobs = list(jobs)
    if len(jobs) < 2: return [f(j) for j in jobs]
    _job = (f, jobs)
    with mp.get_context("fork").Pool(min(8, len(jobs))) as p: return p.map(_call, range(len(jobs)), chunksize=max(1, len(jobs) // 128))


class OutOfText(Exception): pass


def bounded(n, region="text"):
    """access hook: a definite access beyond the n characters of the text ends the analysis"""
    def h(kind, st, p, size, inst):
        if isinstance(p, P) and p.base.op == "region" and p.base.args[0] == region and p.off.is_const():
            k = sgn(p.off.c, 64)
            sz = size.c if hasattr(size, "c") else size
            if k < 0 or (isinstance(sz, int) and k + sz > n): raise OutOfText("character %d of %d" % (k, n))
    return h


def samples(box, n=14):
    """a few concrete texts of a box: its corners and mixtures"""
    cs = [bits_of(m) for m in box]
    out = []
    def put(f):
        t = tuple(f(k, c) for k, c in enumerate(cs))
        if t not in out: out.append(t)
    put(lambda k, c: c[-1]); put(lambda k, c: c[0])
    for h in range(1, min(5, len(cs)) + 1):
        put(lambda k, c: c[0] if k < h else c[-1]); put(lambda k, c: c[-1] if k < h else c[0])
    put(lambda k, c: c[len(c) // 2]); put(lambda k, c: c[0] if k % 2 else c[-1])
    pref = [ord(x) for x in " a0A9Z.,-f"]
    put(lambda k, c: next((x for x in pref if x in c), c[0]))
    return out[:n]


def decide(run, box, want, value=None):
    """does the analysed function accept (want) or reject every text of the box?  run(box) -> (ip, [(accepts, state, info)]).
    A verdict against the box is only reported with a concrete text of the box on which the analysis is exact.
    value(ip, st) -> (ok, why) is checked on the accepting states.  Returns [(rule, ok or None, why)]"""
    rule = "accepted" if want else "rejected"
    try: ip, res = run(box)
    except (OutOfText, build.Broken) as e:
        for t in samples(box)[:6]:
            try: ip, res = run([1 << c for c in t])
            except OutOfText as e2: return [(rule, False, "the text %s is read outside its bounds (%s)" % (repr(bytes(t))[1:], e2))]
            except build.Broken: continue
            if res and all(x[0] is (not want) for x in res): return [(rule, False, "the text %s is %s" % (repr(bytes(t))[1:], "rejected" if want else "accepted"))]
        return [(rule, None, str(e))]
    text = ip.argregs["text"]
    if not res: return [("accepted" if want else "rejected", None, "no outcome")]
    out = []
    bad = [(a, st, info) for a, st, info in res if a is not want]
    if not bad: out.append(("accepted" if want else "rejected", True, None))
    else:
        w = None
        for a, st, info in bad:
            sub = [st.feas.get(byte_at(text, k), FULL) & m for k, m in enumerate(box)]
            if not all(sub): continue
            for t in samples(sub):
                try: ip2, r2 = run([1 << c for c in t])
                except (OutOfText, build.Broken): continue
                if r2 and all(x[0] is (not want) for x in r2): w = (t, r2[0][2]); break
            if w: break
        if w: out.append((rule, False, "the text %s is %s%s" % (repr(bytes(w[0]))[1:], "rejected" if want else "accepted", ": %s" % (w[1][2] if isinstance(w[1], tuple) else w[1],) if w[1] else "")))
        else: out.append((rule, None, "verdict not determined for %s" % show(box)))
    if want and value:
        for a, st, info in res:
            if a is want:
                ok, why = value(ip, st)
                if ok is False:      # confirm on a concrete text
                    sub = [st.feas.get(byte_at(text, k), FULL) & m for k, m in enumerate(box)]
                    hit = False
                    for t in samples(sub):
                        try: ip2, r2 = run([1 << c for c in t])
                        except (OutOfText, build.Broken): continue
                        for a2, st2, _ in r2:
                            if a2 is want and value(ip2, st2)[0] is False: hit = True; why = "%s (text %s)" % (value(ip2, st2)[1], repr(bytes(t))[1:])
                        if hit: break
                    if not hit: ok = None
                out.append(("value", ok, why))
    return out
