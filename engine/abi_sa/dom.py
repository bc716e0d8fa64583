"""Abstract values: linear forms over integer terms combined with a bit-level domain whose atoms are
functions of one input byte (256-entry truth tables) or copied bits of an opaque word."""
from functools import lru_cache

FULL = (1 << 256) - 1
PROJ = []
for k in range(8):
    t = 0
    for v in range(256):
        if v >> k & 1: t |= 1 << v
    PROJ.append(t)


class Term:
    """An integer-valued unknown.  lo..hi is its range."""
    __slots__ = ("id", "w", "lo", "hi", "op", "args", "nonnull", "key")
    count = 0

    def __init__(self, w, lo, hi, op, args=(), nonnull=False):
        Term.count += 1
        self.id = Term.count; self.w = w; self.lo = lo; self.hi = hi; self.op = op; self.args = args; self.nonnull = nonnull

    def __repr__(self):
        if self.op in ("sym", "byte", "region"): return "%s" % (self.args[0] if self.args else self.id,)
        return "%s#%d" % (self.op, self.id)

    def desc(self, d=0):
        if d > 3: return "..."
        f = lambda a: a.desc(d + 1) if hasattr(a, "desc") else str(a)
        if self.op in ("sym", "byte", "region"): return str(self.args[0]) if self.args else "t%d" % self.id
        return "%s(%s)" % (self.op, ",".join(f(a) for a in self.args))


_terms = {}


def term(w, lo, hi, op, args, nonnull=False):
    k = (w, op, args)
    t = _terms.get(k)
    if t is None:
        t = Term(w, lo, hi, op, args, nonnull)
        _terms[k] = t
    return t


def fresh(w, name, lo=None, hi=None):
    return Term(w, 0 if lo is None else lo, (1 << w) - 1 if hi is None else hi, "sym", (name,))


def sgn(x, w):
    x &= (1 << w) - 1
    return x - (1 << w) if x >> (w - 1) else x


class V:
    __slots__ = ("w", "c", "lin", "bits", "key", "_dep", "__weakref__")

    def __init__(self, w, c, lin, bits):
        self.w = w; self.c = c; self.lin = lin; self.bits = bits; self._dep = False
        if bits is not None and None not in bits: self.key = ("b",) + bits
        else: self.key = ("l", w, c, lin)

    def __eq__(self, o):
        return isinstance(o, V) and (self is o or (self.w == o.w and (self.key == o.key or (self.c == o.c and self.lin == o.lin))))

    def __ne__(self, o): return not self == o

    def __hash__(self): return hash(self.key)

    @property
    def const(self): return self.c if not self.lin else None

    def is_const(self): return not self.lin

    @property
    def dep(self):
        """the single byte term all bits depend on; 0 if constant; None otherwise"""
        if self._dep is False:
            d = None
            if not self.lin: d = 0
            elif self.bits is not None:
                s = 0
                for b in self.bits:
                    if b is None: s = None; break
                    if b == 0 or b == 1: continue
                    if b[0] != "f": s = None; break
                    if s == 0: s = b[1]
                    elif s is not b[1]: s = None; break
                d = s
            self._dep = d
        return self._dep

    def __repr__(self): return self.desc()

    def desc(self, d=0):
        if not self.lin: return str(sgn(self.c, self.w) if self.w > 1 else self.c)
        s = []
        for t, k in self.lin:
            n = t.desc(d + 1)
            s.append(n if k == 1 else "%d*%s" % (k, n))
        if self.c: s.append(str(sgn(self.c, self.w)))
        return "+".join(s)


@lru_cache(maxsize=None)
def const(w, c):
    c &= (1 << w) - 1
    return V(w, c, (), tuple((c >> i) & 1 for i in range(w)))


def _nlin(w, d):
    h = 1 << (w - 1); m = (1 << w) - 1
    out = []
    for t in sorted(d, key=lambda t: t.id):
        k = d[t] & m
        if k == 0: continue
        if k >= h and w > 1: k -= 1 << w
        out.append((t, k))
    return tuple(out)


def mklin(w, c, d, bits=None):
    lin = _nlin(w, d) if isinstance(d, dict) else d
    c &= (1 << w) - 1
    if not lin: return const(w, c)
    if bits is None:
        if len(lin) == 1 and lin[0][1] == 1 and c == 0: bits = term_bits(lin[0][0], w)
    return V(w, c, lin, bits)


_tb = {}


def term_bits(t, w):
    k = (t, w)
    if k in _tb: return _tb[k]
    r = None
    if t.op == "byte":
        r = tuple(("f", t, PROJ[i]) for i in range(8)) + (0,) * (w - 8) if w >= 8 else None
    elif t.op == "bits":
        b = t.args
        if len(b) <= w and t.lo >= 0: r = tuple(b) + (0,) * (w - len(b))
    elif t.lo >= 0:
        n = max(1, t.hi.bit_length())
        if n <= w: r = tuple(("x", t, i) for i in range(n)) + (0,) * (w - n)
        else: r = tuple(("x", t, i) for i in range(w))
    _tb[k] = r
    return r


def mkterm(t, w=None):
    w = w or t.w
    return V(w, 0, ((t, 1),), term_bits(t, w))


def fbit(s, T):
    if T == 0: return 0
    if T == FULL: return 1
    return ("f", s, T)


_mb = {}


def mkbits(bits):
    """value from fully known bits"""
    bits = tuple(bits)
    r = _mb.get(bits)
    if r is not None: return r
    w = len(bits)
    if all(b == 0 or b == 1 for b in bits):
        r = const(w, sum(b << i for i, b in enumerate(bits)))
    else:
        r = None
        # whole term?
        n = w
        while n and bits[n - 1] == 0: n -= 1
        b0 = bits[0]
        if b0 not in (0, 1):
            t = b0[1]
            tb = term_bits(t, w)
            if tb == bits: r = V(w, 0, ((t, 1),), bits)
        if r is None:
            v = V(w, 0, ((None, 1),), bits)
            s = v.dep
            lo = sum(1 << i for i, b in enumerate(bits) if b == 1)
            hi = sum(1 << i for i, b in enumerate(bits) if b != 0)
            if s:
                vals = _vals_from_bits(bits)
                lo, hi = min(vals), max(vals)
            t = term(n, lo, hi, "bits", bits[:n])
            r = V(w, 0, ((t, 1),), bits)
    _mb[bits] = r
    return r


def _vals_from_bits(bits):
    out = [0] * 256
    for i, b in enumerate(bits):
        if b == 0: continue
        if b == 1:
            for v in range(256): out[v] |= 1 << i
        else:
            T = b[2]
            for v in range(256):
                if T >> v & 1: out[v] |= 1 << i
    return out


_vals = {}


def vals(v):
    """256 values of a value that depends on at most one byte"""
    r = _vals.get(v.key)
    if r is None:
        r = [v.c] * 256 if not v.lin else _vals_from_bits(v.bits)
        _vals[v.key] = r
    return r


def from_vals(s, vs, w):
    bits = []
    for i in range(w):
        T = 0
        for v in range(256):
            if vs[v] >> i & 1: T |= 1 << v
        bits.append(fbit(s, T))
    return mkbits(bits)


# ---- linear integer expressions: (dict term->int, const) -------------------------------------------------

class L:
    """sum of coef*term + c over the integers"""
    __slots__ = ("d", "c")

    def __init__(self, d, c): self.d = d; self.c = c

    def __add__(self, o):
        if isinstance(o, int): return L(self.d, self.c + o)
        d = dict(self.d)
        for t, k in o.d.items():
            n = d.get(t, 0) + k
            if n: d[t] = n
            else: d.pop(t, None)
        return L(d, self.c + o.c)

    def __sub__(self, o):
        if isinstance(o, int): return L(self.d, self.c - o)
        return self + o.scale(-1)

    def scale(self, k):
        if k == 0: return L({}, 0)
        return L({t: c * k for t, c in self.d.items()}, self.c * k)

    def key(self): return (frozenset(self.d.items()), self.c)

    def __repr__(self):
        return "+".join(["%d*%s" % (k, t.desc()) for t, k in self.d.items()] + [str(self.c)])
