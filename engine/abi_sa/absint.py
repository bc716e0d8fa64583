"""Abstract interpretation of one function of inlined IR.

The analysis computes a graph of abstract states (location x partition).  States arriving at the same location are
joined; joins are exact when the states differ only in the feasible set of one input byte, otherwise states are kept
apart up to a limit and then joined with loss of precision.  Loops are followed for a configurable number of iterations
and then closed by widening with inductively checked linear facts.  No path is enumerated for, or handed to, a solver.
"""
import heapq, os, sys
from .dom import *
from .dom import _vals_from_bits

I64 = 1 << 64
ADDR_LO, ADDR_HI = 1 << 12, 1 << 47
OFF_MAX = 1 << 62
DEBUG = int(os.environ.get("SA_DEBUG", "0"))


class P(V):
    """pointer: base term plus offset value"""
    __slots__ = ("base", "off")

    def __init__(self, base, off):
        d = {base: 1}
        for t, k in off.lin: d[t] = d.get(t, 0) + k
        from .dom import _nlin
        V.__init__(self, 64, off.c, _nlin(64, d), None)
        self.base = base; self.off = off
        self.key = ("p", base.id, off.key)

    def desc(self, d=0):
        return "&%s[%s]" % (self.base.desc(d + 1), self.off.desc(d + 1))


class Agg:
    __slots__ = ("f",)

    def __init__(self, f): self.f = list(f)

    def __eq__(self, o): return isinstance(o, Agg) and self.f == o.f

    def __hash__(self): return hash(tuple(self.f))

    key = property(lambda self: ("agg",) + tuple(x.key if x is not None else None for x in self.f))

    def __repr__(self): return "{%s}" % ",".join(map(repr, self.f))


class Reg:
    """contents of a memory region"""
    __slots__ = ("cells", "ver")

    def __init__(self, cells=None, ver=0): self.cells = cells if cells is not None else {}; self.ver = ver


class State:
    __slots__ = ("env", "mem", "feas", "rng", "known", "facts", "esc", "aux")

    def __init__(self):
        self.env = {}; self.mem = {}; self.feas = {}; self.rng = {}; self.known = {}; self.facts = {}; self.esc = frozenset(); self.aux = {}

    def copy(self):
        s = State()
        s.env = dict(self.env); s.mem = dict(self.mem); s.feas = dict(self.feas); s.rng = dict(self.rng); s.known = dict(self.known)
        s.facts = dict(self.facts); s.esc = self.esc; s.aux = dict(self.aux)
        return s


class Node:
    count = 0

    def __init__(self, loc, state):
        Node.count += 1
        self.id = Node.count; self.loc = loc; self.state = state; self.edges = []; self.done = False; self.widened = 0; self.jterms = {}

    def __repr__(self): return "N%d@%s" % (self.id, self.loc)


class Outcome:
    """a way the function ends: kind 'ret' | 'throw' | 'unreachable' | 'stuck'"""
    def __init__(self, kind, state, value=None, info=None, inst=None):
        self.kind = kind; self.state = state; self.value = value; self.info = info; self.inst = inst

    def __repr__(self): return "<%s %r %r>" % (self.kind, self.value, self.info)


class TooBig(Exception): pass


def ibits(ty):
    if ty == "ptr": return 64
    if ty and ty[0] == "i" and ty[1:].isdigit(): return int(ty[1:])
    if ty == "double": return 64
    if ty == "float": return 32
    return None


class Interp:
    def __init__(self, mod, fn, models=None, unroll=0, limit=16, max_nodes=20000, inline_default_havoc=True, default_model=None, loop_unroll=None,
                 follow_catch=True, merge_aux=None):
        self.mod = mod; self.fn = fn; self.models = models or {}; self.unroll = unroll; self.limit = limit; self.max_nodes = max_nodes
        self.default_model = default_model
        self.loop_unroll = loop_unroll or {}
        self.access = []       # hooks(kind, state, ptr, sizeV(L or V), inst)
        self.keep = False      # do not merge states whose path conditions differ
        self.divided = None    # hook(ip, state, inst, dividend, divisor)
        self.aligned = {}      # local object -> alignment
        self.event_hooks = []
        self.outcomes = []
        self.nodes = []
        self.cover = set()
        self.globs = {}
        self.follow_catch = follow_catch
        self.loops = {}
        self.loop_of = {}
        for l in fn.loops():
            self.loops[l["header"]] = set(l["blocks"])
        hs = sorted(self.loops, key=lambda h: -len(self.loops[h]))
        for b in fn.order:
            self.loop_of[b] = tuple(h for h in hs if b in self.loops[h])
        self.rpo_i = {}
        self._rpo_full()
        self._live()
        self.cuts = 0
        self.ns = ""           # distinguishes the locals of nested activations

    # ---- CFG helpers (including exceptional edges) ----
    def succs(self, b):
        s = list(self.fn.succ[b])
        if self.fn.unwind[b] is not None: s.append(self.fn.unwind[b])
        return s

    def _rpo_full(self):
        seen = set(); out = []
        st = [(self.fn.entry, iter(self.succs(self.fn.entry)))]; seen.add(self.fn.entry)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s); st.append((s, iter(self.succs(s)))); break
            else:
                out.append(b); st.pop()
        for i, b in enumerate(reversed(out)): self.rpo_i[b] = i

    def _live(self):
        fn = self.fn
        use = {}; dfn = {}; phi_use = {}
        for b in fn.order:
            u = set(); d = set()
            for i in fn.blocks[b]:
                if i.op == "phi":
                    for o, p in zip(i.ops, i.d["in"]):
                        for x in self._vrefs(o): phi_use.setdefault(p, set()).add(x)
                else:
                    for o in i.ops:
                        for x in self._vrefs(o):
                            if x not in d: u.add(x)
                    if i.get("fptr"):
                        for o in i.get("fptr"):
                            for x in self._vrefs(o):
                                if x not in d: u.add(x)
                d.add(i.id)
            use[b] = u; dfn[b] = d
        live = {b: set() for b in fn.order}
        ch = True
        while ch:
            ch = False
            for b in sorted(self.rpo_i, key=lambda b: -self.rpo_i[b]):
                o = set(phi_use.get(b, ()))
                for s in self.succs(b): o |= live[s] - {i.id for i in fn.blocks[s] if i.op == "phi"}
                n = use[b] | (o - dfn[b])
                for i in fn.blocks[b]:
                    if i.op == "phi": n.add(i.id)
                if n != live[b]: live[b] = n; ch = True
        self.live = live

    def _vrefs(self, o):
        if not isinstance(o, list) or not o: return
        if o[0] == "v": yield o[1]
        elif o[0] in ("cgep",): yield from self._vrefs(o[1])
        elif o[0] == "ce":
            for x in o[2:]: yield from self._vrefs(x)

    # ---- value construction ----
    def region(self, name, nonnull=True, kind=None):
        return term(64, ADDR_LO if nonnull else 0, ADDR_HI, "region", (name, kind), nonnull)

    def ptr_fresh(self, name):
        return P(term(64, 0, ADDR_HI, "ptr", (name,)), const(64, 0))

    def glob(self, name):
        return P(term(64, ADDR_LO, ADDR_HI, "region", ("@" + name, "global"), True), const(64, 0))

    def operand(self, st, o, w=None):
        k = o[0]
        if k == "v":
            v = st.env.get(o[1])
            if v is None:
                i = self.fn.insts.get(o[1])
                v = self.opaque(st, ibits(i.ty if i else None) or 64, ("undefd", o[1]), i.ty if i else None)
            return self.norm(st, v)
        if k == "c":
            c = o[1]
            if isinstance(c, dict): c = int(c["big"])
            return const(o[2], c)
        if k == "null": return const(64, 0)
        if k == "undef": return const(w or 64, 0) if w else term_undef()
        if k == "g": return self.glob(o[1])
        if k == "cgep":
            b = self.operand(st, o[1])
            if o[2].get("off") == "unknown": return self.ptr_fresh(("cgep", str(o)))
            v = self.padd(b, const(64, o[2]["off"]))
            for x, s in o[2]["vars"]:
                v = self.padd(v, self.mul(st, self.operand(st, x), const(64, s)))
            return v
        if k == "ce":
            if o[1] in ("ptrtoint", "inttoptr", "bitcast", "addrspacecast"): return self.operand(st, o[2])
            if o[1] in ("trunc",): return self.opaque(st, w or 64, ("ce", str(o)))
            if o[1] == "sub": return self.sub(st, self.operand(st, o[2]), self.operand(st, o[3]))
            if o[1] == "add": return self.add(st, self.operand(st, o[2]), self.operand(st, o[3]))
            return self.opaque(st, w or 64, ("ce", str(o)))
        if k == "f":
            return mkterm(term(w or 64, 0, (1 << (w or 64)) - 1, "fp", (o[1],)))
        if k == "k":
            return self.opaque(st, w or 64, ("k", str(o)))
        return self.opaque(st, w or 64, ("?", str(o)))

    def opaque(self, st, w, key, ty=None):
        if ty == "ptr": return P(term(64, 0, ADDR_HI, "ptr", key if isinstance(key, tuple) else (key,)), const(64, 0))
        return mkterm(term(w, 0, (1 << w) - 1, "sym", key if isinstance(key, tuple) else (key,)))

    def norm(self, st, v):
        """apply singleton facts of the state"""
        if not isinstance(v, V) or not v.lin: return v
        if isinstance(v, P):
            o = self.norm(st, v.off)
            return v if o is v.off else P(v.base, o)
        s = v.dep
        if s:
            m = st.feas.get(s)
            if m is not None:
                vs = vals(v); it = m; first = None; same = True
                # constant on the feasible set?
                i = 0
                while it:
                    low = (it & -it).bit_length() - 1
                    if first is None: first = vs[low]
                    elif vs[low] != first: same = False; break
                    it &= it - 1
                if same and first is not None: return const(v.w, first)
            return v
        ch = False
        for t, k in v.lin:
            r = st.rng.get(t)
            if r and r[0] == r[1]: ch = True; break
            if t in st.known: ch = True; break
            if t.op == "byte":
                m = st.feas.get(t)
                if m is not None and m & (m - 1) == 0: ch = True; break
            elif t.op == "bits" and v.bits is not None:
                for b in v.bits:
                    if b is not None and b not in (0, 1) and b[0] == "f":
                        m = st.feas.get(b[1])
                        if m is not None and (b[2] & m == 0 or b[2] & m == m): ch = True; break
                if ch: break
        if not ch: return v
        c = v.c; d = {}
        for t, k in v.lin:
            r = st.rng.get(t)
            if r and r[0] == r[1]: c += k * r[0]; continue
            if t in st.known and t.w == 1: c += k * int(st.known[t]); continue
            if t.op == "byte":
                m = st.feas.get(t)
                if m is not None and m & (m - 1) == 0: c += k * (m.bit_length() - 1); continue
            d[t] = d.get(t, 0) + k
        if v.bits is not None and len(v.lin) == 1 and v.lin[0][0].op in ("bits",):
            nb = []
            for b in v.bits:
                if b is None or b in (0, 1): nb.append(b)
                elif b[0] == "f":
                    m = st.feas.get(b[1], FULL)
                    nb.append(0 if b[2] & m == 0 else 1 if b[2] & m == m else b)
                else:
                    r = st.rng.get(b[1])
                    nb.append((r[0] >> b[2]) & 1 if r and r[0] == r[1] else b)
            if None not in nb: return mkbits(nb)
        bits = v.bits if c == v.c and d else None
        return mklin(v.w, c, d, bits)

    # ---- ranges ----
    def trange(self, st, t):
        lo, hi = t.lo, t.hi
        r = st.rng.get(t)
        if r: lo = max(lo, r[0]); hi = min(hi, r[1])
        if t.op == "byte":
            m = st.feas.get(t)
            if m is not None:
                if m == 0: return lo, hi
                lo = max(lo, (m & -m).bit_length() - 1); hi = min(hi, m.bit_length() - 1)
        elif t.op == "bfun":
            m = st.feas.get(t.args[0], FULL); vs = t.args[1]
            xs = [vs[i] for i in range(256) if m >> i & 1]
            if xs: lo = max(lo, min(xs)); hi = min(hi, max(xs))
        elif t.op == "bits":
            vlo = vhi = 0
            s = 0; single = True
            skip = 0; alo = ahi = 0
            for i, b in enumerate(t.args):
                if i < skip: continue
                if b == 0: continue
                if b == 1: vlo |= 1 << i; vhi |= 1 << i; continue
                if b[0] == "x" and b[2] == 0:       # all the bits of a number side by side
                    n = 1
                    while i + n < len(t.args) and t.args[i + n] == ("x", b[1], n): n += 1
                    xlo, xhi = self.trange(st, b[1])
                    if 0 <= xlo and xhi < 1 << n: alo += xlo << i; ahi += xhi << i; skip = i + n; single = False; continue
                if b[0] == "f":
                    m = st.feas.get(b[1], FULL)
                    if s == 0: s = b[1]
                    elif s is not b[1]: single = False
                    if b[2] & m == 0: continue
                    vhi |= 1 << i
                    if b[2] & m == m: vlo |= 1 << i
                else:
                    single = False
                    if b[0] == "x":
                        xlo, xhi = self.trange(st, b[1])
                        if 0 <= xlo and xhi < 1 << b[2]: continue
                    vhi |= 1 << i
            if single and s:
                vs = vals(mkbits(t.args)); m = st.feas.get(s, FULL)
                xs = [vs[i] for i in range(256) if m >> i & 1]
                if xs: vlo, vhi = min(xs), max(xs)
            lo = max(lo, vlo + alo); hi = min(hi, vhi + ahi)
        return lo, hi

    def lrange(self, st, l):
        lo = hi = l.c
        for t, k in l.d.items():
            a, b = self.trange(st, t)
            if k > 0: lo += k * a; hi += k * b
            else: lo += k * b; hi += k * a
        return lo, hi

    def raw(self, v):
        return L(dict(v.lin), sgn(v.c, v.w) if v.w > 1 else v.c)

    def uval(self, st, v):
        """the unsigned value as an integer linear expression"""
        w = v.w; M = 1 << w
        if not v.lin: return L({}, v.c)
        l = self.raw(v)
        lo, hi = self.lrange(st, l)
        if lo >= 0 and hi < M: return l
        if lo + M >= 0 and hi + M < M: return l + M
        if lo - M >= 0 and hi - M < M: return l - M
        if not isinstance(v, P):
            if st.facts and (lo > -4 * M and hi < 4 * M):
                if (lo >= 0 or self.prove_le(st, l.scale(-1))) and (hi < M or self.prove_le(st, l - (M - 1))): return l
        else:
            # addresses do not wrap
            return l
        b = self._bfun(st, v, 0, M - 1)
        if b is not None: return b
        t = term(w, 0, M - 1, "u", (v,))
        if v.bits is not None: # range from bits
            return L({t: 1}, 0)
        return L({t: 1}, 0)

    def sval(self, st, v):
        w = v.w; M = 1 << w; H = M >> 1
        if not v.lin: return L({}, sgn(v.c, w))
        l = self.raw(v)
        lo, hi = self.lrange(st, l)
        if lo >= -H and hi < H: return l
        for k in (M, -M):
            if lo + k >= -H and hi + k < H: return l + k
        if isinstance(v, P): return l
        if st.facts and lo > -4 * M and hi < 4 * M:
            if (lo >= -H or self.prove_le(st, l.scale(-1) - H)) and (hi < H or self.prove_le(st, l - (H - 1))): return l
        b = self._bfun(st, v, -H, H - 1)
        if b is not None: return b
        t = term(w, -H, H - 1, "s", (v,))
        return L({t: 1}, 0)

    def _bfun(self, st, v, lo, hi):
        """integer view of a sum of functions of single bytes, each taken modulo 2^w into the window nearest to zero, when the sum stays
        within lo..hi"""
        w = v.w; M = 1 << w; H = M >> 1
        r = bytes_of(v)
        if r is None: return None
        by, c = r
        out = {}
        for b, vs in by.items():
            m = st.feas.get(b, FULL)
            v0 = vs[(m & -m).bit_length() - 1]
            c += v0
            vs = tuple((x - v0 + H) % M - H for x in vs)
            out[term(w, min(vs), max(vs), "bfun", (b, vs))] = 1
        l = L(out, sgn(c & (M - 1), w))
        a, z = self.lrange(st, l)
        if lo <= a and z <= hi: return l
        if lo <= a + M and z + M <= hi: return l + M
        if lo <= a - M and z - M <= hi: return l - M
        return None

    def urange(self, st, v):
        if not v.lin: return v.c, v.c
        s = v.dep
        if s:
            m = st.feas.get(s, FULL); vs = vals(v)
            xs = [vs[i] for i in range(256) if m >> i & 1]
            if xs: return min(xs), max(xs)
        return self._clamp(self.lrange(st, self.uval(st, v)), 0, (1 << v.w) - 1)

    def srange(self, st, v):
        if not v.lin: c = sgn(v.c, v.w); return c, c
        s = v.dep
        if s:
            m = st.feas.get(s, FULL); vs = vals(v)
            xs = [sgn(vs[i], v.w) for i in range(256) if m >> i & 1]
            if xs: return min(xs), max(xs)
        return self._clamp(self.lrange(st, self.sval(st, v)), -(1 << (v.w - 1)), (1 << (v.w - 1)) - 1)

    def _clamp(self, r, lo, hi): return max(r[0], lo), min(r[1], hi)

    # ---- facts ----
    def add_fact(self, st, l):
        """assume l <= 0"""
        if not l.d: return l.c <= 0
        if self.lrange(st, l)[1] <= 0: return True
        if self.lrange(st, l)[0] > 0: return False
        if len(l.d) == 1:
            (t, k), = l.d.items()
            # k*t + c <= 0
            lo, hi = self.trange(st, t)
            if k > 0: hi = min(hi, (-l.c) // k)
            else: lo = max(lo, -((-l.c) // (-k)) if False else -(-l.c // -k) if False else self._cdiv(l.c, -k))
            if lo > hi: return False
            st.rng[t] = (lo, hi)
            if t.op == "byte":
                m = st.feas.get(t, FULL)
                for v in range(256):
                    if not lo <= v <= hi: m &= ~(1 << v)
                if not m: return False
                st.feas[t] = m
            return True
        st.facts[l.key()] = l
        if len(st.facts) > 120:
            st.facts.pop(next(iter(st.facts)))
        return True

    @staticmethod
    def _cdiv(a, b): return -((-a) // b)

    def axioms(self, t):
        """facts that hold by definition of a term (list of L <= 0)"""
        r = getattr(self, "_ax", None)
        if r is None: r = self._ax = {}
        if t in r: return r[t]
        out = []
        if t.op == "udiv":     # args (L a as tuple-key holder, c): t = floor(a/c)
            a, c = t.args[0].l, t.args[1]
            out.append(L({t: c}, 0) - a)            # c*t <= a
            out.append(a - L({t: c}, c - 1))        # a <= c*t + c-1
        elif t.op == "urem":
            a, c = t.args[0].l, t.args[1]
            q = term(t.w, 0, (1 << t.w) - 1, "udiv", t.args)
            e = a - L({q: c}, 0) - L({t: 1}, 0)
            out += [e, e.scale(-1)]
        r[t] = out
        return out

    def prove_le(self, st, l, depth=5, extra=()):
        """is l <= 0 implied?"""
        self._pb = 400
        if any(not f.d and f.c > 0 for f in extra): return True
        return self._prove(st, l, depth, set(), extra)

    def _prove(self, st, l, depth, seen, extra):
        lo, hi = self.lrange(st, l)
        if hi <= 0: return True
        if lo > 0: return False
        if depth == 0: return False
        self._pb -= 1
        if self._pb < 0: return False
        k = l.key()
        if k in seen: return False
        seen.add(k)
        cand = []
        fs = list(st.facts.values()) + list(extra)
        ts = sorted(l.d, key=lambda t: -abs(l.d[t]) * max(1, (self.trange(st, t)[1] - self.trange(st, t)[0])))
        for t in ts:
            c = l.d[t]
            for f in fs + self.axioms(t):
                fc = f.d.get(t)
                if fc and (fc > 0) == (c > 0):
                    cand.append((t, c, f, fc))
        for t, c, f, fc in cand:
            # l*|fc| - f*|c| eliminates t
            n = l.scale(abs(fc)) - f.scale(abs(c))
            if self._prove(st, n, depth - 1, seen, extra): return True
        return False

    # ---- arithmetic ----
    def _byte_op(self, a, b, f, w):
        """exact evaluation when the operands depend on one byte"""
        if not isinstance(a, V) or isinstance(a, P) or isinstance(b, P): return None
        da = a.dep; db = b.dep if b is not None else 0
        if da is None or db is None or (da and db and da is not db): return None
        s = da or db
        if not s: return None
        va = vals(a)
        M = (1 << w) - 1
        if b is None: return from_vals(s, [f(x) & M for x in va], w)
        vb = vals(b)
        return from_vals(s, [f(x, y) & M for x, y in zip(va, vb)], w)

    def padd(self, p, o):
        if isinstance(p, P):
            for t, k in o.lin:
                if t is p.base and k in (-1, (1 << 64) - 1): return mklin(64, p.c + o.c, self._ladd(p.lin, o.lin, 1))
            return P(p.base, self.add(None, p.off, o))
        if isinstance(o, P): return self.padd(o, p)
        return self.add(None, p, o)

    def add(self, st, a, b):
        if isinstance(a, P) and isinstance(b, P): return mklin(64, a.c + b.c, self._ladd(a.lin, b.lin, 1))
        if isinstance(a, P) or isinstance(b, P): return self.padd(a, b)
        w = a.w
        if not a.lin and not b.lin: return const(w, a.c + b.c)
        if not b.lin and b.c == 0: return a
        if not a.lin and a.c == 0: return b
        r = self._byte_op(a, b, lambda x, y: x + y, w)
        if r is not None: return r
        if a.bits is not None and b.bits is not None and None not in a.bits and None not in b.bits:
            if all(x == 0 or y == 0 for x, y in zip(a.bits, b.bits)):
                return self._mk(w, a.c + b.c, self._ladd(a.lin, b.lin, 1), [y if x == 0 else x for x, y in zip(a.bits, b.bits)])
        return mklin(w, a.c + b.c, self._ladd(a.lin, b.lin, 1))

    def _mk(self, w, c, d, bits):
        r = mkbits(bits)
        if not r.lin: return r
        if len(r.lin) == 1 and r.lin[0][0].op != "bits": return r
        return r

    def _ladd(self, x, y, k):
        d = {}
        for t, c in x: d[t] = d.get(t, 0) + c
        for t, c in y: d[t] = d.get(t, 0) + k * c
        return d

    def sub(self, st, a, b):
        if isinstance(a, P) and isinstance(b, P) and a.base is b.base: return self.sub(st, a.off, b.off)
        if isinstance(a, P) and not isinstance(b, P): return P(a.base, self.sub(st, a.off, b))
        w = a.w
        if a == b: return const(w, 0)
        if not a.lin and not b.lin: return const(w, a.c - b.c)
        r = self._byte_op(a, b, lambda x, y: x - y, w)
        if r is not None: return r
        if not b.lin and b.c == 0: return a
        return mklin(w, a.c - b.c, self._ladd(a.lin, b.lin, -1))

    def mul(self, st, a, b):
        w = a.w
        if not a.lin: a, b = b, a
        if not a.lin: return const(w, a.c * b.c)
        if not b.lin:
            if b.c == 1: return a
            if b.c == 0: return const(w, 0)
            r = self._byte_op(a, b, lambda x, y: x * y, w)
            if r is not None: return r
            if b.c & (b.c - 1) == 0: return self.shl(st, a, const(w, b.c.bit_length() - 1))
            k = sgn(b.c, w)
            # multiplying modulo 2^w is linear
            return mklin(w, a.c * b.c, {t: c * k for t, c in a.lin})
        r = self._byte_op(a, b, lambda x, y: x * y, w)
        if r is not None: return r
        args = tuple(sorted((a, b), key=lambda v: v.desc()))
        if w > 64 and st is not None:
            (p, q), (r, s) = self.srange(st, a), self.srange(st, b)
            c = (p * r, p * s, q * r, q * s)
            if -(1 << (w - 1)) <= min(c) and max(c) < 1 << (w - 1):
                t = term(w, -(1 << (w - 1)), (1 << (w - 1)) - 1, "smul", args)
                self._trng(st, t, min(c), max(c))
                return mkterm(t, w)
        return mkterm(term(w, 0, (1 << w) - 1, "mul", args))

    def shl(self, st, a, b):
        w = a.w
        if b.lin:
            r = self._byte_op(a, b, lambda x, y: x << y if y < w else 0, w)
            return r if r is not None else mkterm(term(w, 0, (1 << w) - 1, "shl", (a, b)))
        k = b.c
        if k >= w: return const(w, 0)
        if not a.lin: return const(w, a.c << k)
        if k == 0: return a
        d = {t: c << k for t, c in a.lin}
        if a.bits is not None and None not in a.bits:
            r = mkbits([0] * k + list(a.bits[:w - k]))
            # keep the linear view when nothing is shifted out
            if r.lin and all(x == 0 for x in a.bits[w - k:]): return V(w, (a.c << k) & ((1 << w) - 1), mklin(w, a.c << k, d).lin, r.bits) if not a.dep else r
            return r
        return mklin(w, a.c << k, d)

    def lshr(self, st, a, b):
        w = a.w
        if b.lin:
            r = self._byte_op(a, b, lambda x, y: x >> y if y < w else 0, w)
            return r if r is not None else mkterm(term(w, 0, (1 << w) - 1, "lshr", (a, b)))
        k = b.c
        if not a.lin: return const(w, a.c >> k)
        if k == 0: return a
        if k >= w: return const(w, 0)
        u = self.uval(st, a)
        exact = u.c % (1 << k) == 0 and all(c % (1 << k) == 0 for c in u.d.values())
        bits = None
        if a.bits is not None and None not in a.bits: bits = list(a.bits[k:]) + [0] * k
        if exact and len(u.d): 
            r = mklin(w, u.c >> k, {t: c >> k for t, c in u.d.items()})
            if bits is not None and r.bits is None:
                m = mkbits(bits); return V(w, r.c, r.lin, m.bits) if m.lin else m
            return r
        if bits is not None:
            return mkbits(bits)
        return self.udivc(st, a, 1 << k)

    def ashr(self, st, a, b, exact=False):
        w = a.w
        if b.lin:
            r = self._byte_op(a, b, lambda x, y: sgn(x, w) >> min(y, w - 1), w)
            return r if r is not None else mkterm(term(w, 0, (1 << w) - 1, "ashr", (a, b)))
        k = min(b.c, w - 1)
        if not a.lin: return const(w, sgn(a.c, w) >> k)
        if k == 0: return a
        s = self.sval(st, a)
        if s.c % (1 << k) == 0 and all(c % (1 << k) == 0 for c in s.d.values()) and s.d:
            return mklin(w, s.c >> k, {t: c >> k for t, c in s.d.items()})
        if a.bits is not None and None not in a.bits:
            return mkbits(list(a.bits[k:]) + [a.bits[-1]] * k)
        lo, hi = self.srange(st, a)
        if lo >= 0: return self.udivc(st, a, 1 << k)
        lo >>= k; hi >>= k
        return self._opq("ashr", w, (a, b), lo, hi)

    def _opq(self, op, w, args, lo, hi):
        t = term(w, lo, hi, op, args + (lo, hi))
        return V(w, 0, ((t, 1),), term_bits(t, w))

    def udivc(self, st, a, c):
        w = a.w
        u = self.uval(st, a)
        lo, hi = self.urange(st, a)
        if u.d and u.c % c == 0 and all(k % c == 0 for k in u.d.values()):
            return mklin(w, u.c // c, {t: k // c for t, k in u.d.items()})
        if lo // c == hi // c: return const(w, lo // c)
        h = LH(u)
        t = term(w, 0, (1 << w) - 1, "udiv", (h, c))
        self._trng(st, t, lo // c, hi // c)
        return mkterm(t, w)

    def _trng(self, st, t, lo, hi):
        a, b = self.trange(st, t)
        lo = max(a, lo); hi = min(b, hi)
        if lo <= hi: st.rng[t] = (lo, hi)

    def udiv(self, st, a, b):
        w = a.w
        if not b.lin and b.c:
            if not a.lin: return const(w, a.c // b.c)
            if b.c == 1: return a
            r = self._byte_op(a, b, lambda x, y: x // y, w)
            if r is not None: return r
            if b.c & (b.c - 1) == 0: return self.lshr(st, a, const(w, b.c.bit_length() - 1))
            return self.udivc(st, a, b.c)
        r = self._byte_op(a, b, lambda x, y: x // y if y else 0, w)
        if r is not None: return r
        lo, hi = self.urange(st, a); bl, bh = self.urange(st, b)
        return self._opq("udivv", w, (a, b), lo // max(bh, 1), hi // max(bl, 1))

    def urem(self, st, a, b):
        w = a.w
        if not b.lin and b.c:
            if not a.lin: return const(w, a.c % b.c)
            r = self._byte_op(a, b, lambda x, y: x % y, w)
            if r is not None: return r
            if b.c & (b.c - 1) == 0: return self.and_(st, a, const(w, b.c - 1))
            lo, hi = self.urange(st, a)
            if hi < b.c: return a
            u = self.uval(st, a)
            t = term(w, 0, b.c - 1, "urem", (LH(u), b.c))
            return mkterm(t, w)
        r = self._byte_op(a, b, lambda x, y: x % y if y else 0, w)
        if r is not None: return r
        lo, hi = self.urange(st, b)
        return self._opq("uremv", w, (a, b), 0, max(hi - 1, 0))

    def sdiv(self, st, a, b, exact=False):
        w = a.w
        f = lambda x, y: (abs(sgn(x, w)) // abs(sgn(y, w))) * (1 if (sgn(x, w) < 0) == (sgn(y, w) < 0) else -1) if y else 0
        if not a.lin and not b.lin and b.c: return const(w, f(a.c, b.c))
        r = self._byte_op(a, b, f, w)
        if r is not None: return r
        if not b.lin and b.c:
            c = sgn(b.c, w)
            s = self.sval(st, a)
            if s.d and s.c % c == 0 and all(k % c == 0 for k in s.d.values()):
                return mklin(w, s.c // c, {t: k // c for t, k in s.d.items()})
            lo, hi = self.srange(st, a)
            if lo >= 0 and c > 0: return self.udiv(st, a, b)
            if c > 0:
                lo2 = -(-lo // c) if lo < 0 else lo // c; hi2 = -(-hi // c) if hi < 0 else hi // c
                t = term(w, -(1 << (w - 1)), (1 << (w - 1)) - 1, "sdiv", (LH(s), c))
                self._trng(st, t, lo2, hi2)
                return mkterm(t, w)
        return mkterm(term(w, 0, (1 << w) - 1, "sdivv", (a, b)))

    def srem(self, st, a, b):
        w = a.w
        def f(x, y):
            x = sgn(x, w); y = sgn(y, w)
            if not y: return 0
            r = abs(x) % abs(y)
            return -r if x < 0 else r
        if not a.lin and not b.lin and b.c: return const(w, f(a.c, b.c))
        r = self._byte_op(a, b, f, w)
        if r is not None: return r
        if not b.lin and b.c:
            c = abs(sgn(b.c, w)); lo, hi = self.srange(st, a)
            if lo >= 0: return self.urem(st, a, const(w, c))
            return self._opq("srem", w, (a, b), -(c - 1), c - 1 if hi > 0 else 0)
        return mkterm(term(w, 0, (1 << w) - 1, "sremv", (a, b)))

    def _bitop(self, st, a, b, op):
        w = a.w
        if not a.lin and not b.lin:
            return const(w, {"and": a.c & b.c, "or": a.c | b.c, "xor": a.c ^ b.c}[op])
        if a == b: return const(w, 0) if op == "xor" else a
        if isinstance(a, P) or isinstance(b, P):
            if op == "xor" and w > 1:
                for x, y in ((a, b), (b, a)):
                    if not y.lin and y.c == (1 << w) - 1: return self.sub(st, y, x)      # ~x == -1 - x
            if op == "and":
                for x, y in ((a, b), (b, a)):
                    if isinstance(x, P) and not isinstance(y, P) and not y.lin and y.c < self.aligned.get(x.base, 1): return self._bitop(st, x.off, y, op)
            return mkterm(term(w, 0, (1 << w) - 1, op, (a, b)))
        r = self._byte_op(a, b, {"and": lambda x, y: x & y, "or": lambda x, y: x | y, "xor": lambda x, y: x ^ y}[op], w)
        if r is not None: return r
        ab = a.bits or (None,) * w; bb = b.bits or (None,) * w
        out = []
        for x, y in zip(ab, bb):
            out.append(self._bit2(op, x, y))
        if None in out and st is not None and st.feas:
            out = [z if z is not None else self._bit2(op, self.fbit1(st, x), self.fbit1(st, y)) for z, x, y in zip(out, ab, bb)]
        if None not in out: return mkbits(out)
        if op == "xor" and w > 1:
            for x, y in ((a, b), (b, a)):
                if not y.lin and y.c == (1 << w) - 1: return self.sub(st, y, x)
        if op != "and" and st is not None and w > 1:
            for x, y, xb in ((a, b, ab), (b, a, bb)):
                tz = 0
                while tz < w and xb[tz] == 0: tz += 1
                if tz and self.urange(st, y)[1] < 1 << tz: return self.add(st, x, y)
        # low mask of an arithmetic value: keep as remainder
        if op == "and" and not b.lin and b.c & (b.c + 1) == 0 and b.c:
            lo, hi = self.urange(st, a)
            if hi <= b.c: return a
            return mkterm(term(w, 0, b.c, "urem", (LH(self.uval(st, a)), b.c + 1)), w)
        if op == "and" and not a.lin and a.c & (a.c + 1) == 0: return self._bitop(st, b, a, op)
        al, ah = self.urange(st, a); bl, bh = self.urange(st, b)
        if op == "and": lo, hi = 0, min(ah, bh)
        else:
            lo, hi = (max(al, bl) if op == "or" else 0), (1 << max(ah.bit_length(), bh.bit_length())) - 1
        if w == 1: lo, hi = 0, 1
        x, y = (a, b) if repr(a) <= repr(b) else (b, a)
        if w == 1:
            # not
            if op == "xor" and not y.lin and y.c == 1: return self.not1(x)
            if op == "xor" and not x.lin and x.c == 1: return self.not1(y)
            return mkterm(term(1, 0, 1, op, (x, y)))
        return self._opq(op, w, (x, y), lo, hi)

    def fbit1(self, st, b):
        """a bit under the feasible set of its byte"""
        if b is None or b in (0, 1) or b[0] != "f": return b
        m = st.feas.get(b[1])
        if m is None: return b
        return 0 if b[2] & m == 0 else 1 if b[2] & m == m else b

    def not1(self, v):
        if not v.lin: return const(1, 1 - v.c)
        t = v.lin[0][0]
        if v.dep: return from_vals(v.dep, [1 - x for x in vals(v)], 1)
        if len(v.lin) == 1 and t.op == "not": return t.args[0]
        if len(v.lin) == 1 and t.op == "icmp":
            inv = {"eq": "ne", "ne": "eq", "ult": "uge", "uge": "ult", "ule": "ugt", "ugt": "ule", "slt": "sge", "sge": "slt", "sle": "sgt", "sgt": "sle"}[t.args[0]]
            return self._icmp_term(inv, t.args[1], t.args[2])
        return mkterm(term(1, 0, 1, "not", (v,)))

    def _bit2(self, op, x, y):
        if op == "and":
            if x == 0 or y == 0: return 0
            if x == 1: return y
            if y == 1: return x
            if x is not None and x == y: return x
            if x and y and x[0] == "f" and y[0] == "f" and x[1] is y[1]: return fbit(x[1], x[2] & y[2])
        elif op == "or":
            if x == 1 or y == 1: return 1
            if x == 0: return y
            if y == 0: return x
            if x is not None and x == y: return x
            if x and y and x[0] == "f" and y[0] == "f" and x[1] is y[1]: return fbit(x[1], x[2] | y[2])
        else:
            if x == 0: return y
            if y == 0: return x
            if x is not None and x == y: return 0
            if x == 1 and y and y[0] == "f": return fbit(y[1], FULL & ~y[2])
            if y == 1 and x and x[0] == "f": return fbit(x[1], FULL & ~x[2])
            if x == 1 and y and y[0] == "x": return ("nx", y[1], y[2])
            if y == 1 and x and x[0] == "x": return ("nx", x[1], x[2])
            if x == 1 and y and y[0] == "nx": return ("x", y[1], y[2])
            if y == 1 and x and x[0] == "nx": return ("x", x[1], x[2])
            if x == 1 and y == 1: return 0
            if x and y and x not in (1,) and y not in (1,) and x[0] == "f" and y[0] == "f" and x[1] is y[1]: return fbit(x[1], x[2] ^ y[2])
        return None

    def and_(self, st, a, b): return self._bitop(st, a, b, "and")

    def zext(self, st, a, w):
        if a.w == w: return a
        if not a.lin: return const(w, a.c)
        if a.bits is not None and None not in a.bits:
            r = mkbits(list(a.bits) + [0] * (w - a.w))
            if a.dep or a.w == 1: return r
            u = self.uval(st, a)
            if all(t.op != "u" for t in u.d): return V(w, u.c & ((1 << w) - 1), mklin(w, u.c, dict(u.d)).lin, r.bits)
            return r
        u = self.uval(st, a)
        return mklin(w, u.c, dict(u.d))

    def sext(self, st, a, w):
        if a.w == w: return a
        if not a.lin: return const(w, sgn(a.c, a.w) if a.w > 1 else -a.c)
        if a.bits is not None and None not in a.bits and (a.dep or a.w == 1):
            return mkbits(list(a.bits) + [a.bits[-1]] * (w - a.w))
        s = self.sval(st, a)
        bits = list(a.bits) + [a.bits[-1]] * (w - a.w) if a.bits is not None and None not in a.bits else None
        r = mklin(w, s.c, dict(s.d))
        if bits is not None and r.lin:
            return V(w, r.c, r.lin, tuple(bits))
        return r

    def trunc(self, st, a, w):
        if a.w == w: return a
        if not a.lin: return const(w, a.c)
        if isinstance(a, P): return mkterm(term(w, 0, (1 << w) - 1, "trunc", (a,)))
        bits = a.bits[:w] if a.bits is not None else None
        if bits is not None and None not in bits:
            r = mkbits(bits)
            lo, hi = self.lrange(st, self.raw(a))
            if not r.lin or a.dep: return r
            if all(t.op != "bits" for t, _ in a.lin): return V(w, a.c & ((1 << w) - 1), mklin(w, a.c, dict(a.lin)).lin, r.bits)
            return r
        d = {}; c = a.c
        for t, k in a.lin:
            v = t.args[0] if t.op in ("u", "s") else None
            if v is not None and not isinstance(v, P) and v.w >= w:      # congruent to the value it was widened from
                c += k * v.c
                for t2, k2 in v.lin: d[t2] = d.get(t2, 0) + k * k2
            else: d[t] = d.get(t, 0) + k
        return mklin(w, c, d)

    # ---- comparison ----
    def _icmp_term(self, pred, a, b):
        if pred in ("ugt", "uge", "sgt", "sge"):
            pred = {"ugt": "ult", "uge": "ule", "sgt": "slt", "sge": "sle"}[pred]; a, b = b, a
        if pred in ("ne",) : return self.not1r(self._icmp_term("eq", a, b))
        if pred in ("ule", "sle"):  # a<=b  ==  !(b<a)
            return self.not1r(self._icmp_term("ult" if pred == "ule" else "slt", b, a))
        if pred == "eq" and repr(b) < repr(a): a, b = b, a
        return mkterm(term(1, 0, 1, "icmp", (pred, a, b)))

    def not1r(self, v):
        return mkterm(term(1, 0, 1, "not", (v,)))

    def cmp_l(self, st, pred, a, b):
        """linear views (x, y) compared by pred in integers"""
        if isinstance(a, P) and isinstance(b, P) and a.base is b.base:
            return self.sval(st, a.off), self.sval(st, b.off)
        if pred[0] == "s": return self.sval(st, a), self.sval(st, b)
        return self.uval(st, a), self.uval(st, b)

    def icmp(self, st, pred, a, b):
        f = {"eq": lambda x, y, w: x == y, "ne": lambda x, y, w: x != y, "ult": lambda x, y, w: x < y, "ule": lambda x, y, w: x <= y,
             "ugt": lambda x, y, w: x > y, "uge": lambda x, y, w: x >= y,
             "slt": lambda x, y, w: sgn(x, w) < sgn(y, w), "sle": lambda x, y, w: sgn(x, w) <= sgn(y, w),
             "sgt": lambda x, y, w: sgn(x, w) > sgn(y, w), "sge": lambda x, y, w: sgn(x, w) >= sgn(y, w)}[pred]
        w = a.w
        if not a.lin and not b.lin: return const(1, int(f(a.c, b.c, w)))
        if a == b: return const(1, int(pred in ("eq", "ule", "uge", "sle", "sge")))
        if isinstance(a, P) and isinstance(b, P) and a.base is b.base:
            return self.icmp(st, pred if pred in ("eq", "ne") else "s" + pred[1:], a.off, b.off)
        r = self._byte_op(a, b, lambda x, y: int(f(x, y, w)), 1)
        if r is not None: return self.norm(st, r)
        for x, y in ((a, b), (b, a)):
            if isinstance(x, P) and x.base.nonnull and not y.lin and y.c == 0 and pred in ("eq", "ne"):
                return const(1, int(pred == "ne"))
        if isinstance(a, P) and isinstance(b, P) and a.base is not b.base and a.base.op == "region" and b.base.op == "region" and pred in ("eq", "ne") \
                and a.base.nonnull and b.base.nonnull:
            return const(1, int(pred == "ne"))
        if pred in ("eq", "ne"):
            if a.bits is not None and b.bits is not None:
                for x, y in zip(a.bits, b.bits):
                    if (x == 0 and y == 1) or (x == 1 and y == 0): return const(1, int(pred == "ne"))
            x, y = self.cmp_l(st, "u", a, b)
            d = x - y
            lo, hi = self.lrange(st, d)
            if lo > 0 or hi < 0: return const(1, int(pred == "ne"))
            if lo == 0 == hi: return const(1, int(pred == "eq"))
            if w > 1 and not isinstance(a, P) and not isinstance(b, P):
                (l1, h1), (l2, h2) = self.srange(st, a), self.srange(st, b)
                if l1 > h2 or l2 > h1: return const(1, int(pred == "ne"))
            if st.facts:
                if self.prove_le(st, d + 1) or self.prove_le(st, d.scale(-1) + 1): return const(1, int(pred == "ne"))
                if self.prove_le(st, d) and self.prove_le(st, d.scale(-1)): return const(1, int(pred == "eq"))
        else:
            x, y = self.cmp_l(st, pred, a, b)
            if pred[1:] in ("gt", "ge"): x, y = y, x
            strict = pred[1:] in ("lt", "gt")
            d = x - y
            if self.prove_le(st, d + (1 if strict else 0)): return const(1, 1)
            if self.prove_le(st, d.scale(-1) + (0 if strict else 1)): return const(1, 0)
        r = self._icmp_term(pred, a, b)
        return self.norm(st, r)

    def assume(self, st, v, truth):
        """states in which the i1 value v has the given truth"""
        v = self.norm(st, v)
        if not v.lin: return [st] if bool(v.c) == truth else []
        s = v.dep
        if s:
            T = v.bits[0][2]
            m = st.feas.get(s, FULL) & (T if truth else FULL & ~T)
            if not m: return []
            st = st.copy(); st.feas[s] = m
            return [st]
        if len(v.lin) == 1 and v.lin[0][1] in (1, -1) and v.c == 0:
            t = v.lin[0][0]
            if t.op == "not": return self.assume(st, t.args[0], not truth)
            if t.op in ("and", "or") and t.w == 1:
                a, b = t.args
                conj = (t.op == "and") == truth
                if conj:
                    out = []
                    for x in self.assume(st, a, truth): out += self.assume(x, b, truth)
                    return out
                out = list(self.assume(st, a, truth))
                for x in self.assume(st, a, not truth): out += self.assume(x, b, truth)
                return out
            if t.op == "icmp":
                if t in st.known: return [st] if st.known[t] == truth else []
                st = st.copy(); st.known[t] = truth
                pred, a, b = t.args
                a = self.norm(st, a); b = self.norm(st, b)
                return self._assume_cmp(st, pred, a, b, truth)
            st = st.copy(); st.known[t] = truth
            if not self.add_fact(st, L({t: 1 if not truth else -1}, 0 if not truth else 1)): return []
            return [st]
        return [st]

    def _assume_cmp(self, st, pred, a, b, truth):
        if pred == "eq":
            x, y = self.cmp_l(st, "u", a, b)
            d = x - y
            if truth:
                if not self.add_fact(st, d) or not self.add_fact(st, d.scale(-1)): return []
                # bytes of assembled values
                for p, q in ((a, b), (b, a)):
                    if not q.lin and p.bits is not None and None not in p.bits:
                        for i, bit in enumerate(p.bits):
                            want = q.c >> i & 1
                            if bit in (0, 1):
                                if bit != want: return []
                            elif bit[0] == "f":
                                m = st.feas.get(bit[1], FULL) & (bit[2] if want else FULL & ~bit[2])
                                if not m: return []
                                st.feas[bit[1]] = m
            else:
                # trim a range endpoint
                lo, hi = self.lrange(st, d)
                if lo == 0 == hi: return []
                if lo == 0: return [st] if self.add_fact(st, d.scale(-1) + 1) else []
                if hi == 0: return [st] if self.add_fact(st, d + 1) else []
                if self.prove_le(st, d): return [st] if self.add_fact(st, d + 1) else []
                if self.prove_le(st, d.scale(-1)): return [st] if self.add_fact(st, d.scale(-1) + 1) else []
            return [st]
        if pred[0] == "u":
            # (t + c) wraps around in one of two ways: both are followed
            for v, o in ((a, b), (b, a)):
                if o.lin or isinstance(v, P) or len(v.lin) != 1 or v.lin[0][0].op != "sym" or v.bits is not None: continue
                l = self.raw(v); lo, hi = self.lrange(st, l); M = 1 << v.w
                if lo // M + 1 != hi // M: continue
                cut = (hi // M) * M; out = []
                for f in (l - (cut - 1), l.scale(-1) + cut):
                    s = st.copy()
                    if self.add_fact(s, f) and self.lrange(s, l) != (lo, hi): out += self._assume_cmp(s, pred, a, b, truth)
                    elif self.lrange(s, l) == (lo, hi): out = None; break
                if out is not None: return out
        x, y = self.cmp_l(st, pred, a, b)
        d = x - y            # pred is ult/slt: x<y
        if truth: ok = self.add_fact(st, d + 1)
        else: ok = self.add_fact(st, d.scale(-1))
        return [st] if ok else []

    # ---- memory ----
    def reg(self, st, base): return st.mem.get(base) or Reg()

    def default_cell(self, st, base, off, size, ver, ty):
        if base.op == "region" and base.args[1] == "global" :
            g = self.mod.globals.get(base.args[0][1:])
            if g and "hex" in g and self.mod.fixed(base.args[0][1:]):
                img = bytes.fromhex(g["hex"]) if base not in self.globs else self.globs[base]
                self.globs[base] = img
                for po, pop in g.get("ptrs", []):
                    if po == off and size == 8: return self.operand(st, pop)
                if 0 <= off and off + size <= len(img):
                    return const(size * 8, int.from_bytes(img[off:off + size], "little"))
        key = (base, off, size, ver)
        if ty == "ptr": return P(term(64, 0, ADDR_HI, "ptr", ("ld", base, off, ver)), const(64, 0))
        kind = base.args[1] if base.op == "region" and len(base.args) > 1 else None
        if size == 1 or kind == "bytes":
            bs = []
            for i in range(size): bs.append(mkterm(term(8, 0, 255, "byte", (("m", base, off + i, ver),))))
            return bs[0] if size == 1 else mkbits([x for b in bs for x in b.bits])
        return mkterm(term(size * 8, 0, (1 << (size * 8)) - 1, "sym", ("ld",) + key))

    def load_const(self, st, base, off, size, ty):
        r = self.reg(st, base)
        c = r.cells.get(off)
        if c is not None and c[0] == size:
            v = c[1]
            if ty == "ptr" and not isinstance(v, P) and isinstance(v, V) and v.lin:
                # an integer-typed cell holding an address
                return P(term(64, 0, ADDR_HI, "ptr", ("cast", v)), const(64, 0))
            return v
        # overlaps?
        ov = [o for o, (s, v) in r.cells.items() if isinstance(o, int) and o < off + size and off < o + s] if r.cells else []
        if not ov:
            return self.default_cell(st, base, off, size, r.ver, ty)
        for o in ov:
            s, v = r.cells[o]
            if o <= off and off + size <= o + s and isinstance(v, V) and not isinstance(v, P):
                return self.trunc(st, self.lshr(st, v, const(v.w, 8 * (off - o))), 8 * size)
        if size > 1 and size <= 64:
            bits = []
            for i in range(size):
                b = self.load_const(st, base, off + i, 1, "i8")
                if not isinstance(b, V) or b.bits is None or None in b.bits: break
                bits += list(b.bits)
            else:
                return mkbits(bits)
        return mkterm(term(size * 8, 0, (1 << (size * 8)) - 1, "sym", ("mix", base, off, size) + tuple(r.cells[o][1] for o in sorted(ov)) + (r.ver,)))

    def load(self, st, p, size, ty, inst):
        w = ibits(ty)
        if w is None:
            return self.opaque(st, 64, ("ldagg", inst.id, p.key if isinstance(p, V) else 0))
        if not isinstance(p, P):
            return self.opaque(st, w, ("ldunk", p.key, inst.id), ty)
        if p.off.is_const():
            v = self.load_const(st, p.base, sgn(p.off.c, 64), size, ty)
            return self.fit(st, v, w)
        # table in constant memory indexed by a function of one byte
        g = self.mod.globals.get(p.base.args[0][1:]) if p.base.op == "region" and p.base.args[1] == "global" else None
        s = p.off.dep
        if s and g and g.get("const") and "hex" in g and not g.get("ptrs"):
            img = bytes.fromhex(g["hex"]); vs = vals(p.off)
            return self.fit(st, from_vals(s, [int.from_bytes(img[x:x + size], "little") if x + size <= len(img) else 0 for x in vs], size * 8), w)
        if g and g.get("const") and "hex" in g and not g.get("ptrs"):
            lo, hi = self.srange(st, p.off)
            img = bytes.fromhex(g["hex"])
            if 0 <= lo <= hi < 100000:
                xs = [int.from_bytes(img[x:x + size], "little") for x in range(lo, min(hi, len(img) - size) + 1)]
                if xs and size > 1 and len(p.off.lin) == 1:
                    k = abs(p.off.lin[0][1]); xs = xs[::k] or xs
                if xs:
                    t = term(size * 8, 0, (1 << (size * 8)) - 1, "tab", (p,))
                    self._trng(st, t, min(xs), max(xs))
                    return self.fit(st, mkterm(t), w)
        r = self.reg(st, p.base)
        c = r.cells.get(("@", p.off.key, size))
        if c is not None: return c[1]
        if ty == "ptr": v = P(term(64, 0, ADDR_HI, "ptr", ("ld", p.base, p.off, r.ver)), const(64, 0))
        elif size == 1: v = mkterm(term(8, 0, 255, "byte", (("m", p.base, p.off, r.ver),)))
        else: v = mkterm(term(size * 8, 0, (1 << (size * 8)) - 1, "sym", ("ld", p.base, p.off, size, r.ver)))
        return self.fit(st, v, w)

    def fit(self, st, v, w):
        if not isinstance(v, V): return v
        if v.w > w: return self.trunc(st, v, w)
        if v.w < w: return self.zext(st, v, w)
        return v

    def store(self, st, p, v, size, inst):
        if not isinstance(p, P):
            if DEBUG: print("store to unknown", inst.where())
            return
        r = self.reg(st, p.base)
        if not p.off.is_const():
            cells = {}
            self._ver = getattr(self, "_ver", 0) + 1
            # offsets provably different keep their cells
            for o, c in r.cells.items():
                if isinstance(o, int):
                    d = self.sval(st, p.off) - o
                    if self.prove_le(st, d + size) or self.prove_le(st, L({}, c[0]) - d): cells[o] = c
            cells[("@", p.off.key, size)] = (size, v)
            st.mem[p.base] = Reg(cells, ("s", inst.id, r.ver) if self._verdepth(r.ver) < 6 else ("s", inst.id, self._ver))
            return
        off = sgn(p.off.c, 64)
        cells = dict(r.cells)
        for o in list(cells):
            if not isinstance(o, int): del cells[o]; continue
            s, x = cells[o]
            if o < off + size and off < o + s:
                del cells[o]
                if o < off or o + s > off + size:
                    # keep the bytes not overwritten
                    for i in range(o, o + s):
                        if not off <= i < off + size:
                            b = None
                            if isinstance(x, V) and not isinstance(x, P) and s <= 64:
                                b = self.trunc(st, self.lshr(st, x, const(x.w, 8 * (i - o))), 8)
                            if b is None or b.w != 8:
                                b = mkterm(term(8, 0, 255, "byte", (("part", x, i - o),)))
                            cells[i] = (1, b)
        if isinstance(v, V) and not isinstance(v, P) and v.w != size * 8:
            v = self.fit(st, v, size * 8)
        cells[off] = (size, v)
        st.mem[p.base] = Reg(cells, r.ver)

    def _verdepth(self, v):
        n = 0
        while isinstance(v, tuple): v = v[-1]; n += 1
        return n

    def havoc(self, st, base, tag):
        r = self.reg(st, base)
        n = st.aux.get(("hv", base), 0) + 1
        st.aux[("hv", base)] = n
        st.mem[base] = Reg({}, ("h", tag, n))

    def havoc_range(self, st, base, off, size, tag):
        """forget the words [off, off+size) of a region; returns what they may have pointed to"""
        r = self.reg(st, base); old = []; cells = {}
        for o, c in r.cells.items():
            if isinstance(o, int) and o + c[0] > off and o < off + size:
                if isinstance(c[1], P): old.append(c[1])
            else: cells[o] = c
        n = st.aux.get(("hr", base, off), 0) + 1
        st.aux[("hr", base, off)] = n
        for k in range(0, size, 8):
            cells[off + k] = (8, P(term(64, 0, ADDR_HI, "ptr", ("hr", tag, off + k, n)), const(64, 0)))
        st.mem[base] = Reg(cells, r.ver)
        return old

    def havoc_reach(self, st, args, tag, skip=()):
        seen = set(); work = [a.base for a in args if isinstance(a, P)]
        while work:
            b = work.pop()
            if b in seen or b in skip: continue
            seen.add(b)
            if b.op == "region" and b.args[1] == "global":
                g = self.mod.globals.get(b.args[0][1:])
                if g is None or self.mod.fixed(b.args[0][1:]): continue
            for o, (s, v) in self.reg(st, b).cells.items():
                if isinstance(v, P): work.append(v.base)
            self.havoc(st, b, tag)
        return seen

    # ---- execution ----
    def prio(self, loc):
        b, its = loc
        out = []
        for h, n in zip(self.loop_of[b], its): out += [self.rpo_i[h], n]
        out.append(self.rpo_i.get(b, 1 << 30))
        return tuple(out)

    W = 1 << 20

    def kmax(self, h): return self.loop_unroll.get(h, self.unroll)

    def next_loc(self, loc, b, s):
        _, its = loc
        lb, ls = self.loop_of[b], self.loop_of[s]
        n = 0
        while n < len(lb) and n < len(ls) and lb[n] == ls[n]: n += 1
        out = list(its[:n])
        back = n and ls[n - 1] == s and s in self.loops and b in self.loops[s] and len(ls) == n
        if back:
            k = out[n - 1] + 1
            out[n - 1] = k if k <= self.kmax(s) else self.W
        for h in ls[n:]: out.append(0 if self.kmax(h) > 0 else self.W)
        return (s, tuple(out))

    def run(self, st):
        self.pending = {}
        self.heap = []
        self.wheads = {}
        self.entry_node = None
        self.push((self.fn.entry, tuple(0 if self.kmax(h) > 0 else self.W for h in self.loop_of[self.fn.entry])), None, st, [], None)
        while self.heap:
            _, loc = heapq.heappop(self.heap)
            inc = self.pending.pop(loc, None)
            if not inc: continue
            self.visit(loc, inc)
            if len(self.nodes) > self.max_nodes: raise TooBig("%s: more than %d abstract states" % (self.fn.q, self.max_nodes))
        return self.outcomes

    def push(self, loc, src, st, events, inst):
        l = self.pending.get(loc)
        if l is None:
            l = self.pending[loc] = []
            heapq.heappush(self.heap, (self.prio(loc), loc))
        l.append((src, st, events))

    def visit(self, loc, inc):
        b, its = loc
        live = self.live[b]
        for _, st, _ in inc:
            for k in [k for k in st.env if k not in live]: del st.env[k]
        if its and its[-1] == self.W and b in self.loops:
            return self.visit_w(loc, inc)
        groups = []
        for src, st, ev in inc:
            for g in groups:
                m = self.try_merge(g[0], st)
                if m is not None:
                    g[0] = m; g[1].append((src, ev)); break
            else:
                groups.append([st, [(src, ev)]])
        while len(groups) > self.limit:
            # join the two last with loss
            g2 = groups.pop(); g1 = groups[-1]
            g1[0] = self.join(g1[0], g2[0], (loc, "x")); g1[1] += g2[1]
            self.cuts += 1
        for st, srcs in groups:
            n = Node(loc, st); self.nodes.append(n)
            for src, ev in srcs: self.link(src, n, ev)
            self.exec_block(n)

    def link(self, src, n, ev):
        if src is None: self.entry_node = n
        else: src.edges.append((ev, n))

    def visit_w(self, loc, inc):
        n = self.wheads.get(loc)
        if n is None:
            st = inc[0][1]
            for _, s2, _ in inc[1:]:
                m = self.try_merge(st, s2)
                st = m if m is not None else self.join(st, s2, (loc, "e"))
            n = Node(loc, st); n.stable = {}; self.nodes.append(n); self.wheads[loc] = n
            n.entry_state = st
            n.inlinks = []
            for src, _, ev in inc: n.inlinks.append((src, ev)); self.link(src, n, ev)
            self.exec_block(n)
            return
        st = n.state
        changed = False
        inc = [(src, self.prune(st, s2), ev) for src, s2, ev in inc]
        for src, s2, ev in inc:
            if self.subsumed(n, st, s2):
                continue
            st = self.widen(n, st, s2)
            changed = True
        if not changed:
            for src, s2, ev in inc: self.link(src, n, ev)
            return
        if DEBUG: print("widen", n, n.widened)
        n.widened += 1
        if n.widened > 30: raise TooBig("widening does not stabilise in %s at block %d" % (self.fn.q, loc[0]))
        # drop everything computed from this header
        pre = self.prio(loc)[:-1]
        dead = set(x for x in self.nodes if x is not n and self.prio(x.loc)[:len(pre)] == pre and x.id > n.id)
        self.nodes = [x for x in self.nodes if x not in dead]
        self.outcomes = [o for o in self.outcomes if o.node not in dead and o.node is not n]
        for k in [k for k, h in self.wheads.items() if h in dead]: del self.wheads[k]
        for k in list(self.pending):
            self.pending[k] = [x for x in self.pending[k] if x[0] not in dead and x[0] is not n]
            if not self.pending[k]: del self.pending[k]
        for x in self.nodes: x.edges = [e for e in x.edges if e[1] not in dead]
        n.edges = []
        # links from outside the loop are kept; those from dead nodes vanish with them
        n.state = st
        self.exec_block(n)

    def prune(self, head, st):
        """drop objects of the loop body that can no longer be named at the loop head: their address was loaded from memory that has
        since changed, and no live value or cell holds it"""
        dead = []
        live = None
        for base in st.mem:
            if base in head.mem or base.op != "ptr" or base.args[0] != "ld": continue
            src, ver = base.args[1], base.args[3]
            if (st.mem.get(src) or Reg()).ver == ver and (head.mem.get(src) or Reg()).ver == ver: continue
            if live is None:
                live = set()
                for k, v in st.env.items():
                    if k in head.env: self._names(v, live)
                for r in st.mem.values():
                    for c in r.cells.values():
                        if isinstance(c, tuple): self._names(c[1], live)
                for k in st.aux:
                    if isinstance(k, tuple) and k[0] != "hv": live.update(x for x in k if isinstance(x, Term))
                for v in st.aux.values():
                    if isinstance(v, V): self._names(v, live)
            if base not in live: dead.append(base)
        if not dead: return st
        st = st.copy()
        st.env = {k: v for k, v in st.env.items() if k in head.env}
        for b in dead: st.mem.pop(b, None)
        return st

    def _names(self, v, out):
        if isinstance(v, Agg):
            for x in v.f: self._names(x, out)
        elif isinstance(v, V):
            if isinstance(v, P): out.add(v.base); v = v.off
            for t, _ in v.lin: out.add(t)

    # ---- joins ----
    def _cells_for(self, s1, s2):
        for base in set(s1.mem) | set(s2.mem):
            r1 = s1.mem.get(base) or Reg(); r2 = s2.mem.get(base) or Reg()
            yield base, r1, r2

    def _merge_val(self, v1, v2, s, m1, m2):
        if v1 is None or v2 is None: return None
        if v1 == v2: return v1
        if isinstance(v1, Agg) and isinstance(v2, Agg) and len(v1.f) == len(v2.f):
            f = [self._merge_val(a, b, s, m1, m2) for a, b in zip(v1.f, v2.f)]
            return None if any(x is None for x in f) else Agg(f)
        if not isinstance(v1, V) or not isinstance(v2, V) or v1.w != v2.w: return None
        if s is None: return None
        if isinstance(v1, P) or isinstance(v2, P):
            if isinstance(v1, P) and isinstance(v2, P) and v1.base is v2.base:
                o = self._merge_val(v1.off, v2.off, s, m1, m2)
                return P(v1.base, o) if o is not None else None
            return None
        if v1.bits is None or v2.bits is None: return None
        out = []
        for x, y in zip(v1.bits, v2.bits):
            if x == y and x is not None: out.append(x); continue
            tx = 0 if x == 0 else FULL if x == 1 else x[2] if x is not None and x[0] == "f" and x[1] is s else None
            ty = 0 if y == 0 else FULL if y == 1 else y[2] if y is not None and y[0] == "f" and y[1] is s else None
            if tx is None or ty is None: return None
            out.append(fbit(s, (tx & m1) | (ty & m2)))
        return mkbits(out)

    def try_merge(self, a, b):
        if a.aux != b.aux:
            return None
        if self.keep and (a.rng != b.rng or a.known != b.known or set(a.facts) != set(b.facts)): return None
        diff = [s for s in set(a.feas) | set(b.feas) if a.feas.get(s, FULL) != b.feas.get(s, FULL)]
        s = None; m1 = m2 = 0
        if len(diff) == 1:
            m1 = a.feas.get(diff[0], FULL); m2 = b.feas.get(diff[0], FULL)
            if m1 & m2 == 0: s = diff[0]
        env = {}
        for k in set(a.env) | set(b.env):
            v1 = a.env.get(k); v2 = b.env.get(k)
            if v1 is None or v2 is None: continue
            m = self._merge_val(v1, v2, s, m1, m2)
            if m is None: return None
            env[k] = m
        mem = {}
        for base, r1, r2 in self._cells_for(a, b):
            if r1.ver != r2.ver: return None
            cells = {}
            for o in set(r1.cells) | set(r2.cells):
                c1 = r1.cells.get(o); c2 = r2.cells.get(o)
                if c1 is None or c2 is None:
                    c = c1 or c2; st = b if c1 is not None else a
                    if not isinstance(o, int): return None
                    other = self.load_const(st, base, o, c[0], "ptr" if isinstance(c[1], P) else "i")
                    c1, c2 = (c, (c[0], other)) if c1 is not None else ((c[0], other), c)
                if c1[0] != c2[0]: return None
                m = self._merge_val(c1[1], c2[1], s, m1, m2)
                if m is None: return None
                cells[o] = (c1[0], m)
            mem[base] = Reg(cells, r1.ver)
        st = State(); st.env = env; st.mem = mem; st.aux = a.aux
        self._join_facts(st, a, b)
        return st

    def _join_facts(self, st, a, b):
        for s in a.feas:
            if s in b.feas:
                m = a.feas[s] | b.feas[s]
                if m != FULL: st.feas[s] = m
        for t in a.rng:
            if t in b.rng: st.rng[t] = (min(a.rng[t][0], b.rng[t][0]), max(a.rng[t][1], b.rng[t][1]))
            else:
                r = self.trange(b, t); st.rng[t] = (min(a.rng[t][0], r[0]), max(a.rng[t][1], r[1]))
        for t in b.rng:
            if t not in a.rng:
                r = self.trange(a, t); st.rng[t] = (min(b.rng[t][0], r[0]), max(b.rng[t][1], r[1]))
        for t in a.known:
            if b.known.get(t) == a.known[t]: st.known[t] = a.known[t]
        for x, y in ((a, b), (b, a)):
            for k, f in x.facts.items():
                if k not in st.facts and (k in y.facts or self.prove_le(y, f, 2)): st.facts[k] = f
            # range facts that are relational in the other state
        for x, y in ((a, b), (b, a)):
            pass
        st.esc = a.esc | b.esc

    def jval(self, key, v1, v2, a, b, st, signed=False):
        """join two values into a value, creating a join term"""
        if v1 == v2: return v1
        if isinstance(v1, Agg) and isinstance(v2, Agg) and len(v1.f) == len(v2.f):
            return Agg([self.jval(key + (i,), x, y, a, b, st) if x is not None and y is not None else None for i, (x, y) in enumerate(zip(v1.f, v2.f))])
        if isinstance(v1, P) and isinstance(v2, P) and v1.base is v2.base:
            t = term(64, -OFF_MAX, OFF_MAX, "join", key)
            r1 = self.lrange(a, self.sval(a, v1.off)); r2 = self.lrange(b, self.sval(b, v2.off))
            st.rng[t] = (max(-OFF_MAX, min(r1[0], r2[0])), min(OFF_MAX, max(r1[1], r2[1])))
            return P(v1.base, V(64, 0, ((t, 1),), None))
        if isinstance(v1, P) or isinstance(v2, P):
            t = term(64, 0, ADDR_HI, "ptr", ("join",) + key)
            return P(t, const(64, 0))
        if not isinstance(v1, V) or not isinstance(v2, V) or v1.w != v2.w: return None
        t = term(v1.w, 0, (1 << v1.w) - 1, "join", key)
        r1 = self.urange(a, v1); r2 = self.urange(b, v2)
        st.rng[t] = (min(r1[0], r2[0]), max(r1[1], r2[1]))
        return mkterm(t)

    def join(self, a, b, tag):
        st = State()
        st.aux = {k: v for k, v in a.aux.items() if b.aux.get(k) == v}
        for k in list(a.aux) + list(b.aux):
            if isinstance(k, tuple) and k[0] == "hv": st.aux[k] = max(a.aux.get(k, 0), b.aux.get(k, 0)) + 1
        self._join_facts(st, a, b)
        for k in a.env:
            if k in b.env:
                v = self.jval((tag, "e", k), a.env[k], b.env[k], a, b, st)
                if v is not None: st.env[k] = v
        for base, r1, r2 in self._cells_for(a, b):
            cells = {}; ver = r1.ver
            if r1.ver != r2.ver: ver = ("j", tag, base.id)
            for o in set(r1.cells) | set(r2.cells):
                if not isinstance(o, int): continue
                c1 = r1.cells.get(o); c2 = r2.cells.get(o); c = c1 or c2
                if c1 is None: c1 = (c[0], self.load_const(a, base, o, c[0], "ptr" if isinstance(c[1], P) else "i"))
                if c2 is None: c2 = (c[0], self.load_const(b, base, o, c[0], "ptr" if isinstance(c[1], P) else "i"))
                if c1[0] != c2[0]: ver = ("j", tag, base.id); continue
                v = self.jval((tag, "m", base, o), c1[1], c2[1], a, b, st)
                if v is None: ver = ("j", tag, base.id); continue
                cells[o] = (c1[0], v)
            if ver != r1.ver:
                # cells that were implicit defaults must not reappear as defaults of a new version
                pass
            st.mem[base] = Reg(cells, ver)
        return st

    def _vars(self, st):
        for k, v in st.env.items(): yield ("e", k), v
        for base, r in st.mem.items():
            for o, c in r.cells.items():
                if isinstance(o, int): yield ("m", base, o), c[1]

    def _jterms(self, n, st):
        """join terms of a widening header: var key -> (term, value)"""
        out = {}
        for k, v in self._vars(st):
            if isinstance(v, P): v2 = v.off
            else: v2 = v
            if isinstance(v2, V) and len(v2.lin) == 1 and v2.lin[0][0].op == "join" and v2.lin[0][0].args[0] == ("w", n.id):
                out[k] = v2.lin[0][0]
        return out

    def _get(self, st, k):
        if k[0] == "e": return st.env.get(k[1])
        r = st.mem.get(k[1]) or Reg()
        c = r.cells.get(k[2])
        return c[1] if c else None

    def _subst(self, n, st, s2):
        """integer value of each join term in s2, None where not expressible"""
        sub = {}
        for k, t in self._jterms(n, st).items():
            v = self._get(s2, k)
            if v is None and k[0] == "m":
                c = (st.mem[k[1]]).cells[k[2]]
                v = self.load_const(s2, k[1], k[2], c[0], "ptr" if isinstance(c[1], P) else "i")
            if v is None: return None
            if isinstance(v, P): l = self.sval(s2, v.off)
            else: l = self.uval(s2, v)
            if t in sub and sub[t].key() != l.key(): return None
            sub[t] = l
        return sub

    def _apply(self, l, sub):
        r = L({t: k for t, k in l.d.items() if t not in sub}, l.c)
        for t, k in l.d.items():
            if t in sub: r = r + sub[t].scale(k)
        return r

    def subsumed(self, n, st, s2):
        jt = set(self._jterms(n, st).values())
        sub = self._subst(n, st, s2)
        if sub is None: return self._no(1, locals())
        for k, v in list(self._vars(st)):
            v2 = self._get(s2, k)
            if v2 is None and k[0] == "m":
                c = st.mem[k[1]].cells[k[2]]
                v2 = self.load_const(s2, k[1], k[2], c[0], "ptr" if isinstance(c[1], P) else "i")
            if v2 is None: return self._no(2, locals())
            if isinstance(v, P) and not isinstance(v2, P): return self._no(3, locals())
            if isinstance(v, P):
                if v.base is not v2.base and not (v.base.op == "ptr" and v.base.args[:1] == ("join",)): return self._no(4, locals())
                if v.off != v2.off and not (len(v.off.lin) == 1 and v.off.lin[0][0] in jt) and v.base is v2.base: return self._no(5, locals())
                continue
            if v == v2: continue
            if isinstance(v, V) and len(v.lin) == 1 and v.lin[0][0] in jt: continue
            return self._no(6, locals())
        for base in set(st.mem) | set(s2.mem):
            r1 = st.mem.get(base) or Reg(); r2 = s2.mem.get(base) or Reg()
            if r1.ver != r2.ver and not (isinstance(r1.ver, tuple) and r1.ver[0] == "j"): return self._no(7, locals())
            for o, c in r2.cells.items():
                if isinstance(o, int) and o not in r1.cells:
                    d = self.load_const(st, base, o, c[0], "ptr" if isinstance(c[1], P) else "i")
                    if isinstance(r1.ver, tuple) and r1.ver[0] == "j": continue
                    if not (isinstance(d, V) and d == c[1]): return self._no(8, locals())
        for s, m in st.feas.items():
            if s2.feas.get(s, FULL) & ~m: return self._no(9, locals())
        for t, r in st.rng.items():
            if t in sub: lo, hi = self.lrange(s2, sub[t])
            else: lo, hi = self.trange(s2, t)
            if lo < r[0] or hi > r[1]:
                # relational facts may still imply it
                l = sub.get(t, L({t: 1}, 0))
                if lo < r[0] and r[0] > t.lo and not self.prove_le(s2, L({}, r[0]) - l): return self._no(10, locals())
                if hi > r[1] and r[1] < t.hi and not self.prove_le(s2, l - r[1]): return self._no(11, locals())
        for t, b in st.known.items():
            if s2.known.get(t) != b: return self._no(12, locals())
        for f in st.facts.values():
            if not self.prove_le(s2, self._apply(f, sub)): return self._no(13, locals())
        for k, v in st.aux.items():
            if isinstance(k, tuple) and k[0] == "hv": continue
            if s2.aux.get(k) != v: return self._no(14, locals())
        return True

    def _no(self, k, l):
        if DEBUG: print("not subsumed", k, {x: l[x] for x in ("k", "v", "v2", "t", "r", "lo", "hi", "f", "base", "r1", "r2", "o") if x in l and k not in ()})
        return False

    def widen(self, n, st, s2):
        first = n.widened == 0
        out = self.join(st, s2, ("w", n.id)) if True else None
        # the terms of the header are stable: same key -> same term
        jt = self._jterms(n, out)
        sub1 = {}
        for k, t in jt.items():
            v = self._get(st, k)
            if v is None and k[0] == "m":
                c = out.mem[k[1]].cells[k[2]]; v = self.load_const(st, k[1], k[2], c[0], "ptr" if isinstance(c[1], P) else "i")
            sub1[t] = self.sval(st, v.off) if isinstance(v, P) else self.uval(st, v)
        sub2 = self._subst(n, out, s2) or {}
        e = n.entry_state
        sube = {}
        for k, t in jt.items():
            v = self._get(e, k)
            if v is None and k[0] == "m":
                c = out.mem[k[1]].cells[k[2]]; v = self.load_const(e, k[1], k[2], c[0], "ptr" if isinstance(c[1], P) else "i")
            if v is not None: sube[t] = self.sval(e, v.off) if isinstance(v, P) else self.uval(e, v)
        # facts about join terms: keep those true in both
        out.facts = {}
        cands = list(st.facts.values())
        ts = list(dict.fromkeys(jt.values()))
        if n.widened < 3:
            cands += self.candidates(n, out, ts, sube)
        for f in cands:
            if f.key() in out.facts: continue
            if len([t for t in f.d]) < 2: continue
            # f is over join terms (header view); in st a join term may not exist yet -> substitute
            f1 = self._apply(f, {t: l for t, l in sub1.items() if l is not None})
            if self.prove_le(st, f1) and self.prove_le(s2, self._apply(f, sub2)) and self.prove_le(e, self._apply(f, sube)):
                out.facts[f.key()] = f
        # ranges of join terms: widen
        for t in ts:
            r = out.rng.get(t)
            if not r: continue
            old = st.rng.get(t) if t in st.rng and t in set(self._jterms(n, st).values()) else None
            lo, hi = r
            if old is None:
                if n.widened >= 1: lo, hi = t.lo, t.hi
            if n.widened >= 1 or old is not None:
                if old is None or lo < old[0]: lo = 0 if lo >= 0 and n.widened < 4 else t.lo
                if old is None or hi > old[1]: hi = self._thr(hi, t) if n.widened < 8 else t.hi
            out.rng[t] = (lo, hi)
        # stable non-join ranges: hull computed in join; unstable ones dropped
        if n.widened >= 2:
            for t in list(out.rng):
                if t not in ts and t in st.rng and out.rng[t] != st.rng[t]: del out.rng[t]
        return out

    def _thr(self, hi, t):
        for k in (1, 7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256, 1 << 16, (1 << 31) - 1, 1 << 32, (1 << 32) - 1, (1 << 62), (1 << 63) - 1, (1 << 64) - 1):
            if hi <= k <= t.hi: return k
        return t.hi

    def candidates(self, n, st, ts, sube):
        """linear facts worth trying at a loop head"""
        out = []
        inv = {}
        for k, v in self._vars(st):
            if isinstance(v, P): l = self.sval(st, v.off); g = ("p", v.base)
            elif isinstance(v, V) and v.w >= 8: l = self.uval(st, v); g = ("i",)
            else: continue
            inv.setdefault(g, {})[l.key()] = l
        grp = {}
        for k, v in self._vars(st):
            for t in ts:
                if isinstance(v, P) and any(x is t for x, _ in v.off.lin): grp[t] = ("p", v.base)
                elif not isinstance(v, P) and isinstance(v, V) and any(x is t for x, _ in v.lin): grp.setdefault(t, ("i",))
        for t in ts:
            tl = L({t: 1}, 0)
            if t in sube:
                out.append(sube[t] - tl)         # t >= entry value
                out.append(tl - sube[t])
            for g in inv:
                if len(inv[g]) > 24: continue
                for l in inv[g].values():
                    if l.d.get(t): continue
                    if g == grp.get(t) or True:
                        out.append(tl - l)
                        out.append(l - tl)
                        if t in sube and len(l.d) == 1:
                            for u in l.d:
                                if u in sube and u in ts:
                                    # equal progress of two counters
                                    d = (tl - sube[t]) - (L({u: 1}, 0) - sube[u])
                                    out.append(d); out.append(d.scale(-1))
        # bounds against loop invariant lengths mentioned in the conditions of the loop
        for t in ts:
            for l in getattr(self, "extra_bounds", []):
                out.append(L({t: 1}, 0) - l); out.append(l - L({t: 1}, 0))
        seen = set(); r = []
        for f in out:
            if f.key() not in seen and len(f.d) >= 1: seen.add(f.key()); r.append(f)
        return r[:400]

    # ---- block execution ----
    def exec_block(self, n):
        b = n.loc[0]
        states = [(n.state.copy(), [])]
        insts = self.fn.blocks[b]
        self.cur = n
        for idx, i in enumerate(insts):
            if i.op == "phi": continue
            nxt = []
            for st, ev in states:
                self.cover.add(i.id)
                r = self.step(n, st, ev, i)
                if r is None: nxt.append((st, ev))
                elif len(r) > 1: nxt += [(s_, list(e_)) for s_, e_ in r]
                else: nxt += r
            states = nxt
            if not states: return

    def outcome(self, n, kind, st, ev, value=None, info=None, inst=None):
        o = Outcome(kind, st, value, info, inst); o.node = n
        self.outcomes.append(o)
        n.edges.append((ev, o))

    def goto(self, n, st, ev, s):
        b = n.loc[0]
        st = st.copy()
        new = {}
        for i in self.fn.blocks[s]:
            if i.op != "phi": break
            for o, p in zip(i.ops, i.d["in"]):
                if p == b:
                    new[i.id] = self.operand(st, o, ibits(i.ty)); break
        st.env.update(new)
        for k, v in new.items():
            if v is UNDEF: st.env[k] = self.opaque(st, ibits(self.fn.insts[k].ty) or 64, ("undef", k), self.fn.insts[k].ty)
        self.push(self.next_loc(n.loc, b, s), n, st, ev, None)

    def step(self, n, st, ev, i):
        """returns None (state updated in place) or a list of (state, events); an empty list ends the path"""
        op = i.op
        w = ibits(i.ty)
        A = lambda k, ww=None: self._def(st, self.operand(st, i.ops[k], ww), ww or w, i)
        E = st.env
        if op == "alloca":
            t = term(64, ADDR_LO, ADDR_HI, "region", ("a%d%s" % (i.id, self.ns), "alloca"), True)
            self.aligned[t] = i.get("align", 1)
            E[i.id] = P(t, const(64, 0)); return
        if op == "load":
            p = self.operand(st, i.ops[0])
            for h in self.access: h("load", st, p, const(64, i.d["size"]), i)
            E[i.id] = self.load(st, p, i.d["size"], i.ty, i); return
        if op == "store":
            v = self.operand(st, i.ops[0], i.d["size"] * 8); p = self.operand(st, i.ops[1])
            if v is UNDEF: v = self.opaque(st, i.d["size"] * 8, ("undef", i.id))
            for h in self.access: h("store", st, p, const(64, i.d["size"]), i)
            r = self.on_store(st, ev, p, v, i)
            self.store(st, p, v, i.d["size"], i)
            return r
        if op == "getelementptr":
            p = self.operand(st, i.ops[0])
            if i.d.get("off") == "unknown": E[i.id] = self.ptr_fresh(("gep", i.id)); return
            off = const(64, i.d["off"])
            for o, s in i.d["vars"]:
                x = self.operand(st, o)
                if x is UNDEF: x = const(64, 0)
                if x.w < 64: x = self.sext(st, x, 64)
                off = self.add(st, off, self.mul(st, x, const(64, s)))
            E[i.id] = self.padd(p, off); return
        if op in ("add", "sub", "mul", "udiv", "urem", "sdiv", "srem", "shl", "lshr", "ashr"):
            if self.divided and op[1:] in ("div", "rem"): self.divided(self, st, i, A(0), A(1))
            E[i.id] = getattr(self, op)(st, A(0), A(1)); return
        if op in ("and", "or", "xor"):
            E[i.id] = self._bitop(st, A(0), A(1), op); return
        if op == "icmp":
            a = self.operand(st, i.ops[0]); b = self.operand(st, i.ops[1])
            if a is UNDEF or b is UNDEF: E[i.id] = self.opaque(st, 1, ("undef", i.id)); return
            if a.w != b.w: E[i.id] = self.opaque(st, 1, ("icmpw", i.id)); return
            E[i.id] = self.icmp(st, i.d["pred"], a, b); return
        if op == "zext": E[i.id] = self.zext(st, A(0, ibits(i.d["sty"])), w); return
        if op == "sext": E[i.id] = self.sext(st, A(0, ibits(i.d["sty"])), w); return
        if op == "trunc": E[i.id] = self.trunc(st, A(0, ibits(i.d["sty"])), w); return
        if op in ("ptrtoint", "bitcast", "freeze", "inttoptr", "addrspacecast"):
            v = self.operand(st, i.ops[0], w)
            if v is UNDEF: v = self.opaque(st, w or 64, ("undef", i.id), i.ty)
            if op == "inttoptr" and not isinstance(v, P) and v.lin:
                # an address computed by integer arithmetic
                bs = [t for t, k in v.lin if t.op in ("region", "ptr") and k == 1]
                if len(bs) == 1: v = P(bs[0], mklin(64, v.c, {t: k for t, k in v.lin if t is not bs[0]}))
                else: v = P(term(64, 0, ADDR_HI, "ptr", ("cast", v)), const(64, 0))
            E[i.id] = v; return
        if op == "select":
            c = self.operand(st, i.ops[0]); a = A(1); b = A(2)
            if not c.lin: E[i.id] = a if c.c else b; return
            if a == b: E[i.id] = a; return
            if w == 1:
                if not b.lin and b.c == 0: E[i.id] = self._bitop(st, c, a, "and"); return
                if not a.lin and a.c == 1: E[i.id] = self._bitop(st, c, b, "or"); return
                if not b.lin and b.c == 1: E[i.id] = self._bitop(st, self.not1(c), a, "or"); return
                if not a.lin and a.c == 0: E[i.id] = self._bitop(st, self.not1(c), b, "and"); return
            s = c.dep
            if s and isinstance(a, V) and isinstance(b, V):
                T = c.bits[0][2]
                m = self._merge_val(a, b, s, T, FULL & ~T)
                if m is not None: E[i.id] = self.norm(st, m); return
            out = []
            for truth, v in ((True, a), (False, b)):
                for s2 in self.assume(st, c, truth):
                    s2 = s2.copy(); s2.env[i.id] = self.norm(s2, v); out.append((s2, ev))
            return out
        if op == "br":
            if len(i.d["succ"]) == 1: self.goto(n, st, ev, i.d["succ"][0]); return []
            c = self.operand(st, i.ops[0])
            s = i.d["succ"]
            # operands of br are listed condition first
            for truth, t in ((True, s[0]), (False, s[1])):
                for s2 in self.assume(st, c, truth): self.goto(n, s2, ev, t)
            return []
        if op == "switch":
            c = self.operand(st, i.ops[0])
            rest = [st]
            for cv, dst in i.d["cases"]:
                if isinstance(cv, dict): cv = int(cv["big"])
                nr = []
                for s0 in rest:
                    e = self.icmp(s0, "eq", self.norm(s0, c), const(c.w, cv))
                    for s2 in self.assume(s0, e, True): self.goto(n, s2, ev, dst)
                    nr += self.assume(s0, e, False)
                rest = nr
            for s0 in rest: self.goto(n, s0, ev, i.d["default"])
            return []
        if op == "ret":
            v = None
            if i.ops: v = self.operand(st, i.ops[0])
            self.outcome(n, "ret", st, ev, v, inst=i); return []
        if op == "unreachable":
            self.outcome(n, "unreachable", st, ev, inst=i); return []
        if op == "resume":
            self.outcome(n, "throw", st, ev, info=("resume",) , inst=i); return []
        if op == "landingpad":
            x = st.aux.get("exc")
            E[i.id] = Agg([self.ptr_fresh(("exc", i.id)), mkterm(term(32, 0, (1 << 32) - 1, "sym", ("sel", i.id)))]); return
        if op == "extractvalue":
            v = self.operand(st, i.ops[0])
            if isinstance(v, Agg) and len(i.d["idx"]) == 1 and i.d["idx"][0] < len(v.f):
                x = v.f[i.d["idx"][0]]
                if x is not None: E[i.id] = self.norm(st, x); return
            E[i.id] = self.opaque(st, w or 64, ("ev", i.id), i.ty); return
        if op == "insertvalue":
            v = self.operand(st, i.ops[0], 64); x = self.operand(st, i.ops[1], 64)
            k = i.d["idx"]
            if len(k) == 1:
                f = list(v.f) if isinstance(v, Agg) else []
                while len(f) <= k[0]: f.append(None)
                f[k[0]] = x if x is not UNDEF else None
                E[i.id] = Agg(f)
            return
        if op in ("call", "invoke"):
            return self.call(n, st, ev, i)
        if op == "fence": return
        if i.ty and i.ty != "void":
            E[i.id] = self.generic(st, i, w)

    def generic(self, st, i, w):
        args = []
        for o in i.ops:
            v = self.operand(st, o, 64)
            args.append(v)
        if i.op == "fcmp" or w:
            return mkterm(term(w or 64, 0, (1 << (w or 64)) - 1, i.op, (i.get("pred"),) + tuple(a if a is not UNDEF else 0 for a in args)))
        return self.opaque(st, 64, ("op", i.id), i.ty)

    def _def(self, st, v, w, i):
        if v is UNDEF: return self.opaque(st, w or 64, ("undef", i.id))
        if isinstance(v, Agg): return self.opaque(st, w or 64, ("agg", i.id))
        return v

    def on_store(self, st, ev, p, v, i): return None

    # ---- calls ----
    def call(self, n, st, ev, i):
        name = i.callee
        w = ibits(i.ty)
        args = []
        for k, o in enumerate(i.ops):
            a = self.operand(st, o)
            if a is UNDEF: a = self.opaque(st, 64, ("undef", i.id, k))
            args.append(a)
        q = self.mod.q(name) if name else None
        res = None
        m = None
        if name:
            m = self.models.get(name) or self.models.get(q)
            if m is None and name.startswith("llvm."):
                r = self.intrinsic(st, i, name, args, w)
                if r is not NotImplemented:
                    if isinstance(r, (V, Agg)): st.env[i.id] = r
                    return self.after(n, st, ev, i)
        if m is None: m = self.default_model
        if m is None: m = default_call
        r = m(self, n, st, ev, i, args)
        # result: None -> void; V/Agg -> value; list of (state, value, events) ; 'throw' outcomes are added by the model
        if isinstance(r, list):
            out = []
            for s2, v, e2 in r:
                if v is not None: s2.env[i.id] = v
                x = self.after(n, s2, e2, i)
                if x is None: out.append((s2, e2))
                else: out += x
            return out
        if r is not None: st.env[i.id] = r
        elif i.ty and i.ty != "void" and i.id not in st.env:
            st.env[i.id] = self.call_result(st, i)
        return self.after(n, st, ev, i)

    def call_result(self, st, i, tag="call"):
        k = (tag, i.id)
        c = st.aux.get(("cn", i.id), 0) + 1
        w = ibits(i.ty)
        if i.ty == "ptr": return P(term(64, 0, ADDR_HI, "ptr", k + (self.cur.loc[1],)), const(64, 0))
        if w is None:
            return Agg([])
        return mkterm(term(w, 0, (1 << w) - 1, "call", k + (self.cur.loc[1],)))

    def after(self, n, st, ev, i):
        """control after a completed call"""
        if i.op == "invoke":
            self.goto(n, st, ev, i.d["normal"]); return []
        return None

    def catches(self, b):
        """does the landing pad at block b have a catch clause?"""
        for i in self.fn.blocks[b]:
            if i.op == "landingpad": return bool(i.d["clauses"])
        return False

    def raise_(self, n, st, ev, i, info):
        """an exception leaves call i"""
        if i.op == "invoke" and self.follow_catch and self.catches(i.d["unwind"]):
            s2 = st.copy(); s2.aux["exc"] = info
            self.goto(n, s2, ev, i.d["unwind"])
        else:
            self.outcome(n, "throw", st, ev, info=info, inst=i)

    def enter(self, n, st, ev, i, name, args):
        """the body of a function called at i (an indirect call whose target is known): result for a model"""
        s = st.copy(); env = s.env
        ip = type(self)(self.mod, self.mod.fns[name], self.models, unroll=self.unroll, limit=self.limit, max_nodes=self.max_nodes, default_model=self.default_model, loop_unroll=None, follow_catch=self.follow_catch)
        ip.event_hooks = self.event_hooks; ip.access = self.access; ip.argregs = getattr(self, "argregs", None); ip.globs = self.globs
        ip.ns = self.ns + "." + str(i.id); ip.up = self
        if len(ip.ns) > 400: raise TooBig("activations of %s are nested too deeply" % name)
        for b in [b for b in s.mem if b.op == "region" and b.args[1] == "alloca" and b.args[0].endswith(ip.ns)]: del s.mem[b]
        s.env = dict(enumerate(args))
        out = []
        for o in ip.run(s):
            o.state.env = dict(env)
            if o.kind == "ret": out.append((o.state, o.value, list(ev)))
            elif o.kind == "throw": self.raise_(n, o.state, ev, i, o.info)
            else: self.outcome(n, o.kind, o.state, ev, o.value, o.info, i)
        return out

    def intrinsic(self, st, i, name, args, w):
        p = name.split(".")[1]
        if p in ("umin", "umax", "smin", "smax"):
            a, b = args[0], args[1]
            pr = {"umin": "ult", "umax": "ugt", "smin": "slt", "smax": "sgt"}[p]
            c = self.icmp(st, pr, a, b)
            if not c.lin: return a if c.c else b
            f = {"umin": min, "umax": max, "smin": lambda x, y: x if sgn(x, w) < sgn(y, w) else y, "smax": lambda x, y: x if sgn(x, w) > sgn(y, w) else y}[p]
            r = self._byte_op(a, b, f, w)
            if r is not None: return r
            # result term with relational facts
            t = term(w, 0 if p[0] == "u" else -(1 << (w - 1)), (1 << w) - 1 if p[0] == "u" else (1 << (w - 1)) - 1, p, (a, b))
            ra, rb = (self.urange(st, a), self.urange(st, b)) if p[0] == "u" else (self.srange(st, a), self.srange(st, b))
            mn = p.endswith("min")
            lo, hi = (min(ra[0], rb[0]), min(ra[1], rb[1])) if mn else (max(ra[0], rb[0]), max(ra[1], rb[1]))
            self._trng(st, t, lo, hi)
            la, lb = (self.uval(st, a), self.uval(st, b)) if p[0] == "u" else (self.sval(st, a), self.sval(st, b))
            for x in (la, lb):
                d = L({t: 1}, 0) - x
                self.add_fact(st, d if mn else d.scale(-1))
            return V(w, 0, ((t, 1),), term_bits(t, w))
        if p == "abs":
            a = args[0]
            r = self._byte_op(a, None, lambda x: abs(sgn(x, w)), w)
            if r is not None: return r
            if not a.lin: return const(w, abs(sgn(a.c, w)))
            lo, hi = self.srange(st, a)
            if lo >= 0: return a
            if hi <= 0: return self.sub(st, const(w, 0), a)
            return self._opq("abs", w, (a,), 0, max(-lo, hi))
        if p == "bswap":
            a = args[0]
            if a.bits is not None and None not in a.bits:
                n = w // 8
                return mkbits([b for k in range(n) for b in a.bits[8 * (n - 1 - k):8 * (n - k)]])
            return mkterm(term(w, 0, (1 << w) - 1, "bswap", (a,)))
        if p in ("fshl", "fshr"):
            a, b, c = args
            if not c.lin and a.bits and b.bits and None not in a.bits and None not in b.bits:
                k = c.c % w
                cat = list(b.bits) + list(a.bits)
                return mkbits(cat[w - k:2 * w - k]) if p == "fshl" else mkbits(cat[k:k + w])
            return mkterm(term(w, 0, (1 << w) - 1, p, (a, b, c)))
        if p in ("usub", "uadd", "umul", "sadd", "ssub", "smul"):
            if "with.overflow" in name:
                a, b = args[0], args[1]; ww = a.w
                kind = p[1:]; sg = p[0] == "s"
                x, y = (self.sval(st, a), self.sval(st, b)) if sg else (self.uval(st, a), self.uval(st, b))
                r = {"add": self.add, "sub": self.sub, "mul": self.mul}[kind](st, a, b)
                lo_, hi_ = (-(1 << (ww - 1)), (1 << (ww - 1)) - 1) if sg else (0, (1 << ww) - 1)
                e = None
                if kind == "add": e = x + y
                elif kind == "sub": e = x - y
                elif not y.d: e = x.scale(y.c)
                elif not x.d: e = y.scale(x.c)
                if e is not None:
                    lo, hi = self.lrange(st, e)
                    if lo >= lo_ and hi <= hi_: return Agg([r, const(1, 0)])
                    if lo > hi_ or hi < lo_: return Agg([r, const(1, 1)])
                o = mkterm(term(1, 0, 1, "ovf", (p, a, b)))
                return Agg([r, o])
            if "sat" in name:
                a, b = args
                f = {"usub": lambda x, y: max(x - y, 0), "uadd": lambda x, y: min(x + y, (1 << w) - 1)}.get(p)
                if f:
                    r = self._byte_op(a, b, f, w)
                    if r is not None: return r
                    if not a.lin and not b.lin: return const(w, f(a.c, b.c))
                if p == "usub":
                    x, y = self.uval(st, a), self.uval(st, b)
                    if self.prove_le(st, y - x): return self.sub(st, a, b)
                    if self.prove_le(st, x - y): return const(w, 0)
                    t = term(w, 0, (1 << w) - 1, "satusub", (a, b))
                    self._trng(st, t, 0, max(0, self.urange(st, a)[1] - self.urange(st, b)[0]))
                    self.add_fact(st, (x - y) - L({t: 1}, 0))
                    return V(w, 0, ((t, 1),), term_bits(t, w))
                return mkterm(term(w, 0, (1 << w) - 1, "sat" + p, (a, b)))
        if p in ("memcpy", "memmove"):
            for h in self.access:
                h("load", st, args[1], args[2], i); h("store", st, args[0], args[2], i)
            self.on_copy(st, args[0], args[1], args[2], i)
            self.memcpy(st, args[0], args[1], args[2], i)
            return None
        if p == "memset":
            for h in self.access: h("store", st, args[0], args[2], i)
            d, v, nn = args[:3]
            if isinstance(d, P):
                if nn.is_const() and d.off.is_const() and nn.c <= 4096:
                    off = sgn(d.off.c, 64)
                    k = 0
                    while k < nn.c:
                        s = 8 if nn.c - k >= 8 and not v.lin else 1
                        self.store(st, P(d.base, const(64, off + k)), const(s * 8, int.from_bytes(bytes([v.c]) * s, "little")) if not v.lin else v, s, i)
                        k += s
                else: self.havoc(st, d.base, ("ms", i.id))
            return None
        if p in ("lifetime", "assume", "dbg", "experimental", "invariant", "donothing", "prefetch", "stacksave", "stackrestore", "var", "va_end"): return None
        if p == "expect": return args[0]
        if p == "objectsize": return const(w, (1 << w) - 1)
        if p == "is": return self.opaque(st, w or 1, ("is", i.id))
        if p == "trap":
            return None
        if p in ("ctlz", "cttz", "ctpop"):
            f = {"ctlz": lambda x: w - x.bit_length(), "cttz": lambda x: (x & -x).bit_length() - 1 if x else w, "ctpop": lambda x: bin(x).count("1")}[p]
            if not args[0].lin: return const(w, f(args[0].c))
            r = self._byte_op(args[0], None, f, w)
            if r is not None: return r
            return self._opq(p, w, (args[0],), 0, w)
        if p == "eh": return mkterm(term(32, 1, (1 << 31) - 1, "typeid", (str(i.ops[0]),)))
        if w and p in ("fabs", "floor", "ceil", "sqrt", "copysign", "fmuladd", "powi", "trunc", "round"):
            return mkterm(term(w, 0, (1 << w) - 1, p, tuple(args)))
        if w is None and (not i.ty or i.ty == "void"): return None
        return NotImplemented

    def on_copy(self, st, d, s, nn, i): pass

    def memcpy(self, st, d, s, nn, i):
        if not isinstance(d, P): return
        if nn.is_const() and d.off.is_const() and nn.c <= 4096:
            n = nn.c; off = sgn(d.off.c, 64)
            if isinstance(s, P):
                vals_ = []
                if s.off.is_const():
                    so = sgn(s.off.c, 64); r = self.reg(st, s.base); k = 0
                    while k < n:
                        c = r.cells.get(so + k)
                        if c is not None and k + c[0] <= n: vals_.append((k, c[0], c[1])); k += c[0]
                        else:
                            # an undisturbed wide default, or bytes
                            sz = 8
                            while sz > 1 and (k + sz > n or k % sz or any(isinstance(o, int) and o < so + k + sz and so + k < o + c2[0] for o, c2 in r.cells.items())): sz //= 2
                            cov = [(o, c2) for o, c2 in r.cells.items() if isinstance(o, int) and o < so + k + 1 and so + k < o + c2[0]]
                            if sz > 1 and cov: sz = 1
                            vals_.append((k, sz, self.load_const(st, s.base, so + k, sz, "i%d" % (8 * sz)))); k += sz
                else:
                    k = 0
                    while k < n:
                        sz = 1
                        v = self.load(st, P(s.base, self.add(st, s.off, const(64, k))), sz, "i8", i)
                        vals_.append((k, sz, v)); k += sz
                for k, sz, v in vals_: self.store(st, P(d.base, const(64, off + k)), v, sz, i)
                return
        self.havoc(st, d.base, ("mc", i.id))


_parts = {}


def term_parts(t):
    """([(byte term, 256 values)], constant) of a term that is a sum of functions of single bytes; None when it is not"""
    if t in _parts: return _parts[t]
    r = None
    if t.op == "bfun": r = ([t.args], 0)
    elif t.op == "byte": r = ([(t, range(256))], 0)
    elif t.op == "bits":
        by = {}; cc = 0
        for i, b in enumerate(t.args):
            if b in (0, 1): cc += b << i
            elif b[0] != "f": break
            else:
                o = by.setdefault(b[1], [0] * 256); T = b[2]
                for c in range(256):
                    if T >> c & 1: o[c] += 1 << i
        else: r = (list(by.items()), cc)
    _parts[t] = r
    return r


def bytes_of(v):
    """({byte term: 256 contributions}, constant) when the linear part of v is a sum of functions of single bytes"""
    by = {}; cc = v.c
    for t, k in v.lin:
        p = term_parts(t)
        if p is None: return None
        cc += k * p[1]
        for b, vs in p[0]:
            o = by.get(b)
            by[b] = [k * x for x in vs] if o is None else [y + k * x for x, y in zip(vs, o)]
    return by, cc


class LH:
    """hashable holder of a linear expression"""
    __slots__ = ("l", "k")

    def __init__(self, l): self.l = l; self.k = l.key()

    def __hash__(self): return hash(self.k)

    def __eq__(self, o): return isinstance(o, LH) and self.k == o.k

    def desc(self, d=0): return repr(self.l)


class _Undef:
    w = 64; lin = (); c = 0; bits = None

    def __repr__(self): return "undef"


UNDEF = _Undef()


def term_undef(): return UNDEF


def default_call(ip, n, st, ev, i, args):
    """a call the analysis knows nothing about: may write all memory reachable from its arguments"""
    if i.get("noreturn"):
        ip.raise_(n, st, ev, i, ("noreturn", ip.mod.q(i.callee) if i.callee else "?"))
        return []
    ip.havoc_reach(st, args, (i.id, ip.cur.loc[1]))
    return None
