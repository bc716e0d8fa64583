"""Binary readers and writers compared one level at a time.  The reader of a type is interpreted abstractly on an input whose items are
symbolic (counts, flags and discriminants fork into small values); then the writer of the same type is interpreted on the object the
reader left behind.  The writer must emit the items the reader consumed: same kinds, same order, same counts, each from the part of the
object the item was stored into.  Readers and writers of member and element types are items themselves, so agreement of every type
follows from the agreement of each."""
import re, subprocess
from .eng import *
from .models import MODELS, text_of, str_parts, set_str
from .steps import Undecided, isnull
from .iso import split_params
from . import lib

KEEPC = r"^eosio::(ship_protocol::)?(from_bin|to_bin)$|^eosio::(varuint32_from_bin|varuint64_from_bin|varuint32_to_bin|size_stream::\w+|vector_stream::\w+|fixed_buf_stream::\w+|input_stream::\w+)$|^std::vector::(_M_realloc_\w+|_M_default_append|_M_fill_\w+|_M_range_\w+|_M_assign_aux)$|^std::__cxx11::basic_string::\w|^std::(__cxx11::list|list|deque|set|map|multimap|_Rb_tree|_Rb_tree_iterator|_Rb_tree_const_iterator|_List_iterator|_List_const_iterator|_Deque_iterator)::|~"


class _I: id = -1; ty = None; fn = None


_I = _I()
INTS = {"bool": 1, "char": 1, "signed char": 1, "unsigned char": 1, "short": 2, "unsigned short": 2, "int": 4, "unsigned int": 4, "long": 8, "unsigned long": 8, "__int128": 16, "unsigned __int128": 16, "float": 4, "double": 8}
SINKS = ("size_stream", "fixed_buf_stream", "vector_stream")
COUNTS = (0, 1, 3)
BIG = 70001
SV = "std::basic_string_view<char, std::char_traits<char>>"


def codecmod(): return module(lib.UNITS, "codec", roots=r"^eosio::(ship_protocol::)?(from_bin|to_bin)$", keep=KEEPC, types=True, closure=False)


_sz = None


def sizes():
    """sizeof of every class, by demangled name"""
    global _sz
    if _sz is None:
        m = codecmod(); ids = [(t["id"], t["size"]) for t in m.types if t.get("id") and t.get("size")]
        r = subprocess.run(["c++filt"], input="\n".join(i for i, _ in ids), capture_output=True, text=True).stdout.splitlines()
        _sz = {}
        for (i, s), d in zip(ids, r): _sz[short(re.sub(r"^typeinfo name for ", "", d))] = s // 8
    return _sz


def short(t):
    t = re.sub(r"\s+>", ">", t).replace("std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>", "std::string").replace(" const", "")
    for _ in range(6):
        t = re.sub(r", std::allocator<[^<>]*(<[^<>]*(<[^<>]*(<[^<>]*>[^<>]*)*>[^<>]*)*>[^<>]*)*>", "", t)
    return t.strip().rstrip("&").strip()


def sizeof(t):
    t = short(t)
    if t in INTS: return INTS[t]
    return sizes().get(t)


def targs(t):
    """template arguments of a type"""
    k = t.find("<")
    return split_params("f(" + t[k + 1:t.rfind(">")] + ")") if k >= 0 else []


class Coder:
    def __init__(self, m): self.m = m

    # ---- events ----
    def log(self, st, e, where):
        t = st.aux.get(("ev",), ()) + (e,)
        if len(t) > 80: raise Undecided('more items than the bound')
        st.aux[("ev",)] = t; st.aux[("at",)] = st.aux.get(("at",), ()) + (where,)
        return len(t) - 1

    def mark(self, st, p, k, size=None):
        """item k was stored at p"""
        self.ip.store(st, p, mkterm(term((size or 1) * 8, 0, (1 << (size or 1) * 8) - 1, "sym", ("item", k))), size or 1, _I)

    def fill(self, st, p, k, t):
        """an object of class type read as item k: every word of it stands for the item"""
        ip = self.ip
        if t == "std::string": set_str(ip, st, p, term(64, ADDR_LO, ADDR_HI, "region", ("str:%d" % k, "span"), True), mkterm(term(64, 0, 1 << 30, "sym", ("item", k, "len")))); return
        n = sizeof(t) or 1
        if n > 2048: n = 1
        q = 0
        while q < n:
            z = 8 if n - q >= 8 else 1
            ip.store(st, ip.padd(p, const(64, q)), mkterm(term(z * 8, 0, (1 << z * 8) - 1, "sym", ("item", k, q))), z, _I); q += z

    def filled(self, ip, st, p, k, t):
        if t == "std::string":
            d = str_parts(ip, st, p)[0]
            if not isinstance(d, P) or d.base.op != "region" or not str(d.base.args[0]).startswith("str:"): return None
            return d.base.args[0] == "str:%d" % k
        n = sizeof(t) or 1
        if n > 2048: n = 1
        q = 0; r = []
        while q < n:
            z = 8 if n - q >= 8 else 1
            r.append(self.cell(ip, st, ip.padd(p, const(64, q)), z, ("item", k, q))); q += z
        if any(x for x in r): return True       # padding does not follow a move
        return None if any(x is None for x in r) else False

    def type_of(self, i, k=0): return short(split_params(self.m.dem(i.callee))[k])

    def reader_models(self):
        M = dict(MODELS)
        def item(ip, n, st, ev, i, a):
            t = self.type_of(i); sz = INTS.get(t)
            if i.get("sret") or len(a) < 2: raise Undecided("a reader that returns its value at %s" % i.where())
            if not isinstance(a[0], P): raise Undecided("an item goes to an unknown place at %s" % i.where())
            outs = []
            vals_ = [0, 1] if t == "bool" else [None]
            for v in vals_:
                s = st.copy()
                k = self.log(s, ("item", t, v), i.where())
                if k is None: continue
                if t == "bool": ip.store(s, a[0], const(8, v), 1, _I)
                elif sz and sz <= 8: self.mark(s, a[0], k, sz)
                elif sz == 16:
                    for q in (0, 8): ip.store(s, ip.padd(a[0], const(64, q)), mkterm(term(64, 0, (1 << 64) - 1, "sym", ("item", k, q))), 8, _I)
                else:
                    w = re.match(r"std::array<(unsigned char|char), (\d+)", t)
                    n_ = int(w.group(2)) if w else 1
                    if w:
                        for q in range(n_): ip.store(s, ip.padd(a[0], const(64, q)), mkterm(term(8, 0, 255, "sym", ("item", k, q))), 1, _I)
                    else: self.fill(s, a[0], k, t)
                outs.append((s, None, list(ev)))
            return outs
        def varuint(w):
            def f(ip, n, st, ev, i, a):
                outs = []
                for v in self.counts:
                    s = st.copy(); k = self.log(s, ("varuint", v), i.where())
                    if k is None: continue
                    ip.store(s, a[0], const(w * 8, v), w, _I)
                    outs.append((s, None, list(ev)))
                return outs
            return f
        def read(ip, n, st, ev, i, a):
            ln = ip.norm(st, a[2]) if len(a) > 2 else None
            if ln is None or not ln.is_const(): raise Undecided("a read of unknown length at %s" % i.where())
            k = self.log(st, ("raw", ln.c), i.where())
            if k is None: return []
            if ln.c == 1 and self.t == "bool" and isinstance(a[1], P):
                outs = []
                for v in (0, 1, 2):
                    s = st.copy(); s.aux[("ev",)] = s.aux[("ev",)][:-1] + (("raw", 1, v),); ip.store(s, a[1], const(8, v), 1, _I); outs.append((s, None, list(ev)))
                return outs
            if ln.c and isinstance(a[1], P):
                if ln.c <= 64:
                    for q in range(ln.c): ip.store(st, ip.padd(a[1], const(64, q)), mkterm(term(8, 0, 255, "sym", ("item", k, q))), 1, _I)
                elif a[1].off.is_const(): st.aux[("raw", a[1].base, a[1].off.c)] = (k, ln.c)
                else: raise Undecided("a read to an unknown place at %s" % i.where())
            elif ln.c: raise Undecided("a read to an unknown place at %s" % i.where())
            return None
        def span(ip, n, st, ev, i, a):
            ln = ip.norm(st, a[2])
            if not ln.is_const(): raise Undecided("a read of unknown length at %s" % i.where())
            k = self.log(st, ("raw", ln.c), i.where())
            if k is None: return []
            r = term(64, ADDR_LO, ADDR_HI, "region", ("span:%d" % k, "span"), True)
            ip.store(st, a[1], P(r, const(64, 0)), 8, _I)
            st.aux[("raw", r, 0)] = (k, ln.c)
            return None
        def get_pos(ip, n, st, ev, i, a):
            k = len(st.aux.get(("ev",), ()))
            return P(term(64, ADDR_LO, ADDR_HI, "region", ("span:%d" % k, "span"), True), const(64, 0))
        def skip(ip, n, st, ev, i, a):
            ln = ip.norm(st, a[1])
            if not ln.is_const(): raise Undecided("a read of unknown length at %s" % i.where())
            k = self.log(st, ("raw", ln.c), i.where())
            if k is None: return []
            st.aux[("raw", term(64, ADDR_LO, ADDR_HI, "region", ("span:%d" % k, "span"), True), 0)] = (k, ln.c); return None
        def remaining(ip, n, st, ev, i, a):
            outs = []
            if st.aux.get(("rem",)) is not None: return const(64, st.aux[("rem",)])
            for v in (0, 50):
                s = st.copy(); s.aux[("rem",)] = v; outs.append((s, const(64, v), list(ev)))
            return outs
        M["eosio::from_bin"] = self.item = item; M["eosio::varuint32_from_bin"] = varuint(4); M["eosio::varuint64_from_bin"] = varuint(8)
        X = "eosio::input_stream::"
        M[X + "read"] = read; M[X + "read_reuse_storage"] = span; M[X + "get_pos"] = get_pos; M[X + "skip"] = skip; M[X + "check_available"] = lambda ip, n, st, ev, i, a: None
        M[X + "remaining"] = remaining
        M[X + "input_stream"] = lambda ip, n, st, ev, i, a: None if len(a) == 1 else default_call(ip, n, st, ev, i, a)
        self.containers(M)
        return M

    def elem_type(self, i):
        d = self.m.dem(i.callee); name = self.m.q(i.callee).split("::")[-1]
        for w in re.finditer(r">::" + re.escape(name) + r"\b", d):
            k = w.start(); depth = 0
            while k >= 0:
                depth += d[k] == ">"; depth -= d[k] == "<"
                if depth == 0: break
                k -= 1
            if d[:k].count("<") == d[:k].count(">"): return targs(short("x" + d[k:w.start() + 1]))
        return []

    def containers(self, M):
        def nop(ip, n, st, ev, i, a): return None
        def realloc(ip, n, st, ev, i, a):
            et = self.elem_type(i); es = sizeof(et[0]) if et else None
            if es is None: raise Undecided("a vector of %s grows" % (et[:1] or self.m.dem(i.callee)[:80]))
            v, pos = a[:2]; x = a[2] if len(a) > 2 else None
            b = ip.load(st, v, 8, "ptr", _I)
            if not isnull(b): raise Undecided("a vector grows at %s" % i.where())
            buf = self.heap(st, "vec")
            if x is not None: self.copy(st, P(buf, const(64, 0)), x, es)
            else: self.zero(st, P(buf, const(64, 0)), es)
            ip.store(st, v, P(buf, const(64, 0)), 8, _I); ip.store(st, ip.padd(v, const(64, 8)), P(buf, const(64, es)), 8, _I)
            ip.store(st, ip.padd(v, const(64, 16)), P(buf, const(64, es * 64)), 8, _I)
            return P(buf, const(64, 0))
        def grow(ip, n, st, ev, i, a):
            et = self.elem_type(i); es = sizeof(et[0]) if et else None
            k = ip.norm(st, a[1])
            if es is None or not k.is_const(): raise Undecided("a vector grows at %s" % i.where())
            v = a[0]; b = ip.load(st, v, 8, "ptr", _I)
            if k.c == 0: return None
            if not isnull(b): raise Undecided("a vector grows at %s" % i.where())
            buf = self.heap(st, "vec")
            ip.store(st, v, P(buf, const(64, 0)), 8, _I)
            for q in (8, 16): ip.store(st, ip.padd(v, const(64, q)), P(buf, const(64, es * k.c)), 8, _I)
            return None
        def resize(ip, n, st, ev, i, a):
            k = ip.norm(st, a[1])
            if not k.is_const(): raise Undecided("a string is resized to an unknown length")
            buf = self.heap(st, "strbuf")
            set_str(ip, st, a[0], buf, k); return None
        # sequences: aux[("seq", base, off)] is the number of elements, each in a region of its own
        def key(p):
            if not isinstance(p, P) or not p.off.is_const(): raise Undecided("an unknown container")
            return ("seq", p.base, sgn(p.off.c, 64))
        def elem(k, j): return term(64, ADDR_LO, ADDR_HI, "region", ("elem:%s:%s:%d" % (k[1].args[0], k[2], j), "elem"), True)
        def emplace_back(ip, n, st, ev, i, a):
            k = key(a[0]); c = st.aux.get(k, 0); r = elem(k, c); st.aux[k] = c + 1
            es = sizeof(self.elem_type(i)[0])
            if len(a) > 1: self.copy(st, P(r, const(64, 0)), a[1], es)
            elif es: self.zero(st, P(r, const(64, 0)), es)
            return P(r, const(64, 0))
        def emplace(ip, n, st, ev, i, a):
            k = key(a[0]); c = st.aux.get(k, 0); r = elem(k, c); st.aux[k] = c + 1
            self.copy(st, P(r, const(64, 0)), a[1], 64)
            if len(a) > 2: raise Undecided("an element is made of several parts")
            return Agg([P(r, const(64, 0)), const(8, 1)])
        def back(ip, n, st, ev, i, a):
            k = key(a[0]); c = st.aux.get(k, 0)
            if not c: raise Undecided("the last element of an empty sequence")
            return P(elem(k, c - 1), const(64, 0))
        def clear(ip, n, st, ev, i, a): st.aux[key(a[0])] = 0; return None
        def size(ip, n, st, ev, i, a): return const(64, st.aux.get(key(a[0]), 0))
        def it(ip, st, k, j): return P(term(64, ADDR_LO, ADDR_HI, "region", ("it:%s:%s" % (k[1].args[0], k[2]), "it", k[1], k[2]), True), const(64, j * 8))
        def ret(ip, st, i, a, v):
            if i.get("sret"): ip.store(st, a[0], v, 8, _I); return None
            return v
        def begin(ip, n, st, ev, i, a): return ret(ip, st, i, a, it(ip, st, key(a[-1]), 0))
        def end(ip, n, st, ev, i, a): k = key(a[-1]); return ret(ip, st, i, a, it(ip, st, k, st.aux.get(k, 0)))
        def cur(ip, st, p):
            v = ip.load(st, p, 8, "ptr", _I)
            if not isinstance(v, P) or not v.off.is_const() or v.base.args[1] != "it": raise Undecided("an unknown iterator")
            return v
        def inc(ip, n, st, ev, i, a):
            v = cur(ip, st, a[0]); ip.store(st, a[0], ip.padd(v, const(64, 8)), 8, _I); return a[0]
        def deref(ip, n, st, ev, i, a):
            v = cur(ip, st, a[0]); return P(elem(("seq", v.base.args[2], v.base.args[3]), v.off.c // 8), const(64, 0))
        def itctor(ip, n, st, ev, i, a):
            if len(a) == 2: ip.store(st, a[0], ip.load(st, a[1], 8, "ptr", _I) if isinstance(a[1], P) and a[1].base.args[1] not in ("it",) else a[1], 8, _I)
            return None
        for c in ("std::__cxx11::list", "std::list", "std::deque", "std::set", "std::map"):
            M[c + "::emplace_back"] = M[c + "::push_back"] = emplace_back; M[c + "::emplace"] = M[c + "::insert"] = emplace; M[c + "::back"] = back; M[c + "::clear"] = clear
            M[c + "::size"] = size; M[c + "::begin"] = M[c + "::cbegin"] = begin; M[c + "::end"] = M[c + "::cend"] = end
        for c in ("_Rb_tree_iterator", "_Rb_tree_const_iterator", "_List_iterator", "_List_const_iterator", "_Deque_iterator"):
            M["std::%s::operator++" % c] = inc; M["std::%s::operator*" % c] = M["std::%s::operator->" % c] = deref; M["std::%s::%s" % (c, c)] = itctor
        M["std::vector::_M_realloc_insert"] = M["std::vector::_M_realloc_append"] = realloc
        M["std::vector::_M_default_append"] = grow
        M["std::__cxx11::basic_string::resize"] = resize

    def heap(self, st, kind):
        c = st.aux.get(("heap",), 0); st.aux[("heap",)] = c + 1
        return term(64, ADDR_LO, ADDR_HI, "region", ("heap:%d" % c, kind), True)

    def zero(self, st, p, n):
        r = self.ip.reg(st, p.base) if p.base in st.mem else Reg()
        c = dict(r.cells); o = sgn(p.off.c, 64)
        for q in range(0, n - 7, 8): c.setdefault(o + q, (8, const(64, 0)))
        for q in range(n - n % 8, n): c.setdefault(o + q, (1, const(8, 0)))
        st.mem[p.base] = Reg(c, r.ver)

    def copy(self, st, d, s, n):
        if not isinstance(s, P) or not s.off.is_const(): raise Undecided("an unknown object is copied")
        r = st.mem.get(s.base)
        o = sgn(s.off.c, 64)
        for q, (z, v) in sorted((r.cells if r else {}).items(), key=str):
            if isinstance(q, int) and o <= q < o + (n or 64): self.ip.store(st, self.ip.padd(d, const(64, q - o)), v, z, _I)

    def default(self, ip, n, st, ev, i, a):
        q = self.m.q(i.callee) if i.callee else None
        if q is None: raise Undecided("an indirect call at %s" % i.where())
        if "~" in q: return None
        if re.match(r"eosio::ship_protocol::(from_bin|to_bin)$", q): return self.item(ip, n, st, ev, i, a)
        if i.callee in self.m.fns: return ip.enter(n, st, ev, i, i.callee, a)
        raise Undecided("a call of %s at %s" % (short(self.m.dem(i.callee))[:90], i.where()))

    def writer_models(self):
        M = dict(MODELS)
        def out(ip, st, i, e, ok):
            k = self.log(st, e, i.where())
            if k is None: return []
            if ok is False: st.aux[("wrong",)] = st.aux.get(("wrong",), ()) + (k,)
            if ok is None: st.aux[("maybe",)] = st.aux.get(("maybe",), ()) + (k,)
            return None
        def same(ip, st, p, k, size, t):
            """is what is at p item k?"""
            if not isinstance(p, P): return None
            if t == "bool":
                v = ip.norm(st, ip.load(st, p, 1, "i8", _I)); w = self.want[k][2] if k < len(self.want) and self.want[k][0] == "item" else None
                if not v.is_const(): return None
                return v.c == w
            if size and size <= 8: return self.cmp(ip, st, p, k, size)
            if size == 16: return all3([self.cell(ip, st, ip.padd(p, const(64, q)), 8, ("item", k, q)) for q in (0, 8)])
            w = re.match(r"std::array<(unsigned char|char), (\d+)", t)
            if w: return all3([self.cell(ip, st, ip.padd(p, const(64, q)), 1, ("item", k, q)) for q in range(int(w.group(2)))])
            return self.filled(ip, st, p, k, t)
        def item(ip, n, st, ev, i, a):
            k = len(st.aux.get(("ev",), ()))
            ts = split_params(self.m.dem(i.callee)); t = short(ts[0])
            if t == "std::basic_string_view<char, std::char_traits<char>>" and not isinstance(a[0], P) and len(a) == 3:
                # a view of a string's characters stands for the string
                want = self.want[k] if k < len(self.want) else None
                if want and want[0] == "varuint":
                    v = ip.norm(st, a[0]); r = out(ip, st, i, ("varuint", v.c if v.is_const() else None), v.is_const() and v.c == want[1])
                    if r is not None: return r
                    return raw(ip, n, st, ev, i, [None, a[1], a[0]])
            sz = INTS.get(t)
            p = a[0]
            if not isinstance(p, P): raise Undecided("an item comes from an unknown place at %s" % i.where())
            return out(ip, st, i, ("item", t, None), same(ip, st, p, k, sz, t))
        def varuint(ip, n, st, ev, i, a):
            k = len(st.aux.get(("ev",), ())); v = ip.norm(st, a[0])
            w = self.want[k] if k < len(self.want) else None
            ok = None if not v.is_const() else bool(w and w[0] == "varuint" and v.c == w[1])
            return out(ip, st, i, ("varuint", v.c if v.is_const() else None), ok)
        def raw(ip, n, st, ev, i, a):
            k = len(st.aux.get(("ev",), ()))
            if len(a) == 2:
                v = a[1]; s = mkterm(term(8, 0, 255, "sym", ("item", k, 0)))
                return out(ip, st, i, ("raw", 1), None if v.is_const() else ip.norm(st, v).key == s.key or None)
            ln = ip.norm(st, a[2])
            if not ln.is_const(): raise Undecided("a write of unknown length at %s" % i.where())
            p = a[1]
            if ln.c == 0: return out(ip, st, i, ("raw", 0), True)
            w = self.want[k] if k < len(self.want) else None
            if ln.c == 1 and w and w[0] == "raw" and len(w) == 3:
                v = ip.norm(st, ip.load(st, p, 1, "i8", _I))
                return out(ip, st, i, ("raw", 1), v.c == int(w[2] != 0) if v.is_const() else None)
            if not isinstance(p, P): raise Undecided("a write from an unknown place at %s" % i.where())
            b = st.aux.get(("raw", p.base, p.off.c)) if p.off.is_const() else None
            if b is not None: return out(ip, st, i, ("raw", ln.c), b == (k, ln.c))
            if ln.c > 64: raise Undecided("a long write from an unknown place")
            return out(ip, st, i, ("raw", ln.c), all3([self.cell(ip, st, ip.padd(p, const(64, q)), 1, ("item", k, q)) for q in range(ln.c)]))
        M["eosio::to_bin"] = self.item = item; M["eosio::varuint32_to_bin"] = varuint
        for s in SINKS: M["eosio::%s::write" % s] = raw
        self.containers(M)
        return M

    def cell(self, ip, st, p, size, key):
        v = ip.norm(st, ip.load(st, p, size, "i%d" % (size * 8), _I))
        s = mkterm(term(size * 8, 0, (1 << size * 8) - 1, "sym", key))
        if v.key == s.key or (v.bits is not None and v.bits == s.bits): return True
        # something else that is known for certain: a constant, or another item
        if v.is_const(): return False
        ts = [t for t, c in v.lin]
        if len(ts) == 1 and v.lin[0][1] == 1 and v.c == 0 and ts[0].op == "sym" and ts[0].args[0] == "item": return False
        # bits of items, but not those bits
        if v.bits is not None and all(b in (0, 1) or b is not None and b[0] == "x" and b[1].op == "sym" and b[1].args[0] == "item" for b in v.bits): return False
        return None

    def cmp(self, ip, st, p, k, size): return self.cell(ip, st, p, size, ("item", k))


def all3(xs):
    if any(x is False for x in xs): return False
    return None if any(x is None for x in xs) else True


def text(evs): return ", ".join("%s %s" % (e[0], e[1]) if e[0] != "item" or e[2] is None else "item %s = %s" % (e[1], e[2]) for e in evs) or "nothing"


def start(C, t):
    """an empty object to read into"""
    def setup(ip, st):
        C.ip = ip
        r = ip.argregs["obj"]
        n = sizeof(t) or 64
        C.zero(st, P(r, const(64, 0)), min(n, 512))
    return setup


def compare(t, reader, writers, counts):
    """[(ok or None, message)] for the reader of t and its writers"""
    m = codecmod(); res = []
    C = Coder(m); C.counts = counts; C.t = t
    ip, outs = analyse(m, reader, ["obj", ("stream", "obj")], start(C, t), unroll=80, models=C.reader_models(), default_model=C.default, limit=400)
    rets = [o for o in outs if o.kind == "ret"]
    if not rets: raise Undecided("the reader never returns")
    for o in rets:
        if o.state.aux.get(("rem",)) == 0 and not o.state.aux.get(("ev",)): continue         # the item ends a structure and may be missing
        evs = o.state.aux.get(("ev",), ())
        for sink, w in writers:
            W = Coder(m); W.want = evs; W.t = t
            def setup(ip2, st2):
                W.ip = ip2
                for b, r in o.state.mem.items():
                    if b.op == "region" and b.args[1] != "alloca": st2.mem[b] = r
                for k, v in o.state.aux.items():
                    if k[0] in ("raw", "seq", "heap", "text"): st2.aux[k] = v
            args = ["obj", ("sink", "obj")]
            if t == SV: args = [ip.norm(o.state, ip.load(o.state, P(ip.argregs["obj"], const(64, 0)), 8, "i64", _I)), ip.load(o.state, P(ip.argregs["obj"], const(64, 8)), 8, "ptr", _I), ("sink", "obj")]
            ip2, outs2 = analyse(m, w, args, setup, unroll=80, models=W.writer_models(), default_model=W.default, limit=400)
            if not [x for x in outs2 if x.kind == "ret"]:
                res.append((False, "%s: nothing is written for %s (%s)" % (sink, text(evs), outs2[0].kind if outs2 else "?"))); continue
            for x in outs2:
                if x.kind != "ret": continue
                got = x.state.aux.get(("ev",), ()); at = x.state.aux.get(("at",), ())
                wrong = x.state.aux.get(("wrong",), ()); maybe = x.state.aux.get(("maybe",), ())
                kinds = [(e[0], e[1]) for e in got] == [(e[0], e[1]) for e in evs] if not maybe else None
                msg = "the reader consumes [%s], the writer to %s emits [%s]" % (text(evs), sink, text(got))
                if len(got) != len(evs) or any(a[0] != b[0] or a[0] == "item" and a[1] != b[1] or a[0] == "raw" and a[1] != b[1] for a, b in zip(got, evs)): res.append((False, msg))
                elif wrong: res.append((False, "item %d (%s at %s) is not what the reader put there: %s" % (wrong[0] + 1, text(got[wrong[0]:wrong[0] + 1]), at[wrong[0]], msg)))
                elif maybe: res.append((None, "item %d (%s at %s) could not be related: %s" % (maybe[0] + 1, text(got[maybe[0]:maybe[0] + 1]), at[maybe[0]], msg)))
                else: res.append((True, "[%s]" % text(evs)))
    return res


LEAF = (0, 1, 2, 3, 127, 128, 16383, 16384, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff)


def pairs():
    """{type: (reader, [(sink, writer)])}"""
    m = codecmod(); R = {}; W = {}
    for n in sorted(m.fns):
        q = m.q(n)
        if not re.match(r"eosio::(ship_protocol::)?(from_bin|to_bin)$", q): continue
        ps = split_params(m.dem(n))
        if len(ps) < 2: continue
        t = short(ps[0])
        if q.endswith("from_bin"): R[t] = n
        else: W.setdefault(t, []).append((short(ps[-1]).split("::")[-1], n))
    return {t: (R[t], [w for w in W[t] if w[0] in SINKS]) for t in R if t in W}, sorted(set(R) - set(W)), sorted(set(W) - set(R))


def shapes(t, reader, counts):
    """the item lists the reader consumes"""
    C = Coder(codecmod()); C.counts = counts; C.t = t
    ip, outs = analyse(C.m, reader, ["obj", ("stream", "obj")], start(C, t), unroll=80, models=C.reader_models(), default_model=C.default, limit=400)
    return [o.state.aux.get(("ev",), ()) for o in outs if o.kind == "ret"]


def judge(t, reader, writers):
    """compare with counts that suit the type"""
    res = compare(t, reader, writers, COUNTS)
    sh = shapes(t, reader, COUNTS)
    if sh and all(len(e) == 1 and e[0][0] == "varuint" for e in sh): res += compare(t, reader, writers, LEAF)
    elif sh and all(len(e) == 2 and e[0][0] == "varuint" and e[1][0] == "raw" for e in sh): res += compare(t, reader, writers, (BIG,))
    return res
