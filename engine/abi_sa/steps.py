"""The ABI-driven conversions as machines: the top-level loop of each conversion and the step function of every structural type are
interpreted abstractly over small types.  The tokens (or the document tree, or the binary input) are not given: each question the
code asks about them forks into all its answers, so that the outcomes cover every input for the type."""
import re
from .eng import *
from .models import text_of, MODELS, str_text

KEEP = r"^std::(map|_Rb_tree)::|^std::vector::(_M_re|_M_range_insert|_M_range_init|_M_insert|_M_append|_M_default|_M_fill|insert)|^std::__cxx11::basic_string::\w|~|^eosio::(json_token_stream|vector_stream|input_stream|from_json|from_bin|to_json|to_bin|varuint32_\w+|push_varuint32)(::|$)"
STRUCT = ("optional", "extension", "array", "struct", "variant")
PSEUDO = {"optional": "optional", "extension": "extension", "array": "array", "struct": "object", "variant": "variant"}


class _I: id = -1; ty = None


_I = _I()


class Undecided(Exception): pass


def stepmod(): return module(["drv:steps"], "steps", keep=KEEP)


class Lay:
    def __init__(self, m):
        self.m = m
        for n in m.fns:
            if n.startswith("sa_c_"):
                ip, outs = analyse(m, n, [])
                if len(outs) != 1 or not outs[0].value.is_const(): raise build.Broken("%s is not a constant" % n)
                setattr(self, n[5:], outs[0].value.c)
        self.kind = {}; self.jkind = {}; self.ixoff = {}
        for pre, d in (("sa_mk_", self.kind), ("sa_mj_", self.jkind)):
            for n in m.fns:
                if not n.startswith(pre): continue
                ip, outs = analyse(m, n, ["v"])
                r = outs[0].state.mem.get(ip.argregs["v"])
                # the discriminant is the last byte stored
                c = [(o, v) for o, (s, v) in r.cells.items() if s == 1 and isinstance(o, int) and v.is_const()]
                if not c: raise build.Broken("%s stores no discriminant" % n)
                o, v = max(c, key=lambda x: x[0])
                d[n[6:]] = v.c; self.ixoff.setdefault(pre, set()).add(o)
        if any(len(x) != 1 for x in self.ixoff.values()): raise build.Broken("the discriminants are not where they were")
        self.ix = self.ixoff["sa_mk_"].pop(); self.jix = self.ixoff["sa_mj_"].pop()


_lay = None


def lay():
    global _lay
    if _lay is None: _lay = Lay(stepmod())
    return _lay


# a type: ("leaf", name) ("optional"|"extension"|"array", T) ("struct", ((field, T), ...)) ("variant", ((name, T), ...))
def leaf(n="t"): return ("leaf", n)


def show(t):
    k = t[0]
    if k == "leaf": return t[1]
    if k == "optional": return show(t[1]) + "?"
    if k == "array": return show(t[1]) + "[]"
    if k == "extension": return show(t[1]) + "$"
    s = ", ".join("%s: %s" % (f, show(x)) for f, x in t[1])
    return "{%s}" % s if k == "struct" else "variant<%s>" % s


LAST = [None]       # the machine of the conversion at hand


class Machine:
    """one conversion ('js' streaming, 'jv' reorderable, 'bj' decoder) of one type"""
    def __init__(self, conv, t, doc=None):
        self.conv = conv; self.t = t; self.m = stepmod(); self.L = lay(); self.doc = doc
        self.bad = set(); self.out = set(); LAST[0] = self; self.sites = set(); self.slots = set()

    # ---- memory ----
    def text(self, ip, st, s):
        r = ip.region("chars:" + s, kind="strbuf")
        if r not in st.mem:
            st.mem[r] = Reg({k: (1, const(8, ord(c))) for k, c in enumerate(s + "\0")})
            st.aux[("text", r)] = s
        return P(r, const(64, 0))

    def put(self, st, r, off, v, size=8):
        reg = st.mem.get(r)
        if reg is None: reg = Reg()
        c = dict(reg.cells); c[off] = (size, v); st.mem[r] = Reg(c, reg.ver)

    def string(self, ip, st, r, off, s):
        self.put(st, r, off, self.text(ip, st, s)); self.put(st, r, off + 8, const(64, len(s)))

    def mktype(self, ip, st, t, path="T"):
        L = self.L; k = t[0]
        r = ip.region(path, kind="type")
        self.types[r] = t
        self.string(ip, st, r, L.type_name, show(t))
        D = L.type_data
        self.put(st, r, D + L.ix, const(8, L.kind["builtin" if k == "leaf" else k]), 1)
        ser = ip.region("ser:" + (k if k != "leaf" else path), kind="obj"); self.put(st, r, L.type_ser, P(ser, const(64, 0)))
        self.sers[ser] = k
        vt = ip.region("vt:" + k, kind="obj"); self.put(st, ser, 0, P(vt, const(64, 0)))
        for s in range(8): self.put(st, vt, 8 * s, P(ip.region("slot:%s:%d" % (k, s), kind="slot"), const(64, 0)))
        if k in ("optional", "extension", "array"):
            self.put(st, r, D, self.mktype(ip, st, t[1], path + k[0]))
        elif k in ("struct", "variant"):
            fr = ip.region(path + ".fields", kind="fields"); n = len(t[1])
            self.fields[fr] = n
            for j, (f, x) in enumerate(t[1]):
                self.string(ip, st, fr, j * L.field_size + L.field_name, f)
                self.put(st, fr, j * L.field_size + L.field_type, self.mktype(ip, st, x, "%s.%d" % (path, j)))
            o = D + (L.struct_fields if k == "struct" else 0)
            for q, x in ((0, 0), (8, n), (16, n)): self.put(st, r, o + q, P(fr, const(64, x * L.field_size)))
            if k == "struct": self.put(st, r, D, const(64, 0)) if L.struct_fields else None
        return P(r, const(64, 0))

    def access(self, kind, st, p, size, inst):
        """no access outside the fields of the type or the elements of the document"""
        if not isinstance(p, P) or p.base.op != "region": return
        b = p.base
        n = self.fields.get(b)
        if n is not None: lim = n * self.L.field_size
        elif b.args[1] == "elems": lim = b.args[2] * self.L.jvalue_size if len(b.args) > 2 else None
        elif b.args[1] == "vec": lim = None
        else: return
        if lim is None: return
        sz = size.c if isinstance(size, V) and size.is_const() else size if isinstance(size, int) else None
        if p.off.is_const():
            o = sgn(p.off.c, 64)
            if sz is None or o < 0 or o + sz > lim:
                m = "%s accesses element at offset %d of %d at %s" % (inst.fn.q, o, lim, inst.where())
                self.out.add(m); self.bad.add(m)
        else: self.bad.add("%s accesses an element by an unchecked index at %s" % (inst.fn.q, inst.where()))

    # ---- traces ----
    def log(self, st, x):
        st.aux[("trace",)] = st.aux.get(("trace",), ()) + (x,)
        if len(st.aux[("trace",)]) > 60: raise Undecided("a conversion that does not end")

    def writes(self, ip, st, w, item, size):
        """the writer (vector_stream) or vector at w gets an item"""
        v = ip.load(st, ip.padd(w, const(64, self.L.writer_data)), 8, "ptr", _I)
        self.append(ip, st, v, item, size)

    def append(self, ip, st, v, item, size):
        if not isinstance(v, P) or not v.off.is_const(): raise Undecided("output goes to an unknown place")
        k = (v.base, sgn(v.off.c, 64))
        items = st.aux.get(("items", k), ())
        n = items[-1][0] + items[-1][1] if items else 0
        st.aux[("items", k)] = items + ((n, size, item),)
        buf = ip.region(("out", k), kind="out")
        ip.store(st, v, P(buf, const(64, 0)), 8, _I); ip.store(st, ip.padd(v, const(64, 8)), P(buf, const(64, n + size)), 8, _I); ip.store(st, ip.padd(v, const(64, 16)), P(buf, const(64, 1 << 20)), 8, _I)
        st.aux[("buf", buf)] = k

    def items(self, st, p):
        k = (p.base, sgn(p.off.c, 64))
        return tuple(x for _, _, x in st.aux.get(("items", k), ()))

    # ---- models shared by the machines ----
    def models(self):
        M = dict(MODELS); L = self.L
        def nop(ip, n, st, ev, i, a): return None
        def vs_ctor(ip, n, st, ev, i, a):
            ip.store(st, ip.padd(a[0], const(64, L.writer_data)), a[1], 8, _I)
            st.aux[("writer",)] = a[0]; return None
        def write(ip, n, st, ev, i, a):
            if len(a) == 2:
                v = ip.norm(st, a[1])
                if not isinstance(v, V) or isinstance(v, P) or not v.is_const(): raise Undecided("an unknown byte is written")
                self.writes(ip, st, a[0], ("b", v.c & 255), 1)
            else:
                t = text_of(ip, st, a[1])
                if t is None or not a[2].is_const(): raise Undecided("unknown bytes are written")
                for c in t[:a[2].c].ljust(a[2].c, "\0"): self.writes(ip, st, a[0], ("b", ord(c)), 1)
            return None
        def varuint_out(ip, n, st, ev, i, a):
            v = ip.norm(st, a[0])
            if not v.is_const(): raise Undecided("an unknown number is written")
            self.writes(ip, st, a[1], ("varuint", v.c & 0xffffffff), 3); return None
        def push_varuint(ip, n, st, ev, i, a):
            v = ip.norm(st, a[1])
            if not v.is_const(): raise Undecided("an unknown number is written")
            self.append(ip, st, a[0], ("varuint", v.c & 0xffffffff), 3); return None
        def insert(ip, n, st, ev, i, a):
            if i.get("sret"): a = a[1:]
            if len(a) != 4 or not all(isinstance(x, (P,)) or isnull(x) for x in a[1:]): raise Undecided("an insertion into a vector")
            dst, pos, f, l = a
            if isnull(f) and isnull(l): return None
            if isinstance(f, P) and isinstance(l, P) and f.key == l.key: return None
            if not isinstance(f, P) or not isinstance(l, P) or f.base is not l.base or not f.off.is_const() or not l.off.is_const(): raise Undecided("an insertion into a vector")
            k = st.aux.get(("buf", f.base))
            if k is None: raise Undecided("an insertion into a vector")
            e = ip.load(st, ip.padd(dst, const(64, 8)), 8, "ptr", _I)
            if not (isinstance(pos, V) and isinstance(e, V) and (pos.key == e.key)): self.bad.add("output is inserted somewhere else than at the end at %s" % i.where())
            lo, hi = f.off.c, l.off.c
            x = lo
            for o, s, it in st.aux.get(("items", k), ()):
                if lo <= o and o + s <= hi: self.append(ip, st, dst, it, s); x = o + s
                elif o < hi and lo < o + s: self.bad.add("a part of an item is copied at %s" % i.where())
            if x != hi: self.bad.add("bytes beyond the end are copied at %s" % i.where())
            return None
        def realloc(ip, n, st, ev, i, a):
            dem = self.m.dem(i.callee)
            mm = re.search(r"vector<([\w:]+)", dem)
            ty = mm.group(1).split("::")[-1] if mm else "?"
            es = getattr(L, "sizeof_" + ty, None)
            if es is None or len(a) < 3: raise Undecided("a vector of %s grows" % ty)
            v, pos, x = a[:3]
            b = ip.load(st, v, 8, "ptr", _I); e = ip.load(st, ip.padd(v, const(64, 8)), 8, "ptr", _I)
            c = st.aux.get(("vecs",), 0); st.aux[("vecs",)] = c + 1
            buf = term(64, ADDR_LO, ADDR_HI, "region", ("vec:%s:%d" % (ty, c), "vec"), True)
            if isinstance(b, P):
                nb = e.off.c - b.off.c
                ip.memcpy(st, P(buf, const(64, 0)), b, const(64, nb), i)
                if pos.key != e.key: raise Undecided("an insertion inside a vector")
            else: nb = 0
            ip.memcpy(st, P(buf, const(64, nb)), x, const(64, es), i)
            ip.store(st, v, P(buf, const(64, 0)), 8, _I); ip.store(st, ip.padd(v, const(64, 8)), P(buf, const(64, nb + es)), 8, _I)
            ip.store(st, ip.padd(v, const(64, 16)), P(buf, const(64, nb + es * 32)), 8, _I)
            return None
        def complete(ip, n, st, ev, i, a):
            out = []
            for c in (1, 0):
                s = st.copy(); self.log(s, ("complete", c)); out.append((s, const(1, c), list(ev)))
            return out
        for q in ("abieos::json_to_bin_state::~json_to_bin_state", "abieos::jvalue_to_bin_state::~jvalue_to_bin_state", "abieos::bin_to_json_state::~bin_to_json_state", "std::vector::~vector", "std::__cxx11::basic_string::~basic_string", "std::__new_allocator::~__new_allocator", "eosio::json_token_stream::json_token_stream", "std::__cxx11::basic_string::push_back"): M[q] = nop
        M["eosio::vector_stream::vector_stream"] = vs_ctor; M["eosio::vector_stream::write"] = write
        M["eosio::varuint32_to_bin"] = varuint_out; M["eosio::push_varuint32"] = push_varuint
        M["std::vector::insert"] = insert; M["std::vector::_M_realloc_insert"] = realloc; M["std::vector::_M_realloc_append"] = realloc
        M["eosio::json_token_stream::complete"] = complete
        self.more_models(M)
        return M

    def more_models(self, M): pass

    def indirect(self, ip, n, st, ev, i, a):
        """a call through the serializer of a type"""
        g = self.m.fns.get(i.callee) if i.callee else None
        if g is not None and g.blocks and re.match(r"abieos::", g.q): return ip.enter(n, st, ev, i, i.callee, a)      # part of a recursion
        if i.callee: raise Undecided("a call of %s" % self.m.q(i.callee))
        f = ip.operand(st, i.get("fptr")[0])
        if not (isinstance(f, P) and f.base.op == "region" and f.base.args[1] == "slot"): raise Undecided("an indirect call at %s through %s" % (i.where(), f))
        _, k, s = f.base.args[0].split(":")
        self.slots.add(s)
        ser, state, allow, ty, start = a[:5]
        t = self.types.get(ty.base) if isinstance(ty, P) else None
        if t is None: raise Undecided("a conversion of an unknown type at %s" % i.where())
        if t[0] != k: self.bad.add("%s is converted by the machine of another kind (%s) at %s" % (show(t), k, i.where()))
        allow = ip.norm(st, allow)
        if k == "leaf": return self.leaf(ip, n, st, ev, i, t, ty, state, allow)
        return ip.enter(n, st, ev, i, "sa_%s_%s" % (self.conv, PSEUDO[k]), [state, allow, ty, start])

    def run(self):
        self.types = {}; self.sers = {}; self.fields = {}
        def setup(ip, st):
            self.ip = ip
            st.env[1] = self.mktype(ip, st, self.t)
            self.start(ip, st)
        ip, outs = analyse(self.m, "sa_" + self.conv, self.args(), setup, unroll=100, models=self.models(), default_model=self.indirect, access=[self.access], limit=4000, max_nodes=200000)
        return ip, outs


def isnull(v): return isinstance(v, V) and not isinstance(v, P) and v.w == 64 and v.is_const() and v.c == 0


def fields_texts(t, kind):
    """the names used in the structures / variants of a type"""
    out = []
    if t[0] == kind: out += [f for f, _ in t[1]]
    if t[0] in ("struct", "variant"):
        for _, x in t[1]: out += fields_texts(x, kind)
    elif t[0] != "leaf": out += fields_texts(t[1], kind)
    return sorted(set(out))


OTHER = "abc"


def has(t, kind): return t[0] == kind or (t[0] in ("struct", "variant") and any(has(x, kind) for _, x in t[1])) or (t[0] in ("optional", "extension", "array") and has(t[1], kind))


class Reject(Exception): pass


class More(Exception): pass


def spec_js(t, toks):
    """items a token sequence is converted to; Reject when it is not a document of the type, More when it is the beginning of one"""
    pos = [0]
    def peek():
        if pos[0] >= len(toks): raise More()
        return toks[pos[0]]
    def nxt(): k = peek(); pos[0] += 1; return k
    def value(t, allow):
        k = t[0]
        if k == "leaf":
            x = nxt()
            if x[0] not in ("null", "scalar", "string"): raise Reject("a %s where %s is expected" % (x[0], t[1]))
            return [("leaf", t[1])]
        if k == "extension": return value(t[1], allow)
        if k == "optional":
            if peek()[0] == "null": nxt(); return [("b", 0)]
            return [("b", 1)] + value(t[1], allow)
        if k == "array":
            if nxt()[0] != "start_array": raise Reject("not an array")
            out = []; n = 0
            while peek()[0] != "end_array": out += value(t[1], False); n += 1
            nxt(); return [("varuint", n)] + out
        if k == "variant":
            if nxt()[0] != "start_array": raise Reject("not a variant")
            x = nxt()
            if x[0] not in ("string", "scalar"): raise Reject("no alternative is named")
            names = [f for f, _ in t[1]]
            if x[0] == "scalar" or x[1] not in names: raise Reject("an unknown alternative is named")
            j = names.index(x[1])
            out = [("varuint", j)] + value(t[1][j][1], allow)
            if nxt()[0] != "end_array": raise Reject("more than two elements")
            return out
        if nxt()[0] != "start_object": raise Reject("not an object")
        out = []
        fs = t[1]
        for j, (f, x) in enumerate(fs):
            k = nxt()
            if k[0] == "end_object":
                if all(y[0] == "extension" and allow for _, y in fs[j:]): return out
                raise Reject("field %s is missing" % f)
            if k[1] != f: raise Reject("field %s is expected" % f)
            out += value(x, allow and j == len(fs) - 1)
        if nxt()[0] != "end_object": raise Reject("an unexpected field")
        return out
    r = value(t, True)
    k = nxt()
    if k != ("complete", 1): raise Reject("something follows")
    return r


def spec_jv(t, doc, found):
    skipped = [False]
    def value(t, d, path, allow):
        k = t[0]
        if k == "leaf": return [("leaf", t[1], path)]
        if k == "extension": return value(t[1], d, path, allow)
        if k == "optional": return [("b", 0)] if d[0] == "null" else [("b", 1)] + value(t[1], d, path, allow)
        if k == "array":
            if d[0] != "array": raise Reject("not an array")
            out = [("varuint", len(d[1]))]
            for j, x in enumerate(d[1]): out += value(t[1], x, path + (j,), False)
            return out
        if k == "variant":
            if d[0] != "array" or len(d[1]) != 2 or d[1][0][0] not in ("string", "leaf"): raise Reject("not a variant")
            names = [f for f, _ in t[1]]
            x = d[1][0]
            if x[0] == "leaf" or x[1] not in names: raise Reject("an unknown alternative is named")
            j = names.index(x[1])
            return [("varuint", j)] + value(t[1][j][1], d[1][1], path + (1,), allow)
        if d[0] != "object": raise Reject("not an object")
        out = []; fs = t[1]
        for j, (f, x) in enumerate(fs):
            if (path, f) not in found: raise More()
            c = found[path, f]
            if c is None:
                if x[0] == "extension" and allow: skipped[0] = True; continue
                raise Reject("field %s is missing" % f)
            if skipped[0]: raise Reject("field %s follows one that is left out" % f)
            out += value(x, c, path + (f,), allow and j == len(fs) - 1)
        return out
    return value(t, doc, (), True)


def spec_bj(t, trace):
    pos = [0]
    def end():
        if pos[0] >= len(trace): raise More()
        assert trace[pos[0]][0] == "end"
        return trace[pos[0]][1]
    def take(kind):
        if end(): raise Reject("the input ends where a %s is expected" % kind)
        pos[0] += 1
        if pos[0] >= len(trace): raise More()
        x = trace[pos[0]]; pos[0] += 1
        if x[0] != kind: raise Reject("a %s is read instead of a %s" % (x[0], kind))
        return x[1]
    B = lambda s: [("b", ord(c)) for c in s]
    def value(t, allow):
        k = t[0]
        if k == "leaf":
            if take("leaf") != t[1]: raise Reject("a value of another type is read")
            return [("leaf", t[1])]
        if k == "extension": return value(t[1], allow)
        if k == "optional": return value(t[1], allow) if take("bool") else B("null")
        if k == "array":
            n = take("varuint"); out = B("["); j = 0
            while n == "big" or j < n:
                if j: out += B(",")
                out += value(t[1], False); j += 1
            return out + B("]")
        if k == "variant":
            n = take("varuint")
            if n == "big" or n >= len(t[1]): raise Reject("an illegal discriminant")
            return B("[") + [("str", t[1][n][0])] + B(",") + value(t[1][n][1], allow) + B("]")
        out = B("{"); fs = t[1]; first = True
        for j, (f, x) in enumerate(fs):
            if x[0] == "extension" and allow and end(): continue
            if not first: out += B(",")
            first = False
            out += [("str", f)] + B(":") + value(x, allow and j == len(fs) - 1)
        return out + B("}")
    r = value(t, True)
    if [x for x in trace[pos[0]:] if x[0] != "end"]: raise Reject("more is read than the type has")
    return r


def text(items):
    out = ""
    for x in items or ():
        if x[0] == "b": out += chr(x[1]) if 32 <= x[1] < 127 else "<%02x>" % x[1]
        elif x[0] == "varuint": out += "<count %d>" % x[1]
        elif x[0] == "str": out += '"%s"' % x[1]
        else: out += "<%s>" % x[1]
    return out


def doc_text(d): return {"object": "{...}", "leaf": "x"}.get(d[0]) or ("[%s]" % ",".join(map(doc_text, d[1])) if d[0] == "array" else '"%s"' % d[1] if d[0] == "string" else d[0])


def tok_text(toks):
    S = {"start_object": "{", "end_object": "}", "start_array": "[", "end_array": "]", "scalar": "x", "null": "null"}
    return " ".join(S.get(k[0]) or (k[1] + ":" if k[0] == "key" else '"%s"' % k[1] if k[0] == "string" else "" if k == ("complete", 1) else "more") for k in toks)


def docs(t, n=6):
    """document trees for a type: legal ones and ones of a wrong kind"""
    k = t[0]
    if k == "leaf": return [("leaf",)]
    if k == "extension": return docs(t[1], n)
    if k == "optional": return [("null",)] + docs(t[1], n)
    if k == "array":
        e = docs(t[1], 3)
        return [("array", (e[0], e[-1])), ("array", (e[0],)), ("array", ()), ("leaf",), ("array", (e[-1],)), ("object", ())][:n]
    if k == "variant":
        out = []
        for f, x in t[1]:
            for d in docs(x, 2): out.append(("array", (("string", f), d)))
        f, x = t[1][0]; d = docs(x, 1)[0]
        return out + [("array", (("string", OTHER), d)), ("array", (("null",), d)), ("array", (("string", f),)), ("array", (("string", f), d, d)), ("array", ()), ("leaf",), ("object", ())]
    return [("object", tuple((f, tuple(docs(x, 2))) for f, x in t[1])), ("array", ()), ("null",)][:n]


def judge(conv, t, doc=None):
    """[(what, ok, message)] with what in 'accepts', 'rejects', 'bytes', 'range'; Undecided when the analysis cannot follow the code"""
    res = []
    M = Streaming(t) if conv == "js" else Reorder(t, doc) if conv == "jv" else Decoder(t)
    ip, outs = M.run()
    if not outs: raise Undecided("no outcome")
    for m in sorted(M.bad): res.append(("range", False, m))
    if not M.bad: res.append(("range", True, "all accesses"))
    seen = set()
    for o in outs:
        st = o.state
        if conv == "js":
            tr = st.aux.get(("trace",), ())
            pd = st.aux.get(("pend",))
            full = tr + ((pd,) if pd else ())
            if tr and tr[-1] == ("complete", 0): full = tr
            what = tok_text(full); f = lambda: spec_js(t, full); items = M.items(st, P(ip.argregs["out"], const(64, 0)))
        elif conv == "jv":
            found = {(k[1], k[2]): v for k, v in st.aux.items() if k[0] == "found"}
            what = doc_text(doc) + " with " + ", ".join("%s: %s" % (".".join(map(str, p + (f_,))), doc_text(v) if v else "absent") for (p, f_), v in sorted(found.items(), key=str))
            f = lambda: spec_jv(t, doc, found); items = M.items(st, P(ip.argregs["out"], const(64, 0)))
        else:
            tr = st.aux.get(("trace",), ())
            what = " ".join("|" if x == ("end", 1) else "" if x[0] == "end" else "%s:%s" % x for x in tr); f = lambda: spec_bj(t, tr); items = st.aux.get(("dest",))
        try: want = f(); why = None
        except Reject as e: want = None; why = str(e)
        except More: want = None; why = None
        if o.kind == "ret":
            if want is None: res.append(("accepts", False, "accepts %s (%s)" % (what, why or "something is not looked at")))
            elif tuple(want) != tuple(items if items is not None else ("?",)): res.append(("bytes", False, "%s is converted to %s instead of %s" % (what, text(items), text(want))))
            else: res.append(("bytes", True, what))
        elif o.kind == "throw":
            if why is None: res.append(("rejects", False, "rejects %s (%s)" % (what, o.info[-1] if o.info else "?")))
            else: res.append(("accepts", True, what))
        else: raise Undecided("an outcome of kind %s" % o.kind)
    return res


A, B, C, D = leaf("A"), leaf("B"), leaf("C"), leaf("D")
E = lambda t: ("extension", t)
def S(*fs): return ("struct", tuple(zip(("a", "ab", "b", "c", "d"), fs)))
def V_(*fs): return ("variant", tuple(zip(("a", "ab", "b"), fs)))


def structures():
    out = []
    for n in range(5):
        for k in range(1 << n): out.append(S(*[E((A, B, C, D)[j]) if k >> j & 1 else (A, B, C, D)[j] for j in range(n)]))
    s = S(A, E(B)); e = S(E(A))
    out += [S(s, C), S(C, s), S(C, E(s)), S(s, E(C)), S(E(s)), S(e, e), S(E(e), E(C)), ("array", s), ("optional", s), E(s), V_(s, A), S(C, V_(e)), S(V_(e), C), S(C, ("optional", e)), S(C, ("array", e)), S(S(S(e))), S(C, S(S(e), B)),
            S(C, E(("optional", e))), S(C, E(("array", A)))]
    return out


def others():
    arr = lambda t: ("array", t); opt = lambda t: ("optional", t)
    return [A, opt(A), arr(A), V_(A), V_(A, B), V_(A, B, C), arr(V_(A, B)), arr(S(arr(A), B)), S(arr(A), arr(B)), V_(arr(A), B), opt(V_(A, B)), V_(V_(A, B), C), S(V_(A), opt(B)), arr(S(opt(A))), S(S(arr(A)), arr(B)), E(A), V_(S(A, B))]


class Streaming(Machine):
    """JSON text to binary, token by token"""
    def __init__(self, t): super().__init__("js", t)

    def args(self): return ["out", ("x", "obj"), const(64, 5), ("json", "bytes")]

    def start(self, ip, st):
        for o in (0, 8, 16): ip.store(st, P(ip.argregs["out"], const(64, o)), const(64, 0), 8, _I)
        st.aux[("ctx",)] = ("val",)

    # the pending token: None or a kind; the reader's grammar decides which tokens can come
    def pend(self, st):
        """fork over the next token; [(state, token)]"""
        p = st.aux.get(("pend",))
        if p is not None: return [(st, p)]
        ctx = st.aux[("ctx",)]
        if not ctx: return [(st, ("end",))]
        c = ctx[-1]
        val = [("start_object",), ("start_array",), ("scalar",)] + ([("null",)] if self.nulls else [])
        if self.alts and c == "arr0": val += [("string", x) for x in self.alts]
        if c == "obj": ks = [("key", x) for x in self.keys] + [("end_object",)]
        elif c in ("arr", "arr0"): ks = val + [("end_array",)]
        else: ks = val
        out = []
        for k in ks:
            s = st.copy(); s.aux[("pend",)] = k; out.append((s, k))
        return out

    def eat(self, st, k):
        st.aux.pop(("pend",), None)
        ctx = list(st.aux[("ctx",)])
        if k[0] == "key": ctx.append("val")
        else:
            if k[0] in ("end_object", "end_array"): ctx.pop()
            elif k[0] in ("start_object", "start_array"):
                if ctx and ctx[-1] == "arr0": ctx[-1] = "arr"
                ctx.append("obj" if k[0] == "start_object" else "arr0")
            elif ctx and ctx[-1] == "arr0": ctx[-1] = "arr"
            if k[0] not in ("start_object", "start_array") and ctx and ctx[-1] == "val": ctx.pop()
            # the value that a key announced is complete when its container closes
        st.aux[("ctx",)] = tuple(ctx); self.log(st, k)
        if sum(1 for x in st.aux[("trace",)] if x[0] == "start_array") > 4 or self.count(st) > self.maxlen: st.aux[("cut",)] = True

    def count(self, st): return len(st.aux.get(("trace",), ()))

    def op(self, want, pred=False, res=None):
        def m(ip, n, st, ev, i, a):
            out = []
            for s, k in self.pend(st):
                ok = want(k)
                if ok:
                    s = s.copy(); self.eat(s, k)
                    if s.aux.get(("cut",)): continue
                    out.append((s, res(ip, s, i, a, k, True) if res else const(1, 1) if pred else None, list(ev)))
                elif pred: out.append((s, res(ip, s, i, a, k, False) if res else const(1, 0), list(ev)))
                else: ip.raise_(n, s, ev, i, ("token", k))
            return out
        return m

    def more_models(self, M):
        self.keys = fields_texts(self.t, "struct") + [OTHER]
        self.alts = fields_texts(self.t, "variant")
        if self.alts: self.alts += [OTHER]
        self.nulls = has(self.t, "optional"); self.maxlen = 24 if show(self.t).count("[]") > 1 else 18
        J = "eosio::json_token_stream::"
        is_ = lambda x: (lambda k: k[0] == x)
        M[J + "get_start_object"] = self.op(is_("start_object")); M[J + "get_end_object"] = self.op(is_("end_object"))
        M[J + "get_start_array"] = self.op(is_("start_array")); M[J + "get_end_array"] = self.op(is_("end_array")); M[J + "get_null"] = self.op(is_("null"))
        M[J + "get_end_object_pred"] = self.op(is_("end_object"), True); M[J + "get_end_array_pred"] = self.op(is_("end_array"), True)
        M[J + "get_start_array_pred"] = self.op(is_("start_array"), True); M[J + "get_null_pred"] = self.op(is_("null"), True)
        def view(ip, s, i, a, k, ok):
            t = k[1] if len(k) > 1 else "?"
            return Agg([const(64, len(t)), self.text(ip, s, t)])
        M[J + "get_string"] = self.op(lambda k: k[0] in ("string", "scalar"), res=view); M[J + "get_key"] = self.op(is_("key"), res=view)
        def opt(ip, s, i, a, k, ok):
            r = a[0]
            if ok:
                ip.store(s, r, const(64, len(k[1])), 8, _I); ip.store(s, ip.padd(r, const(64, 8)), self.text(ip, s, k[1]), 8, _I)
            ip.store(s, ip.padd(r, const(64, 16)), const(8, int(ok)), 1, _I)
            return None
        M[J + "maybe_get_key"] = self.op(is_("key"), True, opt)

    def leaf(self, ip, n, st, ev, i, t, ty, state, allow):
        out = []
        fresh = ("pend",) not in st.aux
        for s, k in self.pend(st):
            if fresh and k[0] in ("null", "string", "start_array"): continue      # as a scalar, as far as this type is concerned
            if k[0] in ("null", "scalar", "string"):
                s = s.copy(); self.eat(s, k); self.writes(ip, s, s.aux[("writer",)], ("leaf", t[1]), 16)
                if not s.aux.get(("cut",)): out.append((s, None, list(ev)))
            else: ip.raise_(n, s, ev, i, ("token", k))
        return out


class Reorder(Machine):
    """document tree to binary; the tree is given except for the members of its objects"""
    def __init__(self, t, doc): super().__init__("jv", t, doc)

    def args(self): return ["out", ("x", "obj"), "v"]

    def start(self, ip, st):
        for o in (0, 8, 16): ip.store(st, P(ip.argregs["out"], const(64, o)), const(64, 0), 8, _I)
        self.place(ip, st, ip.argregs["v"], 0, self.doc, ())

    def place(self, ip, st, r, off, d, path):
        """write the value d at (r, off)"""
        L = self.L; o = off + L.jvalue_value; k = d[0]
        st.aux[("doc", r, off)] = path
        if k == "leaf": k = "string"      # some text the type at hand can or cannot convert
        self.put(st, r, o + L.jix, const(8, L.jkind[k]), 1)
        if k == "string": self.string(ip, st, r, o, d[1] if len(d) > 1 else "?")
        elif k == "array":
            e = term(64, ADDR_LO, ADDR_HI, "region", ("elems:%s" % (path,), "elems", len(d[1])), True)
            for q, x in ((0, 0), (8, len(d[1])), (16, len(d[1]))): self.put(st, r, o + q, P(e, const(64, x * L.jvalue_size)) if d[1] else const(64, 0))
            for j, x in enumerate(d[1]): self.place(ip, st, e, j * L.jvalue_size, x, path + (j,))
        elif k == "object": st.aux[("map", r, o)] = (path, d)

    def more_models(self, M):
        def find(ip, n, st, ev, i, a):
            mp, key = a[0], a[1]
            inf = st.aux.get(("map", mp.base, sgn(mp.off.c, 64))) if isinstance(mp, P) and mp.off.is_const() else None
            txt = str_text(ip, st, key)
            if txt is None and isinstance(key, P): self.access("load", st, key, const(64, 16), i)
            if inf is None or txt is None: raise Undecided("a lookup at %s" % i.where())
            path, d = inf
            out = []
            for c in [None] + list(dict(d[1]).get(txt, ())):
                have = st.aux.get(("found", path, txt), 0)
                if have != 0 and have != c: continue
                s = st.copy(); s.aux[("found", path, txt)] = c
                if c is None: out.append((s, ip.padd(mp, const(64, 8)), list(ev))); continue
                r = ip.region("node:%s:%s" % (path, txt), kind="node")
                self.place(ip, s, r, 64, c, path + (txt,))
                out.append((s, P(r, const(64, 0)), list(ev)))
            return out
        def end(ip, n, st, ev, i, a): return ip.padd(a[0], const(64, 8))
        M["std::map::find"] = find; M["std::map::end"] = M["std::map::cend"] = end

    def leaf(self, ip, n, st, ev, i, t, ty, state, allow):
        rv = ip.load(st, ip.padd(state, const(64, self.rv())), 8, "ptr", _I)
        p = st.aux.get(("doc", rv.base, sgn(rv.off.c, 64))) if isinstance(rv, P) and rv.off.is_const() else None
        self.writes(ip, st, st.aux[("writer",)], ("leaf", t[1], p), 16)
        return None

    def rv(self): return self.L.jv_received


class Decoder(Machine):
    """binary to JSON text"""
    def __init__(self, t): super().__init__("bj", t)

    def args(self): return ["in", ("x", "obj"), ("dest", "obj")]

    def start(self, ip, st):
        d = ip.region("data", kind="bytes"); r = ip.argregs["in"]
        ip.store(st, P(r, const(64, self.L.in_end)), P(d, const(64, 1000)), 8, _I)
        s = self.ends(ip, st)[self.e0]; st.mem = s.mem; st.aux = s.aux

    def ends(self, ip, st):
        """fork: is the input at its end now?"""
        r = ip.argregs["in"]; d = ip.region("data", kind="bytes"); out = []
        k = sum(1 for x in st.aux.get(("trace",), ()) if x[0] != "end")
        for e in (0, 1):
            s = st.copy(); ip.store(s, P(r, const(64, self.L.in_pos)), P(d, const(64, 1000 if e else k)), 8, _I)
            s.aux[("atend",)] = e; self.log(s, ("end", e)); out.append(s)
        return out

    def run(self):
        res = []
        for e in (0, 1):
            self.e0 = e; res.append(super().run())
        return res[0][0], res[0][1] + res[1][1]

    def take(self, ip, n, st, ev, i, what):
        """consume an input item; the states after it"""
        if st.aux.get(("atend",)): ip.raise_(n, st, ev, i, ("overrun", what[0])); return []
        if sum(1 for x in st.aux.get(("trace",), ()) if x[0] != "end") > 9: return []
        s = st.copy(); self.log(s, what); return self.ends(ip, s)

    def more_models(self, M):
        def alts(t): return max([len(t[1])] + [alts(x) for _, x in t[1]]) if t[0] == "variant" else max([0] + [alts(x) for _, x in t[1]]) if t[0] == "struct" else 0 if t[0] == "leaf" else alts(t[1])
        self.most = max(2, alts(self.t))
        def from_bin(ip, n, st, ev, i, a):
            if not re.search(r"bool&", self.m.dem(i.callee)): raise Undecided("reads %s" % self.m.dem(i.callee)[:80])
            out = []
            for b in (0, 1):
                for s in self.take(ip, n, st, ev, i, ("bool", b)): ip.store(s, a[0], const(8, b), 1, _I); out.append((s, None, list(ev)))
                if st.aux.get(("atend",)): break
            return out
        def varuint(ip, n, st, ev, i, a):
            out = []
            big = mkterm(term(32, 1000, (1 << 32) - 1, "sym", ("big", i.id)))
            for b in tuple(range(self.most + 1)) + ("big",):
                for s in self.take(ip, n, st, ev, i, ("varuint", b)):
                    ip.store(s, a[0], big if b == "big" else const(32, b), 4, _I); out.append((s, None, list(ev)))
                if st.aux.get(("atend",)): break
            return out
        def to_json(ip, n, st, ev, i, a):
            if len(a) == 3 and a[0].is_const(): t = text_of(ip, st, a[1]); t = t[:a[0].c] if t is not None else None
            else:
                self.access("load", st, a[0], const(64, 16), i)
                t = str_text(ip, st, a[0])
            if t is None: raise Undecided("an unknown text is written")
            self.writes(ip, st, a[-1], ("str", t), 16); return None
        def assign(ip, n, st, ev, i, a):
            if len(a) == 3: ln, p = a[1], a[2]
            elif len(a) == 2 and isinstance(a[1], P): ln = ip.load(st, a[1], 8, "i64", _I); p = ip.load(st, ip.padd(a[1], const(64, 8)), 8, "ptr", _I)
            else: raise Undecided("the result is assigned from something else")
            k = st.aux.get(("buf", p.base)) if isinstance(p, P) else None
            if k is None: items = () if ln.is_const() and ln.c == 0 else None
            else:
                its = st.aux[("items", k)]
                items = tuple(x for _, _, x in its) if ln.is_const() and ln.c == its[-1][0] + its[-1][1] and p.off.is_const() and p.off.c == 0 else None
            if items is None: self.bad.add("the result is not the text that was written")
            st.aux[("dest",)] = items; return None
        M["eosio::from_bin"] = from_bin; M["eosio::varuint32_from_bin"] = varuint; M["eosio::to_json"] = to_json; M["std::__cxx11::basic_string::operator="] = assign

    def leaf(self, ip, n, st, ev, i, t, ty, state, allow):
        out = []
        for s in self.take(ip, n, st, ev, i, ("leaf", t[1])):
            self.writes(ip, s, s.aux[("writer",)], ("leaf", t[1]), 16); out.append((s, None, list(ev)))
        return out


CONV = {"js": "streaming conversion (json_to_bin with json_to_bin_state)", "jv": "reorderable conversion (json_to_bin with jvalue_to_bin_state)", "bj": "decoder (bin_to_json with bin_to_json_state)"}


def _one(job):
    conv, t, d = job
    LAST[0] = None
    try: return judge(conv, t, d)
    except Undecided as e: r = str(e)
    except build.Broken as e: r = str(e)
    except TooBig as e: r = str(e)
    except Exception as e: r = "%s: %s" % (type(e).__name__, e)
    if LAST[0] is not None and LAST[0].out: return [("range", False, m) for m in sorted(LAST[0].out)]      # what follows such an access has no meaning
    return r


def survey(rep, shapes, convs, rules, keep=None):
    """judge the conversions of the shapes; rules: category -> rule name (categories not listed are left to other checks)"""
    lay()
    jobs = [(c, t, d) for t in shapes for c in convs for d in (docs(t) if c == "jv" else [None])]
    from .texts import pool
    for (c, t, d), r in zip(jobs, pool(jobs, _one)):
        sub = "%s of %s%s" % (CONV[c], show(t), " from %s" % doc_text(d) if d else "")
        if isinstance(r, str): rep.unknown(next(iter(rules.values())), sub, r); continue
        acc = {}
        for what, ok, msg in r:
            if what not in rules or keep and not keep(what, msg): continue
            acc.setdefault(rules[what], []).append((ok, msg))
        for rule, xs in acc.items():
            bad = [m for ok, m in xs if not ok]
            for ok, m in xs[:-1] if not bad else (): rep.ob(rule, sub + ": " + m, True)
            rep.ob(rule, sub, not bad, "; ".join(bad[:2]), key="%s:%s:%s" % (rule, c, show(t)))
