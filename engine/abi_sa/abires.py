"""The loading of ABI definitions (eosio::convert, get_type and the resolvers behind them) interpreted abstractly: containers and texts
are modelled, every definition of a bounded family is loaded, and the outcome is compared with the rules for legal definitions."""
import re
from . import build
from .eng import *
from .eng import analyse, module
from .models import MODELS, text_of
from .absint import *

KEEP = (r"^std::__cxx11::basic_string::(~?basic_string|operator(=|\+=)|assign|append|push_back|pop_back|resize|erase|substr|compare|r?find\w*|reserve|insert|replace|swap|clear|_M_(create|mutate|replace\w*|append|assign|erase|construct\w*|dispose|destroy))$|^std::map::|^std::variant::(operator=|emplace|variant|~)|^std::__detail::__variant::_\w+::(_M_reset|operator=)|~"
        r"|^std::vector::(vector|operator=|_M_re|_M_range_insert|_M_range_init|_M_insert|_M_append|_M_default|_M_fill|_M_move_assign|_M_assign|assign|insert|reserve|clear|swap)"
        r"|^std::_Rb_tree_(const_)?iterator::operator(\+\+|--)|^std::_Rb_tree_(in|de)crement$|^eosio::abi_field::|^eosio::\w+_def::|^std::operator\+$|^std::(operator(==|!=)|__cxx11::basic_string)$")


from .steps import isnull, Undecided


class _Ins: id = -1; fn = None


_I = _Ins()


def resmod(): return module(["drv:abires", "src:abi.cpp"], "abires", keep=KEEP, types=True)


class Layout:
    def __init__(self, m):
        ty = {t["name"]: t for t in m.types if t.get("members")}
        def off(t, n):
            for x in ty[t]["members"]:
                if x.get("n") == n: return x["off"]
            raise build.Broken("%s has no member %s" % (t, n))
        self.size = {t: ty["eosio::" + t]["size"] // 8 for t in ("type_def", "struct_def", "variant_def", "field_def", "abi_field", "abi_type", "abi_def")}
        self.off = {(t, n): off("eosio::" + t, n) for t, ns in {"abi_def": ("types", "structs", "variants"), "type_def": ("new_type_name", "type"), "struct_def": ("name", "base", "fields"),
                    "variant_def": ("name", "types"), "field_def": ("name", "type"), "abi_field": ("name", "type"), "abi_type": ("name", "_data", "ser"), "abi": ("abi_types",)}.items() for n in ns}
        d = next(x for x in ty["eosio::abi_type"]["members"] if x.get("n") == "_data")
        from .reflect import args_of, plain
        alts = [plain(a) for a in args_of(d["ty"])]
        self.ix = d["size"] // 8 - 8 if d.get("size") else None
        self.kinds = [kind_of(a) for a in alts]
        if None in self.kinds or len(set(self.kinds)) != len(self.kinds): raise build.Broken("the kinds of types are not recognised: %s" % ", ".join(alts))


def kind_of(t):
    t = re.sub(r"[&*]", lambda m: m.group(0), t).replace("eosio::", "").replace("std::__cxx11::", "std::").strip()
    p = "*" in t
    b = re.sub(r"\bconst\b|[&*]", "", t).replace("abi_type::", "").strip()
    if p: return {"struct_def": "struct_def", "variant_def": "variant_def", "alias_def": "alias_def"}.get(b) or ("alias_def" if b.startswith(("std::basic_string<", "std::string")) else None)
    if b in ("builtin", "alias", "optional", "extension", "array", "variant"): return b
    if b == "struct_": return "struct"
    if b.startswith("std::vector<abi_field"): return "variant"
    return None


class Loader:
    def __init__(self):
        self.m = resmod(); self.L = Layout(self.m)

    # ---- texts and vectors in memory
    def text(self, ip, st, s):
        r = ip.region("chars:" + s, kind="strbuf")
        if r not in st.mem:
            st.mem[r] = Reg({k: (1, const(8, ord(c))) for k, c in enumerate(s + "\0")}); st.aux[("text", r)] = s
        return P(r, const(64, 0))

    def put(self, ip, st, p, k, v, w=8): ip.store(st, ip.padd(p, const(64, k)), v, w, _I)
    def get(self, ip, st, p, k, w=8): return ip.load(st, ip.padd(p, const(64, k)), w, "ptr" if w == 8 else "i%d" % (8 * w), _I)

    def set_text(self, ip, st, o, s):
        if not isinstance(o, P): raise Undecided("an unknown string")
        self.put(ip, st, o, 0, self.text(ip, st, s)); self.put(ip, st, o, 8, const(64, len(s)))

    def get_text(self, ip, st, o, i=None):
        if isinstance(o, P):
            d = self.get(ip, st, o, 0); n = ip.norm(st, ip.load(st, ip.padd(o, const(64, 8)), 8, "i64", _I))
            if isinstance(d, P) and n.is_const():
                t = chars(ip, st, d, n.c)
                if t is not None: return t
        raise Undecided("an unknown text%s" % (" at %s" % i.where() if i is not None else ""))

    def elems(self, ip, st, v, es, i=None):
        b, e = self.get(ip, st, v, 0), self.get(ip, st, v, 8)
        if isnull(b) and isnull(e): return []
        if not isinstance(b, P) or not isinstance(e, P) or b.base is not e.base or not b.off.is_const() or not e.off.is_const(): raise Undecided("an unknown vector%s" % (" at %s" % i.where() if i is not None else ""))
        return [P(b.base, const(64, k)) for k in range(b.off.c, e.off.c, es)]

    def set_vec(self, ip, st, v, buf, n, cap, es):
        self.put(ip, st, v, 0, P(buf, const(64, 0)) if buf is not None else const(64, 0))
        for q, k in ((8, n), (16, cap)): self.put(ip, st, v, q, P(buf, const(64, k * es)) if buf is not None else const(64, 0))

    def fresh(self, st, tag):
        c = st.aux.get(("vecs",), 0); st.aux[("vecs",)] = c + 1
        return term(64, ADDR_LO, ADDR_HI, "region", ("vec:%s:%d" % (tag, c), "vec"), True)

    ES = {"abi_field": None, "field_def": None, "std::string": 32, "type_def": None, "struct_def": None, "variant_def": None}

    def esize(self, dem, i):
        from .reflect import args_of, plain
        k = dem.find("std::vector<"); a = args_of(plain(dem[k:dem.index("::", match(dem, k + 11))])) if k >= 0 else []
        t = a[0].replace("eosio::", "") if a else "?"
        if t.startswith("std::basic_string<"): t = "std::string"
        if t not in self.ES: raise Undecided("a vector of %s" % t[:60])
        return t, self.ES[t] or self.L.size[t]

    def copy_elem(self, ip, st, t, d, s, i):
        L = self.L
        if t == "std::string": self.set_text(ip, st, d, self.get_text(ip, st, s, i))
        elif t == "abi_field":
            self.set_text(ip, st, ip.padd(d, const(64, L.off[t, "name"])), self.get_text(ip, st, ip.padd(s, const(64, L.off[t, "name"])), i))
            self.put(ip, st, d, L.off[t, "type"], self.get(ip, st, s, L.off[t, "type"]))
        elif t in ("field_def", "type_def"):
            for n in (("name", "type") if t == "field_def" else ("new_type_name", "type")):
                self.set_text(ip, st, ip.padd(d, const(64, L.off[t, n])), self.get_text(ip, st, ip.padd(s, const(64, L.off[t, n])), i))
        elif t in ("struct_def", "variant_def"):
            for n in ("name", "base") if t == "struct_def" else ("name",):
                self.set_text(ip, st, ip.padd(d, const(64, L.off[t, n])), self.get_text(ip, st, ip.padd(s, const(64, L.off[t, n])), i))
            o = L.off[t, "fields" if t == "struct_def" else "types"]
            self.copy_vec(ip, st, ip.padd(d, const(64, o)), ip.padd(s, const(64, o)), *(("field_def", L.size["field_def"]) if t == "struct_def" else ("std::string", 32)), i)
        else: raise Undecided("a %s is copied" % t)

    def copy_vec(self, ip, st, d, s, t, es, i):
        xs = self.elems(ip, st, s, es, i)
        if not xs: self.set_vec(ip, st, d, None, 0, 0, es); return
        buf = self.fresh(st, t)
        for k, x in enumerate(xs): self.copy_elem(ip, st, t, P(buf, const(64, k * es)), x, i)
        self.set_vec(ip, st, d, buf, len(xs), len(xs), es)

    def move_vec(self, ip, st, d, s):
        v = [self.get(ip, st, s, q) for q in (0, 8, 16)]
        for q in (0, 8, 16): self.put(ip, st, s, q, const(64, 0))
        for q in (0, 8, 16): self.put(ip, st, d, q, v[q // 8])

    # ---- entries of the table of types
    def kind(self, ip, st, t):
        """kind of the abi_type at t"""
        x = ip.norm(st, ip.load(st, ip.padd(t, const(64, self.L.off["abi_type", "_data"] + self.L.ix)), 1, "i8", _I))
        return self.L.kinds[x.c] if x.is_const() and x.c < len(self.L.kinds) else None

    def set_data(self, ip, st, d, k, s, i, move):
        """the variant at d gets alternative k from the value at s"""
        L = self.L
        if k in ("alias", "optional", "extension", "array"): self.put(ip, st, d, 0, self.get(ip, st, s, 0))
        elif k in ("alias_def", "struct_def", "variant_def"): self.put(ip, st, d, 0, self.get(ip, st, s, 0))
        elif k == "struct":
            self.put(ip, st, d, 0, self.get(ip, st, s, 0))
            (self.move_vec(ip, st, ip.padd(d, const(64, 8)), ip.padd(s, const(64, 8))) if move else self.copy_vec(ip, st, ip.padd(d, const(64, 8)), ip.padd(s, const(64, 8)), "abi_field", L.size["abi_field"], i))
        elif k == "variant":
            (self.move_vec(ip, st, d, s) if move else self.copy_vec(ip, st, d, s, "abi_field", L.size["abi_field"], i))
        elif k != "builtin": raise Undecided("a type becomes %s at %s" % (k, i.where()))
        self.put(ip, st, d, L.ix, const(8, L.kinds.index(k)), 1)

    def node(self, ip, key): return ip.region("entry:" + key, kind="node")

    def table(self, st): return st.aux.get(("abitypes",), ())

    def models(self):
        M = dict(MODELS); L = self.L; m = self.m
        S = "std::__cxx11::basic_string::"
        def nop(ip, n, st, ev, i, a): return None
        def dem(i): return m.dem(i.callee)
        def T(ip, st, o, i): return self.get_text(ip, st, o, i)
        def arg_text(ip, st, q, a, k, i):
            """the text of argument k of a string function (the first of the parameters q): a string, or characters (and a length)"""
            x = a[k]; ps = split(q)
            if ps and ps[0] == "char const*":
                if len(ps) > 1 and ps[1] == "unsigned long":
                    n = ip.norm(st, a[k + 1]); t = chars(ip, st, x, n.c) if n.is_const() else None
                elif len(ps) == 1 or not ps[1].startswith("char const*"): t = zchars(ip, st, x)
                else: t = None
                if t is None: raise Undecided("an unknown text at %s" % i.where())
                return t
            if ps and ps[0].startswith("std::__cxx11::basic_string<") and isinstance(x, P) and (len(ps) == 1 or "unsigned long" not in ps[1] or "find" in dem(i)): return T(ip, st, x, i)
            raise Undecided("a string function at %s" % i.where())
        def ctor(ip, n, st, ev, i, a):
            q = dem(i); par = params(q)
            if len(a) == 1 or par.startswith("std::allocator"): self.set_text(ip, st, a[0], "")
            elif (pp := split(par))[0] == "char const*" and not (len(pp) > 1 and pp[1] == "char const*"): self.set_text(ip, st, a[0], arg_text(ip, st, par, a, 1, i))
            elif "basic_string_view" in q or "__sv_wrapper" in par:
                x = a[1]
                if isinstance(x, P) and len(a) == 3:
                    k = ip.norm(st, ip.load(st, x, 8, "i64", _I)); d = self.get(ip, st, x, 8)
                else:
                    k, d = ip.norm(st, a[1]), a[2]
                t = chars(ip, st, d, k.c) if k.is_const() and isinstance(d, P) else None
                if t is None: raise Undecided("an unknown text at %s" % i.where())
                self.set_text(ip, st, a[0], t)
            elif isinstance(a[1], P) and len(a) >= 3 and isinstance(a[2], P) and a[1].base is a[2].base:
                k = ip.norm(st, ip.sub(st, a[2].off, a[1].off)); t = chars(ip, st, a[1], k.c) if k.is_const() else None
                if t is None: raise Undecided("an unknown text at %s" % i.where())
                self.set_text(ip, st, a[0], t)
            elif len(a) >= 4 and isinstance(a[1], P) and not isinstance(a[2], P):        # (string, pos, n)
                t = T(ip, st, a[1], i); p, k = ip.norm(st, a[2]), ip.norm(st, a[3])
                if not p.is_const() or not k.is_const(): raise Undecided("an unknown text at %s" % i.where())
                self.set_text(ip, st, a[0], t[p.c:p.c + k.c])
            elif isinstance(a[1], P):
                self.set_text(ip, st, a[0], T(ip, st, a[1], i))
                if "&&" in par.split(",")[0]: self.set_text(ip, st, a[1], "")
            else: raise Undecided("a string made by %s" % par[:60])
            return None
        def assign(ip, n, st, ev, i, a):
            q = dem(i)
            if len(a) == 3 and isinstance(a[1], P) and isinstance(a[2], P) and a[1].base is a[2].base:
                k = ip.norm(st, ip.sub(st, a[2].off, a[1].off)); t = chars(ip, st, a[1], k.c) if k.is_const() else None
                if t is None: raise Undecided("an unknown text at %s" % i.where())
                self.set_text(ip, st, a[0], t); return a[0]
            self.set_text(ip, st, a[0], arg_text(ip, st, params(q), a, 1, i))
            if params(q).endswith("&&"): self.set_text(ip, st, a[1], "")
            return a[0]
        def append(ip, n, st, ev, i, a):
            q = params(dem(i))
            if q.startswith("char") and "*" not in q:
                c = ip.norm(st, a[1]); t = chr(c.c & 255) if c.is_const() else None
                if t is None: raise Undecided("an unknown text at %s" % i.where())
            else: t = arg_text(ip, st, q, a, 1, i)
            self.set_text(ip, st, a[0], T(ip, st, a[0], i) + t); return a[0]
        def popb(ip, n, st, ev, i, a): self.set_text(ip, st, a[0], T(ip, st, a[0], i)[:-1])
        def resize(ip, n, st, ev, i, a):
            k = ip.norm(st, a[1]); t = T(ip, st, a[0], i)
            if not k.is_const() or k.c > len(t): raise Undecided("a string grows at %s" % i.where())
            self.set_text(ip, st, a[0], t[:k.c])
        def erase(ip, n, st, ev, i, a):
            t = T(ip, st, a[0], i)
            p, k = ip.norm(st, a[1]), ip.norm(st, a[2]) if len(a) > 2 else None
            if isinstance(a[1], P) or not p.is_const() or k is None or not k.is_const(): raise Undecided("a string shrinks at %s" % i.where())
            self.set_text(ip, st, a[0], t[:p.c] + t[p.c + k.c:]); return a[0]
        def sclear(ip, n, st, ev, i, a): self.set_text(ip, st, a[0], "")
        def sswap(ip, n, st, ev, i, a): x, y = T(ip, st, a[0], i), T(ip, st, a[1], i); self.set_text(ip, st, a[0], y); self.set_text(ip, st, a[1], x)
        def substr(ip, n, st, ev, i, a):
            t = T(ip, st, a[1], i); p, k = ip.norm(st, a[2]), ip.norm(st, a[3])
            if not p.is_const() or not k.is_const(): raise Undecided("an unknown text at %s" % i.where())
            if p.c > len(t): ip.raise_(n, st, ev, i, ("throw", "std::out_of_range", None)); return []
            self.set_text(ip, st, a[0], t[p.c:p.c + k.c]); return None
        def plus(ip, n, st, ev, i, a):
            q = params(dem(i)); o = []
            for x, ty in zip(a[1:], split(q)):
                if "char const*" in ty: o.append(zchars(ip, st, x))
                elif isinstance(x, P): o.append(T(ip, st, x, i))
                else: x = ip.norm(st, x); o.append(chr(x.c & 255) if x.is_const() else None)
            if None in o: raise Undecided("an unknown text at %s" % i.where())
            self.set_text(ip, st, a[0], "".join(o)); return None
        def streq(ip, n, st, ev, i, a):
            q = dem(i); o = []
            if "_Rb_tree" in q and "iterator" in q:
                x = [self.get(ip, st, p, 0) for p in a]
                if not all(isinstance(p, P) and p.base.op == "region" for p in x): raise Undecided("an unknown position at %s" % i.where())
                return const(1, int((x[0].base is x[1].base) == ("operator==" in q)))
            if "basic_string" not in q: return self.unknown(ip, n, st, ev, i, a)
            xs = list(a)
            for ty in split(params(q)):
                x = xs.pop(0) if xs else None
                if ty == "char const*": o.append(zchars(ip, st, x))
                elif "basic_string_view<" in ty and not isinstance(x, P):
                    x = ip.norm(st, x); d = xs.pop(0) if xs else None
                    o.append(chars(ip, st, d, x.c) if x.is_const() and isinstance(d, P) else None)
                elif "basic_string<" in ty and "basic_string_view<" not in ty: o.append(T(ip, st, x, i))
                else: raise Undecided("a comparison: %s" % q[:80])
            if None in o: raise Undecided("an unknown text at %s" % i.where())
            return const(1, int((o[0] == o[1]) == ("operator==" in q)))
        def compare(ip, n, st, ev, i, a):
            q = params(dem(i)); t = T(ip, st, a[0], i); x = list(a[1:])
            if q.startswith("unsigned long"):
                p, k = ip.norm(st, x[0]), ip.norm(st, x[1])
                if not p.is_const() or not k.is_const(): raise Undecided("a comparison at %s" % i.where())
                if p.c > len(t): ip.raise_(n, st, ev, i, ("throw", "std::out_of_range", None)); return []
                t = t[p.c:p.c + k.c]; x = x[2:]; q = q.split(",", 2)[2]
            u = arg_text(ip, st, q, x, 0, i)
            return const(32, 0 if t == u else 1 if t > u else 0xffffffff)
        def strcmp(ip, n, st, ev, i, a):
            x, y = zchars(ip, st, a[0]), zchars(ip, st, a[1])
            if x is None or y is None: raise Undecided("an unknown text at %s" % i.where())
            return const(32, 0 if x == y else 1 if x > y else 0xffffffff)
        def strncmp(ip, n, st, ev, i, a):
            x, y, k = zchars(ip, st, a[0]), zchars(ip, st, a[1]), ip.norm(st, a[2])
            if x is None or y is None or not k.is_const(): raise Undecided("an unknown text at %s" % i.where())
            x, y = x[:k.c], y[:k.c]
            return const(32, 0 if x == y else 1 if x > y else 0xffffffff)
        def find(ip, n, st, ev, i, a):
            q = dem(i); t = T(ip, st, a[0], i); meth = re.search(r"::(r?find)\(", q).group(1); par = params(q)
            u = chr(ip.norm(st, a[1]).c & 255) if par.startswith("char,") else arg_text(ip, st, par if len(split(par)) > 2 else split(par)[0], a, 1, i)
            p = ip.norm(st, a[-1])
            if not p.is_const(): raise Undecided("a search at %s" % i.where())
            r = t.find(u, p.c) if meth == "find" else t.rfind(u, 0, min(p.c, len(t)) + len(u))
            return const(64, r & (1 << 64) - 1)
        # ---- vectors
        def vctor(ip, n, st, ev, i, a):
            q = dem(i); par = params(q); t, es = self.esize(q, i)
            if par.startswith("std::initializer_list"):
                if len(a) >= 4: b, k = a[1], ip.norm(st, a[2])
                else: b, k = self.get(ip, st, a[1], 0), ip.norm(st, ip.load(st, ip.padd(a[1], const(64, 8)), 8, "i64", _I))
                if not isinstance(b, P) or not k.is_const(): raise Undecided("an unknown list at %s" % i.where())
                tmp = ip.region("tmpvec", kind="obj"); tp = P(tmp, const(64, 0))
                self.put(ip, st, tp, 0, b); self.put(ip, st, tp, 8, ip.padd(b, const(64, k.c * es)))
                self.copy_vec(ip, st, a[0], tp, t, es, i)
            elif len(a) == 1 or par.startswith("std::allocator"): self.set_vec(ip, st, a[0], None, 0, 0, es)
            elif "&&" in par.split(",")[0]: self.move_vec(ip, st, a[0], a[1])
            elif "const&" in par: self.copy_vec(ip, st, a[0], a[1], t, es, i)
            else: raise Undecided("a vector made by %s" % par[:60])
        def vassign(ip, n, st, ev, i, a):
            q = dem(i); par = params(q); t, es = self.esize(q, i)
            if "&&" in par or "_M_move_assign" in q: self.move_vec(ip, st, a[0], a[1])
            elif "vector<" in par: self.copy_vec(ip, st, a[0], a[1], t, es, i)
            else: raise Undecided("a vector assigned from %s" % par[:60])
            return a[0]
        def grow(ip, st, v, t, es, i):
            """room for one more element at the end; its place"""
            xs = self.elems(ip, st, v, es, i); b = self.get(ip, st, v, 0); cap = self.get(ip, st, v, 16)
            if xs and isinstance(cap, P) and cap.off.is_const() and cap.off.c >= (xs[-1].off.c + 2 * es): return xs[-1].base, len(xs)
            buf = self.fresh(st, t)
            for k, x in enumerate(xs): self.copy_elem(ip, st, t, P(buf, const(64, k * es)), x, i)
            self.set_vec(ip, st, v, buf, len(xs), len(xs) + 16, es)
            return buf, len(xs)
        def realloc(ip, n, st, ev, i, a):
            q = dem(i); t, es = self.esize(q, i); app = "_M_realloc_append" in q
            if not app:
                e = self.get(ip, st, a[0], 8)
                if not (isinstance(a[1], P) and isinstance(e, P) and a[1].base is e.base and a[1].off == e.off) and not (isnull(e) and isnull(a[1])): raise Undecided("an insertion at %s" % i.where())
            x = a[1 if app else 2:]
            buf, k = grow(ip, st, a[0], t, es, i); d = P(buf, const(64, k * es))
            if len(x) == 1: self.copy_elem(ip, st, t, d, x[0], i)
            elif t == "abi_field" and len(x) == 2 and "char const*" not in params(q).split(",")[1]:
                self.set_text(ip, st, ip.padd(d, const(64, L.off[t, "name"])), T(ip, st, x[0], i)); self.put(ip, st, d, L.off[t, "type"], self.get(ip, st, x[1], 0))
            else: raise Undecided("an element made of %d parts at %s" % (len(x), i.where()))
            self.set_vec(ip, st, a[0], buf, k + 1, k + 16, es)
            return d
        def insert(ip, n, st, ev, i, a):
            q = dem(i); t, es = self.esize(q, i); par = split(params(q))
            ptrs = [x for x in a if isinstance(x, P) or isnull(x)]
            if "_M_range_insert" in q or (len(par) == 3 and len(a) == 4):
                v, pos, b, e = a[:4]
                end = self.get(ip, st, v, 8)
                if isnull(b) and isnull(e): return pos
                if not (isinstance(b, P) and isinstance(e, P) and b.base is e.base): raise Undecided("an insertion at %s" % i.where())
                if not (isnull(end) and isnull(pos)) and not (isinstance(pos, P) and isinstance(end, P) and pos.base is end.base and pos.off == end.off):
                    raise Undecided("an insertion in the middle at %s" % i.where())
                tmp = ip.region("tmpvec", kind="obj"); tp = P(tmp, const(64, 0)); self.put(ip, st, tp, 0, b); self.put(ip, st, tp, 8, e)
                for x in self.elems(ip, st, tp, es, i):
                    buf, k = grow(ip, st, v, t, es, i); self.copy_elem(ip, st, t, P(buf, const(64, k * es)), x, i); self.set_vec(ip, st, v, buf, k + 1, k + 16, es)
                return self.get(ip, st, v, 0)
            raise Undecided("an insertion at %s" % i.where())
        def clear(ip, n, st, ev, i, a): t, es = self.esize(dem(i), i); self.set_vec(ip, st, a[0], None, 0, 0, es)
        def vswap(ip, n, st, ev, i, a):
            for q in (0, 8, 16):
                x, y = self.get(ip, st, a[0], q), self.get(ip, st, a[1], q); self.put(ip, st, a[0], q, y); self.put(ip, st, a[1], q, x)
        def fieldctor(ip, n, st, ev, i, a):
            if len(a) == 2 and isinstance(a[1], P): self.copy_elem(ip, st, "abi_field", a[0], a[1], i)
            elif len(a) == 1: self.set_text(ip, st, a[0], ""); self.put(ip, st, a[0], L.off["abi_field", "type"], const(64, 0))
            else: raise Undecided("a field made by %s" % dem(i)[:80])
        def fieldset(ip, n, st, ev, i, a): self.copy_elem(ip, st, "abi_field", a[0], a[1], i); return a[0]
        def defctor(ip, n, st, ev, i, a):
            t = m.q(i.callee).split("::")[-1]
            if t not in L.size: raise Undecided("a call of %s" % dem(i)[:80])
            if len(a) == 2: self.copy_elem(ip, st, t, a[0], a[1], i)
            else: raise Undecided("a %s made by %s" % (t, dem(i)[:80]))
        # ---- variants
        def varassign(ip, n, st, ev, i, a):
            q = dem(i); par = params(q)
            if "eosio::abi_type::builtin" not in q: raise Undecided("a variant at %s: %s" % (i.where(), q[:60]))
            mm = list(re.finditer(r">::(?:operator=|emplace|variant)<", q))
            mm = mm[-1] if mm else None
            if not mm or len(a) < 2:
                if not par: raise Undecided("an empty type at %s" % i.where())
                k = None
                x = ip.norm(st, ip.load(st, ip.padd(a[1], const(64, L.ix)), 1, "i8", _I))
                if x.is_const() and x.c < len(L.kinds): k = L.kinds[x.c]
                if k is None: raise Undecided("a type of unknown kind at %s" % i.where())
                self.set_data(ip, st, a[0], k, a[1], i, "&&" in par); return a[0]
            from .reflect import args_of, plain
            e = match(q, mm.end() - 1); ts = args_of(plain("x" + q[mm.end() - 1:e])); x = a[1:]
            ix = re.match(r"(\d+)(u?l?)$", ts[0].replace(" ", ""))
            if ix:
                if int(ix.group(1)) >= len(L.kinds): raise Undecided("an unknown kind at %s" % i.where())
                k = L.kinds[int(ix.group(1))]; move = len(ts) < 2 or not ts[1].endswith("&")
                if "in_place_index" in par and len(x) > 1: x = x[1:]
            else:
                k = kind_of(ts[0]); move = not ts[0].endswith("&")
                if "in_place_type" in par and len(x) > 1: x = x[1:]
            if k is None or k not in L.kinds or not x: raise Undecided("a type becomes %s" % ts[0][:60])
            self.set_data(ip, st, a[0], k, x[0], i, move); return a[0]
        def reset(ip, n, st, ev, i, a):
            self.put(ip, st, a[0], L.ix, const(8, 255), 1)
        # ---- the map of types
        def is_types(q, i):
            k = q.find("std::map<")
            return k >= 0 and re.match(r"std::map<std::(__cxx11::)?basic_string<char, std::char_traits<char>, std::allocator<char>>, eosio::abi_type\b", q[k:]) is not None
        def need(q, i):
            if not is_types(q, i): raise Undecided("a table at %s: %s" % (i.where(), q[:60]))
        def endp(ip): return P(ip.region("entries end", kind="node"), const(64, 0))
        def mfind(ip, n, st, ev, i, a):
            need(dem(i), i); t = T(ip, st, a[1], i)
            return P(self.node(ip, t), const(64, 0)) if t in self.table(st) else endp(ip)
        def mlower(ip, n, st, ev, i, a):
            need(dem(i), i); t = T(ip, st, a[1], i); up = "upper_bound" in dem(i); ks = [k for k in sorted(self.table(st)) if (k > t if up else k >= t)]
            return P(self.node(ip, ks[0]), const(64, 0)) if ks else endp(ip)
        def mcount(ip, n, st, ev, i, a): need(dem(i), i); return const(64, int(T(ip, st, a[1], i) in self.table(st)))
        def mend(ip, n, st, ev, i, a): need(dem(i), i); return endp(ip)
        def mbegin(ip, n, st, ev, i, a):
            need(dem(i), i); t = sorted(self.table(st)); return P(self.node(ip, t[0]), const(64, 0)) if t else endp(ip)
        def msize(ip, n, st, ev, i, a): need(dem(i), i); return const(64, len(self.table(st)))
        def mat(ip, n, st, ev, i, a):
            need(dem(i), i); t = T(ip, st, a[1], i)
            if t not in self.table(st): ip.raise_(n, st, ev, i, ("throw", "std::out_of_range", None)); return []
            return P(self.node(ip, t), const(64, 64))
        def nextof(ip, st, p, i):
            t = sorted(self.table(st)); b = p.base.args[0] if isinstance(p, P) and p.base.op == "region" else ""
            k = b[6:] if b.startswith("entry:") else None
            if k not in t: raise Undecided("an unknown position at %s" % i.where())
            j = t.index(k) + 1
            return P(self.node(ip, t[j]), const(64, 0)) if j < len(t) else endp(ip)
        def minc(ip, n, st, ev, i, a):
            sret = a[1:] if i.get("sret") else a
            old = self.get(ip, st, sret[0], 0); new = nextof(ip, st, old, i); self.put(ip, st, sret[0], 0, new)
            return old if len(sret) > 1 else sret[0]
        def rbinc(ip, n, st, ev, i, a): return nextof(ip, st, a[0], i)
        def memplace(ip, n, st, ev, i, a):
            q = dem(i); need(q, i)
            mm = re.search(r"::(try_emplace|emplace)<(.*)>\(", q)
            if not mm: raise Undecided("an entry is made by %s" % q[-120:])
            from .reflect import args_of, plain
            ts = args_of(plain("x<" + mm.group(2) + ">"))
            if mm.group(1) == "emplace" and len(a) == 4 and len(ts) == 3 and "piecewise" in ts[0] and all(t.startswith("std::tuple<") for t in ts[1:]):
                k1, k2 = (args_of(plain(re.sub(r"&+$", "", t))) for t in ts[1:])
                if len(k1) != 1 or len(k2) != 3 or not all(t.endswith("&") for t in k1 + k2): raise Undecided("an entry is made of parts at %s" % i.where())
                a = [a[0], self.get(ip, st, a[2], 0)] + [self.get(ip, st, a[3], 8 * (2 - k)) for k in range(3)]; ts = [re.sub(r"&&$", "", t) for t in k2]; par0 = k1
            elif mm.group(1) != "try_emplace" or len(a) != 5: raise Undecided("an entry is made of %d parts at %s" % (len(a), i.where()))
            else: par0 = split(params(q))
            if len(ts) > 3: ts = ts[1:]
            def strof(x, ty):
                if "char const" in ty or "char const*" in ty:
                    d = x if "[" in ty else self.get(ip, st, x, 0); t = zchars(ip, st, d)
                    if t is None: raise Undecided("an unknown text at %s" % i.where())
                    return t
                return T(ip, st, x, i)
            key = strof(a[1], par0[0]) if "basic_string" not in par0[0] else T(ip, st, a[1], i)
            r = self.node(ip, key); p = P(r, const(64, 0))
            if key in self.table(st): return Agg([p, const(8, 0)])
            st.aux[("abitypes",)] = self.table(st) + (key,)
            o = P(r, const(64, 64))
            self.set_text(ip, st, P(r, const(64, 32)), key)
            self.set_text(ip, st, ip.padd(o, const(64, L.off["abi_type", "name"])), strof(a[2], ts[0]))
            k = kind_of(ts[1])
            if k is None or k not in L.kinds: raise Undecided("an entry of kind %s" % ts[1][:60])
            self.set_data(ip, st, ip.padd(o, const(64, L.off["abi_type", "_data"])), k, a[3], i, not ts[1].endswith("&"))
            self.put(ip, st, o, L.off["abi_type", "ser"], const(64, 0) if "nullptr" in ts[2] else self.get(ip, st, a[4], 0))
            return Agg([p, const(8, 1)])
        for q in ("basic_string",): M[S + q] = ctor
        for q in ("operator=", "assign"): M[S + q] = assign
        for q in ("append", "operator+=", "push_back"): M[S + q] = append
        M[S + "pop_back"] = popb; M[S + "clear"] = sclear; M[S + "swap"] = sswap; M[S + "resize"] = resize; M[S + "erase"] = erase; M[S + "substr"] = substr; M[S + "compare"] = compare; M[S + "find"] = M[S + "rfind"] = find
        M["std::operator+"] = plus; M["std::operator=="] = M["std::operator!="] = streq; M["strcmp"] = strcmp; M["strncmp"] = strncmp
        for q in (S + "reserve", S + "~basic_string", "std::vector::~vector", "std::vector::reserve", "std::variant::~variant"): M[q] = nop
        M["std::vector::vector"] = vctor; M["std::vector::operator="] = M["std::vector::_M_move_assign"] = M["std::vector::assign"] = vassign
        M["std::vector::_M_realloc_insert"] = M["std::vector::_M_realloc_append"] = realloc
        M["std::vector::insert"] = M["std::vector::_M_range_insert"] = insert; M["std::vector::clear"] = clear; M["std::vector::swap"] = vswap
        M["eosio::abi_field::abi_field"] = fieldctor; M["eosio::abi_field::operator="] = fieldset
        for t in ("type_def", "struct_def", "variant_def", "field_def"): M["eosio::%s::%s" % (t, t)] = defctor
        M["std::variant::operator="] = M["std::variant::emplace"] = M["std::variant::variant"] = varassign
        M["std::__detail::__variant::_Variant_storage::_M_reset"] = reset
        M["std::map::find"] = mfind; M["std::map::count"] = M["std::map::contains"] = mcount; M["std::map::end"] = M["std::map::cend"] = mend; M["std::map::begin"] = M["std::map::cbegin"] = mbegin
        M["std::map::size"] = msize; M["std::map::at"] = mat; M["std::map::lower_bound"] = M["std::map::upper_bound"] = mlower
        M["std::map::try_emplace"] = M["std::map::emplace"] = memplace
        for q in ("std::_Rb_tree_iterator::operator++", "std::_Rb_tree_const_iterator::operator++"): M[q] = minc
        M["std::_Rb_tree_increment"] = rbinc
        return M

    def unknown(self, ip, n, st, ev, i, a):
        f = self.m.fns.get(i.callee)
        if i.callee and "~" in self.m.q(i.callee): return None
        if f is not None and f.blocks and not re.match(r"std::(map|vector|variant|_Rb_tree|__cxx11)", f.q):
            return ip.enter(n, st, ev, i, i.callee, a)      # part of a recursion
        raise Undecided("a call of %s at %s" % (self.m.dem(i.callee)[:160] if i.callee else "an unknown function", i.where()))

    # ---- definitions
    def build(self, ip, st, defs):
        """defs: (types [(new, type)], structs [(name, base, [(field, type)])], variants [(name, [types])])"""
        L = self.L; d = P(ip.argregs["def"], const(64, 0))
        for q in range(0, L.size["abi_def"], 8): self.put(ip, st, d, q, const(64, 0))
        def vec(at, t, n, es, fill):
            if not n: self.set_vec(ip, st, at, None, 0, 0, es); return
            buf = ip.region("def:" + t, kind="vec"); self.set_vec(ip, st, at, buf, len(n), len(n), es)
            for k, x in enumerate(n): fill(P(buf, const(64, k * es)), x, "%s.%d" % (t, k))
        def strs(p, t, *kv):
            for k, v in kv: self.set_text(ip, st, ip.padd(p, const(64, L.off[t, k])), v)
        at = lambda p, t, k: ip.padd(p, const(64, L.off[t, k]))
        vec(at(d, "abi_def", "types"), "types", defs[0], L.size["type_def"], lambda p, x, t: strs(p, "type_def", ("new_type_name", x[0]), ("type", x[1])))
        def st_(p, x, t):
            strs(p, "struct_def", ("name", x[0]), ("base", x[1]))
            vec(at(p, "struct_def", "fields"), t, x[2], L.size["field_def"], lambda p, y, t: strs(p, "field_def", ("name", y[0]), ("type", y[1])))
        vec(at(d, "abi_def", "structs"), "structs", defs[1], L.size["struct_def"], st_)
        def va_(p, x, t):
            strs(p, "variant_def", ("name", x[0]))
            vec(at(p, "variant_def", "types"), t, x[1], 32, lambda p, y, t: self.set_text(ip, st, p, y))
        vec(at(d, "abi_def", "variants"), "variants", defs[2], L.size["variant_def"], va_)

    def load(self, defs):
        def setup(ip, st):
            self.build(ip, st, defs)
        return analyse(self.m, "sa_load", ["def", "abi"], setup, unroll=400, models=self.models(), default_model=self.unknown, limit=2000, max_nodes=400000)

    def query(self, st0, name):
        def setup(ip, st):
            st.mem = dict(st0.mem); st.aux = dict(st0.aux)
            self.set_text(ip, st, P(ip.argregs["asked"], const(64, 0)), name)
        return analyse(self.m, "sa_query", ["abi", "asked"], setup, unroll=400, models=self.models(), default_model=self.unknown, limit=2000, max_nodes=400000)

    # ---- the loaded table
    def who(self, p):
        """name of the entry a pointer to a type designates"""
        if isinstance(p, P) and p.base.op == "region" and p.base.args[0].startswith("entry:") and p.off.is_const() and p.off.c == 64: return p.base.args[0][6:]
        return None

    def entry(self, ip, st, key):
        """(kind, contents, serializer) of an entry"""
        L = self.L; o = P(self.node(ip, key), const(64, 64)); k = self.kind(ip, st, o); d = ip.padd(o, const(64, L.off["abi_type", "_data"]))
        s = self.get(ip, st, o, L.off["abi_type", "ser"])
        sn = self.m.dem(s.base.args[0][1:]) if isinstance(s, P) and s.base.op == "region" and s.base.args[1] == "global" else None if isnull(s) else "?"
        c = None
        if k in ("alias", "optional", "extension", "array"): c = self.who(self.get(ip, st, d, 0))
        elif k in ("struct", "variant"):
            v = ip.padd(d, const(64, 8)) if k == "struct" else d
            c = [(self.get_text(ip, st, ip.padd(x, const(64, L.off["abi_field", "name"]))), self.who(self.get(ip, st, x, L.off["abi_field", "type"]))) for x in self.elems(ip, st, v, L.size["abi_field"])]
        return k, c, sn, self.get_text(ip, st, ip.padd(o, const(64, L.off["abi_type", "name"])))


def chars(ip, st, p, n):
    """n characters at p"""
    if n > 4096: return None
    t = text_of(ip, st, P(p.base, const(64, 0))) if isinstance(p, P) and p.off.is_const() else None
    if t is not None and p.off.c + n <= len(t): return t[p.off.c:p.off.c + n]
    out = ""
    for k in range(n):
        c = ip.norm(st, ip.load(st, ip.padd(p, const(64, k)), 1, "i8", _I)) if isinstance(p, P) else None
        if c is None or not c.is_const(): return None
        out += chr(c.c)
    return out


def zchars(ip, st, p):
    if not isinstance(p, P) or not p.off.is_const(): return None
    t = text_of(ip, st, P(p.base, const(64, 0)))
    return t[p.off.c:] if t is not None and p.off.c <= len(t) else text_of(ip, st, p)


def params(q):
    """parameter list of a demangled function"""
    q = re.sub(r"\)( const)?( &+)?$", ")", q)
    if not q.endswith(")"): return ""
    d = 0
    for k in range(len(q) - 1, -1, -1):
        if q[k] == ")": d += 1
        if q[k] == "(":
            d -= 1
            if d == 0: return q[k + 1:-1]
    return ""


def match(s, k):
    """position after the bracket that closes the one at k"""
    d = 0
    for j in range(k, len(s)):
        if s[j] == "<": d += 1
        if s[j] == ">":
            d -= 1
            if d == 0: return j + 1
    return len(s)


def split(p):
    out = []; d = 0; cur = ""
    for c in p:
        if c in "<(": d += 1
        if c in ">)": d -= 1
        if c == "," and d == 0: out.append(cur.strip()); cur = ""
        else: cur += c
    return out + [cur.strip()] if cur.strip() else out
