"""Abstract interpretation of the C interface with a valid context: containers of the context are tracked as objects with a current
buffer, library operations as events; every outcome of every function is recorded together with the facts established on its way."""
import re
from .eng import *
from .models import text_of, m_nop, m_begin, m_term, m_throw, m_rethrow, m_runtime_error, m_alloc_exc
from .checks.c04 import api, UNITS

KEEP = r"^std::(map|vector|_Rb_tree)::|^std::__cxx11::basic_string::\w|~|^eosio::(abi|abi_type|json_token_stream|from_json|from_bin|to_json|to_bin|convert|name_to_string|check|string_to_name)(::|$)|_M_|^std::(operator|compare)|^abieos::(json_to_bin|bin_to_json|json_to_jvalue)"
PREFIX = "eosio::abi/1."
S = "std::__cxx11::basic_string::"
NULL = const(64, 0)


def isnull(v): return isinstance(v, V) and not isinstance(v, P) and v.w == 64 and v.is_const() and v.c == 0


def obj(p):
    """identity of an object: region and offset"""
    return (p.base, sgn(p.off.c, 64)) if isinstance(p, P) and p.off.is_const() else None


class Api:
    def __init__(self, mod, name, lastoff=None):
        self.m = mod; self.name = name; self.f = fn(mod, name); self.seq = 0
        self.bad = {}          # rule -> messages
        self.lookups = []

    def fresh(self, kind, *k):
        return term(64, ADDR_LO, ADDR_HI, "region", ("%s" % (kind,) + repr(k), kind, k), True)

    def say(self, rule, msg): self.bad.setdefault(rule, set()).add(msg)

    # ---- objects ----
    def newbuf(self, ip, st, i, o, ln, text=None):
        """the object at o gets a new buffer"""
        k = st.aux.get(("nb", i.id), 0); st.aux[("nb", i.id)] = min(k + 1, 3)
        b = self.fresh("buf", i.id, ip.cur.loc[1], k, o.key)
        st.aux[("owner", b)] = obj(o)
        ip.store(st, o, P(b, const(64, 0)), 8, _I); ip.store(st, ip.padd(o, const(64, 8)), ln, 8, _I)
        st.aux.pop(("text", b), None); st.aux.pop(("src", b), None)
        if text is not None: st.aux[("text", b)] = text
        return b

    def parts(self, ip, st, o):
        d = ip.load(st, o, 8, "ptr", _I); ln = ip.load(st, ip.padd(o, const(64, 8)), 8, "i64", _I)
        if not (isinstance(d, P) and d.base.op == "region" and d.base.args[1] == "buf"):
            b = self.fresh("buf", "0", o.key, d.key if isinstance(d, V) else 0)
            st.aux[("owner", b)] = obj(o); d = P(b, const(64, 0)); ip.store(st, o, d, 8, _I)
        for t, k in ln.lin:
            if t.hi > (1 << 62): ip._trng(st, t, 0, (1 << 62) - 1)
        return d, ln

    def unk_len(self, ip, i, *k, lo=0): return mkterm(term(64, lo, (1 << 62) - 1, "strlen", (self.name, lo, i.id, ip.cur.loc[1]) + k))

    # ---- strings ----
    def str_method(self, ip, n, st, ev, i, a, meth, par, const_m):
        m = self.m
        sret = bool(i.get("sret")) and meth not in ("basic_string",)
        this = a[1] if sret else a[0]
        if not isinstance(this, P) or not this.off.is_const():
            return default_call(ip, n, st, ev, i, a)
        if meth.startswith("~"): return None
        if meth == "basic_string":
            if len(a) == 1 or par.startswith("std::allocator") or par == "": self.newbuf(ip, st, i, this, const(64, 0), ""); return None
            if par.startswith("char const*") and not par.startswith("char const*, unsigned long"):
                t = text_of(ip, st, a[1])
                if t is not None: self.newbuf(ip, st, i, this, const(64, len(t)), t)
                elif isinstance(a[1], P) and a[1].base.op == "region" and a[1].base.args[1] == "what":
                    b = self.newbuf(ip, st, i, this, self.unk_len(ip, i, lo=1)); st.aux[("src", b)] = ("what",)
                else:
                    b = self.newbuf(ip, st, i, this, self.unk_len(ip, i))
                    if isinstance(a[1], P): st.aux[("src", b)] = ("copy", a[1].base)
                return None
            if "basic_string<" in par.split(",")[0] and isinstance(a[1], P) and (len(a) == 2 or "allocator" in par.split(",")[-1]):
                self.take(ip, st, i, this, a[1], "&&" in par); return None
            b = self.newbuf(ip, st, i, this, self.unk_len(ip, i))
            for x in a[1:]:
                if isinstance(x, P): st.aux[("src", b)] = ("copy", x.base); break
            return None
        if meth in ("data", "c_str", "begin", "cbegin", "_M_data"): return self.parts(ip, st, this)[0]
        if meth in ("size", "length"): return self.parts(ip, st, this)[1]
        if meth == "empty": return ip.icmp(st, "eq", self.parts(ip, st, this)[1], const(64, 0))
        if meth in ("end", "cend"):
            d, ln = self.parts(ip, st, this); return ip.padd(d, ln)
        if meth in ("operator=", "assign") and isinstance(a[1], P) and "basic_string<" in par and len(a) == 2:
            self.take(ip, st, i, this, a[1], "&&" in par); return this if i.ty == "ptr" else None
        if meth == "swap":
            d1, l1 = self.parts(ip, st, this); d2, l2 = self.parts(ip, st, a[1])
            for o, d, l in ((this, d2, l2), (a[1], d1, l1)):
                b = self.newbuf(ip, st, i, o, l); self.inherit(st, b, d)
            return None
        if meth in ("operator=", "assign"):
            t = text_of(ip, st, a[1]) if isinstance(a[1], P) and len(a) == 2 else None
            b = self.newbuf(ip, st, i, this, const(64, len(t)) if t is not None else self.unk_len(ip, i, lo=1 if isinstance(a[1], P) and a[1].base.op == "region" and a[1].base.args[1] == "what" else 0), t)
            return this if i.ty == "ptr" else None
        if meth == "clear": self.newbuf(ip, st, i, this, const(64, 0), ""); return None
        if meth == "compare":
            r = self.version(ip, st, this, a, i)
            if r: return r
        if meth in ("find", "rfind") and len(a) >= 3:
            t = text_of(ip, st, a[1]) if isinstance(a[1], P) else None
            if t == PREFIX and a[2].is_const() and a[2].c == 0 and meth == "rfind":
                s2 = st.copy(); s2.aux[("flag", "version")] = self.vsrc(ip, s2, this)
                return [(s2, const(64, 0), list(ev)), (st, const(64, -1), list(ev))]
        if meth == "substr" and sret:
            d, ln = self.parts(ip, st, this)
            if i.op == "invoke" or True: ip.raise_(n, st.copy(), ev, i, ("throw", "@_ZTISt12out_of_range", None)) if not (a[2].is_const() and a[2].c == 0) else None
            out = []
            lim = a[3]
            e = ip.icmp(st, "ult", lim, ln)
            for truth_ in (True, False):
                for s in ip.assume(st, e, truth_):
                    s = s.copy()
                    k = ip.norm(s, lim if truth_ else ip.sub(s, ln, a[2]))
                    b = self.newbuf(ip, s, i, a[0], k); s.aux[("src", b)] = ("sub", obj(this), a[2].c if a[2].is_const() else None)
                    out.append((s, None, list(ev)))
            return out
        if sret:
            self.newbuf(ip, st, i, a[0], self.unk_len(ip, i)); return None
        if const_m:
            return None
        if meth in ("operator[]", "at", "back", "front"):
            return None
        # anything else changes the contents
        d, ln = self.parts(ip, st, this)
        lo = 1 if meth in ("push_back", "append", "operator+=", "insert", "_M_append") and (ip.urange(st, ln)[0] > 0 or "char)" in par + ")" and meth in ("push_back", "operator+=") or any(isinstance(x, P) and (text_of(ip, st, x) or "") != "" for x in a[1:])) else 0
        if i.op == "invoke": ip.raise_(n, st.copy(), ev, i, ("throw", "@_ZTISt9bad_alloc", None))
        if meth == "reserve" or meth == "shrink_to_fit":
            b = self.newbuf(ip, st, i, this, ln); self.inherit(st, b, d); return None
        b = self.newbuf(ip, st, i, this, self.unk_len(ip, i, lo=lo))
        return this if i.ty == "ptr" else None

    def inherit(self, st, b, d):
        for k in ("text", "src"):
            v = st.aux.get((k, d.base))
            if v is not None: st.aux[(k, b)] = v
            else: st.aux.pop((k, b), None)

    def take(self, ip, st, i, o, frm, move):
        if obj(o) == obj(frm): return
        d, ln = self.parts(ip, st, frm)
        b = self.newbuf(ip, st, i, o, ln); self.inherit(st, b, d)
        if move: self.newbuf(ip, st, i, frm, const(64, 0), "")

    # ---- version test ----
    def vsrc(self, ip, st, o):
        """was the string at o (or the string it is cut from) read from the input?"""
        d, _ = self.parts(ip, st, o)
        return self.vbuf(st, d.base, obj(o))

    def vbuf(self, st, b, o=None):
        o = o or st.aux.get(("owner", b))
        for _ in range(4):
            if o and (st.aux.get(("parsed", o)) or o[1] == 0 and st.aux.get(("parsed", (o[0], 0)))): return True
            s = st.aux.get(("src", b))
            if not s or s[0] != "sub" or s[2] != 0 or s[1] is None: return False
            o = s[1]; b = None
            if st.aux.get(("parsed", o)): return True
        return False

    def version(self, ip, st, this, a, i):
        """string.compare with the expected prefix"""
        ts = [x for x in a[1:] if isinstance(x, P)]
        t = text_of(ip, st, ts[0]) if ts else None
        if t is None and ts and obj(ts[0]): t = text_of(ip, st, self.parts(ip, st, ts[0])[0]) if "basic_string" in self.m.dem(i.callee)[60:] else None
        if t != PREFIX: return None
        whole = len(a) == 2; cut = len(a) >= 4 and a[1].is_const() and a[1].c == 0 and a[2].is_const() and a[2].c == len(PREFIX)
        if not whole and not cut: return None
        return self.fork(st, self.vsrc(ip, st, this), 32)

    def fork(self, st, ok, w, eq=0, ne=1):
        s2 = st.copy(); s2.aux[("flag", "version")] = bool(ok)
        return [(s2, const(w, eq), []), (st, const(w, ne), [])]

    def m_cmp(self, ip, n, st, ev, i, a):
        if len(a) == 3 and all(isinstance(x, P) for x in a[:2]):
            for x, y in ((a[0], a[1]), (a[1], a[0])):
                if text_of(ip, st, y) == PREFIX and ip.urange(st, ip.norm(st, a[2]))[0] == len(PREFIX) == ip.urange(st, ip.norm(st, a[2]))[1]:
                    return [(s, v, list(ev)) for s, v, _ in self.fork(st, self.vbuf(st, x.base), 32)]
        return mkterm(term(32, 0, (1 << 32) - 1, "cmp", (i.id, ip.cur.loc[1])))

    def m_streq(self, ip, n, st, ev, i, a):
        q = self.m.q(i.callee).split("::")[-1]
        if "_Rb_tree" in self.m.dem(i.callee) and "_iterator" in self.m.dem(i.callee) and q in ("operator==", "operator!="):
            x, y = (ip.norm(st, ip.load(st, o, 8, "ptr", _I)) for o in a[:2])
            return ip.icmp(st, "eq" if q == "operator==" else "ne", x, y)
        if q in ("operator==", "operator!=") and len(a) == 4 and "basic_string_view" in self.m.dem(i.callee):
            for (lx, x), (ly, y) in (((a[0], a[1]), (a[2], a[3])), ((a[2], a[3]), (a[0], a[1]))):
                if isinstance(x, P) and isinstance(y, P) and text_of(ip, st, y) == PREFIX and ip.norm(st, ly) == const(64, len(PREFIX)) and ip.urange(st, ip.norm(st, lx))[1] <= len(PREFIX):
                    e = q == "operator=="
                    return [(s, v, list(ev)) for s, v, _ in self.fork(st, self.vbuf(st, x.base), 1, int(e), int(not e))]
            return mkterm(term(1, 0, 1, "cmp", (i.id, ip.cur.loc[1])))
        if q in ("operator==", "operator!=") and "basic_string" in self.m.dem(i.callee):
            for x, y in ((a[0], a[1]), (a[1], a[0])):
                t = None
                if isinstance(y, P):
                    t = text_of(ip, st, y)
                    if t is None and obj(y) and ip.reg(st, y.base).cells.get(obj(y)[1]): t = text_of(ip, st, self.parts(ip, st, y)[0])
                if t == PREFIX and isinstance(x, P) and obj(x):
                    e = q == "operator=="
                    return [(s, v, list(ev)) for s, v, _ in self.fork(st, self.vsrc(ip, st, x), 1, int(e), int(not e))]
            return mkterm(term(1, 0, 1, "cmp", (i.id, ip.cur.loc[1])))
        if q == "operator+" and i.get("sret"):
            if i.op == "invoke": ip.raise_(n, st.copy(), ev, i, ("throw", "@_ZTISt9bad_alloc", None))
            lo = 0
            for x in a[1:]:
                if isinstance(x, P):
                    t = text_of(ip, st, x)
                    if t: lo = 1
                    elif obj(x) and ip.reg(st, x.base).cells.get(obj(x)[1]) and ip.urange(st, self.parts(ip, st, x)[1])[0] > 0: lo = 1
            self.newbuf(ip, st, i, a[0], self.unk_len(ip, i, lo=lo)); return None
        return self.default(ip, n, st, ev, i, a)

    # ---- vectors ----
    def vec_method(self, ip, n, st, ev, i, a, meth, par, const_m):
        this = a[0]
        if not isinstance(this, P) or not this.off.is_const(): return default_call(ip, n, st, ev, i, a)
        if meth.startswith("~"): return None
        if meth in ("data", "begin", "cbegin"): return self.parts(ip, st, this)[0]
        if meth in ("size",): return self.parts(ip, st, this)[1]
        if meth == "empty": return ip.icmp(st, "eq", self.parts(ip, st, this)[1], const(64, 0))
        if meth in ("end", "cend"):
            d, ln = self.parts(ip, st, this); return ip.padd(d, ln)
        if meth in ("operator=", "vector", "assign") and len(a) >= 2 and isinstance(a[1], P) and par.startswith("std::vector<"):
            self.take(ip, st, i, this, a[1], "&&" in par); return this if i.ty == "ptr" else None
        if meth == "swap" and isinstance(a[1], P):
            d1, l1 = self.parts(ip, st, this); d2, l2 = self.parts(ip, st, a[1])
            for o, d, l in ((this, d2, l2), (a[1], d1, l1)):
                b = self.newbuf(ip, st, i, o, l); self.inherit(st, b, d)
            return None
        if meth == "vector" and len(a) == 1 or meth == "clear": self.newbuf(ip, st, i, this, const(64, 0)); return None
        if const_m or meth in ("operator[]", "at", "back", "front"): return None
        if i.op == "invoke": ip.raise_(n, st.copy(), ev, i, ("throw", "@_ZTISt9bad_alloc", None))
        self.newbuf(ip, st, i, this, self.unk_len(ip, i))
        return this if i.ty == "ptr" else None

    # ---- maps ----
    READ = {"find", "end", "cend", "begin", "cbegin", "lower_bound", "upper_bound", "at", "count", "contains", "size", "empty", "equal_range", "key_comp"}

    def mapid(self, st, p): return ("ctx", sgn(p.off.c, 64)) if p.base is self.ctx else (p.base, sgn(p.off.c, 64))

    def node(self, i, ip, this): return self.fresh("node", i.id, ip.cur.loc[1], this.key)

    def map_method(self, ip, n, st, ev, i, a, meth, dem, const_m):
        this = a[0]
        if not isinstance(this, P) or not this.off.is_const(): return default_call(ip, n, st, ev, i, a)
        if meth.startswith("~"): return None
        owned = this.base is self.ctx or this.base.op == "region" and this.base.args[1] == "node"
        contracts = this.base is self.ctx and "eosio::name, eosio::abi," in dem
        end = P(self.fresh("mapend", this.key), const(64, 0))
        if meth in ("end", "cend"): return end
        if meth == "map": return None
        key = None
        if len(a) > 1 and isinstance(a[1], P) and a[1].off.is_const(): key = ip.norm(st, ip.load(st, a[1], 8, "i64", _I))
        if meth in ("find", "at", "lower_bound", "upper_bound", "operator[]", "count", "contains") and owned:
            nd = self.node(i, ip, this)
            s2 = st.copy()
            s2.aux[("node", nd)] = (self.mapid(st, this), key)
            if meth in ("count", "contains"):
                s2.aux[("found", self.mapid(st, this))] = key
                w = ibits(i.ty)
                return [(s2, const(w, 1), list(ev)), (st, const(w, 0), list(ev))]
            if meth == "find":
                s2.aux[("found", self.mapid(st, this))] = key
                return [(s2, P(nd, const(64, 0)), list(ev)), (st, end, list(ev))]
            if meth in ("lower_bound", "upper_bound"):
                s2.aux[("node", nd)] = (self.mapid(st, this), None)
                return [(s2, P(nd, const(64, 0)), list(ev)), (st, end, list(ev))]
            if meth == "at":
                ip.raise_(n, st, ev, i, ("throw", "@_ZTISt12out_of_range", "map::at"))
                s2.aux[("found", self.mapid(st, this))] = key
                return [(s2, P(nd, const(64, 40)), list(ev))]
            if contracts: s2.aux[("mut",)] = s2.aux.get(("mut",), ()) + (("operator[]", key, nd),)
            return [(s2, P(nd, const(64, 40)), list(ev))]
        if meth in ("begin", "cbegin") or const_m: return None
        if contracts:
            src = next((x for x in a[2:] if isinstance(x, P)), None)
            if i.op == "invoke": ip.raise_(n, st.copy(), ev, i, ("throw", "@_ZTISt9bad_alloc", None))
            rv = "&&" in dem[dem.rfind("("):] or "<eosio::abi>" in dem
            st.aux[("mut",)] = st.aux.get(("mut",), ()) + ((meth, key, obj(src) if src is not None else None, st.aux.get(("conv", obj(src))) if src is not None else None, rv),)
            return None if i.ty == "void" else ip.call_result(st, i) if ibits(i.ty) is not None else Agg([])
        return container_call(ip, n, st, ev, i, a)

    # ---- everything else ----
    def default(self, ip, n, st, ev, i, a):
        m = self.m
        if not i.callee:
            for s in (st.aux.get("exc"),): pass
            t = self.fresh("what", i.id)
            return P(t, const(64, 0)) if i.ty == "ptr" else ip.call_result(st, i) if i.ty and i.ty != "void" else None
        q = m.q(i.callee); dem = m.dem(i.callee)
        c, _, meth = q.rpartition("::")
        par = params_text(dem); cm = dem.rstrip().endswith("const")
        if q.startswith(S + "operator std::basic_string_view"):
            d, ln = self.parts(ip, st, a[0]); return Agg([ln, d])
        if c in ("std::__cxx11::basic_string",): return self.wrapev(self.str_method(ip, n, st, ev, i, a, meth, par, cm), ev)
        if c == "std::vector": return self.wrapev(self.vec_method(ip, n, st, ev, i, a, meth, par, cm), ev)
        if c == "std::map" : return self.wrapev(self.map_method(ip, n, st, ev, i, a, meth, dem, cm), ev)
        if meth == "_M_valptr" and isinstance(a[0], P):
            if a[0].base.op == "region" and a[0].base.args[1] == "mapend": self.say("lookup", "the entry of an unsuccessful lookup is used at %s" % i.where())
            return P(a[0].base, ip.add(st, a[0].off, const(64, 32)))
        if meth.startswith("~"): return None
        self.event(ip, st, i, a, q, dem)
        if i.get("noreturn"):
            ip.raise_(n, st, ev, i, ("noreturn", q)); return []
        sk = ()
        # calls given the context itself would have to be analysed with it
        if q == "eosio::check":
            for s in ip.assume(st.copy(), a[0], False) if a[0].w == 1 else [st.copy()]: ip.raise_(n, s, ev, i, ("throw", "@_ZTISt13runtime_error", None))
            return [(s, None, list(ev)) for s in ip.assume(st, a[0], True)]
        if i.op == "invoke":
            s2 = st.copy(); self.effect(ip, s2, i, a, q, dem, True); ip.raise_(n, s2, ev, i, ("throw", "@_ZTISt13runtime_error", None))
        return self.effect(ip, st, i, a, q, dem, False)

    def wrapev(self, r, ev):
        if isinstance(r, list): return [(s, v, list(e) if e else list(ev)) for s, v, e in r]
        return r

    def event(self, ip, st, i, a, q, dem):
        if any(isinstance(x, P) and x.base is self.ctx and x.off.is_const() and x.off.c == 0 for x in a) and not q.startswith("std::"):
            self.say("undecided", "the context is passed to %s" % q)

    def effect(self, ip, st, i, a, q, dem, exc):
        """memory effect and facts of a library call"""
        fl = st.aux
        sret = bool(i.get("sret"))
        args = a[1:] if sret else a
        if q in ("eosio::from_json", "eosio::from_bin") and len(args) >= 2 and isinstance(args[0], P):
            o = obj(args[0]); what = "eosio::abi_def" if "abi_def&" in dem else "string" if "basic_string" in dem else "?"
            self.clobber(ip, st, args, i, only=o if what == "string" else None)
            if not exc:
                fl[("parsed", o)] = q.split("::")[1] + ":" + what
                if what == "eosio::abi_def": fl[("flag", "parse")] = q.split("::")[1]
            return None
        if q == "eosio::json_token_stream::get_end" and not exc: fl[("flag", "end")] = fl.get(("flag", "parse")) == "from_json"
        if q == "eosio::convert" and "eosio::abi_def const&, eosio::abi&" in dem:
            o = obj(args[1])
            if isinstance(args[1], P) and (args[1].base is self.ctx or args[1].base.op == "region" and args[1].base.args[1] == "node"): fl[("mut",)] = fl.get(("mut",), ()) + (("convert in place", None, None),)
            if not exc: fl[("conv", o)] = (bool(fl.get(("flag", "version"))), fl.get(("parsed", obj(args[0]))) or "", fl.get(("flag", "end")) is True)
            ip.havoc_reach(st, [args[1]], (i.id, ip.cur.loc[1])); return None
        if q.startswith("eosio::abi::abi") or q.startswith("eosio::abi::operator="):
            mv = "&&" in params_text(dem)
            if len(args) == 2 and isinstance(args[1], P):
                if not mv: self.say("copied", "an ABI is copied at %s: its types point into the original" % i.where())
                c = fl.get(("conv", obj(args[1])))
                fl[("conv", obj(args[0]))] = c
                if isinstance(args[0], P) and args[0].base.op == "region" and args[0].base.args[1] == "node": fl[("mut",)] = fl.get(("mut",), ()) + (("abi =", fl.get(("node", args[0].base), (0, None))[1], obj(args[1]), c, True),)
            ip.havoc_reach(st, [args[0]], (i.id, ip.cur.loc[1]), (self.ctx,)); return args[0] if i.ty == "ptr" else None
        if q == "eosio::abi::get_type":
            nd = fl.get(("node", args[0].base)) if isinstance(args[0], P) else None
            t = self.fresh("node", i.id, "type")
            src = fl.get(("src", self.parts(ip, st, args[1])[0].base)) if isinstance(args[1], P) and obj(args[1]) else None
            fl[("typeof", t)] = (nd, src)
            return None if exc else P(t, const(64, 0))
        if q in ("eosio::abi_type::json_to_bin", "eosio::abi_type::json_to_bin_reorderable", "eosio::abi_type::bin_to_json"):
            k = args[0].base if isinstance(args[0], P) else None
            if not exc:
                what = q.split("::")[-1]
                if sret:
                    b = self.newbuf(ip, st, i, a[0], self.unk_len(ip, i)); inp = None
                    if what == "bin_to_json" and isinstance(args[1], P): inp = ip.load(st, args[1], 8, "ptr", _I)
                    else: inp = next((x for x in args[1:] if isinstance(x, P) and not (x.base.op == "region" and x.base.args[1] in ("alloca",))), None)
                    fl[("src", b)] = ("conv", what, fl.get(("typeof", k)), inp.base if isinstance(inp, P) else None)
                if what == "bin_to_json" and isinstance(args[1], P):
                    # the stream moves forward, not past its end
                    pos = ip.load(st, args[1], 8, "ptr", _I); end = ip.load(st, ip.padd(args[1], const(64, 8)), 8, "ptr", _I)
                    t = term(64, 0, (1 << 62) - 1, "used", (self.name, i.id))
                    if isinstance(end, P) and isinstance(pos, P):
                        ip.add_fact(st, L({t: 1}, 0) - ip.uval(st, ip.sub(st, end, pos)))
                        np = ip.padd(pos, mkterm(t)); ip.store(st, args[1], np, 8, _I); fl[("left",)] = (np, end)
            return None
        if q == "eosio::name_to_string" and sret:
            if not exc:
                b = self.newbuf(ip, st, i, a[0], self.unk_len(ip, i)); fl[("src", b)] = ("name", ip.norm(st, args[0]) if isinstance(args[0], V) else None)
            return None
        if dem.rstrip().endswith("const"): args = args[1:]
        self.clobber(ip, st, a, i)
        return None

    def clobber(self, ip, st, a, i, only=None):
        for x in a:
            if not isinstance(x, P): continue
            if x.base is self.ctx:
                self.say("undecided", "part of the context is passed to %s" % (self.m.q(i.callee) if i.callee else "an indirect call")); continue
        if only: ip.havoc_range(st, only[0], only[1], 32, (i.id, ip.cur.loc[1])); a = [x for x in a if obj(x) != only] if a else a
        ip.havoc_reach(st, [x for x in a if not (isinstance(x, P) and (x.base is self.ctx or x.base.op == "region" and x.base.args[1] in ("node", "buf", "what")))], (i.id, ip.cur.loc[1]), (self.ctx,))

    def run(self, vals):
        models = {"__cxa_allocate_exception": m_alloc_exc, "std::runtime_error::runtime_error": m_runtime_error, "std::logic_error::logic_error": m_runtime_error, "__cxa_throw": m_throw, "__cxa_rethrow": m_rethrow,
                  "__cxa_begin_catch": m_begin, "std::terminate": m_term, "__clang_call_terminate": m_term}
        for q in ("__cxa_free_exception", "__cxa_end_catch", "std::allocator::~allocator", "std::allocator::allocator", "std::__new_allocator::~__new_allocator", "std::__new_allocator::__new_allocator", "std::_Function_base::~_Function_base", "operator delete"):
            models[q] = m_nop
        for q in ("bcmp", "memcmp", "strncmp"): models[q] = self.m_cmp
        for q in ("std::operator==", "std::operator!=", "std::operator+"): models[q] = self.m_streq
        models["strlen"] = lambda ip, n, st, ev, i, a: const(64, len(text_of(ip, st, a[0]))) if text_of(ip, st, a[0]) is not None else mkterm(term(64, 0, (1 << 62) - 1, "strlen", (a[0],)))

        def setup(ip, st):
            self.ctx = ip.argregs["ctx"]; self.ip = ip; self.start = st
        self.stores = {}

        def acc(kind, st, p, size, i):
            if isinstance(p, P) and p.base.op == "region" and p.base.args[1] == "mapend": self.say("lookup", "the entry of an unsuccessful lookup is used at %s" % i.where())
            if kind == "load" and isinstance(p, P) and p.base is self.ctx and p.off.is_const(): self.stores.setdefault("load", set()).add((sgn(p.off.c, 64), size.c if isinstance(size, V) and size.is_const() else size))
            if kind == "store" and isinstance(p, P) and p.base is self.ctx and p.off.is_const(): self.stores.setdefault("store", set()).add(sgn(p.off.c, 64))
        self.ip, outs = analyse(self.m, self.name, vals, setup, unroll=0, models=models, default_model=self.default, access=[acc], limit=400)
        return outs

    def args(self):
        out = []
        for k, a in enumerate(self.f.args):
            if k == 0: out.append(("ctx", "obj"))
            elif a["ty"] == "ptr": out.append(("arg%d" % k, "bytes"))
            else: out.append(mkterm(term(ibits(a["ty"]), 0, (1 << ibits(a["ty"])) - 1, "sym", ("arg", k))))
        return out


class _Ins: id = -1; fn = None
_I = _Ins()


def params_text(dem):
    """text between the parameter list's parentheses of a demangled function"""
    d = dem.rstrip()
    if d.endswith("const"): d = d[:-5].rstrip()
    if not d.endswith(")"): return ""
    n = 0
    for k in range(len(d) - 1, -1, -1):
        if d[k] == ")": n += 1
        elif d[k] == "(":
            n -= 1
            if n == 0: return d[k + 1:-1]
    return ""


def load():
    return module(UNITS, "capi2", roots=r"^abieos_", keep=KEEP)


def lastoff(res):
    """offset of the error text pointer in the context: what abieos_get_error returns"""
    A, outs = res["abieos_get_error"]
    offs = set()
    for o in outs:
        if o.kind == "ret" and isinstance(o.value, P):
            b = o.value.base
            if b.op == "ptr" and len(b.args) >= 3 and b.args[1] is A.ctx: offs.add(b.args[2])
    if len(offs) != 1: raise build.Broken("abieos_get_error does not return a pointer stored in the context (%s)" % [str(o.value) for o in outs])
    return offs.pop()


def current(A, st, p):
    """the object whose current buffer p designates, or None"""
    if not isinstance(p, P) or not p.off.is_const() or p.off.c: return None
    o = st.aux.get(("owner", p.base))
    if o is None: return None
    c = A.ip.reg(st, o[0]).cells.get(o[1])
    return o if c is not None and isinstance(c[1], P) and c[1].base is p.base else None


def persistent(A, o): return o[0] is A.ctx or o[0].op == "region" and o[0].args[1] == "node"


def src(st, b):
    return st.aux.get(("src", b))


def status(A, o):
    """True / False / None: the call reports success"""
    v = A.ip.norm(o.state, o.value) if isinstance(o.value, V) else None
    if v is None: return None
    if isinstance(v, P): return True if v.base.nonnull else None
    if v.is_const(): return v.c != 0
    lo, hi = A.ip.urange(o.state, v)
    return True if lo > 0 else None


_cache = {}


def results():
    """{function: (Api, outcomes)} for the functions of the interface that take a context"""
    if not _cache:
        m = load()
        for n in api(m):
            f = m.fns[n]
            if not f.args or f.args[0]["ty"] != "ptr": continue
            A = Api(m, n); _cache[n] = (A, A.run(A.args()))
    return _cache
