"""The JSON writers, one level at a time: the binary reader of a type leaves every shape of object behind; each to_json of the type is
interpreted on it, with the writers of its parts opaque.  What is written -- punctuation, names and the values of parts -- is a sequence of
tokens."""
from .codec import *
from .codec import _I
from . import codec

KEEPJ = codec.KEEPC.replace(r"(from_bin|to_bin)$|", r"(from_bin|to_bin|to_json)$|^eosio::(to_json_hex|increase_indent|decrease_indent|write_newline)$|^eosio::pretty_stream::\w+$|_to_str(ing)?$|^std::vector::vector$|", 1)


def jsonmod(): return module(["drv:json"], "json", roots=r"^eosio::(ship_protocol::)?to_json$|^sa_(text|hex|json)", keep=KEEPJ, types=True)


class Json(Coder):
    def token(self, st, e, i):
        t = st.aux.get(("out",), ()) + (e,)
        if len(t) > 400: raise Undecided("more tokens than the bound")
        st.aux[("out",)] = t

    def which(self, ip, st, v, t):
        """the item a written value is; None when it is not known"""
        try:
            if isinstance(v, P):
                if t == "std::string":
                    d = str_parts(ip, st, v)[0]
                    b = str(d.base.args[0]) if isinstance(d, P) and d.base.op == "region" else ""
                    return int(b[4:]) if b.startswith("str:") else None
                n = INTS.get(t) or sizeof(t) or 8; w = 8 if n >= 8 else n if n in (1, 2, 4) else 1
                v = ip.norm(st, ip.load(st, v, w, "i%d" % (8 * w), _I))
            else: v = ip.norm(st, v)
            ks = {x.args[1] for x, c in v.lin if x.op == "sym" and x.args[0] == "item"} if getattr(v, "lin", None) else set()
            if not ks and getattr(v, "bits", None): ks = {b[1].args[1] for b in v.bits if b not in (0, 1) and b is not None and b[0] == "x" and b[1].op == "sym" and b[1].args[0] == "item"}
            return ks.pop() if len(ks) == 1 else None
        except (Undecided, AttributeError, KeyError, IndexError, ValueError): return None

    def json_models(self):
        M = dict(MODELS); self.containers(M)
        def val(ip, n, st, ev, i, a):
            ps = split_params(self.m.dem(i.callee)); t = short(ps[0]); x = None; k = None
            if t == SV:
                if not isinstance(a[0], P):
                    c = ip.norm(st, a[0]); s = text_of(ip, st, a[1]) if isinstance(a[1], P) else None
                    x = s[:c.c] if s is not None and c.is_const() else None
                e = ("string", x, None)
            elif t in ("char*", "char const*", "char"  "*"):
                x = text_of(ip, st, a[0]) if isinstance(a[0], P) else None
                e = ("string", x, None)
            elif t == "std::string": e = ("string", None, self.which(ip, st, a[0], t))
            else: e = ("value", t, self.which(ip, st, a[0], t))
            self.token(st, e, i); return None
        def hexa(ip, n, st, ev, i, a): self.token(st, ("string", None, None), i); return None
        def blank(ip, n, st, ev, i, a): return None
        def write(ip, n, st, ev, i, a):
            if len(a) == 2 and not isinstance(a[1], P):
                c = ip.norm(st, a[1])
                self.token(st, ("lit", chr(c.c & 255)) if c.is_const() else ("byte", c), i); return None
            p, ln = a[1], ip.norm(st, a[2]) if len(a) > 2 else None
            if ln is None:
                mm = re.search(r"char const \(&\) ?\[(\d+)\]", self.m.dem(i.callee))
                ln = const(64, int(mm.group(1))) if mm else None
            fp = st.aux.get(("fp",))
            if fp and ln is not None and isinstance(p, P) and p.base == fp[0] and ip.norm(st, p.off) == ip.norm(st, fp[1]) and ln.lin and len(ln.lin) == 1 and ln.lin[0][1] == 1 and ln.c == 0 and ln.lin[0][0].args[:1] == ("fplen",):
                self.token(st, ("value", "fp", None), i); return None
            if ln is None or not ln.is_const() or ln.c > 64 or not isinstance(p, P): raise Undecided("a write of unknown length at %s" % i.where())
            for q in range(ln.c):
                c = ip.norm(st, ip.load(st, ip.padd(p, const(64, q)), 1, "i8", _I))
                self.token(st, ("lit", chr(c.c)) if c.is_const() else ("byte", c), i)
            return None
        def text(ip, n, st, ev, i, a):
            if not i.get("sret"): raise Undecided("a text at %s" % i.where())
            c = st.aux.get(("heap",), 0); st.aux[("heap",)] = c + 1
            set_str(ip, st, a[0], term(64, ADDR_LO, ADDR_HI, "region", ("text:%d" % c, "span"), True), mkterm(term(64, 0, 1 << 20, "sym", ("textlen", c))))
            return None
        def vec(ip, n, st, ev, i, a):
            ps = split_params(self.m.dem(i.callee)); k = None
            if len(a) > 1 and isinstance(a[1], P) and short(ps[0]).startswith("std::vector"):
                for q in (0, 8, 16): ip.store(st, ip.padd(a[0], const(64, q)), ip.load(st, ip.padd(a[1], const(64, q)), 8, "i64", _I), 8, _I)
                return None
            if len(a) > 1: raise Undecided("a vector built at %s" % i.where())
            for q in (0, 8, 16): ip.store(st, ip.padd(a[0], const(64, q)), const(64, 0), 8, _I)
            return None
        M["std::vector::vector"] = vec
        M["eosio::to_json"] = self.item = val; M["eosio::to_json_hex"] = hexa
        for q in ("increase_indent", "decrease_indent", "write_newline"): M["eosio::" + q] = blank
        for s in SINKS + ("pretty_stream",): M["eosio::%s::write" % s] = write
        for n in self.m.fns:
            q = self.m.q(n)
            if re.search(r"_to_str(ing)?$", q): M[q] = text
        return M

    def default(self, ip, n, st, ev, i, a):
        q = self.m.q(i.callee) if i.callee else None
        if q and re.match(r"eosio::ship_protocol::to_json$", q): return self.item(ip, n, st, ev, i, a)
        if q and re.search(r"_to_str(ing)?$", q): return self.models_["x_to_string"](ip, n, st, ev, i, a)
        return super().default(ip, n, st, ev, i, a)


def writers():
    """{type: [(sink, function)]}"""
    m = jsonmod(); W = {}
    for n in sorted(m.fns):
        if not re.match(r"eosio::(ship_protocol::)?to_json$", m.q(n)): continue
        ps = split_params(m.dem(n))
        if len(ps) >= 2: W.setdefault(short(ps[0]), []).append((short(ps[-1]).replace("eosio::", ""), n))
    return W


def grammar(toks):
    """None when the tokens are one JSON value, else what is wrong; numbers are not written as punctuation here"""
    seq = []
    for t in toks:
        if t[0] == "lit":
            if t[1] in " \n\t\r": continue
            seq.append(t[1])
        elif t[0] == "string": seq.append("S")
        elif t[0] == "value": seq.append("V")
        else: return "an unknown byte is written outside a string"
    s = "".join(seq); pos = [0]
    class Stop(Exception): pass
    def fail(x): raise Stop("%s in %s" % (x, s if len(s) < 120 else s[:120] + "..."))
    def value(d):
        if d > 60: fail("deep nesting")
        c = s[pos[0]:pos[0] + 1]
        if c in ("S", "V"): pos[0] += 1; return
        for w in ("null", "true", "false"):
            if s.startswith(w, pos[0]): pos[0] += len(w); return
        if c == '"':
            k = pos[0] + 1
            while k < len(s) and s[k] != '"': k += 2 if s[k] == "\\" else 1
            if k >= len(s): fail("an unfinished string")
            if any(x in "SV" for x in s[pos[0]:k]) and any(t[0] != "lit" for t in toks): pass
            pos[0] = k + 1; return
        if c in ("{", "["):
            close = "}" if c == "{" else "]"; pos[0] += 1
            if s[pos[0]:pos[0] + 1] == close: pos[0] += 1; return
            while True:
                if c == "{":
                    if s[pos[0]:pos[0] + 1] != "S": fail("a member without a name")
                    pos[0] += 1
                    if s[pos[0]:pos[0] + 1] != ":": fail("a name without a colon")
                    pos[0] += 1
                value(d + 1)
                x = s[pos[0]:pos[0] + 1]; pos[0] += 1
                if x == close: return
                if x != ",": fail("'%s' after a member" % x if x else "an unfinished %s" % ("object" if c == "{" else "array"))
        fail("'%s' where a value is expected" % c if c else "nothing where a value is expected")
    try:
        value(0)
        if pos[0] != len(s): fail("text after the value")
    except Stop as e: return str(e)
    return None


def judge(t, reader, ws):
    """[(ok, message)] for the JSON writers of t"""
    res = []
    C = Coder(codecmod()); C.counts = (0, 1, 2, 3); C.t = t
    ip, outs = analyse(C.m, reader, ["obj", ("stream", "obj")], codec.start(C, t), unroll=80, models=C.reader_models(), default_model=C.default, limit=400)
    rets = [o for o in outs if o.kind == "ret"]
    if not rets: raise Undecided("the reader never returns")
    byval = not sizeof(t) or t in INTS
    for o in rets:
        evs = o.state.aux.get(("ev",), ())
        for sink, w in ws:
            W = Json(jsonmod()); W.t = t
            def setup(ip2, st2):
                W.ip = ip2
                for b, r in o.state.mem.items():
                    if b.op == "region" and b.args[1] != "alloca": st2.mem[b] = r
                for k, v in o.state.aux.items():
                    if k[0] in ("raw", "seq", "heap", "text"): st2.aux[k] = v
            M = W.models_ = W.json_models()
            M["x_to_string"] = M.get("eosio::name_to_string") or next(v for k, v in M.items() if k.endswith("_to_string"))
            ip2, outs2 = analyse(W.m, w, ["obj", ("sink", "obj")], setup, unroll=80, models=M, default_model=W.default, limit=400)
            good = [x for x in outs2 if x.kind == "ret"]
            if not good: res.append((None, "%s: nothing is written" % sink)); continue
            for x in good: res.append((sink, evs, x.state.aux.get(("out",), ())))
    return res
