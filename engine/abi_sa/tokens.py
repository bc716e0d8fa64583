"""json_token_stream with the parser left undefined: memory layout, and a model of one parser step."""
from .eng import *

KINDS = ("unread", "null", "bool", "string", "start_object", "key", "end_object", "start_array", "end_array")


def tokmod(): return module(["drv:tokens"], "tokens")


class Layout:
    def __init__(self, mod):
        def c(n):
            ip, outs = analyse(mod, n, [])
            if len(outs) != 1 or not outs[0].value.is_const(): raise build.Broken("%s is not a constant" % n)
            return outs[0].value.c
        for k in ("type", "key", "bool", "string", "err", "state", "src"): setattr(self, k, c("sa_o_" + k))
        self.kind = {k: c("sa_k_" + k) for k in KINDS}
        self.name = {v: k for k, v in self.kind.items()}


def tokbyte(tag): return term(8, 0, 255, "byte", ("tok", tag))


def tokbool(st, tag):
    b = term(8, 0, 255, "byte", ("tb", tag)); st.feas[b] = mask([0, 1])
    return b


def parse_model(lay, err=None, complete_ok=True):
    """IterativeParseNext(reader, ss, handler): reports at most one token and returns true, or fails with an error code"""
    def m(ip, n, st, ev, i, a):
        h = a[2]
        if not isinstance(h, P) or not h.off.is_const(): return default_call(ip, n, st, ev, i, a)
        c = st.aux.get(("parses",), 0)
        k = ip.parse_n = getattr(ip, "parse_n", 0)
        tag = (i.id, ip.cur.loc[1])
        if c < 3: st.aux[("parses",)] = c + 1
        out = []
        base, o = h.base, sgn(h.off.c, 64)
        # failure
        s0 = st.copy()
        code = const(32, err) if err is not None else ip.zext(s0, mkterm(term(8, 0, 255, "byte", ("code", tag))), 32)
        ip.store(s0, P(base, const(64, o + lay.err)), code, 4, i)
        out.append((s0, const(1, 0), ev))
        # success
        s1 = st
        b = tokbyte(tag)
        s1.feas[b] = mask(range(len(KINDS)))
        s1.aux[("last",)] = b
        if c == 0 and ("first",) not in st.aux: s1.aux[("first",)] = b
        ip.store(s1, P(base, const(64, o + lay.type)), ip.zext(s1, mkterm(b), 32), 4, i)
        for f, w in ((lay.key, 8), (lay.key + 8, 8), (lay.string, 8), (lay.string + 8, 8)):
            ip.store(s1, P(base, const(64, o + f)), mkterm(term(64, 0, (1 << 64) - 1, "sym", ("tv", tag, f))), 8, i)
        ip.store(s1, P(base, const(64, o + lay.bool)), mkterm(tokbool(s1, tag)), 1, i)
        out.append((s1, const(1, 1), ev))
        return out
    return {"rapidjson::Reader::IterativeParseNext": m}
