"""Variable-length integers: the bytes written for every magnitude of a value, and the value read from every number of bytes."""
from .eng import *
from .models import MODELS

KEEPV = r"^std::vector::(insert|push_back|emplace_back|resize|reserve|append|_M_range_insert|_M_insert_rval|_M_realloc_\w+|_M_default_append)$|~"


def vmod(): return module(["drv:varu"], "varu", keep=KEEPV)


class _I: id = -1; ty = None; fn = None


_I = _I()


def bit(j, key="val"): return ("f", byte_at(key, j // 8), PROJ[j % 8])


def neg(b): return 1 - b if b in (0, 1) else ("f", b[1], FULL & ~b[2])


def xorb(b, s): return neg(b) if s else b


def written(ip, st, i, a, out):
    """model of the output stream's write: single bytes are logged"""
    if len(a) == 2: v = ip.norm(st, a[1]); ip_log(st, v); return
    n = ip.norm(st, a[2])
    if not n.is_const() or n.c > 64: raise build.Broken("a write of unknown length")
    for q in range(n.c): ip_log(st, ip.norm(st, ip.load(st, ip.padd(a[1], const(64, q)), 1, "i8", _I)))


def ip_log(st, v): st.aux[("out",)] = st.aux.get(("out",), ()) + (v.key,); st.aux[("outv",)] = st.aux.get(("outv",), ()) + (v,)


def write_models():
    M = dict(MODELS)
    def w(ip, n, st, ev, i, a): written(ip, st, i, a, None); return None
    M["eosio::probe_out::write"] = w
    def push(ip, n, st, ev, i, a): ip_log(st, ip.norm(st, ip.load(st, a[1], 1, "i8", _I))); return None
    M["std::vector::push_back"] = M["std::vector::emplace_back"] = push
    return M


def read_models(bytes_):
    """the k-th byte read is bytes_[k]; past the end the state is dropped"""
    M = dict(MODELS)
    def read(ip, n, st, ev, i, a):
        k = st.aux.get(("k",), 0); ln = ip.norm(st, a[2])
        if not ln.is_const(): raise build.Broken("a read of unknown length")
        for q in range(ln.c):
            if k >= len(bytes_): return []
            ip.store(st, ip.padd(a[1], const(64, q)), bytes_[k], 1, _I); k += 1
        st.aux[("k",)] = k; return None
    M["eosio::probe_in::read"] = read
    return M


def groups(bits):
    """the bytes of a value given by its bits, lowest group first; bits above the top one are 0"""
    n = len(bits)
    while n > 1 and bits[n - 1] == 0: n -= 1
    out = []
    k = 0
    while True:
        g = list(bits[k:k + 7]) + [0] * (7 - len(bits[k:k + 7]))
        k += 7
        if k >= n: out.append(tuple(g) + (0,)); break
        out.append(tuple(g) + (1,))
    return out


def magnitudes(w):
    """values of w bits, one per position of the top bit: (description, bits)"""
    yield "0", [0] * w
    for p in range(w): yield "%d bits" % (p + 1), [bit(j) for j in range(p)] + [1] + [0] * (w - p - 1)


def run(m, name, args, setup=None, models=MODELS):
    return analyse(m, name, args, setup, unroll=24, models=models, limit=400)


def writers(rep, rule):
    """varuint32_to_bin emits the groups of seven bits of its value, and no others"""
    m = vmod()
    def judge(name, sub, args, bits, setup=None, throws=False):
        try: ip, outs = run(m, name, args, setup, write_models())
        except (build.Broken, TooBig) as e: rep.unknown(rule, sub, str(e)); return
        want = [mkbits(g) for g in groups(bits)] if bits is not None else None
        bad = None
        for o in outs:
            if throws:
                if o.kind != "throw": bad = "a value of more than 32 bits is written"
                continue
            if o.kind != "ret": bad = "the value is refused" if o.kind == "throw" else o.kind; continue
            got = o.state.aux.get(("outv",), ())
            if tuple(v.key for v in got) != tuple(v.key for v in want):
                if any(v.bits is None for v in got): rep.unknown(rule, sub, "a byte is not a known function of the value"); return
                if len(got) != len(want): bad = "%d bytes are written instead of %d" % (len(got), len(want))
                else: bad = "byte %d is not the %d. group of seven bits with its continuation flag" % tuple([next(k + 1 for k in range(len(got)) if got[k].key != want[k].key)] * 2)
        rep.ob(rule, sub, bad is None and bool(outs), bad or "no outcome", key="%s:%s" % (rule, name))
    for d, bits in magnitudes(32):
        judge("sa_vu_write", "varuint32_to_bin of a value of %s" % d, [mkbits(bits + [0] * 32), ("s", "obj")], bits)
        judge("sa_vu_push", "push_varuint32 of a value of %s" % d, [mkbits(bits), ("s", "obj")], bits)
        def put(ip, st, b=bits): ip.store(st, P(ip.argregs["v"], const(64, 0)), mkbits(b), 4, _I)
        judge("sa_vut_write", "to_bin of a varuint32 of %s" % d, ["v", ("s", "obj")], bits, put)
    for d, bits in magnitudes(31):
        for s in (0, 1):
            b = [xorb(x, s) for x in bits] + [s]
            z = [s] + list(bits)
            def put(ip, st, b=b): ip.store(st, P(ip.argregs["v"], const(64, 0)), mkbits(b), 4, _I)
            judge("sa_vit_write", "to_bin of a %s varint32 of %s" % (("non-negative", "negative")[s], d), ["v", ("s", "obj")], z, put)
    judge("sa_vu_write", "varuint32_to_bin of a value of more than 32 bits", [mkterm(term(64, 1 << 32, (1 << 64) - 1, "sym", ("big",))), ("s", "obj")], None, throws=True)


def readers(rep, rule, limit_rule):
    """the value read is the sum of the groups; more groups than the width holds are refused"""
    m = vmod()
    for name, w, what in (("sa_vu32_read", 32, "varuint32_from_bin"), ("sa_vu64_read", 64, "varuint64_from_bin"), ("sa_vut_read", 32, "from_bin of a varuint32"), ("sa_vi32_read", 32, "varint32_from_bin"), ("sa_vit_read", 32, "from_bin of a varint32")):
        mx = (w + 6) // 7
        zig = "vi" in name
        for n in range(1, mx + 2):
            for s in (0, 1) if zig else (None,):
                bytes_ = []
                for k in range(n):
                    b = [bit(8 * k + j) for j in range(7)] + [int(k < n - 1)]
                    if k == 0 and s is not None: b[0] = s
                    bytes_.append(mkbits(b))
                sub = "%s from %d byte%s" % (what, n, "s" * (n > 1)) + ("" if s is None else ", %s" % ("even", "odd")[s])
                try: ip, outs = run(m, name, ["v", ("s", "obj")], None, read_models(bytes_))
                except (build.Broken, TooBig) as e: rep.unknown(rule, sub, str(e)); continue
                if not outs: rep.unknown(rule, sub, "no outcome"); continue
                for o in outs:
                    if n > mx:
                        rep.ob(limit_rule, sub, o.kind == "throw", "a %d-bit integer of %d bytes is accepted" % (w, n), key="%s:%s" % (limit_rule, name))
                        continue
                    if o.kind != "ret": rep.ob(limit_rule, sub, False, "an encoding of %d bytes is refused" % n, key="%s:%s" % (limit_rule, name)); continue
                    if o.state.aux.get(("k",), 0) != n: rep.ob(rule, sub, False, "%d of %d bytes are consumed" % (o.state.aux.get(("k",), 0), n), key="%s:%s" % (rule, name)); continue
                    u = []
                    for k in range(n): u += [bit(8 * k + j) if not (k == 0 and j == 0 and s is not None) else s for j in range(7)]
                    u = (u + [0] * w)[:w]
                    if s is not None: u = [xorb(x, s) for x in u[1:]] + [s]
                    v = ip.norm(o.state, ip.load(o.state, P(ip.argregs["v"], const(64, 0)), w // 8, "i%d" % w, _I))
                    want = mkbits(u)
                    if v.key == want.key: rep.ob(rule, sub, True)
                    elif v.bits is None or None in v.bits: rep.unknown(rule, sub, "the value is not a known function of the bytes")
                    else: rep.ob(rule, sub, False, "bit %d of the value is not the bit the bytes hold" % next((k for k in range(w) if v.bits[k] != want.bits[k]), 0), key="%s:%s" % (rule, name))


def bools(rep, rule):
    m = vmod()
    for x in range(256):
        try: ip, outs = run(m, "sa_bool_read", ["v", ("s", "obj")], None, read_models([const(8, x)]))
        except (build.Broken, TooBig) as e: rep.unknown(rule, "bool from byte %d" % x, str(e)); continue
        for o in outs:
            if o.kind == "throw": rep.ob(rule, "bool from byte %d" % x, x > 1, "byte %d is refused" % x); continue
            v = ip.norm(o.state, ip.load(o.state, P(ip.argregs["v"], const(64, 0)), 1, "i8", _I))
            if not v.is_const(): rep.unknown(rule, "bool from byte %d" % x, "the value is not known"); continue
            rep.ob(rule, "bool from byte %d" % x, v.c == int(x != 0), "byte %d is stored as %d" % (x, v.c), key="%s:bool" % rule)


def sinks(rep, rule):
    """every write of each sink accounts for the bytes of its argument"""
    m = vmod()
    S = mkterm(term(64, 0, 1 << 40, "sym", ("size",)))
    for n in sorted(m.fns):
        if not n.startswith("sa_sink_"): continue
        _, _, kind, op = n.split("_")
        ln = 1 if op == "c" else int(op[1:])
        sub = "%s::write of %d byte%s (%s)" % ({"size": "size_stream", "fixed": "fixed_buf_stream", "vec": "vector_stream"}[kind], ln, "s" * (ln != 1), {"c": "a character", "n": "a range", "r": "a value", "a": "an array"}[op[0]])
        src = term(64, 0, 255, "sym", ("c",))
        args = ["s", mkbits([bit(j) for j in range(8)]) if op == "c" else ("p", "bytes")]
        if op == "a7": pass
        def setup(ip, st):
            r = ip.argregs["s"]
            if kind == "size": st.mem[r] = Reg({0: (8, S)}, 0)
            if kind == "fixed":
                b = ip.region("dst", kind="obj")
                st.mem[r] = Reg({0: (8, P(b, const(64, 16))), 8: (8, P(b, const(64, 500)))}, 0)
            if kind == "vec":
                d = ip.region("vecobj", kind="obj"); b = ip.region("dst", kind="obj"); st.mem[r] = Reg({0: (8, P(d, const(64, 0)))}, 0)
                st.mem[d] = Reg({0: (8, P(b, const(64, 0))), 8: (8, P(b, const(64, 16))), 16: (8, P(b, const(64, 500)))}, 0)
        M = write_models()
        def append(ip, st, v, xs):
            e = ip.load(st, ip.padd(v, const(64, 8)), 8, "ptr", _I)
            if not isinstance(e, P) or e.base.args[0] != "dst" or not e.off.is_const(): raise build.Broken("the end of the vector is not known")
            for q, x in enumerate(xs): ip.store(st, ip.padd(e, const(64, q)), x, 1, _I)
            ip.store(st, ip.padd(v, const(64, 8)), ip.padd(e, const(64, len(xs))), 8, _I); return e
        def insert(ip, nn, st, ev, i, a):
            if i.get("sret"): a = a[1:]
            if len(a) == 3 and isinstance(a[2], P):
                dst, pos, f = a; l = ip.padd(f, const(64, 1))
            elif len(a) < 4: raise build.Broken("an insertion of another kind")
            else: dst, pos, f, l = a[:4]
            e = ip.load(st, ip.padd(dst, const(64, 8)), 8, "ptr", _I)
            if not isinstance(f, P) or not isinstance(l, P) or f.base is not l.base: raise build.Broken("an insertion of an unknown range")
            k = ip.sub(st, l.off, f.off)
            if not k.is_const(): raise build.Broken("an insertion of an unknown range")
            if pos.key != e.key: st.aux[("bad",)] = "bytes are inserted somewhere else than at the end"; return None
            return append(ip, st, dst, [ip.norm(st, ip.load(st, ip.padd(f, const(64, q)), 1, "i8", _I)) for q in range(k.c)])
        def push(ip, nn, st, ev, i, a): append(ip, st, a[0], [ip.norm(st, ip.load(st, a[1], 1, "i8", _I))]); return None
        def more(ip, nn, st, ev, i, a):
            k = ip.norm(st, a[1])
            if not k.is_const(): raise build.Broken("the vector grows by an unknown number")
            append(ip, st, a[0], [const(8, 0)] * k.c); return None
        def resize(ip, nn, st, ev, i, a):
            b = ip.load(st, a[0], 8, "ptr", _I); e = ip.load(st, ip.padd(a[0], const(64, 8)), 8, "ptr", _I)
            k = ip.norm(st, ip.sub(st, a[1], ip.sub(st, e.off, b.off)))
            if not k.is_const() or sgn(k.c, 64) < 0: raise build.Broken("the vector is resized to an unknown size")
            append(ip, st, a[0], [const(8, 0)] * k.c); return None
        if kind == "vec":
            for q in ("insert", "_M_range_insert", "_M_insert_rval"): M["std::vector::" + q] = insert
            for q in ("push_back", "emplace_back"): M["std::vector::" + q] = push
            M["std::vector::_M_default_append"] = more; M["std::vector::resize"] = resize
            M["std::vector::reserve"] = lambda ip, nn, st, ev, i, a: None
        try: ip, outs = run(m, n, args, setup, M)
        except (build.Broken, TooBig) as e: rep.unknown(rule, sub, str(e)); continue
        for o in outs:
            st = o.state
            if o.kind != "ret": rep.ob(rule, sub, False, "the write fails although there is room", key="%s:%s" % (rule, n)); continue
            want = [mkbits([bit(j) for j in range(8)])] if op == "c" else [ip.norm(st, ip.load(st, P(ip.argregs["p"], const(64, q)), 1, "i8", _I)) for q in range(ln)]
            bad = st.aux.get(("bad",))
            if kind == "size":
                v = ip.sub(st, ip.load(st, P(ip.argregs["s"], const(64, 0)), 8, "i64", _I), S)
                if not v.is_const(): rep.unknown(rule, sub, "the new count is not known"); continue
                if v.c != ln: bad = "%d bytes are counted" % v.c
            elif kind == "fixed":
                p = ip.load(st, P(ip.argregs["s"], const(64, 0)), 8, "ptr", _I)
                if not isinstance(p, P) or not p.off.is_const(): rep.unknown(rule, sub, "the new position is not known"); continue
                if p.base.args[0] != "dst" or p.off.c != 16 + ln: bad = "the position advances by %d" % (p.off.c - 16)
                for q in range(ln):
                    v = ip.norm(st, ip.load(st, P(p.base, const(64, 16 + q)), 1, "i8", _I))
                    if v.key != want[q].key and not bad: bad = "byte %d is not the byte given" % q
            else:
                d = next(b for b in st.mem if b.op == "region" and b.args[0] == "vecobj")
                e = ip.load(st, P(d, const(64, 8)), 8, "ptr", _I)
                if not isinstance(e, P) or not e.off.is_const(): rep.unknown(rule, sub, "the new end is not known"); continue
                if e.base.args[0] != "dst" or e.off.c != 16 + ln: bad = bad or "%d bytes are appended" % (e.off.c - 16)
                for q in range(ln):
                    v = ip.norm(st, ip.load(st, P(e.base, const(64, 16 + q)), 1, "i8", _I))
                    if v.key != want[q].key: bad = bad or "other bytes than those given are appended"
            rep.ob(rule, sub, bad is None, "%s: %s" % (sub, bad), key="%s:%s" % (rule, n))
