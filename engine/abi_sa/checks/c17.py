"""Each number and time formatter is inlined into a driver with the value unconstrained and interpreted abstractly (interval
domain, loops unrolled until the digits run out); every store into an array of the stack frame must stay inside that array, and
every range handed to a sink must lie inside one.  fpconv's digit emission is analysed for every digit count the digit generator
can deliver (1..17) and every decimal exponent of a double; the largest extent it writes must fit the buffer each caller passes.
For the fixed-size destination, pos <= end is assumed on entry of each operation and every store must be provably below end."""
from ..eng import *

TECHNIQUE = "abstract interpretation (intervals and linear facts over pointers)"
LEVEL = "proof"
NOTE = "The digit generator of fpconv (Grisu2) is taken to deliver 1 to 17 digits, its published bound; a decimal exponent lies in -400..400."
NUMS = ["bool", "char", "i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "i128", "u128"]


class Bounds:
    """access hook: stores through arrays of stack objects"""
    def __init__(self, mod, name): self.bad = {}; self.n = 0; self.f = fn(mod, name); self.unk = 0

    def array(self, p):
        """arrays of the stack object p points into"""
        if not isinstance(p, P) or p.base.op != "region" or p.base.args[1] != "alloca": return None
        i = self.f.insts.get(int(p.base.args[0][1:]))
        return i.get("arr") if i is not None else None

    def inside(self, ip, st, p, size):
        arrs = self.array(p)
        lo, hi = ip.srange(st, p.off)
        slo, shi = ip.urange(st, size)
        for o, n in arrs:
            if lo >= o and hi + shi <= o + n: return True
            if lo >= o and lo < o + n:
                if ip.prove_le(st, ip.sval(st, p.off) + ip.sval(st, size) - (o + n)): return True
        return False

    def hook(self, ip):
        def acc(kind, st, p, size, inst):
            if kind != "store": return
            arrs = self.array(p)
            if not arrs: return
            if p.off.is_const() and size.is_const() and not any(o <= sgn(p.off.c, 64) < o + n for o, n in arrs):
                # a store to another member
                if inst.op == "store" and inst.get("tbaa") and inst.get("tbaa")[1] != "omnipotent char": return
            self.n += 1
            if not self.inside(ip, st, p, size):
                lo, hi = ip.srange(st, p.off)
                self.bad[inst.where()] = "%s bytes at offset %s of an array of %s bytes" % (size if not size.is_const() else size.c, lo if lo == hi else "%d..%d" % (lo, hi), "/".join(str(n) for o, n in arrs))
        return acc


def formatted(rep, m, name, label, width, dtoa=None, unroll=48, vals_=None):
    f = fn(m, name)
    B = Bounds(m, name)
    def sink(ip, n, st, ev, i, a):
        """ranges given to the destination"""
        if len(a) >= 3 and isinstance(a[1], P) and B.array(a[1]) and isinstance(a[2], V):
            B.n += 1
            if not B.inside(ip, st, a[1], a[2]): B.bad[i.where()] = "a range that leaves its array is handed to the destination"
        return default_call(ip, n, st, ev, i, a)
    models = dict(MODELS)
    if dtoa:
        def dt(ip, n, st, ev, i, a):
            B.n += 1
            if not isinstance(a[1], P) or not B.array(a[1]) or not B.inside(ip, st, a[1], const(64, dtoa)):
                B.bad[i.where()] = "fpconv_dtoa writes up to %d bytes, more than its destination holds" % dtoa
            ip.havoc(st, a[1].base, ("dtoa", i.id)) if isinstance(a[1], P) and False else None
            return mkterm(term(32, 0, dtoa, "sym", ("dtoa", i.id)))
        models["fpconv_dtoa"] = dt
    if vals_ is None:
        vals_ = [mkterm(term(width, 0, (1 << width) - 1, "sym", ("value",))), "sink"]
    ip = Interp(m, f, models, unroll=unroll, default_model=sink, limit=200)
    ip.access.append(B.hook(ip))
    st = State(); ip.argregs = {}
    for k, a in enumerate(vals_):
        if isinstance(a, str):
            r = ip.region(a, kind="obj"); a = P(r, const(64, 0))
        st.env[k] = a
    try: outs = ip.run(st)
    except TooBig: raise build.Broken("the analysis of %s does not converge" % label)
    rep.ob("a formatter stays inside its scratch buffer", label, not B.bad, "; ".join("%s at %s" % (v, k) for k, v in list(B.bad.items())[:2]))
    rep.ob("a formatter is followed to its end", label, any(o.kind == "ret" for o in outs), "no path returns")
    return B.n


def numbers(rep, W):
    m = module(["drv:bufs"], "bufs")
    n = 0
    for k in NUMS: n += formatted(rep, m, "sa_num_" + k, k, ibits(fn(m, "sa_num_" + k).args[0]["ty"]), unroll=48 if "128" in k else 24)
    for k, w in (("f64", 64), ("f32", 32)): n += formatted(rep, m, "sa_num_" + k, "double" if w == 64 else "float", w, dtoa=W)
    n += formatted(rep, m, "sa_time", "time of day", 64)
    n += formatted(rep, m, "sa_num_key8", "single-byte key element", 64, vals_=["elem", "sink"])
    rep.note("array stores examined", n)
    if n < 60: raise build.Broken("only %d stores into scratch buffers were found" % n)


def dtoa(rep):
    """largest extent fpconv_dtoa writes, over every digit count and decimal exponent"""
    m = module(["c:fpconv.c"], "fpconv", roots="^fpconv_dtoa$", keep="^grisu2$")
    f = fn(m, "fpconv_dtoa")
    if not any(i.callee == "grisu2" for i in f.all()): raise build.Broken("fpconv_dtoa no longer calls grisu2")
    mx = [0, ""]; rmax = 0; bad = {}; n = 0
    for nd in range(1, 18):
        for lo, hi in [(-400, -40)] + [(k, k) for k in range(-39, 31)] + [(31, 400)]:
            B = Bounds(m, "fpconv_dtoa"); n += 1
            def g(ip, nn, st, ev, i, a):
                kv = const(32, lo & 0xffffffff) if lo == hi else ip.add(st, mkterm(term(32, 0, hi - lo, "sym", ("K",))), const(32, lo & 0xffffffff))
                if len(a) < 3 or not isinstance(a[2], P): raise build.Broken("grisu2 is called differently")
                if not B.array(a[1]) or not B.inside(ip, st, a[1], const(64, 17)): bad["the digit buffer holds fewer than 17 digits"] = i.where()
                ip.store(st, a[2], kv, 4, i)
                return const(32, nd)
            def acc(kind, st, p, size, inst):
                if not isinstance(p, P) or p.base.op != "region": return
                l, h = ip.srange(st, p.off); sl, sh = ip.urange(st, size)
                if p.base.args[0] == "dest" and kind == "store":
                    if sh == 0: return
                    if h + sh > mx[0]: mx[:] = [h + sh, "%s with %d digits and exponent %d..%d" % (inst.where(), nd, lo, hi)]
                    if l < 0: bad["a store before the destination"] = inst.where()
                elif B.array(p) and sh and not B.inside(ip, st, p, size): bad["%s outside the digit buffer" % kind] = inst.where()
            ip = Interp(m, f, dict(MODELS, grisu2=g), unroll=4, limit=64)
            ip.access.append(acc)
            st = State()
            st.env[0] = mkterm(term(64, 0, (1 << 64) - 1, "sym", ("d",)))
            st.env[1] = P(ip.region("dest", kind="obj"), const(64, 0))
            for o in ip.run(st):
                if o.kind == "ret": rmax = max(rmax, ip.srange(o.state, o.value)[1])
    rep.ob("the digits of a double stay inside the digit buffer", "fpconv_dtoa (%d cases)" % n, not bad, "; ".join("%s at %s" % kv for kv in bad.items()))
    rep.ob("the length fpconv_dtoa reports is at most what it wrote", "fpconv_dtoa", rmax <= mx[0], "reports up to %d bytes, writes up to %d" % (rmax, mx[0]))
    # its own contract, which its header states
    rep.ob("fpconv_dtoa writes at most 25 bytes", "fpconv_dtoa", mx[0] <= 25, "writes %d bytes at %s" % (mx[0], mx[1]))
    rep.note("fpconv cases", n); rep.note("largest extent written by fpconv_dtoa", mx[0])
    return max(mx[0], rmax)


def fixed(rep):
    m = module(["drv:bufs"], "bufs")
    n = 0
    for name, f in sorted(m.fns.items()):
        if not name.startswith("sa_fixed_") or name == "sa_fixed_new": continue
        p = term(64, 0, 1 << 40, "sym", ("p",)); e = term(64, 0, 1 << 40, "sym", ("e",))
        bad = {}; cnt = [0]; wrote = [0]
        ip = Interp(m, f, MODELS, limit=64)
        s = ip.region("stream", kind="obj"); b = ip.region("buf", kind="obj")
        def acc(kind, st, q, size, inst):
            if kind != "store" or not isinstance(q, P) or q.base is not b: return
            cnt[0] += 1
            if not ip.prove_le(st, ip.sval(st, q.off) + ip.uval(st, size) - L({e: 1}, 0)): bad["a store past the end of the destination"] = inst.where()
            if not ip.prove_le(st, L({p: 1}, 0) - ip.sval(st, q.off)): bad["a store before the write position"] = inst.where()
        ip.access.append(acc)
        st = State()
        ip.add_fact(st, L({p: 1, e: -1}, 0))
        st.mem[s] = Reg({0: (8, P(b, mkterm(p))), 8: (8, P(b, mkterm(e)))}, 0)
        st.env[0] = P(s, const(64, 0))
        want = None
        for k, a in enumerate(f.args[1:], 1):
            if a["ty"] == "ptr": st.env[k] = P(ip.region("arg%d" % k, kind="obj"), const(64, 0))
            else:
                t = term(ibits(a["ty"]), 0, (1 << ibits(a["ty"])) - 1 if a["ty"] != "i64" else 1 << 40, "sym", ("arg", k)); st.env[k] = mkterm(t)
                if a["ty"] == "i64": want = L({t: 1}, 0)
        size = {"c": 1, "a1": 1, "a7": 7, "r1": 1, "r4": 4, "r16": 16}.get(name[9:])
        want = want if want is not None and name == "sa_fixed_n" else L({}, size)
        outs = ip.run(st)
        for o in outs:
            if o.kind != "ret": continue
            c = ip.reg(o.state, s).cells
            q = c.get(0, (8, None))[1]; z = c.get(8, (8, None))[1]
            if not isinstance(q, P) or q.base is not b or not isinstance(z, P) or z.off.lin != mkterm(e).lin: bad["the stream's own pointers are lost"] = ""; continue
            if not (ip.prove_le(o.state, ip.sval(o.state, q.off) - L({e: 1}, 0))): bad["the position moves past the end"] = ""
            d = ip.sval(o.state, q.off) - L({p: 1}, 0) - want
            if not (ip.prove_le(o.state, d) and ip.prove_le(o.state, L({}, 0) - d)): bad["the position does not advance by the bytes written"] = ""
        rep.ob("a write stays inside the fixed-size destination", name[3:], not bad and cnt[0] and any(o.kind == "ret" for o in outs), "; ".join("%s %s" % kv for kv in bad.items()) or "nothing is written")
        rep.ob("a destination that is too small is an error", name[3:], any(o.kind == "throw" for o in outs), "no path reports an overrun")
    # construction
    f = fn(m, "sa_fixed_new")
    ip = Interp(m, f, MODELS)
    s = ip.region("stream", kind="obj"); b = ip.region("buf", kind="obj"); t = term(64, 0, 1 << 40, "sym", ("n",))
    st = State(); st.env[0] = P(s, const(64, 0)); st.env[1] = P(b, const(64, 0)); st.env[2] = mkterm(t)
    for o in ip.run(st):
        c = ip.reg(o.state, s).cells
        q, z = c.get(0, (8, None))[1], c.get(8, (8, None))[1]
        ok = isinstance(q, P) and isinstance(z, P) and q.base is b and z.base is b and q.off.is_const() and q.off.c == 0 and z.off.lin == mkterm(t).lin and z.off.c == 0
        rep.ob("a fixed destination spans exactly the size given", "fixed_buf_stream", ok, "start %s end %s" % (q, z))


def extent(ip, st, q):
    """size of the container whose storage q points into"""
    for b, r in st.mem.items():
        for o, c in r.cells.items():
            if not isinstance(o, int) or c[0] != 8 or not isinstance(c[1], P) or c[1].base is not q.base: continue
            if not c[1].off.is_const() or c[1].off.c: continue
            e = r.cells.get(o + 8)
            if e is None: continue
            if isinstance(e[1], P):
                if e[1].base is q.base: return ip.sval(st, e[1].off)
            elif isinstance(e[1], V): return ip.sval(st, e[1])
    return None


def twopass(rep):
    m = module(["drv:bufs"], "bufs2", roots="^sa_two_", keep=KEEP + r"|^std::vector::(resize|reserve|insert|push_back|_M_[abce-z].*|_M_default.*)$")
    for name in ("bin", "binr", "key", "json", "pretty"):
        f = fn(m, "sa_two_" + name)
        seen = []; bad = {}
        N = term(64, 0, 1 << 40, "sym", ("announced size",)); O = term(64, 0, 1 << 40, "sym", ("old size",))
        def vresize(ip, n, st, ev, i, a):
            if not isinstance(a[0], P): return None
            r = term(64, ADDR_LO, ADDR_HI, "region", ("vec%d" % i.id, "heap"), True)
            ip.store(st, a[0], P(r, const(64, 0)), 8, i); ip.store(st, ip.padd(a[0], const(64, 8)), P(r, a[1]), 8, i); ip.store(st, ip.padd(a[0], const(64, 16)), P(r, a[1]), 8, i)
            return None
        def dm(ip, n, st, ev, i, a):
            q = m.q(i.callee) if i.callee else ""
            if q in ("eosio::to_bin", "eosio::to_key", "eosio::to_json") and len(a) == 2 and isinstance(a[1], P):
                if "size_stream" in m.dem(i.callee): ip.store(st, a[1], mkterm(N), 8, i); return None
                pos = ip.norm(st, ip.load(st, a[1], 8, "ptr", i)); end = ip.norm(st, ip.load(st, ip.padd(a[1], const(64, 8)), 8, "ptr", i))
                seen.append(i)
                if not isinstance(pos, P) or not isinstance(end, P) or pos.base is not end.base: bad["the destination's limits are unknown"] = i.where(); return None
                x = extent(ip, st, pos)
                if x is None: bad["the destination is not the result's storage"] = i.where()
                else:
                    if not ip.prove_le(st, ip.sval(st, end.off) - x): bad["the destination's end lies past the storage"] = i.where()
                    if not ip.prove_le(st, L({}, 0) - ip.sval(st, pos.off)) or not ip.prove_le(st, ip.sval(st, pos.off) - ip.sval(st, end.off)): bad["the destination starts outside the storage"] = i.where()
                    start = L({O: 1}, 0) if name in ("bin", "key") else L({}, 0)
                    d = ip.sval(st, pos.off) - start
                    if not ip.prove_le(st, d) or not ip.prove_le(st, L({}, 0) - d): bad["the second pass does not start where the earlier content ends"] = i.where()
                # written anywhere between the limits
                w = term(64, 0, 1 << 40, "sym", ("written",))
                np = P(pos.base, mkterm(w))
                ip.add_fact(st, ip.sval(st, np.off) - ip.sval(st, end.off)); ip.add_fact(st, ip.sval(st, pos.off) - ip.sval(st, np.off))
                st.aux["w"] = w; st.aux["e"] = end
                ip.store(st, a[1], np, 8, i)
                return None
            return default_call(ip, n, st, ev, i, a)
        ip = Interp(m, f, dict(MODELS, **{"std::vector::resize": vresize}), default_model=dm, limit=64)
        st = State(); ip.argregs = {}
        v = ip.region("value", kind="obj"); o = ip.region("out", kind="obj"); h = ip.region("old", kind="heap")
        st.mem[o] = Reg({0: (8, P(h, const(64, 0))), 8: (8, P(h, mkterm(O))), 16: (8, P(h, mkterm(O)))}, 0)
        st.env[0] = P(v, const(64, 0)); st.env[1] = P(o, const(64, 0))
        outs = ip.run(st)
        short = ""
        for x in outs:
            if x.kind != "ret": continue
            w, e = x.state.aux.get("w"), x.state.aux.get("e")
            if w is None: short = "a result is returned that was never written"; continue
            if not ip.prove_le(x.state, ip.sval(x.state, e.off) - L({w: 1}, 0)): short = "a result is returned although the second pass stopped short of the announced size"
        rep.ob("the second pass writes into storage of the announced size", name, bool(seen) and not bad, "; ".join("%s at %s" % kv for kv in bad.items()) or "the second pass is missing")
        rep.ob("a second pass of another length is an error", name, not short, short)


def run(rep, tier):
    twopass(rep)
    W = dtoa(rep)
    numbers(rep, W)
    fixed(rep)
    rep.need("a formatter stays inside its scratch buffer", 15); rep.need("a write stays inside the fixed-size destination", 7)
