"""The text conversions of public keys, private keys and signatures are inlined into drivers and analysed by abstract interpretation with
the base-58 conversion and the digest as opaque operations that record what they were given.  Reading: the texts are partitioned by
their prefix; every accepting path has to have decoded the text after the prefix, computed the digest over exactly the payload followed
by the suffix the prefix stands for, established that the four bytes after the payload are the first four of that digest, consumed the
payload to its last byte, and produced the alternative and the bytes of the payload.  Writing: for every alternative the text is the
prefix that reading maps back to it, followed by the base-58 form of the payload and the first four bytes of the digest over payload
and suffix."""
from ..eng import *
from ..texts import *
import re
from ..lib import lib, refs
from ..models import S_, _I, set_str, new_buf, str_parts, text_of

TECHNIQUE = "abstract interpretation over texts partitioned by prefix, with provenance of digest, checksum and payload"
LEVEL = "bounded"
NOTE = "the base-58 digit arithmetic and the digest function are opaque here (N03, N04); text and payload lengths are symbolic"
# (prefix, suffix, discriminant) of the published text formats
FORMATS = {
    "public_key": [("EOS", "", 0), ("PUB_K1_", "K1", 0), ("PUB_R1_", "R1", 1), ("PUB_WA_", "WA", 2)],
    "private_key": [("PVT_K1_", "K1", 0), ("PVT_R1_", "R1", 1)],
    "signature": [("SIG_K1_", "K1", 0), ("SIG_R1_", "R1", 1), ("SIG_WA_", "WA", 2)],
}
ECC = {"public_key": 33, "private_key": 32, "signature": 65}
ALPHA = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"


def helpers():
    """the base-58 conversions: the functions that use the alphabet or its inverse.  {qualified name: writes text?}"""
    m = lib(); chars = set(); table = set()
    for g, v in m.globals.items():
        try: h = bytes.fromhex(v.get("hex") or "")
        except ValueError: continue
        if len(h) in (58, 59) and sum(a == b for a, b in zip(h, ALPHA.encode())) > 50: chars.add(g)
        if len(h) in (128, 256) and sum(h[ord(c)] == k for k, c in enumerate(ALPHA)) > 50: table.add(g)
    out = {}
    for nm, f in m.fns.items():
        used = {g for i in f.insts.values() for o in i.ops for g in refs(o)}
        if used & (chars | table): out[m.q(nm)] = bool(used & chars)
    if not out: raise build.Broken("the base-58 conversions are not found")
    return out



def reg(ip, tag, i): return term(64, ADDR_LO, ADDR_HI, "region", ("%s.%d" % (tag, i.id), "heap", ip.cur.loc[1]), True)


def container(ip, st, i, v, q):
    """(pointer, length) of the character container an argument refers to"""
    if "basic_string<" in q:
        return str_parts(ip, st, v)
    if "vector" in q:
        b = ip.load(st, v, 8, "ptr", _I); e = ip.load(st, ip.padd(v, const(64, 8)), 8, "ptr", _I)
        return b, ip.norm(st, ip.sub(st, e, b))
    return ip.load(st, ip.padd(v, const(64, 8)), 8, "ptr", _I), ip.load(st, v, 8, "i64", _I)


def snapshot(ip, st, p, n):
    """what (p, n) holds now: ("text", s), ("bytes", values) or ("mem", base, offset, length)"""
    n = ip.norm(st, n)
    if n.is_const() and n.c == 0: return ("text", "")
    if not isinstance(p, P): return ("?",)
    t = text_of(ip, st, p)
    if t is not None and n.is_const() and n.c <= len(t): return ("text", t[:n.c])
    return ("mem", p.base, p.off, n)


def m_from58(ip, n, st, ev, i, a):
    q = ip.mod.dem(i.callee)
    v = a[0]; par = q[q.find("<") + 1:] if "<" in q.split("(")[0] else q[q.rfind("("):]
    isstr = par.startswith("std::__cxx11::basic_string") or par.startswith("(std::__cxx11::basic_string")
    if i.get("sret"): b, old = ip.ptr_fresh(("b58", i.id)), const(64, 0); isstr = "basic_string" in q.split("(")[0]
    else: b, old = container(ip, st, i, v, "basic_string<" if isstr else "vector")
    if not isinstance(v, P) or not isinstance(b, (P, V)): return default_call(ip, n, st, ev, i, a)
    r = reg(ip, "b58", i)
    N = mkterm(term(64, 0, 1 << 31, "sym", ("b58n%d" % i.id, ip.cur.loc[1])))
    if old.is_const() and old.c and isinstance(b, P): ip.memcpy(st, P(r, const(64, 0)), b, old, i)
    size = ip.add(st, old, N)
    ln, ptr = (a[1], a[2]) if len(a) > 2 else (ip.load(st, a[1], 8, "i64", _I), ip.load(st, ip.padd(a[1], const(64, 8)), 8, "ptr", _I))
    if isstr: set_str(ip, st, v, r, size)
    else:
        end = P(r, size)
        for k, x in ((0, P(r, const(64, 0))), (8, end), (16, end)): ip.store(st, ip.padd(v, const(64, k)), x, 8, i)
    st.aux[("b58", r)] = (ptr, ln, old, N)
    ip.raise_(n, st.copy(), ev, i, ("throw", "@_ZTISt13runtime_error", "not base-58"))
    return None


def m_to58(ip, n, st, ev, i, a):
    q = ip.mod.dem(i.callee)
    if len(a) > 2: p, ln = a[2], a[1]
    else:
        par = q[q.rfind("("):]
        p, ln = container(ip, st, i, a[1], "vector" if "std::vector" in par else "view" if "string_view" in par else "basic_string<")
    buf = new_buf(ip, st, i, "b58t")
    ln = ip.norm(st, ln)
    if ln.is_const() and ln.c <= 1024 and isinstance(p, P):
        got = ("bytes", tuple(ip.load(st, ip.padd(p, const(64, k)), 1, "i8", i) for k in range(ln.c)))
    else: got = ("?",)
    st.aux[("parts", buf)] = (("b58", got),)
    set_str(ip, st, a[0], buf, mkterm(term(64, 0, 1 << 40, "strlen", ("b58", i.id, ip.cur.loc[1]))))
    return None


def m_init(ip, n, st, ev, i, a):
    if isinstance(a[0], P): st.aux[("rip", a[0].base, a[0].off.c)] = ()


def m_update(ip, n, st, ev, i, a):
    if not isinstance(a[0], P): return None
    k = ("rip", a[0].base, a[0].off.c)
    s = snapshot(ip, st, a[1], a[2])
    if s[0] == "mem" and s[3].is_const() and s[3].c <= 1024:
        s = ("bytes", tuple(ip.load(st, ip.padd(a[1], const(64, k2)), 1, "i8", i) for k2 in range(s[3].c)), s[1], s[2])
    st.aux[k] = st.aux.get(k, ()) + (s,)


def m_digest(ip, n, st, ev, i, a):
    r = reg(ip, "dig", i)
    if isinstance(a[0], P): st.aux[("digest", r)] = st.aux.get(("rip", a[0].base, a[0].off.c))
    if isinstance(a[1], P):
        for k in range(20): ip.store(st, ip.padd(a[1], const(64, k)), mkterm(byte_at(r, k)), 1, i)
        st.aux[("dout", a[1].base, a[1].off.c)] = r
    return mkterm(term(32, 0, 1, "sym", ("digok%d" % i.id, ip.cur.loc[1])))


def m_cmp(ip, n, st, ev, i, a):
    v = MODELS["bcmp"](ip, n, st, ev, i, a)
    for x in (a[0], a[1]):
        if isinstance(x, P) and st.aux.get(("dout", x.base, x.off.c)) is not None:
            other = a[1] if x is a[0] else a[0]
            st.aux[("cmp", i.id)] = (st.aux[("dout", x.base, x.off.c)], other, a[2], v)
    return v


def parts_of(ip, st, p, ln=None):
    if not isinstance(p, P): return (("?",),)
    r = st.aux.get(("parts", p.base))
    if r is not None and p.off.is_const() and p.off.c == 0: return r
    t = text_of(ip, st, p)
    return (("text", t),) if t is not None else (("?",),)


def join_parts(*ps):
    out = []
    for p in ps:
        for x in p:
            if x == ("text", ""): continue
            if out and x[0] == "text" and out[-1][0] == "text": out[-1] = ("text", out[-1][1] + x[1])
            else: out.append(x)
    return tuple(out)


def m_concat(front):
    def f(ip, n, st, ev, i, a):
        this = a[0]
        d, ln = str_parts(ip, st, this)
        mg = i.callee; args = a[1:]
        at_front = front and args and args[0].is_const() and args[0].c == 0 if front else False
        if front: args = args[1:]
        if not args: return None
        x = args[0]
        if mg.endswith("Ec") and not isinstance(x, P): add = (("text", chr(x.c)),) if x.is_const() else (("?",),)
        elif isinstance(x, P):
            if "RKS4_" in mg: x = str_parts(ip, st, x)[0]
            add = parts_of(ip, st, x)
            if add[0][0] == "text" and len(args) > 1 and args[1].is_const(): add = (("text", add[0][1][:args[1].c]),)
        else: add = (("?",),)
        old = parts_of(ip, st, d)
        new = join_parts(add, old) if at_front else join_parts(old, add)
        if front and not at_front: new = (("?",),)
        buf = new_buf(ip, st, i, "cat"); st.aux[("parts", buf)] = new
        set_str(ip, st, this, buf, mkterm(term(64, 0, 1 << 40, "strlen", ("cat", i.id, ip.cur.loc[1]))))
        if i.ty == "ptr": return this
    return f


def m_str_push(ip, n, st, ev, i, a):
    d, ln = str_parts(ip, st, a[0])
    new = join_parts(parts_of(ip, st, d), (("text", chr(a[1].c)),) if a[1].is_const() else (("?",),))
    buf = new_buf(ip, st, i, "cat"); st.aux[("parts", buf)] = new
    set_str(ip, st, a[0], buf, mkterm(term(64, 0, 1 << 40, "strlen", ("cat", i.id, ip.cur.loc[1]))))


def models(mod, helper):
    M = dict(MODELS)
    for q, w in helper.items(): M[q] = m_to58 if w else m_from58
    M["abieos_ripemd160::ripemd160_init"] = m_init
    M["abieos_ripemd160::ripemd160_update"] = m_update
    M["abieos_ripemd160::ripemd160_digest"] = m_digest
    for x in ("bcmp", "memcmp"): M[x] = m_cmp
    for x in ("append", "operator+="): M[S_ + x] = m_concat(False)
    M[S_ + "insert"] = m_concat(True)
    M[S_ + "push_back"] = m_str_push
    for nm in mod.fns:
        q = mod.q(nm)
        if q.split("::")[-1].startswith("~"): M[q] = lambda ip, n, st, ev, i, a: None
    return M


class Probe:
    """access hook: reads of the decoded bytes and of the digest, other than by the digest itself"""
    def __init__(self): self.dig = False

    def __call__(self, kind, st, p, size, inst):
        if kind != "load" or not isinstance(p, P): return
        if ("b58", p.base) in st.aux and (inst is None or inst.callee not in ("bcmp", "memcmp")):
            n = size if isinstance(size, V) else const(64, size)
            st.aux[("end", p.base)] = (p.off, n)
        if any(isinstance(k, tuple) and k[0] == "dout" and k[1] is p.base for k in st.aux): self.dig = True


def eqv(ip, st, a, b):
    """is a == b in every state described by st?"""
    c = ip.norm(st, ip.icmp(st, "eq", a, b))
    if c.is_const(): return bool(c.c)
    la, lb = ip.uval(st, a), ip.uval(st, b)
    if la is not None and lb is not None and ip.prove_le(st, la - lb) and ip.prove_le(st, lb - la): return True
    return None


def same(ip, st, a, b):
    if isinstance(a, P) or isinstance(b, P): return False
    if a == b: return True
    a, b = ip.norm(st, a), ip.norm(st, b)
    return a == b or eqv(ip, st, a, b) is True


def boxes(prefixes, n):
    """partition of the first n characters by the prefixes: [(box, prefix or None)]"""
    out = []

    def go(s):
        if s in prefixes: out.append(([mask(c) for c in s], s)); return
        if len(s) == n: out.append(([mask(c) for c in s], None)); return
        nxt = sorted({p[len(s)] for p in prefixes if p.startswith(s) and len(p) > len(s)})
        rest = FULL
        for c in nxt: rest &= ~mask(c); go(s + c)
        out.append(([mask(c) for c in s] + [rest], None))
    go("")
    return out


def read_rules(ip, o, kind, prefix, suffix, disc, n, iofs, probe, wif):
    """[(rule, ok, why)] for one accepting outcome"""
    st = o.state; res = []
    recs = [(k[1], v) for k, v in st.aux.items() if isinstance(k, tuple) and k[0] == "b58"]
    if len(recs) != 1: return [("decoded text", None if len(recs) else False, "%d base-58 conversions on the path" % len(recs))]
    R, (ptr, ln, old, N) = recs[0]
    text = ip.argregs["text"]
    k = len(prefix)
    ok = isinstance(ptr, P) and ptr.base is text and same(ip, st, ptr.off, const(64, k)) and same(ip, st, ln, ip.sub(st, n, const(64, k)))
    res.append(("decoded text", ok, "the text decoded is not the text after the prefix"))
    size = ip.add(st, old, N)
    lead = 0 if wif else 1
    # the value
    r = ip.argregs["r"]
    got = ip.norm(st, ip.load_const(st, r, iofs, 1, "i8"))
    res.append(("alternative", None if not got.is_const() else got.c == disc, "the alternative is %s, the prefix stands for %d" % (got, disc)))
    ecc = ECC[kind]
    bad = [j for j in range(ecc) if not same(ip, st, ip.load_const(st, r, j, 1, "i8"), mkterm(byte_at(R, 1 + j)))]
    res.append(("payload", not bad, "byte %s of the value is not byte %s of the payload" % (bad[0] if bad else "", bad[0] if bad else "")))
    # exactly filled: nothing between the last byte consumed and the checksum
    e = st.aux.get(("end", R))
    pay = ip.sub(st, size, const(64, 4))
    if disc < 2: res.append(("payload length", eqv(ip, st, size, const(64, 1 + ecc + 4)) is True, "the payload may be longer or shorter than the key"))
    elif e is None: res.append(("payload length", False, "the payload is not read"))
    else: res.append(("payload length", same(ip, st, ip.add(st, e[0], e[1]), pay), "the payload may extend beyond the value"))
    # digest and checksum
    digs = [(kk[1], v) for kk, v in st.aux.items() if isinstance(kk, tuple) and kk[0] == "digest"]
    if len(digs) != 1:
        res.append(("checksum", False if not digs else None, "no digest is computed" if not digs else "several digests")); return res
    D, parts = digs[0]
    parts = [p for p in (parts or ()) if p != ("text", "")]
    want = ([suffix] if suffix else [])
    okd = len(parts) == 1 + len(want) and parts[0][0] == "mem" and parts[0][1] is R and same(ip, st, parts[0][2], const(64, 1)) and same(ip, st, parts[0][3], ip.sub(st, size, const(64, 5)))
    if not okd and len(parts) == 1 + len(want) and parts[0][0] == "bytes":
        okd = parts[0][2] is R and same(ip, st, parts[0][3], const(64, 1)) and same(ip, st, const(64, len(parts[0][1])), ip.sub(st, size, const(64, 5)))
    oks = [p[1] if p[0] == "text" else p for p in parts[1:]] == want
    res.append(("digest input", bool(okd and oks), "the digest is not computed over the payload and %s" % (("the suffix %r" % suffix) if suffix else "nothing else")))
    ok = None
    cmps = [v for kk, v in st.aux.items() if isinstance(kk, tuple) and kk[0] == "cmp" and v[0] is D]
    why = "the checksum is not compared with the digest"
    for _, other, cnt, v in cmps:
        z = ip.norm(st, v)
        cnt = ip.norm(st, cnt)
        zero = z.is_const() and z.c == 0 or ip.urange(st, z)[1] == 0
        if not zero: why = "the comparison does not decide the outcome"; ok = ok or False; continue
        if not cnt.is_const() or cnt.c < 4: why = "only %s bytes are compared" % cnt; ok = ok or False; continue
        if not (isinstance(other, P) and other.base is R and same(ip, st, other.off, pay)): why = "the bytes compared are not the four after the payload"; ok = ok or False; continue
        ok = True
    if ok is not True:
        eqs = [eqv(ip, st, mkterm(byte_at(D, j)), ip.load(st, P(R, ip.add(st, pay, const(64, j))), 1, "i8", _I)) is True for j in range(4)]
        if all(eqs): ok = True
        elif any(eqs): ok = False; why = "byte %d of the checksum is not compared" % eqs.index(False)
        elif not cmps and not probe.dig: ok = False
        elif not cmps: ok = None
    res.append(("checksum", ok, why))
    return res


def run(rep, tier):
    helper = helpers()
    mod = module(["drv:keys", "src:crypto.cpp"], "keys", keep=KEEP + "|ripemd160_|" + "|".join("^" + re.escape(q) + "$" for q in helper))
    M = models(mod, helper)
    for kind, fmts in FORMATS.items():
        ipx = []
        def seen(k, st, p, size, inst):
            if k == "load" and isinstance(p, P) and p.base.args[0] == "k": ipx.append(sgn(p.off.c, 64))
        analyse(mod, "sa_key_index_" + kind, ["k"], models=M, access=[seen])
        if not ipx: raise build.Broken("the discriminant of %s is not found" % kind)
        iofs = ipx[-1]
        read(rep, mod, M, kind, fmts, iofs)
        write(rep, mod, M, kind, fmts, iofs)
    rep.need("checksum", 9); rep.need("rejected", 20); rep.need("text form", 8)


def runs(mod, M, kind, box, n, iofs):
    probe = Probe()
    def init(ip, st): st.mem[ip.argregs["r"]] = Reg({iofs: (1, const(8, 0))}, 0)
    ip, outs = analyse(mod, "sa_key_in_" + kind, [("text", "bytes"), n, "r"], feas_setup(box, more=init), models=M, access=[probe], limit=300, unroll=80)
    return ip, [o for o in outs if o.kind == "ret"], probe


def read(rep, mod, M, kind, fmts, iofs):
    table = {p: (s, d) for p, s, d in fmts}
    longest = max(len(p) for p in table)
    for box, prefix in boxes(set(table) | ({"PVT_"} if kind == "private_key" else set()), longest):
        if prefix == "PVT_": continue
        for n in [const(64, x) for x in range(len(box), longest)] + [mkterm(term(64, max(longest, len(box)), 1 << 31, "sym", ("n",)))]:
            what = "%s from %s" % (kind, show(box)[:-1] + ("..." if not n.is_const() else " + %d" % (n.c - len(box)) if n.c > len(box) else "") + '"')
            full = box + [FULL] * ((n.c if n.is_const() else longest) - len(box))
            try: ip, acc, probe = runs(mod, M, kind, full, n, iofs)
            except build.Broken as e: rep.unknown("analysed", what, str(e)); continue
            if prefix is None and kind != "private_key":
                rep.ob("rejected", what, not acc, "a text with this beginning can be accepted"); continue
            if prefix is None:
                # text of the older format: its checksum is not one of a prefix
                for o in acc: judge(rep, what, [x for x in read_rules(ip, o, kind, "", "", 0, n, iofs, probe, True)], "legacy-wif")
                continue
            if not acc and not n.is_const(): rep.ob("accepted", what, False, "no text with this prefix is accepted")
            for o in acc: judge(rep, what, read_rules(ip, o, kind, prefix, table[prefix][0], table[prefix][1], n, iofs, probe, False))
    if kind == "private_key":
        for rest in [[]] + [[mask(c) for c in s] for s in ("K1", "R1")] + [[FULL & ~mask("KR")], [mask("KR"), FULL & ~mask("1")], [mask("K"), mask("1"), FULL & ~mask("_")], [mask("R"), mask("1"), FULL & ~mask("_")]]:
            box = [mask(c) for c in "PVT_"] + rest
            for n in [const(64, len(box))] if not rest or rest[-1] == mask("1") else [const(64, x) for x in range(len(box), longest)] + [mkterm(term(64, longest, 1 << 31, "sym", ("n",)))]:
                what = "%s from %s%s" % (kind, show(box), "" if n.is_const() else "...")
                full = box + [FULL] * ((n.c if n.is_const() else longest) - len(box))
                try: ip, acc, probe = runs(mod, M, kind, full, n, iofs)
                except build.Broken as e: rep.unknown("analysed", what, str(e)); continue
                rep.ob("rejected", what, not acc, "a text with this beginning can be accepted")


def judge(rep, what, res, legacy=None):
    for rule, ok, why in res:
        if legacy and rule in ("checksum", "digest input"):
            rep.ob(rule, what, ok, why, key=legacy); continue
        if ok is None: rep.unknown(rule, what, why)
        else: rep.ob(rule, what, ok, why)


def vu(n):
    out = []
    while True:
        out.append(const(8, n & 127 | (128 if n > 127 else 0))); n >>= 7
        if not n: return out


def region_text(ip, st, name, n):
    r = ip.region(name, kind="bytes")
    return r, [mkterm(byte_at(r, j)) for j in range(n)]


def put_string(ip, st, off, name, n):
    r, bs = region_text(ip, st, name, n); K = ip.argregs["k"]
    ip.store(st, P(K, const(64, off)), P(r, const(64, 0)), 8, _I); ip.store(st, P(K, const(64, off + 8)), const(64, n), 8, _I)
    return vu(n) + bs


def put_vector(ip, st, off, name, n):
    r, bs = region_text(ip, st, name, n); K = ip.argregs["k"]
    for j, x in ((0, P(r, const(64, 0))), (8, P(r, const(64, n))), (16, P(r, const(64, n)))): ip.store(st, P(K, const(64, off + j)), x, 8, _I)
    return vu(n) + bs


def values(kind, d):
    """set-ups of a value of alternative d: name, f(ip, st) -> the bytes of its payload"""
    n = ECC[kind]
    own = lambda ip, a, b: [mkterm(byte_at(ip.argregs["k"], j)) for j in range(a, b)]
    if d < 2: yield "", lambda ip, st: own(ip, 0, n)
    elif kind == "public_key":
        for ln in (0, 3, 130): yield ", relying party of %d characters" % ln, lambda ip, st, ln=ln: own(ip, 0, 34) + put_string(ip, st, 40, "rpid", ln)
    else:
        for la, lc in ((0, 0), (3, 2), (130, 5)):
            yield ", %d bytes of authenticator data, %d of client data" % (la, lc), lambda ip, st, la=la, lc=lc: own(ip, 0, 65) + put_vector(ip, st, 72, "auth", la) + put_string(ip, st, 96, "client", lc)


def write(rep, mod, M, kind, fmts, iofs):
    new = {d: (p, s) for p, s, d in fmts if s}      # the suffixed form is the one written
    for d, (prefix, suffix) in new.items():
        for extra, make in values(kind, d):
            what = "text of a %s with alternative %d%s" % (kind, d, extra)
            pay = []
            def init(ip, st):
                st.mem[ip.argregs["k"]] = Reg({iofs: (1, const(8, d))}, 0)
                pay[:] = make(ip, st)
            try: ip, outs = analyse(mod, "sa_key_out_" + kind, ["k", "r"], init, models=M, limit=300, unroll=150)
            except build.Broken as e: rep.unknown("text form", what, str(e)); continue
            acc = [o for o in outs if o.kind == "ret"]
            rep.ob("written", what, bool(acc), "it is never written")
            for o in acc: wrote(rep, what, ip, o.state, prefix, suffix, pay)


def wrote(rep, what, ip, st, prefix, suffix, pay):
    p, _ = str_parts(ip, st, P(ip.argregs["r"], const(64, 0)))
    parts = parts_of(ip, st, p)
    if any(x == ("?",) for x in parts): rep.unknown("text form", what, "the text is not followed"); return
    ok = len(parts) == 2 and parts[0][0] == "text" and parts[1][0] == "b58"
    rep.ob("text form", what, ok, "the text is not a prefix followed by base-58 digits (%s)" % (parts,))
    if not ok: return
    rep.ob("prefix", what, parts[0][1] == prefix, "the prefix is %r, reading expects %r" % (parts[0][1], prefix))
    digs = [(kk[1], v) for kk, v in st.aux.items() if isinstance(kk, tuple) and kk[0] == "digest"]
    if len(digs) != 1: rep.ob("checksum written", what, False, "%d digests" % len(digs)); return
    D, dp = digs[0]
    got = parts[1][1]
    data = []; followed = True
    for x in dp or ():
        if x[0] == "text": data += [const(8, ord(c)) for c in x[1]]
        elif x[0] == "bytes": data += list(x[1])
        else: followed = False
    if not followed or got[0] != "bytes": rep.unknown("payload written", what, "the payload is not followed"); return
    ln = len(pay)
    want = pay + [const(8, ord(c)) for c in suffix]
    rep.ob("digest input written", what, len(data) == len(want) and all(same(ip, st, x, y) for x, y in zip(data, want)), "the digest is not computed over the payload and the suffix %r, which reading expects" % suffix)
    rep.ob("payload written", what, len(got[1]) == ln + 4 and all(same(ip, st, x, y) for x, y in zip(got[1], pay)), "the payload is not the bytes of the value")
    rep.ob("checksum written", what, len(got[1]) >= 4 and all(same(ip, st, x, mkterm(byte_at(D, j))) for j, x in enumerate(got[1][-4:])), "the last four bytes are not the first four of the digest")
