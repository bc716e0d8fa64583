"""Class-invariant analysis of eosio::input_stream: every stream object has pos <= end, both inside one input region whose
extent is `end` at the time the object was established.  Functions are analysed one by one; the invariant is assumed where a
stream object is first looked at and must be re-established before every call, at every loop head and at every exit.  Every
load, copy or call that uses a pointer derived from a stream's position must stay inside the region."""
from .eng import *

TAG = "_ZTSN5eosio12input_streamE"
SVTAG = "_ZTSSt17basic_string_viewIcSt11char_traitsIcEE"


def tagged(i):
    t = i.get("tbaa") if i is not None and hasattr(i, "get") else None
    return t is not None and t[0] == TAG


class StreamInterp(Interp):
    def __init__(self, mod, fn, report, **kw):
        Interp.__init__(self, mod, fn, MODELS, default_model=stream_call, **kw)
        self.report = report
        self.access.append(self.on_access)
        self.checked = set(); self.bad = {}
        self.nacc = 0; self.ninv = 0

    # -- materialising --
    def mk(self, st, base, off, ver):
        key = (base, off, ver)
        D = term(64, ADDR_LO, ADDR_HI, "region", (("D",) + key, "input"))
        p = term(64, 0, OFF_MAX, "sym", ("p",) + key); e = term(64, 0, OFF_MAX, "sym", ("e",) + key)
        self.add_fact(st, L({p: 1, e: -1}, 0))
        st.aux[("ext", D)] = L({e: 1}, 0).key()
        self.exts[D] = L({e: 1}, 0)
        return P(D, mkterm(p)), P(D, mkterm(e))

    exts = {}

    def load(self, st, p, size, ty, inst):
        if tagged(inst) and isinstance(p, P) and size == 8:
            k = inst.get("tbaa")[2]
            o = self.sub(st, p.off, const(64, k))
            if o.is_const():
                oo = sgn(o.c, 64)
                c = self.reg(st, p.base).cells.get(oo + k)
                if c is None or (isinstance(c[1], P) and c[1].base.op == "ptr" and c[1].base.args[:1] == ("join",)):
                    ov = [x for x in self.reg(st, p.base).cells if isinstance(x, int) and x < oo + 16 and oo < x + self.reg(st, p.base).cells[x][0] and x not in (oo, oo + 8)]
                    if not ov:
                        a, b = self.mk(st, p.base, oo, self.reg(st, p.base).ver)
                        r = self.reg(st, p.base); cells = dict(r.cells); cells[oo] = (8, a); cells[oo + 8] = (8, b)
                        st.mem[p.base] = Reg(cells, r.ver)
            else:
                a, b = self.mk(st, p.base, o, self.reg(st, p.base).ver)
                return a if k == 0 else b
        return Interp.load(self, st, p, size, ty, inst)

    def memcpy(self, st, d, s, nn, i):
        # copying a whole stream object
        if isinstance(s, P) and s.off.is_const() and nn.is_const() and nn.c == 16 and isinstance(d, P) and self.is_stream_copy(i):
            so = sgn(s.off.c, 64)
            if so not in self.reg(st, s.base).cells:
                a, b = self.mk(st, s.base, so, self.reg(st, s.base).ver)
                r = self.reg(st, s.base); cells = dict(r.cells); cells[so] = (8, a); cells[so + 8] = (8, b)
                st.mem[s.base] = Reg(cells, r.ver)
        Interp.memcpy(self, st, d, s, nn, i)

    def is_stream_copy(self, i):
        t = i.get("tbaas")
        return bool(t) or True

    def store(self, st, p, v, size, inst):
        Interp.store(self, st, p, v, size, inst)
        if tagged(inst) and isinstance(p, P):
            k = inst.get("tbaa")[2]
            o = self.sub(st, p.off, const(64, k))
            if o.is_const():
                oo = sgn(o.c, 64)
                st.aux[("so", p.base, oo)] = inst.id
                cells = self.reg(st, p.base).cells
                a = cells.get(oo); b = cells.get(oo + 8)
                if a and b and isinstance(a[1], P) and isinstance(b[1], V): self.established(st, a[1], b[1])

    # -- extents --
    def extent(self, st, base):
        if base in self.exts and ("ext", base) in st.aux: return self.exts[base]
        return None

    def partner_ok(self, st, pos, end):
        """do pos and end delimit a container or an argument pair exactly?"""
        b = pos.base
        d = self.sval(st, pos.off)
        if pos.off.is_const() and sgn(pos.off.c, 64) == 0:
            if b.op == "ptr" and b.args[0] == "ld":
                base2, off2, ver2 = b.args[1:4]
                if isinstance(off2, int):
                    for dd in (8, -8):
                        q = self.default_cell(st, base2, off2 + dd, 8, ver2, "ptr")
                        if dd == 8 and q.lin == end.lin and q.c == end.c: return True
                        c = self.reg(st, base2).cells.get(off2 + dd)
                        for n in [self.default_cell(st, base2, off2 + dd, 8, ver2, "i64")] + ([c[1]] if c else []):
                            w = self.padd(pos, n)
                            if isinstance(n, V) and w.lin == end.lin and w.c == end.c: return True
            if b.op == "region" and b.args[1] == "arg":
                k = b.args[0]
                for kk in (k + 1, k - 1):
                    n = self.argv.get(kk)
                    if isinstance(n, V) and not isinstance(n, P):
                        w = self.padd(pos, n)
                        if w.lin == end.lin and w.c == end.c: return True
            for bb, r in st.mem.items():
                for o in r.cells:
                    if not isinstance(o, int) or ("so", bb, o) in st.aux or r.cells[o][0] != 8: continue
                    q = self.load_const(st, bb, o, 8, "ptr")
                    if not (isinstance(q, P) and q == pos): continue
                    w = self.load_const(st, bb, o + 8, 8, "ptr")
                    if isinstance(w, V) and w.lin == end.lin and w.c == end.c: return True
                    n = self.load_const(st, bb, o + 8, 8, "i64")
                    if isinstance(n, V) and not isinstance(n, P):
                        w = self.padd(pos, n)
                        if w.lin == end.lin and w.c == end.c: return True
            n = st.aux.get(("blen", b))
            if n is not None:
                w = self.padd(pos, n)
                if w.lin == end.lin and w.c == end.c: return True
        return False

    def established(self, st, pos, end):
        if self.extent(st, pos.base) is None and self.partner_ok(st, pos, end):
            e = self.sval(st, self.sub(st, end, P(pos.base, const(64, 0)))) if not (isinstance(end, P) and end.base is pos.base) else self.sval(st, end.off)
            self.exts[pos.base] = e; st.aux[("ext", pos.base)] = e.key()
            self.add_fact(st, e.scale(-1))

    def inv(self, st, base, off, where):
        cells = self.reg(st, base).cells
        a = cells.get(off); b = cells.get(off + 8)
        if a is None and b is None: return
        self.ninv += 1
        if a is None or b is None: return self.fail("invariant", where, "a stream object is left half initialised")
        pos, end = a[1], b[1]
        if not isinstance(pos, P):
            if isinstance(pos, V) and pos == end: return
            if isinstance(pos, V) and isinstance(end, V) and not pos.lin and not end.lin and pos.c == end.c: return
            return self.fail("invariant", where, "a stream's position is not a pointer into its input (%s)" % pos)
        x = self.extent(st, pos.base)
        if x is None:
            if pos == end or self.partner_ok(st, pos, end): return
            return self.fail("invariant", where, "a stream is given a range [%s, %s) that is not the extent of a container or of a pointer and its size" % (pos, end))
        if not isinstance(end, P) or end.base is not pos.base:
            if self.partner_ok(st, pos, end): return
            return self.fail("invariant", where, "a stream's end (%s) is not in the same input as its position (%s)" % (end, pos))
        p, e = self.sval(st, pos.off), self.sval(st, end.off)
        if not self.prove_le(st, p - e): self.fail("invariant", where, "a stream's position may pass its end (position %s, end %s)" % (pos, end))
        if not self.prove_le(st, e - x): self.fail("invariant", where, "a stream's end may pass the end of the input (end %s)" % end)
        if not self.prove_le(st, p.scale(-1)): self.fail("invariant", where, "a stream's position may precede the input")

    def check_all(self, st, where, only_local=None):
        for k in [k for k in st.aux if isinstance(k, tuple) and k[0] == "so"]:
            self.inv(st, k[1], k[2], where)

    def fail(self, kind, where, msg):
        self.bad.setdefault((kind, where), msg)

    # -- accesses --
    def on_access(self, kind, st, p, size, i):
        if not isinstance(p, P): return
        x = self.extent(st, p.base)
        if x is None: return
        self.nacc += 1
        if not size.lin and size.c == 0: return
        o = self.sval(st, p.off); n = self.uval(st, size)
        ok = self.prove_le(st, o.scale(-1)) and self.prove_le(st, o + n - x)
        if not ok: self.fail("access", i.where(), "%s of %s bytes at input offset %s is not bounded by the end of the input" % (kind, size, p.off))
        elif kind == "store" : self.fail("access", i.where(), "the input is written to")

    # -- loop heads --
    def visit_w(self, loc, inc):
        where = self.fn.blocks[loc[0]][0].where() if self.fn.blocks[loc[0]] else self.fn.where()
        new = []
        for src, st, ev in inc:
            st = st.copy()
            self.check_all(st, where)
            for base in list(st.mem):
                r = st.mem[base]
                dead = set()
                for o, c in r.cells.items():
                    if isinstance(o, int) and isinstance(c[1], P) and c[1].base.op == "region" and c[1].base.args[1] == "input": dead.add(o)
                for k in list(st.aux):
                    if isinstance(k, tuple) and k[0] == "so" and k[1] is base: dead |= {k[2], k[2] + 8}
                dead &= set(o for o in r.cells if isinstance(o, int))
                if dead: st.mem[base] = Reg({o: c for o, c in r.cells.items() if o not in dead}, ("j", "inv", loc, base.id))
            for k in [k for k in st.aux if isinstance(k, tuple) and k[0] in ("so",)]: del st.aux[k]
            new.append((src, st, ev))
        return Interp.visit_w(self, loc, new)

    def outcome(self, n, kind, st, ev, value=None, info=None, inst=None):
        if kind == "ret": self.check_all(st, inst.where() if inst else self.fn.where())
        Interp.outcome(self, n, kind, st, ev, value, info, inst)
        if kind == "ret" and isinstance(value, P) and self.extent(st, value.base) is not None:
            pass


def stream_call(ip, n, st, ev, i, args):
    ip.check_all(st, i.where())
    for k in [k for k in st.aux if isinstance(k, tuple) and k[0] == "so"]: del st.aux[k]
    # a pointer into the input passed on must come with its length
    for k, a in enumerate(args):
        if isinstance(a, P):
            x = ip.extent(st, a.base)
            if x is None: continue
            nb = [args[j] for j in (k + 1, k - 1) if 0 <= j < len(args) and isinstance(args[j], V)]
            ok = False
            for b in nb:
                o = ip.sval(st, a.off)
                if isinstance(b, P) and b.base is a.base:
                    if ip.prove_le(st, ip.sval(st, b.off) - x) and ip.prove_le(st, o.scale(-1)): ok = True
                elif not isinstance(b, P):
                    if ip.prove_le(st, o + ip.uval(st, b) - x) and ip.prove_le(st, o.scale(-1)): ok = True
            ip.nacc += 1
            if not ok: ip.fail("access", i.where(), "a pointer into the input is passed to %s without a length bounded by the input" % ip.mod.q(i.callee or "?"))
    return default_call(ip, n, st, ev, i, args)


def analyse_fn(mod, f, report=None, **kw):
    ip = StreamInterp(mod, f, report, **kw)
    st = State(); ip.argv = {}
    for k, a in enumerate(f.args):
        if a["ty"] == "ptr":
            st.env[k] = P(term(64, 0, ADDR_HI, "region", (k, "arg")), const(64, 0))
        else:
            w = ibits(a["ty"])
            st.env[k] = ip.opaque(st, w or 64, ("arg", k), a["ty"])
        ip.argv[k] = st.env[k]
    ip.run(st)
    return ip


def reachable(mod, rx):
    """functions still called from the roots after inlining"""
    import re
    from .lib import refs
    seen = set(); work = [n for n in mod.fns if re.match(rx, n)]
    def g(nm, gs=set()):
        if nm in mod.fns: work.append(nm)
        elif nm in mod.globals and nm not in gs:
            gs.add(nm)
            for _, p in mod.globals[nm].get("ptrs", []):
                for x in refs(p): g(x)
    while work:
        n = work.pop()
        if n in seen: continue
        seen.add(n)
        for i in mod.fns[n].all():
            if i.callee: g(i.callee)
            for o in i.ops:
                for x in refs(o): g(x)
    return [mod.fns[n] for n in mod.fns if n in seen]
