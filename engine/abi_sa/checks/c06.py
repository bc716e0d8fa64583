"""Every function of the C interface is interpreted abstractly with a valid context whose strings, vectors and maps are tracked as
objects with a current buffer.  On every outcome, a pointer that is returned must be null, designate constant data, or be the
current buffer of a string or vector that is a member of the context (or of an entry of one of its maps); so must the error pointer
the context keeps, for the string it was taken from may have been changed since.  Pointers handed out are never those of locals,
temporaries, the caller's own arguments or mutable globals."""
from ..eng import *
from ..capi import *

TECHNIQUE = "abstract interpretation with buffer ownership (every container operation that may reallocate starts a new buffer)"
LEVEL = "proof"
NOTE = "Validity is decided at the return of each call; later calls on the same context may replace the storage, as the interface documents. get_type and the map lookups are assumed to return entries of the object they are called on."


def kind(A, st, p):
    """None when p is fine, or what is wrong with it"""
    if isnull(p): return None
    if not isinstance(p, P): return "is not a pointer the analysis can trace"
    b = p.base
    if b.op == "region" and b.args[1] == "global":
        g = A.m.globals.get(b.args[0][1:])
        return None if g is None or g.get("const") else "designates a mutable global"
    if b.op == "region" and b.args[1] == "buf":
        o = st.aux.get(("owner", b))
        if o is None or not persistent(A, o): return "designates the contents of a local or temporary object"
        if current(A, st, P(b, const(64, 0))) is None: return "designates contents that were replaced before the call returned"
        return None
    if b is A.ctx or b.op == "region" and b.args[1] == "node": return None
    if b.op == "region" and str(b.args[0]).startswith("arg"): return "designates the caller's own argument"
    if b.op == "region" and b.args[1] == "what": return "designates the text of an exception that is being destroyed"
    return "designates storage that is not part of the context (%s)" % b


def create(rep, A0, lo):
    m = A0.m
    for name in api(m):
        f = m.fns[name]
        if f.args: continue
        A = Api(m, name); A.ctx = None
        regs = {}

        def setup(ip, st): A.ip = ip; A.ctx = ip.region("none")
        models = {}
        A.args = lambda: []
        ip, outs = analyse(m, name, [], setup, unroll=0, default_model=A.default, models=dict(MODELS), limit=50)
        ok = 0
        for o in outs:
            if o.kind != "ret" or not isinstance(o.value, P): continue
            c = ip.reg(o.state, o.value.base).cells.get(sgn(o.value.off.c, 64) + lo)
            p = c[1] if c else None
            rep.ob("a new context has an error text", name, isinstance(p, P) and p.base.op == "region" and p.base.args[1] == "global", "the error pointer of a new context is %s" % p); ok += 1
        rep.ob("a new context has an error text", name + " returns a context", ok > 0, "no outcome returns a context")


def run(rep, tier):
    res = results(); lo = lastoff(res); n = 0; errs = set()
    for name, (A, outs) in res.items():
        for o in outs:
            c = A.ip.reg(o.state, A.ctx).cells.get(lo)
            if c is not None and isinstance(c[1], P):
                ow = o.state.aux.get(("owner", c[1].base))
                if ow and ow[0] is A.ctx: errs.add(ow[1])
    for name, (A, outs) in sorted(res.items()):
        if name == "abieos_destroy": continue
        badr = {}; bade = {}; k = 0
        for o in outs:
            if o.kind != "ret": continue
            st = o.state; k += 1
            if A.f.d.get("ret") == "ptr" or isinstance(o.value, P):
                v = A.ip.norm(st, o.value)
                if name == "abieos_get_error" and isinstance(v, P) and v.base.op == "ptr" and v.base.args[1:3] == (A.ctx, lo): w = None
                else: w = kind(A, st, v)
                if w: badr[w] = badr.get(w, 0) + 1
            cells = A.ip.reg(st, A.ctx).cells
            c = cells.get(lo)
            if c is not None:
                w = kind(A, st, c[1]) if not isnull(c[1]) else "is null"
                if w: bade[w] = bade.get(w, 0) + 1
            else:
                for e in errs:
                    x = cells.get(e)
                    if x is not None and isinstance(x[1], P) and x[1].base.op == "region" and x[1].base.args[1] == "buf" and x[1].base.args[2][0] != "0":
                        bade["still designates contents of the error string that were replaced"] = 1
        if k == 0: rep.ob("a returned pointer designates storage of the context", name, False, "the call never returns"); continue
        rep.ob("a returned pointer designates storage of the context", name, not badr, "; ".join("the pointer returned %s (%d of %d outcomes)" % (w, x, k) for w, x in badr.items()))
        rep.ob("the error pointer designates storage of the context", name, not bade, "; ".join("the error pointer %s (%d of %d outcomes)" % (w, x, k) for w, x in bade.items()))
        n += k
    create(rep, next(iter(res.values()))[0], lo)
    rep.note("outcomes analysed", n); rep.note("functions", len(res)); rep.note("error strings of the context", len(errs))
    if not errs and not rep.viol: raise build.Broken("no function stores the text of an error in the context")
    rep.need("a returned pointer designates storage of the context", 14)
