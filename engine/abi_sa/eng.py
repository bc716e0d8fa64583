"""Common set-up for the abstract-interpretation checks: inlined driver dumps and library models."""
from . import build
from .ir import Mod
from .absint import *
from .dom import *
from .models import MODELS

KEEP = r"^std::(__cxx11::)?basic_string::|~"
_mods = {}


def module(units, key, roots="^sa_", keep=KEEP, inline=".*", **kw):
    k = (tuple(units), key, roots, keep, inline, tuple(sorted(kw.items())))
    if k not in _mods:
        kw.setdefault("closure", True)
        _mods[k] = Mod(build.dump(units, key, roots=roots, inline=inline, keep=keep, globals_=True, **kw))
    return _mods[k]


def fn(mod, name):
    f = mod.fns.get(name)
    if f is None: raise build.Broken("driver function %s is missing from the dump" % name)
    return f


def analyse(mod, name, args, setup=None, unroll=16, models=MODELS, hooks=(), access=(), **kw):
    """run the interpreter on driver `name`; args: values, or region names (str) for pointers"""
    f = fn(mod, name)
    ip = Interp(mod, f, models, unroll=unroll, **kw)
    ip.event_hooks += list(hooks); ip.access += list(access)
    st = State()
    ip.argregs = {}
    for k, a in enumerate(args):
        if isinstance(a, tuple):
            r = ip.region(a[0], kind=a[1]); ip.argregs[a[0]] = r; a = P(r, const(64, 0))
        elif isinstance(a, str):
            r = ip.region(a, kind="obj"); ip.argregs[a] = r; a = P(r, const(64, 0))
        st.env[k] = a
    if setup: setup(ip, st)
    try:
        outs = ip.run(st)
    except TooBig as e:
        raise build.Broken("the analysis of %s does not converge: %s" % (name, e))
    return ip, outs


def byte_at(base, off, ver=0):
    return term(8, 0, 255, "byte", (("m", base, off, ver),))


def mask(chars):
    m = 0
    for c in chars: m |= 1 << (ord(c) if isinstance(c, str) else c)
    return m


def bits_of(m):
    return [v for v in range(256) if m >> v & 1]


def syntax_ok(code, extra=()):
    """does the code compile against /repo's headers? (compile-fail witnesses)"""
    import subprocess
    cmd = ["clang++-18"] + [x for x in build.CXXFLAGS if x not in ("-emit-llvm", "-c", "-g")] + list(extra) + ["-fsyntax-only", "-x", "c++", "-"]
    r = subprocess.run(cmd, input=code, capture_output=True, text=True)
    return r.returncode == 0, r.stderr


def truth(ip, st, v):
    """[(state, bool or None)] for the truth of an integer value"""
    c = v if v.w == 1 else ip.icmp(st, "ne", v, const(v.w, 0))
    if not c.lin: return [(st, bool(c.c))]
    if c.dep is None: return [(st, None)]
    return [(s, t) for t in (True, False) for s in ip.assume(st, c, t)]


def cases(ip, st, v):
    """[(state, value)] with the value constant in each state, where it is a function of one byte; otherwise [(st, v)]"""
    v = ip.norm(st, v)
    if not v.lin or not v.dep: return [(st, v)]
    vs = vals(v); m = st.feas.get(v.dep, FULL); by = {}
    for x in bits_of(m): by[vs[x]] = by.get(vs[x], 0) | 1 << x
    out = []
    for c, mm in by.items():
        s = st.copy(); s.feas[v.dep] = mm; out.append((s, const(v.w, c)))
    return out


def depends(v, d=0):
    """byte terms a value with fully known bits (or a table lookup by one) depends on; None when unknown"""
    if v.bits is not None and None not in v.bits and all(b in (0, 1) or b[0] == "f" for b in v.bits):
        return {b[1] for b in v.bits if b not in (0, 1)}
    if d < 3 and len(v.lin) == 1 and v.lin[0][0].op == "tab":
        return depends(v.lin[0][0].args[0].off, d + 1)
    return None


SIZES = {"std::vector": 24, "std::__cxx11::basic_string": 32, "std::map": 48, "std::_Vector_base": 24, "std::function": 32}


def container_call(ip, n, st, ev, i, a):
    """a member function of a library container embedded in another object changes that container only (and what its arguments reach)"""
    q = ip.mod.q(i.callee) if i.callee else ""
    size = SIZES.get(q.rsplit("::", 1)[0])
    if size is None or not a or not isinstance(a[0], P) or not a[0].off.is_const(): return default_call(ip, n, st, ev, i, a)
    base = a[0].base
    old = ip.havoc_range(st, base, sgn(a[0].off.c, 64), size, i.id)
    ip.havoc_reach(st, old + [x for x in a[1:]], (i.id, ip.cur.loc[1]), (base,))
    return None

