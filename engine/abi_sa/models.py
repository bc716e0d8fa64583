"""Models of library functions kept out of line: std::string (real libstdc++ layout: pointer at +0, size at +8),
exceptions, allocation, mem* functions."""
from .dom import *
from .absint import *

MODELS = {}


def model(*names):
    def d(f):
        for n in names: MODELS[n] = f
        return f
    return d


# ---- exceptions ----
@model("__cxa_allocate_exception")
def m_alloc_exc(ip, n, st, ev, i, a):
    return P(term(64, ADDR_LO, ADDR_HI, "region", ("exc%d" % i.id, "exc", ip.cur.loc[1]), True), const(64, 0))


def text_of(ip, st, p):
    """constant text a char pointer designates, or None"""
    if not isinstance(p, P) or not p.off.is_const(): return None
    if p.base.op == "region" and p.base.args[1] == "global":
        b = ip.mod.cstr(["cgep", ["g", p.base.args[0][1:]], {"off": sgn(p.off.c, 64), "vars": []}])
        if b is None: return None
        z = b.find(b"\0")
        return b[:z if z >= 0 else len(b)].decode("latin1")
    t = st.aux.get(("text", p.base))
    if t is not None and p.off.c == 0: return t
    return None


def str_text(ip, st, s):
    if not isinstance(s, P): return None
    d = ip.load(st, s, 8, "ptr", None) if s.off.is_const() else None
    return text_of(ip, st, d) if isinstance(d, P) else None


@model("std::runtime_error::runtime_error", "std::logic_error::logic_error", "std::invalid_argument::invalid_argument", "std::out_of_range::out_of_range")
def m_runtime_error(ip, n, st, ev, i, a):
    q = ip.mod.dem(i.callee)
    t = str_text(ip, st, a[1]) if "string" in q else text_of(ip, st, a[1])
    if isinstance(a[0], P): st.aux[("exmsg", a[0].base)] = t
    return None


@model("__cxa_throw")
def m_throw(ip, n, st, ev, i, a):
    ty = a[1].base.args[0] if isinstance(a[1], P) and a[1].base.op == "region" else "?"
    msg = st.aux.get(("exmsg", a[0].base)) if isinstance(a[0], P) else None
    ip.raise_(n, st, ev, i, ("throw", ty, msg))
    return []


@model("__cxa_rethrow")
def m_rethrow(ip, n, st, ev, i, a):
    ip.raise_(n, st, ev, i, ("rethrow",) + (tuple(st.aux.get("exc") or ())))
    return []


@model("__cxa_free_exception", "__cxa_end_catch", "std::__new_allocator::~__new_allocator", "std::__cxx11::basic_string::~basic_string",
       "std::allocator::~allocator", "std::allocator::allocator", "std::__new_allocator::__new_allocator", "operator delete", "operator delete[]", "free")
def m_nop(ip, n, st, ev, i, a): return None


@model("__cxa_begin_catch")
def m_begin(ip, n, st, ev, i, a): return a[0]


def thrower(msg):
    def f(ip, n, st, ev, i, a):
        t = text_of(ip, st, a[0]) if a else None
        ip.raise_(n, st, ev, i, ("throw", msg, t))
        return []
    return f


for _q in ("__throw_length_error", "__throw_out_of_range_fmt", "__throw_out_of_range", "__throw_logic_error", "__throw_bad_alloc", "__throw_bad_array_new_length",
           "__throw_bad_variant_access", "__throw_bad_optional_access", "__throw_bad_function_call", "__throw_invalid_argument"):
    MODELS["std::" + _q] = thrower("std::" + _q)


@model("std::terminate", "__clang_call_terminate", "abort", "__assert_fail", "std::__glibcxx_assert_fail", "__cxa_pure_virtual")
def m_term(ip, n, st, ev, i, a):
    ip.outcome(n, "terminate", st, ev, info=(ip.mod.q(i.callee),), inst=i)
    return []


# ---- allocation ----
@model("operator new", "operator new[]", "malloc")
def m_new(ip, n, st, ev, i, a):
    k = st.aux.get(("alloc", i.id), 0)
    t = term(64, ADDR_LO, ADDR_HI, "region", ("h%d.%d" % (i.id, k), "heap", ip.cur.loc[1]), True)
    if k < 40: st.aux[("alloc", i.id)] = k + 1
    st.aux[("size", t)] = a[0]
    for h in ip.event_hooks: h("alloc", st, ev, i, a[0], t)
    return P(t, const(64, 0))


# ---- std::string ----
def new_buf(ip, st, i, tag="s"):
    k = st.aux.get(("sb", i.id), 0)
    if k < 40: st.aux[("sb", i.id)] = k + 1
    return term(64, ADDR_LO, ADDR_HI, "region", ("%s%d.%d" % (tag, i.id, k), "strbuf", ip.cur.loc[1]), True)


def set_str(ip, st, s, buf, ln):
    """make the string object s hold buffer buf (a P or term) of length ln"""
    if not isinstance(s, P): return
    if not isinstance(buf, P): buf = P(buf, const(64, 0))
    ip.store(st, s, buf, 8, _I)
    ip.store(st, ip.padd(s, const(64, 8)), ln, 8, _I)


class _Ins: id = -1; fn = None


_I = _Ins()


def str_parts(ip, st, s):
    if not isinstance(s, P): return ip.ptr_fresh(("strdata", id(s))), mkterm(term(64, 0, 1 << 62, "strlen", (s,)))
    d = ip.load(st, s, 8, "ptr", _I)
    ln = ip.load(st, ip.padd(s, const(64, 8)), 8, "i64", _I)
    for t, k in ln.lin:
        if t not in st.rng and t.hi > (1 << 62): ip._trng(st, t, 0, (1 << 62) - 1)
    return d, ln


def copy_chars(ip, st, buf, src, ln, i):
    if ln.is_const() and ln.c <= 512 and isinstance(src, P): ip.memcpy(st, P(buf, const(64, 0)), src, ln, i)
    t = text_of(ip, st, src)
    if t is not None and (not ln.is_const() or ln.c == len(t)): st.aux[("text", buf)] = t


def event(ip, st, ev, e):
    ev.append(e)


@model("std::__cxx11::basic_string::basic_string")
def m_str_ctor(ip, n, st, ev, i, a):
    q = ip.mod.dem(i.callee)
    sig = q[q.find("basic_string(", q.find("::basic_string") + 5):] if "basic_string(" in q else q
    par = sig[sig.find("(") + 1:]
    mg = i.callee
    this = a[0]
    buf = new_buf(ip, st, i)
    S = "std::__cxx11::basic_string<"
    if len(a) == 1 or par.startswith(")") or par.startswith("std::allocator"):
        set_str(ip, st, this, buf, const(64, 0)); ip.store(st, P(buf, const(64, 0)), const(8, 0), 1, _I)
        st.aux[("text", buf)] = ""
        return None
    if "EPKcRKS3_" in mg or "EPKcRKS" in mg or mg.endswith("PKcRKS3_") or (par.startswith("char const*, std::allocator")):
        t = text_of(ip, st, a[1])
        if t is not None:
            set_str(ip, st, this, buf, const(64, len(t)))
            st.aux[("text", buf)] = t
            if len(t) <= 64:
                for k, ch in enumerate(t.encode("latin1")): ip.store(st, P(buf, const(64, k)), const(8, ch), 1, _I)
        else:
            set_str(ip, st, this, buf, mkterm(term(64, 0, (1 << 62) - 1, "strlen", (a[1], i.id))))
        for h in ip.event_hooks: h("cstr", st, ev, i, a[1])
        return None
    if "OS4_" in mg or "OS_" in mg or "&&" in par.split(",")[0]:    # move
        d, ln = str_parts(ip, st, a[1]); set_str(ip, st, this, d, ln)
        nb = new_buf(ip, st, i, "m"); set_str(ip, st, a[1], nb, const(64, 0)); return None
    if "RKS4_" in mg and len(a) == 2 or (len(a) == 2 and "basic_string<" in par.split(",")[0] and "const&" in par):
        d, ln = str_parts(ip, st, a[1]); copy_chars(ip, st, buf, d, ln, i); set_str(ip, st, this, buf, ln); return None
    if "EmcRKS3_" in mg or "mc" in mg[-12:] and len(a) == 4:
        if a[1].is_const() and a[1].c <= 512:
            for k in range(a[1].c): ip.store(st, P(buf, const(64, k)), a[2], 1, _I)
        set_str(ip, st, this, buf, a[1]); return None
    if "EPKcmRKS3_" in mg:
        copy_chars(ip, st, buf, a[1], a[2], i); set_str(ip, st, this, buf, a[2])
        for h in ip.event_hooks: h("strcopy", st, ev, i, a[1], a[2])
        for h in ip.access: h("load", st, a[1], a[2], i)
        return None
    if "string_view" in par or "__sv_wrapper" in par or "St17basic_string_view" in mg:
        # (this, size, data, alloc) by value or pointer to a view
        if len(a) >= 3 and isinstance(a[2], P) and not isinstance(a[1], P): ln, d = a[1], a[2]
        elif isinstance(a[1], P):
            ln = ip.load(st, a[1], 8, "i64", _I); d = ip.load(st, ip.padd(a[1], const(64, 8)), 8, "ptr", _I)
        else: ln, d = mkterm(term(64, 0, (1 << 62) - 1, "strlen", ("?", i.id))), None
        if d is not None:
            copy_chars(ip, st, buf, d, ln, i)
            for h in ip.access: h("load", st, d, ln, i)
        set_str(ip, st, this, buf, ln); return None
    if len(a) >= 3 and isinstance(a[1], P) and isinstance(a[2], P):   # iterator range
        ln = ip.sub(st, a[2], a[1])
        copy_chars(ip, st, buf, a[1], ln, i)
        for h in ip.access: h("load", st, a[1], ln, i)
        set_str(ip, st, this, buf, ln); return None
    set_str(ip, st, this, buf, mkterm(term(64, 0, (1 << 62) - 1, "strlen", ("?", i.id, ip.cur.loc[1]))))
    return None


S_ = "std::__cxx11::basic_string::"


@model(S_ + "data", S_ + "c_str", S_ + "begin", S_ + "cbegin", S_ + "_M_data", S_ + "front")
def m_str_data(ip, n, st, ev, i, a): return str_parts(ip, st, a[0])[0]


@model(S_ + "size", S_ + "length")
def m_str_size(ip, n, st, ev, i, a): return str_parts(ip, st, a[0])[1]


@model(S_ + "empty")
def m_str_empty(ip, n, st, ev, i, a): return ip.icmp(st, "eq", str_parts(ip, st, a[0])[1], const(64, 0))


@model(S_ + "end", S_ + "cend")
def m_str_end(ip, n, st, ev, i, a):
    d, ln = str_parts(ip, st, a[0])
    return ip.padd(d, ln)


@model(S_ + "operator[]")
def m_str_index(ip, n, st, ev, i, a):
    d, ln = str_parts(ip, st, a[0])
    return ip.padd(d, a[1])


@model(S_ + "operator std::basic_string_view")
def m_str_view(ip, n, st, ev, i, a):
    d, ln = str_parts(ip, st, a[0])
    return Agg([ln, d])


@model(S_ + "back")
def m_str_back(ip, n, st, ev, i, a):
    d, ln = str_parts(ip, st, a[0])
    return ip.padd(d, ip.sub(st, ln, const(64, 1)))


@model(S_ + "at")
def m_str_at(ip, n, st, ev, i, a):
    d, ln = str_parts(ip, st, a[0])
    c = ip.icmp(st, "ult", a[1], ln)
    for s2 in ip.assume(st, c, False): ip.raise_(n, s2, ev, i, ("throw", "std::out_of_range", None))
    return [(s2, ip.padd(d, a[1]), list(ev)) for s2 in ip.assume(st, c, True)]


def grow(ip, st, i, s, extra, chars=None):
    """append extra characters; chars: list of V when known"""
    d, ln = str_parts(ip, st, s)
    nl = ip.add(st, ln, extra)
    if ln.is_const() and isinstance(d, P) and d.base.op == "region" and d.base.args[1] == "strbuf" and d.off.is_const():
        if chars is not None:
            for k, c in enumerate(chars): ip.store(st, P(d.base, const(64, d.off.c + ln.c + k)), c, 1, _I)
        else:
            # contents beyond unknown
            ip.store(st, P(d.base, mkterm(term(64, 0, 1 << 62, "grow", (i.id, ln)))), mkterm(term(8, 0, 255, "byte", (("g", i.id, ip.cur.loc[1]),))), 1, _I)
    else:
        nb = new_buf(ip, st, i, "g"); d = P(nb, const(64, 0))
    t = st.aux.pop(("text", d.base), None)
    if t is not None and chars is not None and all(c.is_const() for c in chars): st.aux[("text", d.base)] = t + "".join(chr(c.c) for c in chars)
    set_str(ip, st, s, d, nl)


@model(S_ + "push_back")
def m_str_push(ip, n, st, ev, i, a):
    for h in ip.event_hooks: h("push", st, ev, i, a[0], a[1])
    grow(ip, st, i, a[0], const(64, 1), [a[1] if a[1].w == 8 else ip.trunc(st, a[1], 8)])


@model(S_ + "append", S_ + "operator+=", S_ + "insert", S_ + "_M_append")
def m_str_append(ip, n, st, ev, i, a):
    mg = i.callee
    for h in ip.event_hooks: h("append", st, ev, i, *a)
    if "pLEc" in mg: grow(ip, st, i, a[0], const(64, 1), [ip.trunc(st, a[1], 8)])
    elif "pLEPKc" in mg or mg.endswith("appendEPKc"):
        t = text_of(ip, st, a[1])
        if t is not None: grow(ip, st, i, a[0], const(64, len(t)), [const(8, ord(c)) for c in t])
        else: grow(ip, st, i, a[0], mkterm(term(64, 0, 1 << 40, "strlen", (a[1], i.id))))
    elif "pLERKS4_" in mg or "appendERKS4_" in mg:
        d, ln = str_parts(ip, st, a[1]); t = text_of(ip, st, d)
        grow(ip, st, i, a[0], ln, [const(8, ord(c)) for c in t] if t is not None and ln.is_const() and ln.c == len(t) else None)
    elif "appendEPKcm" in mg or "_M_append" in mg: grow(ip, st, i, a[0], a[2])
    else: grow(ip, st, i, a[0], mkterm(term(64, 0, 1 << 40, "strlen", ("?", i.id, ip.cur.loc[1]))))
    if i.ty == "ptr": return a[0]


@model(S_ + "resize")
def m_str_resize(ip, n, st, ev, i, a):
    for h in ip.event_hooks: h("resize", st, ev, i, a[0], a[1])
    d, ln = str_parts(ip, st, a[0])
    lim = const(64, (1 << 63) - 1)
    c = ip.icmp(st, "ule", a[1], lim)
    for s2 in ip.assume(st, c, False): ip.raise_(n, s2, ev, i, ("throw", "std::__throw_length_error", None))
    out = []
    if ln.is_const() and a[1].is_const() and a[1].c <= 256 and isinstance(d, P):
        if len(a) > 2 or a[1].c > ln.c:
            fill = a[2] if len(a) > 2 else const(8, 0)
            for k in range(ln.c, a[1].c): ip.store(st, P(d.base, ip.add(st, d.off, const(64, k))), fill, 1, _I)
        st.aux.pop(("text", d.base), None)
        set_str(ip, st, a[0], d, a[1]); return None
    for s2 in ip.assume(st, c, True):
        nb = new_buf(ip, s2, i, "r")
        set_str(ip, s2, a[0], nb, ip.norm(s2, a[1])); out.append((s2, None, list(ev)))
    return out


@model(S_ + "pop_back")
def m_str_pop(ip, n, st, ev, i, a):
    d, ln = str_parts(ip, st, a[0])
    if isinstance(d, P): st.aux.pop(("text", d.base), None)
    set_str(ip, st, a[0], d, ip.sub(st, ln, const(64, 1)))


@model(S_ + "clear")
def m_str_clear(ip, n, st, ev, i, a):
    for h in ip.event_hooks: h("clear", st, ev, i, a[0])
    set_str(ip, st, a[0], new_buf(ip, st, i, "c"), const(64, 0))


@model(S_ + "operator=", S_ + "assign", S_ + "swap")
def m_str_assign(ip, n, st, ev, i, a):
    mg = i.callee
    for h in ip.event_hooks: h("assign", st, ev, i, *a)
    if "EPKc" in mg and not mg.endswith("m"):
        t = text_of(ip, st, a[1]); buf = new_buf(ip, st, i)
        if t is not None:
            st.aux[("text", buf)] = t
            for k, ch in enumerate(t.encode("latin1")[:64]): ip.store(st, P(buf, const(64, k)), const(8, ch), 1, _I)
            set_str(ip, st, a[0], buf, const(64, len(t)))
        else: set_str(ip, st, a[0], buf, mkterm(term(64, 0, 1 << 40, "strlen", (a[1], i.id))))
    elif isinstance(a[1], P) and len(a) == 2:
        d, ln = str_parts(ip, st, a[1])
        if "OS4_" not in mg and "swap" not in mg:
            buf = new_buf(ip, st, i); copy_chars(ip, st, buf, d, ln, i); d = P(buf, const(64, 0))
        set_str(ip, st, a[0], d, ln)
    else: set_str(ip, st, a[0], new_buf(ip, st, i), mkterm(term(64, 0, 1 << 40, "strlen", ("?", i.id, ip.cur.loc[1]))))
    if i.ty == "ptr": return a[0]


@model(S_ + "substr")
def m_str_substr(ip, n, st, ev, i, a):
    # sret: (out, this, pos, n)
    d, ln = str_parts(ip, st, a[1])
    for h in ip.event_hooks: h("substr", st, ev, i, *a)
    c = ip.icmp(st, "ule", a[2], ln)
    for s2 in ip.assume(st, c, False): ip.raise_(n, s2, ev, i, ("throw", "std::__throw_out_of_range_fmt", None))
    out = []
    for s2 in ip.assume(st, c, True):
        rest = ip.sub(s2, ln, a[2])
        e = ip.icmp(s2, "ult", a[3], rest)
        for truth in (True, False):
            for s3 in ip.assume(s2, e, truth):
                s3 = s3.copy()
                k = ip.norm(s3, a[3] if truth else rest)
                nb = new_buf(ip, s3, i, "ss"); src = ip.padd(d, a[2])
                copy_chars(ip, s3, nb, src, k, i)
                set_str(ip, s3, a[0], nb, k); out.append((s3, None, list(ev)))
    return out


def find_args(ip, st, i, a):
    """(set of characters, start position) of a find_* call on constant characters, or None"""
    q = ip.mod.dem(i.callee)
    par = q[q.rfind("(") + 1:] if not q.endswith("const") else q[q.rfind("("):][1:]
    if par.startswith("char,"): cs = {a[1].c} if a[1].is_const() else None
    elif par.startswith("char const*, unsigned long)"):
        t = text_of(ip, st, a[1]); cs = set(t.encode("latin1")) if t is not None else None
    elif par.startswith("std::__cxx11::basic_string"):
        t = str_text(ip, st, a[1]); cs = set(t.encode("latin1")) if t is not None else None
    else: cs = None
    if cs is None or not a[2].is_const(): return None
    return cs, a[2].c


def find_exact(ip, st, ev, i, a, fam, d, ln):
    fa = find_args(ip, st, i, a)
    if fa is None or not ln.is_const() or ln.c > 256 or not isinstance(d, P): return None
    cs, pos = fa
    if fam in ("find", "rfind") and len(cs) > 1: return None
    last = "last" in fam or fam == "rfind"
    ks = range(min(pos, ln.c - 1), -1, -1) if last else range(min(pos, ln.c), ln.c)
    want_in = "not_of" not in fam
    if ln.c == 0: ks = []
    out = []; cur = [st]
    for k in ks:
        nxt = []
        for s in cur:
            c = ip.norm(s, ip.load(s, P(d.base, ip.add(s, d.off, const(64, k))), 1, "i8", _I))
            hit = const(1, 0)
            for x in sorted(cs): hit = ip._bitop(s, hit, ip.icmp(s, "eq", c, const(8, x)), "or")
            for s2 in ip.assume(s, hit, want_in): out.append((s2.copy(), const(64, k), list(ev)))
            nxt += ip.assume(s, hit, not want_in)
        cur = nxt
    for s in cur: out.append((s.copy(), const(64, -1), list(ev)))
    return out


@model(S_ + "find_last_not_of", S_ + "find_first_not_of", S_ + "find", S_ + "rfind", S_ + "find_first_of", S_ + "find_last_of")
def m_str_find(ip, n, st, ev, i, a):
    d, ln = str_parts(ip, st, a[0])
    r = find_exact(ip, st, ev, i, a, ip.mod.q(i.callee).split("::")[-1], d, ln)
    if r is not None: return r
    # npos, or an index below the length
    out = []
    s1 = st.copy(); out.append((s1, const(64, -1), ev + [("find", i.id, "npos")]))
    s2 = st.copy()
    t = term(64, 0, (1 << 62) - 1, "find", (i.id, ip.cur.loc[1], d, ln))
    if ip.add_fact(s2, L({t: 1}, 1) - ip.uval(s2, ln)): out.append((s2, mkterm(t), ev + [("find", i.id, t)]))
    return out


@model(S_ + "_M_construct", S_ + "reserve", S_ + "_M_create", S_ + "shrink_to_fit", S_ + "_M_dispose", S_ + "_M_assign", S_ + "_M_mutate")
def m_str_misc(ip, n, st, ev, i, a):
    if "reserve" in i.callee:
        for h in ip.event_hooks: h("reserve", st, ev, i, *a)
        return None
    return default_call(ip, n, st, ev, i, a)


@model("strlen")
def m_strlen(ip, n, st, ev, i, a):
    t = text_of(ip, st, a[0])
    if t is not None: return const(64, len(t))
    return mkterm(term(64, 0, (1 << 62) - 1, "strlen", (a[0],)))


@model("memcmp", "bcmp")
def m_memcmp(ip, n, st, ev, i, a):
    for h in ip.access:
        h("load", st, a[0], a[2], i); h("load", st, a[1], a[2], i)
    if a[2].is_const() and a[2].c <= 32 and isinstance(a[0], P) and isinstance(a[1], P):
        xs = [ip.load(st, ip.padd(a[0], const(64, k)), 1, "i8", i) for k in range(a[2].c)]
        ys = [ip.load(st, ip.padd(a[1], const(64, k)), 1, "i8", i) for k in range(a[2].c)]
        eqs = [ip.norm(st, ip.icmp(st, "eq", x, y)) if not isinstance(x, P) and not isinstance(y, P) else None for x, y in zip(xs, ys)]
        if all(x == y or c is not None and c.is_const() and c.c for x, y, c in zip(xs, ys, eqs)): return const(32, 0)
        if any(c is not None and c.is_const() and not c.c for c in eqs):
            return const(32, 1) if i.callee == "bcmp" else mkterm(term(32, 1, (1 << 32) - 1, "memcmp", tuple(xs) + tuple(ys) + ("ne",)))
        return mkterm(term(32, 0, (1 << 32) - 1, "memcmp", tuple(xs) + tuple(ys)))
    return mkterm(term(32, 0, (1 << 32) - 1, "memcmp", (a[0], a[1], a[2], i.id, ip.cur.loc[1])))


@model("memchr")
def m_memchr(ip, n, st, ev, i, a):
    for h in ip.access: h("load", st, a[0], a[2], i)
    return None


@model("memcpy", "memmove")
def m_memcpy(ip, n, st, ev, i, a):
    for h in ip.access:
        h("load", st, a[1], a[2], i); h("store", st, a[0], a[2], i)
    ip.memcpy(st, a[0], a[1], a[2], i)
    return a[0]
