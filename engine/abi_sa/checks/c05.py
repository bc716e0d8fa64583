"""Every function of the C interface is interpreted abstractly with a valid context; every library call may fail by exception.  On
each outcome that reports failure the error pointer must have been set during the call to the current contents of an error string
of the context that cannot be empty, or to a constant message; a caught library exception must be reported by its own text.  On each
outcome that reports success the facts the operation consists of must have been established: input parsed to its end, contract and
type found under the caller's names, the conversion's result stored where the accessors read it, no input left over."""
from ..eng import *
from ..capi import *
from ..ir import Mod
from .. import capi

TECHNIQUE = "abstract interpretation of every C interface function with fallible callees; must-facts at each outcome"
LEVEL = "proof"
NOTE = "Texts of exceptions are assumed non-empty (C14 decides that). Calls that cannot report failure (abieos_get_error, abieos_get_bin_size, abieos_get_bin_data, abieos_string_to_name, abieos_create, abieos_destroy) are outside the rule."
SILENT = {"abieos_get_error", "abieos_get_bin_size", "abieos_get_bin_data", "abieos_string_to_name", "abieos_create", "abieos_destroy"}
CONTRACT = 1


def describe(A, st, le, lo):
    """(ok, text) of the error pointer le at a failing outcome"""
    cell = A.ip.reg(st, A.ctx).cells.get(lo)
    if cell is None: return False, "the error text is not set"
    p = cell[1]
    if isinstance(p, P) and p.base.op == "region" and p.base.args[1] == "global":
        t = text_of(A.ip, st, p)
        return (bool(t), "constant" if t else "the error text is empty")
    o = current(A, st, p)
    if o is None: return False, "the error text does not designate the current contents of a string"
    if o[0] is not A.ctx: return False, "the error text belongs to an object that does not outlive the call"
    ln = A.ip.reg(st, o[0]).cells.get(o[1] + 8)
    if ln is None or A.ip.urange(st, A.ip.norm(st, ln[1]))[0] < 1: return False, "the error text can be empty"
    s = src(st, p.base)
    return True, "what" if s and s[0] == "what" else "built"


def facts(A, o, name, res, offs):
    st = o.state; aux = st.aux; ip = A.ip; out = []
    need = lambda ok, msg: out.append(msg) if not ok else None
    arg = lambda k: ip.norm(st, mkterm(term(64, 0, (1 << 64) - 1, "sym", ("arg", k))))
    def found(rule="the contract"):
        ks = [v for k, v in aux.items() if isinstance(k, tuple) and k[0] == "found" and k[1][0] == "ctx"]
        need(any(isinstance(v, V) and v == arg(CONTRACT) for v in ks), "success without having found the contract named by the caller")
        return [v for k, v in aux.items() if isinstance(k, tuple) and k[0] == "node"]
    if name.startswith("abieos_set_abi"):
        fmt = "from_json" if name == "abieos_set_abi" else "from_bin"
        need(aux.get(("flag", "parse")) == fmt, "success without parsing the ABI")
        if fmt == "from_json": need(aux.get(("flag", "end")) is True, "success without testing for the end of the document")
        need(aux.get(("flag", "version")) is True, "success without the version of the ABI tested")
        need(any(isinstance(k, tuple) and k[0] == "conv" and v for k, v in aux.items()), "success without converting the ABI")
        return out
    if "get_type_for" in name:
        found()
        want = offs["action_types" if "action" in name else "table_types"]
        cur = current(A, st, o.value)
        need(cur is not None, "the type text returned is not a string of the ABI")
        if cur is not None:
            nd = aux.get(("node", cur[0]))
            need(nd is not None and nd[1] == arg(2), "the text returned was not looked up under the caller's name")
            if nd is not None:
                own = aux.get(("node", nd[0][0])) if nd[0][0] != "ctx" else None
                need(own is not None and own[0][0] == "ctx" and own[1] == arg(CONTRACT), "the text returned does not come from the caller's contract")
                need(nd[0][1] == 40 + want, "the text returned comes from another table of the ABI")
        return out
    conv = None
    if "json_to_bin" in name:
        found(); what = "json_to_bin_reorderable" if name.endswith("reorderable") else "json_to_bin"; tyarg = "arg2"; inarg = "arg3"
        bin_ = offs["bin"]
        c = ip.reg(st, A.ctx).cells.get(bin_)
        conv = src(st, c[1].base) if c is not None and isinstance(c[1], P) else None
        need(conv is not None and conv[0] == "conv", "success without a conversion result where abieos_get_bin_data reads it")
    elif name in ("abieos_bin_to_json", "abieos_hex_to_json"):
        found(); what = "bin_to_json"; tyarg = "arg2"; inarg = "arg3" if name == "abieos_bin_to_json" else None
        conv = src(st, o.value.base) if isinstance(o.value, P) else None
        need(conv is not None and conv[0] == "conv", "the text returned is not the result of the conversion")
        t = aux.get(("left",))
        e = ip.norm(st, ip.icmp(st, "eq", ip.norm(st, t[0]), ip.norm(st, t[1]))) if t else None
        need(e is not None and e.is_const() and e.c == 1, "success with input left over")
    else: return out
    if conv is not None and conv[0] == "conv":
        need(conv[1] == what, "the conversion is %s" % conv[1])
        nd, sr = conv[2] or (None, None)
        need(nd is not None and nd[0][0] == "ctx" and nd[1] == arg(CONTRACT), "the type was not taken from the caller's contract")
        need(sr is not None and sr[0] == "copy" and sr[1].op == "region" and sr[1].args[0] == tyarg, "the type was not looked up under the caller's name")
        if inarg: need(conv[3] is not None and conv[3].op == "region" and conv[3].args[0] == inarg, "the conversion does not read the caller's input")
    return out


def offsets(res):
    """member offsets: by type in the debug information, and by what the accessors return"""
    t = Mod(build.dump(UNITS, "capit", roots=r"^abieos_get_error$", types=True)).types
    r = {}
    for x in t:
        if x.get("q") == "eosio::abi" or x.get("name") == "eosio::abi":
            for mb in x.get("members", []):
                if "n" in mb: r[mb["n"]] = mb["off"]
    if "action_types" not in r or "table_types" not in r: raise build.Broken("the members of eosio::abi are not where they were")
    A, outs = res["abieos_get_bin_data"]
    bs = {current(A, o.state, o.value) for o in outs}
    if len(bs) != 1 or None in bs or list(bs)[0][0] is not A.ctx: raise build.Broken("abieos_get_bin_data does not return the contents of a vector of the context")
    r["bin"] = bs.pop()[1]
    return r


def accessors(rep, res, offs):
    A, outs = res["abieos_get_bin_size"]
    for o in outs:
        c = A.ip.reg(o.state, A.ctx).cells.get(offs["bin"] + 8)
        v = A.ip.norm(o.state, o.value); ln = None if c is None else A.ip.fit(o.state, c[1], v.w)
        if c is None: ln = A.ip.fit(o.state, A.ip.load_const(o.state, A.ctx, offs["bin"] + 8, 8, "i64"), v.w)
        rep.ob("the size accessor reports the length of the result", "abieos_get_bin_size", v == A.ip.norm(o.state, ln), "returns %s" % v)
    rep.ob("the size accessor reports the length of the result", "abieos_get_bin_data", True)


def run(rep, tier):
    res = results(); lo = lastoff(res); offs = offsets(res)
    n = 0
    for name, (A, outs) in sorted(res.items()):
        if name in SILENT: continue
        for rule, msgs in A.bad.items():
            if rule == "undecided": rep.note("undecided in " + name, "; ".join(sorted(msgs))[:200])
            elif rule == "lookup": rep.ob("unsuccessful lookups are not used", name, False, "; ".join(sorted(msgs)[:3]))
        fails = {}; succ = {}; nf = ns = 0; whats = set(); exc = False
        for o in outs:
            if o.kind != "ret": continue
            s = status(A, o)
            if s is None: rep.ob("the result of the call is definite", name, False, "the value returned is neither success nor failure: %s" % o.value); continue
            if not s:
                nf += 1
                ok, t = describe(A, o.state, None, lo)
                if not ok: fails[t] = fails.get(t, 0) + 1
                if o.state.aux.get("exc"): exc = True
                whats.add(t)
            else:
                ns += 1
                for msg in facts(A, o, name, res, offs): succ[msg] = succ.get(msg, 0) + 1
        rep.ob("failure sets a text of its own", name, not fails and nf > 0, "; ".join("%s (%d of %d failing outcomes)" % (t, k, nf) for t, k in fails.items()) or "no failing outcome")
        if exc: rep.ob("exceptions are reported by their text", name, "what" in whats, "no outcome reports the text of the exception caught")
        rep.ob("success means the operation is complete", name, not succ and ns > 0, "; ".join("%s (%d of %d successful outcomes)" % (t, k, ns) for t, k in succ.items()) or "no successful outcome")
        n += len(outs)
    accessors(rep, res, offs)
    from . import c15
    c15.entries(rep, c15.streammod(), None)
    rep.note("outcomes analysed", n); rep.note("functions", len(res))
    rep.need("failure sets a text of its own", 11); rep.need("success means the operation is complete", 11)
