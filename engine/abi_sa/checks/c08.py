"""Effect analysis of process-wide storage over the uninlined IR of the whole library.

Every global that is not constant in the IR is examined: each of its uses has to be a read, or belong to its own
one-time initialisation; its address may leave the function only when the object is declared const.  One-time
initialisers of function statics must not depend on the arguments of the call that happens to run first.  No function
may call a C library routine that keeps state for the whole process."""

TECHNIQUE = "effect analysis of the whole-program IR: writes to process-wide storage"
import re
from ..lib import lib, refs, strip
from ..build import Broken

BANNED = {"strtok", "setlocale", "srand", "rand", "random", "srandom", "setenv", "putenv", "unsetenv", "localtime", "gmtime", "asctime", "ctime",
          "tmpnam", "signal", "chdir", "umask", "drand48", "lrand48", "srand48", "tzset", "std::locale::global", "std::set_terminate",
          "std::set_new_handler", "std::set_unexpected", "inet_ntoa", "getpwnam", "strsignal", "std::ios_base::sync_with_stdio", "fesetround", "std::srand", "std::rand"}


def is_init(f):
    return f.name.startswith(("__cxx_global_var_init", "_GLOBAL__sub_I", "_GLOBAL__I", "__cxx_global_array_dtor"))


def run(rep, tier):
    m = lib()
    mine = {n: g for n, g in m.globals.items() if not g["const"] and not g["decl"]}
    guards = {n for n in mine if n.startswith("_ZGV")}
    objs = {n: g for n, g in mine.items() if n not in guards and not n.startswith("_ZGR")}
    guarded = {"_Z" + n[4:] for n in guards}
    uses = {}
    nfn = 0
    for f in m.fns.values():
        nfn += 1
        for i in f.all():
            if i.op in ("call", "invoke"):
                q = m.q(i.callee) if i.callee else ""
                if q in BANNED or i.callee in BANNED:
                    rep.violation("banned:%s:%s" % (f.q, q), "process-wide C library state: %s calls %s at %s" % (f.q, q, i.where()))
            for o in list(i.ops) + [i.get("fptr") or []]:
                for g in refs(o):
                    if g in objs: uses.setdefault(g, []).append((f, i))
                    elif g in m.globals and m.globals[g]["const"] and i.op == "store" and strip(i.ops[1]) == g:
                        rep.violation("store:" + g, "store into constant %s in %s at %s" % (m.dem(g), f.q, i.where()))
    rep.ob("C library routines with process-wide state", "%d functions" % nfn, not rep.viol)
    for g, info in sorted(objs.items()):
        name = m.decls.get(g, {}).get("dem") or info.get("dem") or g
        bad = None
        dity = info.get("dity") or ""
        decl_const = bool(info.get("diconst"))
        if dity and re.search(r"[*&]\s*(const)?$", dity) and not dity.startswith("const") and g in guarded:
            bad = "a function static holding a pointer or reference to a mutable object (%s)" % dity
        for f, i in uses.get(g, []):
            own = is_init(f) or (g in guarded and in_guard(m, f, i, g))
            if i.op == "load": continue
            if i.op == "icmp": continue
            if i.op == "store" and strip(i.ops[1]) == g:
                if not own: bad = bad or "written by %s at %s" % (f.q, i.where())
                elif not is_init(f): bad = bad or tainted(m, f, i, g)
                continue
            if i.op == "store" or (i.op in ("phi", "select", "bitcast", "sub", "ptrtoint", "ret", "insertvalue") or "element" in i.op or i.op == "gep") \
                    or (i.op in ("call", "invoke") and (i.callee or "").startswith("llvm.mem")):
                kind, w = "read", None
                for k, o in enumerate(i.ops):
                    if g in refs(o):
                        kd, x = flow(f, [(i, k)])
                        if kd == "write" or (kd == "escape" and kind == "read"): kind, w = kd, x
                if kind == "read": continue
                if kind == "write":
                    if not own: bad = bad or "written by %s at %s" % (f.q, w.where()); continue
                elif not own:
                    if not decl_const: bad = bad or "address leaves %s at %s" % (f.q, w.where())
                    continue
            if i.callee and i.callee.startswith("__cxa_"): continue
            if own:
                if not is_init(f): bad = bad or tainted(m, f, i, g)
                continue
            if decl_const: continue
            if i.op in ("call", "invoke") and (i.callee or "").startswith("_ZNK") and i.ops and strip(i.ops[0]) == g and not any(g in refs(o) for o in i.ops[1:]): continue
            bad = bad or "address leaves %s at %s (%s)" % (f.q, i.where(), i.op)
        rep.ob("mutable globals are never written after initialisation", name, bad is None, bad, key="global:" + g,
               sample="%d uses, all reads" % len(uses.get(g, [])))
    rep.note("globals_examined", len(m.globals)); rep.note("functions", nfn); rep.note("non_constant_globals", sorted(objs))
    if nfn < 1000 or "abieos_create" not in m.fns: raise Broken("library module looks wrong: %d functions" % nfn)
    # the rule must be able to see a global at all
    rep.ob("constant tables", "%d constant globals" % sum(1 for g in m.globals.values() if g["const"]), True)


def flow(f, roots):
    """what happens to pointers derived from the instructions/uses in roots: ('write', i), ('escape', i) or ('read', None)"""
    ids = set(); res = ("read", None)
    work = list(roots)
    users = {}
    for i in f.all():
        for k, o in enumerate(i.ops):
            if o[0] == "v": users.setdefault(o[1], []).append((i, k))
    while work:
        i, k = work.pop()
        if i.op in ("load", "icmp", "switch", "br"): continue
        if i.op in ("gep", "phi", "select", "bitcast", "getelementptr"):
            if i.op != "gep" or k == 0 or True:
                if i.id not in ids: ids.add(i.id); work += users.get(i.id, [])
            continue
        if i.op in ("sub", "ptrtoint"): continue
        if i.op == "store":
            if k == 1: return ("write", i)
            a = i.ops[1]
            if a[0] == "v" and f.insts.get(a[1]) is not None and f.insts[a[1]].op == "alloca":
                if ("a", a[1]) not in ids:
                    ids.add(("a", a[1]))
                    for u, uk in users.get(a[1], []):
                        if u.op == "load": work += users.get(u.id, [])
                        elif u.op in ("store",): pass
                        elif u.op in ("call", "invoke") and not (u.callee or "").startswith("llvm."): res = ("escape", u)
                continue
            res = ("escape", i); continue
        if i.op in ("call", "invoke"):
            c = i.callee or ""
            if c.startswith(("llvm.memcpy", "llvm.memmove", "llvm.memset")):
                if k == 0: return ("write", i)
                continue
            if c.startswith("llvm."): continue
            if c in ("memcmp", "strlen", "strcmp", "memchr", "strchr", "strncmp"): continue
            res = ("escape", i); continue
        res = ("escape", i)
    return res


def in_guard(m, f, i, g):
    """is the use inside the guarded initialisation of g (dominated by a successful guard acquire, before the release)?"""
    gv = "_ZGV" + g[2:]
    acq = [x for x in f.all() if x.op in ("call", "invoke") and x.callee == "__cxa_guard_acquire" and strip(x.ops[0]) == gv]
    rel = [x for x in f.all() if x.op in ("call", "invoke") and x.callee in ("__cxa_guard_release", "__cxa_guard_abort") and strip(x.ops[0]) == gv]
    if not acq: return False
    if not any(f.inst_dominates(a, i) for a in acq if i.bb in f.reach): return i.bb not in f.reach
    # not reachable after the release without passing it: blocks from which a release is still ahead
    if any(r.bb == i.bb and r.idx < i.idx for r in rel): return False
    relb = {r.bb for r in rel}
    seen = set(); st = [i.bb]
    if i.bb in relb: return True
    while st:
        b = st.pop()
        for s in f.succ[b]:
            if s in relb: return True
            if s not in seen: seen.add(s); st.append(s)
    return False


def tainted(m, f, use, g):
    """does the initialisation use a parameter of f?"""
    t = set(); mem = set()
    for k, a in enumerate(f.args):
        t.add(k)
    ch = True
    while ch:
        ch = False
        for i in f.all():
            if i.op == "alloca": continue
            src = any((o[0] == "v" and (o[1] in t)) for o in i.ops)
            if i.op == "load":
                src = src or (i.ops[0][0] == "v" and i.ops[0][1] in mem)
            if i.op == "store":
                if i.ops[0][0] == "v" and i.ops[0][1] in t and i.ops[1][0] == "v" and i.ops[1][1] not in mem: mem.add(i.ops[1][1]); ch = True
                continue
            if i.op in ("call", "invoke"):
                src = src or any(o[0] == "v" and o[1] in mem for o in i.ops)
                if src:
                    for o in i.ops:
                        if o[0] == "v" and o[1] not in mem and f.insts.get(o[1]) is not None and f.insts[o[1]].op == "alloca": mem.add(o[1]); ch = True
            if src and i.id not in t: t.add(i.id); ch = True
    for k, o in enumerate(use.ops):
        if o[0] == "v" and (o[1] in t or o[1] in mem):
            return "one-time initialisation at %s depends on the arguments of the first call" % use.where()
    return None

