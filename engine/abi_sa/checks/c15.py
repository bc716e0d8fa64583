"""json_token_stream is analysed by abstract interpretation with the parser left undefined (one parser step reports at most one
token of any kind, or fails): for every operation and every pending token the analysis decides when it returns, what it
returns, and what is left pending.  Parser callbacks must record the kind that was seen.  Every typed reader and the ABI-driven
streaming reader are then analysed over the same stream: the kinds of first token with which they can return, the closing token
of composites, and that nothing peeked is left unconsumed.  Entry points must reach the end-of-document test before returning."""
import re
from ..eng import *
from ..tokens import *
from ..lib import lib

TECHNIQUE = "abstract interpretation over a one-step parser model (typestate of the pending token)"
LEVEL = "proof"
INLINE = r"^rapidjson::|^eosio::(check|detail::\w+|json_token_stream::.*)$|^std::(reference_wrapper|optional|_Optional_\w+|_Optional_payload_base|basic_string_view|char_traits)::|^std::__(optional|uninit|get_)|^__gnu_cxx::char_traits"
NEVER = r"^eosio::(from_json|from_json_int|convert_\w+)$|^abieos::json_to_bin$|^std::operator"


def pre(lay, kinds, tag="pre"):
    def f(ip, st):
        b = tokbyte(tag); st.feas[b] = mask(kinds)
        ip.pre = b
        r = ip.argregs["s"]
        ip.store(st, P(r, const(64, lay.type)), ip.zext(st, mkterm(b), 32), 4, None)
        for o, w in ((lay.key, 8), (lay.key + 8, 8), (lay.string, 8), (lay.string + 8, 8)):
            ip.store(st, P(r, const(64, o)), mkterm(term(64, 0, (1 << 64) - 1, "sym", ("tv", tag, o))), 8, None)
        ip.store(st, P(r, const(64, lay.bool)), mkterm(tokbool(st, tag)), 1, None)
    return f


def kinds_of(lay, st, b): return {lay.name.get(x, x) for x in bits_of(st.feas.get(b, FULL))}


def operations(rep, tm, lay):
    GET = {"sa_t_null": "null", "sa_t_bool": "bool", "sa_t_string": "string", "sa_t_start_object": "start_object", "sa_t_key": "key",
           "sa_t_end_object": "end_object", "sa_t_start_array": "start_array", "sa_t_end_array": "end_array"}
    PRED = {"sa_t_null_pred": "null", "sa_t_maybe_key": "key", "sa_t_end_object_pred": "end_object", "sa_t_start_array_pred": "start_array", "sa_t_end_array_pred": "end_array"}
    models = dict(MODELS, **parse_model(lay, 1))
    for op, kind in list(GET.items()) + list(PRED.items()) + [("sa_t_peek", None), ("sa_t_end", None)]:
        for p in range(len(KINDS)):
            pk = lay.name[p]
            args = ["s"] + (["o"] if op in ("sa_t_string", "sa_t_key", "sa_t_maybe_key") else [])
            ip, outs = analyse(tm, op, args, pre(lay, [p]), models=models, limit=40)
            r = ip.argregs["s"]
            good = set()
            for o in outs:
                st = o.state
                n = st.aux.get(("parses",), 0)
                rep.ob("parser is stepped only when nothing is pending", "%s, pending %s" % (op, pk), n <= (1 if p == 0 else 0) and (op != "sa_t_end" or n == 0),
                       "steps the parser %d times" % n)
                last = st.aux.get(("last",))
                cur = last if last is not None else ip.pre
                ks = kinds_of(lay, st, cur) if (p or last is not None) else {"unread"}
                left = ip.load_const(st, r, lay.type, 4, "i32")
                if o.kind != "ret": continue
                for st2, lv in cases(ip, st, left):
                    ks2 = kinds_of(lay, st2, cur) if (p or last is not None) else {"unread"}
                    if op == "sa_t_peek":
                        ok = lv.is_const() and ks2 == {lay.name.get(lv.c)}
                        rep.ob("peeking consumes nothing", "%s, pending %s" % (op, pk), ok, "leaves %s of %s" % (lv, sorted(ks2)))
                    elif op == "sa_t_end":
                        rep.ob("end only when nothing is pending", "pending %s" % pk, p == 0, "returns")
                    elif op in GET:
                        good |= ks2
                        rep.ob("get returns only for its kind", "%s, pending %s" % (op, pk), ks2 == {kind}, "returns on %s" % sorted(map(str, ks2)))
                        rep.ob("get consumes its token", "%s, pending %s" % (op, pk), lv.is_const() and lay.name.get(lv.c) == "unread", "leaves %s" % lv)
                        value(rep, ip, st2, op, lay, pk, "pre" if p else last.args[1], o)
                    else:
                        for st3, t in truth(ip, st2, o.value):
                            ks3 = kinds_of(lay, st3, cur) if (p or last is not None) else {"unread"}
                            if t is None: raise build.Broken("the result of %s is not determined" % op)
                            lv3 = ip.norm(st3, lv)
                            if t:
                                good |= ks3
                                rep.ob("test is true only for its kind", "%s, pending %s" % (op, pk), ks3 == {kind}, "true on %s" % sorted(map(str, ks3)))
                                rep.ob("get consumes its token", "%s, pending %s" % (op, pk), lv3.is_const() and lay.name.get(lv3.c) == "unread", "leaves %s" % lv3)
                                if op == "sa_t_maybe_key": value(rep, ip, st3, op, lay, pk, "pre" if p else last.args[1], o)
                            else:
                                rep.ob("test is false only for other kinds", "%s, pending %s" % (op, pk), kind not in ks3, "false on %s" % kind)
                                rep.ob("failed test consumes nothing", "%s, pending %s" % (op, pk), lv3.is_const() and ks3 == {lay.name.get(lv3.c)}, "leaves %s of %s" % (lv3, sorted(map(str, ks3))))
            if kind and (p == 0 or pk == kind):
                rep.ob("its kind is accepted", "%s, pending %s" % (op, pk), kind in good, "never returns for it")


def value(rep, ip, st, op, lay, pk, tag, o):
    sub = "%s, pending %s" % (op, pk)
    if op == "sa_t_bool":
        t = tokbool(st.copy(), tag)
        r = [(t2, bits_of(s2.feas.get(t, FULL))) for s2, t2 in truth(ip, st, o.value)]
        rep.ob("value is the token's", sub, sorted(r, key=str) == [(False, [0]), (True, [1])], "returns %s" % o.value)
    elif op in ("sa_t_string", "sa_t_key", "sa_t_maybe_key"):
        off = lay.string if op == "sa_t_string" else lay.key
        r = ip.argregs["o"]
        for k in (0, 8):
            v = ip.load_const(st, r, k, 8, "i64"); want = mkterm(term(64, 0, (1 << 64) - 1, "sym", ("tv", tag, off + k)))
            if isinstance(v, P) and not v.off.lin and v.off.c == 0 and v.base.op == "ptr" and v.base.args[0] == "cast": v = v.base.args[1]
            rep.ob("value is the token's", sub, v == want, "returns %s" % v)


def callbacks(rep, tm, lay):
    H = {"null": "null", "bool": "bool", "number": "string", "string": "string", "key": "key", "start_object": "start_object", "end_object": "end_object",
         "start_array": "start_array", "end_array": "end_array"}
    for h, kind in H.items():
        args = ["s"]
        n = term(32, 0, (1 << 32) - 1, "sym", ("n",)); b = term(8, 0, 1, "sym", ("b",))
        if h in ("number", "string", "key"): args += [("p", "obj"), mkterm(n)]
        if h == "bool": args += [mkterm(b)]
        f = fn(tm, "sa_h_" + h)
        if h == "bool" and f.args[1]["ty"] == "i1": args[1] = ip_bool()
        ip, outs = analyse(tm, "sa_h_" + h, args, pre(lay, [0]))
        r = ip.argregs["s"]
        for o in outs:
            st = o.state
            t = ip.load_const(st, r, lay.type, 4, "i32")
            rep.ob("callback records the kind", h, o.kind == "ret" and t.is_const() and lay.name.get(t.c) == kind, "records %s" % t)
            rep.ob("callback accepts", h, o.kind == "ret" and o.value.is_const() and o.value.c & 1 == 1, "returns %s" % o.value)
            if h in ("number", "string", "key"):
                off = lay.key if h == "key" else lay.string
                ln = ip.load_const(st, r, off, 8, "i64"); p = ip.load_const(st, r, off + 8, 8, "ptr")
                rep.ob("callback records the text", h, isinstance(p, P) and p.base is ip.argregs["p"] and p.off.is_const() and p.off.c == 0 and
                       (ip.uval(st, ln) - L({n: 1}, 0)).key() == L({}, 0).key(), "records %s, %s" % (p, ln))
            if h == "bool":
                v = ip.load_const(st, r, lay.bool, 1, "i8")
                rep.ob("callback records the value", h, len(v.lin) == 1 and v.lin[0][1] == 1 and v.c == 0 and v.lin[0][0].args[-1:] in (("b",), b.args), "records %s" % v)
    for h in ("int", "uint", "int64", "uint64", "double"):
        ip, outs = analyse(tm, "sa_h_" + h, ["s"], pre(lay, [0]))
        for o in outs: rep.ob("unused callback fails", h, o.kind == "ret" and o.value.is_const() and o.value.c & 1 == 0, "returns %s" % o.value)


def ip_bool(): return mkterm(term(1, 0, 1, "sym", ("b",)))


# -- readers --
def nested(lay, arg_of):
    """a nested reader consumes one whole value"""
    def m(ip, n, st, ev, i, a):
        k = arg_of(ip, i, a)
        if k is None: return default_call(ip, n, st, ev, i, a)
        s = a[k]
        off = (sgn(s.off.c, 64) if s.off.is_const() else 0) + lay.type
        pend = ip.norm(st, ip.load_const(st, s.base, off, 4, "i32"))
        fb = st.aux.get(("first",))
        if fb is None or isinstance(fb, Term) and pend.bits is not None and any(b not in (0, 1) and b[1] == fb for b in pend.bits): st.aux[("first",)] = "sub"
        st.aux[("sub",)] = True
        base = s.base
        skip = [b for b in (base,)]
        ip.havoc_reach(st, [x for j, x in enumerate(a) if j != k], (i.id, ip.cur.loc[1]), skip)
        r = ip.reg(st, base)
        ip.havoc(st, base, (i.id, ip.cur.loc[1]))
        ip.store(st, P(base, const(64, (sgn(s.off.c, 64) if s.off.is_const() else 0) + lay.type)), const(32, 0), 4, i)
        st.aux[("last",)] = "sub"
        ip.outcome(n, "throw", st.copy(), ev, info=("nested",), inst=i)
        return None
    return m


LEAF = {"string"}


def expected(ty):
    """kinds of first token a reader of this type may accept; 'sub': decided by the nested reader"""
    ty = ty.strip()
    if ty == "bool": return {"bool"}, None
    if ty.startswith("std::vector<char") : return None
    if ty.startswith("std::vector<"): return {"start_array"}, "end_array"
    if ty.startswith("std::variant<std::array<char"): return {"string"}, None
    if ty.startswith("std::variant<"): return {"start_array"}, "end_array"
    if ty.startswith("std::optional<"): return {"null", "sub"}, None
    if ty.startswith("eosio::might_not_exist<"): return {"sub"}, None
    if ty.startswith("zoo::") or ty.startswith("eosio::") and ty.endswith("_def") or ty in ("eosio::clause_pair", "eosio::error_message"): return {"start_object"}, "end_object"
    if ty.startswith("std::pair<"): return set(), None
    return {"string", "sub"}, None


def first_param(dem):
    """type of the first parameter of a demangled function"""
    k = dem.rfind("(") if dem.count("(") == 1 else None
    d = 0; start = None
    # the parameter list is the last top-level parenthesis group
    for j in range(len(dem) - 1, -1, -1):
        if dem[j] == ")": d += 1
        elif dem[j] == "(":
            d -= 1
            if d == 0: start = j; break
    if start is None: return ""
    a = dem[start + 1:]
    d = 0
    for j, ch in enumerate(a):
        if ch in "<([": d += 1
        elif ch in ">)]":
            if d == 0: return a[:j]
            d -= 1
        elif ch == "," and d == 0: return a[:j]
    return a


def readmod():
    return module(["drv:jsonin", "src:crypto.cpp"], "jsonin", keep=NEVER, inline=INLINE, sig="json_token_stream")


def readers(rep, lay):
    mod = readmod()

    def arg_of(ip, i, a):
        d = ip.mod.dem(i.callee)
        return 1 if len(a) == 2 else None
    models = dict(MODELS, **parse_model(lay, 1)); models["eosio::from_json"] = nested(lay, arg_of); models["eosio::from_json_int"] = nested(lay, arg_of)
    for f in mod.fns.values():
        if f.q not in ("eosio::from_json", "eosio::from_json_int") or len(f.args) != 2: continue
        ty = first_param(f.dem).rstrip("&")
        run_reader(rep, mod, lay, f, models, ty, expected(ty) if f.q.endswith("from_json") else ({"string"}, None), 1)
    # a skipped member is one whole value
    SEQ = ["s", "{}", "[]", "{ks}", "[s]", "[ss]", "[[]]", "{k[]}", "{k{}}", "[{}]", "[{}s]", "{ks ks}".replace(" ", ""), "{k[s]ks}", "[[][]]"]
    KK = {"s": "string", "{": "start_object", "}": "end_object", "[": "start_array", "]": "end_array", "k": "key"}
    for seq in SEQ:
        ks = [KK[c] for c in seq]
        cnt = [0]

        def model(ip, n, st, ev, i, a):
            c = st.aux.get(("n",), 0); st.aux[("n",)] = c + 1
            if c >= len(ks): ip.outcome(n, "throw", st, ev, info=("beyond",), inst=i); return []
            ip.store(st, P(a[2].base, const(64, sgn(a[2].off.c, 64) + lay.type)), const(32, lay.kind[ks[c]]), 4, i)
            return const(1, 1)
        ip, outs = analyse(mod, "sa_skip_value", ["s"], lambda ip, st: ip.store(st, P(ip.argregs["s"], const(64, lay.type)), const(32, 0), 4, None),
                           unroll=16, models=dict(MODELS, **{"rapidjson::Reader::IterativeParseNext": model}))
        for o in outs:
            rep.ob("skipping consumes one value", seq, o.kind == "ret" and o.state.aux.get(("n",)) == len(seq), "consumes %s of %d tokens, ends by %s" % (o.state.aux.get(("n",)), len(seq), o.kind))


def run_reader(rep, mod, lay, f, models, ty, exp, sarg, setup=None, args=None, label=None, kw={}):
    label = label or "%s<%s>" % (f.q.split("::")[-1], ty)
    names = args or ["a%d" % k for k in range(len(f.args))]
    names = list(names); names[sarg] = "s"

    def su(ip, st):
        ip.store(st, P(ip.argregs["s"], const(64, lay.type)), const(32, 0), 4, None)
        if setup: setup(ip, st)
    try:
        ip, outs = analyse(mod, f.name, names, su, unroll=0, models=models, **kw)
    except build.Broken as e:
        rep.unknown("reader returns only for the kinds of its type", label, str(e)); return
    for o in outs:
        if o.kind != "ret": continue
        st = o.state
        fb = st.aux.get(("first",))
        ks = {"sub"} if fb == "sub" else (kinds_of(lay, st, fb) if fb is not None else {"nothing"})
        if exp is not None:
            if "sub" in exp[0]: ks = ks - {"unread"}
            rep.ob("reader returns only for the kinds of its type", label, ks <= exp[0], "returns after a first token of kind %s" % ", ".join(sorted(map(str, ks - exp[0]))))
            if exp[1]:
                lb = st.aux.get(("last",))
                lk = {"a value"} if lb == "sub" else (kinds_of(lay, st, lb) if lb is not None else {"nothing"})
                rep.ob("composite ends with its closing token", label, lk == {exp[1]}, "returns after %s" % ", ".join(sorted(map(str, lk))))
        t = ip.norm(st, ip.load_const(st, ip.argregs["s"], lay.type, 4, "i32"))
        rep.ob("nothing is left unconsumed", label, t.is_const() and t.c == lay.kind["unread"], "a token that was looked at may be left pending (%s)" % t)


STREAM_UNITS = ["src:abi.cpp", "src:abieos.cpp", "src:crypto.cpp"]
SINLINE = INLINE + r"|^std::(holds_alternative|get|get_if|get)$|^std::__detail::__variant::|^rapidjson::(GenericReader|ParseResult)::(operator bool|IsError|HasParseError)$"
SNEVER = NEVER + r"|^rapidjson::\w+::(IterativeParse\w*|Parse\w*)$|^abieos::receive_event$|^std::variant::index$"


def streammod():
    return module(STREAM_UNITS, "jsonstream", roots=".*", keep=SNEVER, inline=SINLINE, sig="json_token_stream")


def streaming(rep, lay):
    mod = streammod()
    consume = nested(lay, lambda ip, i, a: next((k for k, x in enumerate(a) if isinstance(x, P) and x.base is ip.argregs.get("s")), None))

    def default(ip, n, st, ev, i, a):
        return consume(ip, n, st, ev, i, a) if not i.callee else container_call(ip, n, st, ev, i, a)
    models = dict(MODELS, **parse_model(lay, 1))
    for q in ("eosio::from_json", "eosio::from_json_int", "abieos::json_to_bin"): models[q] = consume
    EXP = {"pseudo_object": ({"start_object"}, {"end_object", "key", "sub"}), "pseudo_array": ({"start_array"}, {"end_array", "sub"}),
           "pseudo_variant": ({"start_array"}, {"end_array", "string", "sub"}), "pseudo_optional": ({"null", "sub"},) * 2, "pseudo_extension": ({"sub"},) * 2}
    JV = {"pseudo_object": 3, "pseudo_array": 4, "pseudo_variant": 4}
    seen = 0
    for f in mod.fns.values():
        if f.q != "abieos::json_to_bin" or len(f.args) != 5: continue
        ty = first_param(f.dem).rstrip("*").strip(); short = ty.split("::")[-1]
        if "json_to_bin_state" in f.dem:
            for start in (1, 0):
                exp = EXP.get(short)
                if exp is None: ex = {"string"} if ty == "eosio::bytes" or short.startswith("basic_string") or ty.startswith("std::__cxx11::basic_string") else {"sub"}
                else: ex = exp[1 - start]
                if exp is None and not start: continue
                ags = ["t", "s", mkterm(term(1, 0, 1, "sym", ("ext",))), "ty", const(1, start)]
                run_reader(rep, mod, lay, f, models, ty, (ex, None), 1, args=ags, label="json_to_bin(%s, %s)" % (ty, "start" if start else "continuation"), kw=dict(default_model=default))
                seen += 1
        elif "jvalue_to_bin_state" in f.dem and short in JV:
            jv(rep, mod, f, JV[short], ["t", "s", mkterm(term(1, 0, 1, "sym", ("ext",))), "ty", const(1, 1)], "json_to_bin(%s, jvalue, start)" % ty)
    if seen < 40: raise build.Broken("streaming JSON conversions are missing")
    for m, ix in (("get_bool", 1), ("get_string", 2), ("get_null", 0), ("get_null_pred", 0)):
        for f in mod.fns.values():
            if f.q == "abieos::jvalue_to_bin_state::" + m: jv(rep, mod, f, ix, ["s"], "jvalue " + m, pred=m.endswith("_pred"))
    entries(rep, mod, lay); handler(rep, mod)


def targs(s):
    """top-level template arguments up to the closing bracket"""
    out, d, cur = [], 0, ""
    for ch in s:
        if ch in "<([": d += 1
        if ch in ">)]":
            if d == 0: break
            d -= 1
        if ch == "," and d == 0: out.append(cur.strip()); cur = ""
        else: cur += ch
    return out + [cur.strip()]


def jv(rep, mod, f, ix, args, label, pred=False):
    """the alternative of the value that is being converted"""
    def index(ip, n, st, ev, i, a):
        b = term(8, 0, 255, "byte", ("vidx", a[0].base, str(a[0].off) if isinstance(a[0], P) else 0))
        st.feas.setdefault(b, mask(range(5)))
        st.aux.setdefault(("vfirst",), b)
        return ip.zext(st, mkterm(b), 64)
    def uniq(ip, n, st, ev, i, a):
        d = ip.mod.dem(i.callee); l = targs(d[d.index("<") + 1:])
        return const(64, l[1:].index(l[0]))
    try: ip, outs = analyse(mod, f.name, args, None, unroll=0, models=dict(MODELS, **{"std::variant::index": index, "std::__find_uniq_type_in_pack": uniq}))
    except build.Broken as e: rep.unknown("reader returns only for the kinds of its type", label, str(e)); return
    NM = ("null", "bool", "string", "object", "array")
    for o in outs:
        if o.kind != "ret": continue
        b = o.state.aux.get(("vfirst",))
        for st, t in (truth(ip, o.state, o.value) if pred else [(o.state, True)]):
            ks = set(bits_of(st.feas.get(b, FULL))) if b is not None else {None}
            if t: rep.ob("value is used only as its kind", label, ks == {ix}, "accepts a value of kind %s" % ", ".join(NM[k] if k is not None and k < 5 else "any" for k in sorted(ks - {ix}, key=str)))
            else: rep.ob("value is used only as its kind", label, ix not in ks, "refuses its own kind")


def entries(rep, mod, lay):
    """whoever creates a token stream reaches the end-of-document test after the last value"""
    from ..flow import Flow

    def call(i): return i.op in ("call", "invoke")

    def atom(i):
        if call(i) and i.callee and mod.q(i.callee) == "rapidjson::Reader::IterativeParseComplete": return {"complete"}, ()

    def kill(i, facts):
        if not call(i): return ()
        q = mod.q(i.callee) if i.callee else "abieos::json_to_bin"
        return {"complete"} if q == "rapidjson::Reader::IterativeParseNext" or q.startswith(("eosio::from_json", "abieos::json_to_bin")) and len(i.ops) >= 2 else ()
    n = 0
    for f in mod.fns.values():
        if f.q.startswith("rapidjson::"): continue
        if not any(i.op == "alloca" and re.search(r"json_token_stream|json_to_bin_state", str(i.d.get("aty"))) for l in f.blocks.values() for i in l): continue
        n += 1
        label = re.sub(r"\$_\d+", "lambda", f.q)
        fl = Flow(f, atom, kill=kill)
        for i in f.all():
            if i.op != "ret": continue
            held = fl.at(i)
            rep.ob("end of document is reached before success", label, held is None or "complete" in held, "can return without a successful end-of-document test after the last value")
    if n < 2: raise build.Broken("entry points for JSON text are missing")
    # parser flags
    k = 0
    for f in mod.fns.values():
        m = re.search(r"rapidjson::(?:Reader|GenericReader<.*>)::(IterativeParseNext|Parse)<(\d+)u", f.dem)
        if not m: continue
        fl = int(m.group(2)); k += 1
        rep.ob("parser accepts exactly one strict JSON text", "%s<%d>" % (m.group(1), fl), fl & (8 | 32 | 128 | 256) == 0 and fl & 2 and fl & 64 and fl & 4,
               "parser flags %d (8 stop when done, 32 comments, 128 trailing commas, 256 NaN must be off; 2 validate encoding, 4 iterative, 64 numbers as strings on)" % fl)
    if k < 2: raise build.Broken("instances of the JSON parser are missing")
    # the result of a whole-document parse is tested
    for f in mod.fns.values():
        cs = [i for l in f.blocks.values() for i in l if i.op in ("call", "invoke") and i.callee and re.search(r"rapidjson::.*Reader.*::Parse<\d+u", mod.dem(i.callee))]
        if not cs or f.q.startswith("rapidjson::"): continue

        def parse(ip, n, st, ev, i, a):
            b = term(8, 0, 255, "byte", ("perr", i.id)); st.feas[b] = FULL; st.aux[("perr",)] = b
            for x in a: ip.havoc_reach(st, [x], (i.id, 0))
            return Agg([ip.zext(st, mkterm(b), 32), mkterm(term(64, 0, (1 << 64) - 1, "sym", ("poff", i.id)))])
        ms = dict(MODELS)
        for c in cs: ms[c.callee] = parse
        try: ip, outs = analyse(mod, f.name, ["a%d" % k if a["ty"] == "ptr" else mkterm(term(ibits(a["ty"]) or 64, 0, (1 << (ibits(a["ty"]) or 64)) - 1, "sym", ("arg", k))) for k, a in enumerate(f.args)],
                                None, unroll=0, models=ms, limit=4)
        except build.Broken as e: rep.unknown("reader returns only for the kinds of its type", f.q, str(e)); continue
        for o in outs:
            if o.kind != "ret": continue
            b = o.state.aux.get(("perr",))
            rep.ob("parse failure is reported", f.q, b is not None and bits_of(o.state.feas.get(b, FULL)) == [0], "returns although the parser may have failed")


def handler(rep, mod):
    """callbacks of the whole-document parser forward the event they stand for"""
    H = {"Null": 0, "Bool": 1, "RawNumber": 2, "String": 2, "StartObject": 3, "Key": 4, "EndObject": 5, "StartArray": 6, "EndArray": 7}

    def recv(ip, n, st, ev, i, a):
        st.aux[("event",)] = a[1]
        b = term(8, 0, 255, "byte", ("recv", i.id)); st.feas[b] = mask([0, 1]); st.aux[("recv",)] = b
        for x in a[:1]: ip.havoc_reach(st, [x], (i.id, 0))
        return ip.trunc(st, mkterm(b), 1)
    hm = module(STREAM_UNITS, "jsonhandler", roots="json_reader_handler::|^abieos::receive_event$", keep=r"^abieos::receive_event$|^std::__cxx11::basic_string::|~", inline=r"json_reader_handler::")
    n = 0
    for f in hm.fns.values():
        m = re.match(r"abieos::json_reader_handler::(\w+)$", f.q)
        if not m or m.group(1) not in H: continue
        n += 1; h = m.group(1)
        args = ["s" if k == 0 else ("p", "obj") if a["ty"] == "ptr" else mkterm(term(ibits(a["ty"]), 0, (1 << ibits(a["ty"])) - 1, "sym", ("arg", k))) for k, a in enumerate(f.args)]
        ip, outs = analyse(hm, f.name, args, None, models=dict(MODELS, **{"abieos::receive_event": recv}))
        for o in outs:
            if o.kind != "ret": continue
            e = o.state.aux.get(("event",)); b = o.state.aux.get(("recv",))
            rep.ob("callback forwards its event", h, e is not None and e.is_const() and e.c == H[h], "forwards %s" % e)
            for st, t in truth(ip, o.state, o.value):
                rep.ob("callback reports refusal", h, b is not None and t is not None and bits_of(st.feas.get(b, FULL)) == [int(t)], "its result is not that of the receiver")
    if n < 8: raise build.Broken("callbacks of the whole-document parser are missing")


def run(rep, tier):
    tm = tokmod(); lay = Layout(tm)
    operations(rep, tm, lay); callbacks(rep, tm, lay); readers(rep, lay); streaming(rep, lay)
    rep.need("get returns only for its kind", 8); rep.need("callback records the kind", 9); rep.need("reader returns only for the kinds of its type", 30)
