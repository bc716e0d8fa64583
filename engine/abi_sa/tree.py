"""json_to_jvalue interpreted abstractly: the JSON reader is replaced by a source that delivers every well-formed sequence of events up
to a bound, the handlers are entered for each, and the document tree that results is compared with the one the events describe."""
from .steps import *
from .steps import _I

TREEKEEP = r"^rapidjson::|^std::variant::(operator=|emplace)|^std::map::|^abieos::jvalue::|^std::vector::(_M_re|_M_range_insert|_M_range_init|_M_insert|_M_append|_M_default|_M_fill|insert|~)|^std::__cxx11::basic_string::\w|~"


def treemod(): return module(["drv:tree"], "tree", keep=TREEKEEP)


class Tree:
    def __init__(self, first, keys=("k", "kk"), maxlen=7):
        self.m = treemod(); self.L = lay(); self.keys = keys; self.maxlen = maxlen; self.first = first
        self.fnname = {self.m.q(n): n for n in self.m.fns}

    def text(self, ip, st, s):
        r = ip.region("chars:" + s, kind="strbuf")
        if r not in st.mem:
            st.mem[r] = Reg({k: (1, const(8, ord(c))) for k, c in enumerate(s + "\0")})
            st.aux[("text", r)] = s
        return P(r, const(64, 0))

    def set_text(self, ip, st, o, s):
        ip.store(st, o, self.text(ip, st, s), 8, _I); ip.store(st, ip.padd(o, const(64, 8)), const(64, len(s)), 8, _I)

    def get_text(self, ip, st, o):
        d = ip.load(st, o, 8, "ptr", _I); n = ip.norm(st, ip.load(st, ip.padd(o, const(64, 8)), 8, "i64", _I))
        t = text_of(ip, st, d) if isinstance(d, P) else None
        if t is None or not n.is_const() or n.c > len(t): return None
        return t[:n.c]

    def need_text(self, ip, st, o, i):
        t = self.get_text(ip, st, o)
        if t is None: raise Undecided("an unknown text at %s" % i.where())
        return t

    def at(self, p):
        if not isinstance(p, P) or not p.off.is_const(): raise Undecided("an unknown object")
        return (p.base, sgn(p.off.c, 64))

    def kind(self, ip, st, v):
        """kind of the jvalue's variant at v"""
        x = ip.norm(st, ip.load(st, ip.padd(v, const(64, self.L.jix)), 1, "i8", _I))
        if not x.is_const(): return None
        return {c: k for k, c in self.L.jkind.items()}.get(x.c)

    def set_kind(self, ip, st, v, k): ip.store(st, ip.padd(v, const(64, self.L.jix)), const(8, self.L.jkind[k]), 1, _I)

    def copy_value(self, ip, st, d, s, i):
        k = self.kind(ip, st, s)
        if k is None: raise Undecided("a value of an unknown kind at %s" % i.where())
        st.aux.pop(("map", *self.at(d)), None)
        if k == "bool": ip.store(st, d, ip.load(st, s, 1, "i8", _I), 1, _I)
        elif k == "string": self.set_text(ip, st, d, self.need_text(ip, st, s, i))
        elif k == "object":
            if st.aux.get(("map", *self.at(s)), ()): raise Undecided("an object with members is moved at %s" % i.where())
            st.aux[("map", *self.at(d))] = ()
        elif k == "array":
            for q in (0, 8, 16): ip.store(st, ip.padd(d, const(64, q)), ip.load(st, ip.padd(s, const(64, q)), 8, "ptr", _I), 8, _I)
        self.set_kind(ip, st, d, k)

    def models(self):
        M = dict(MODELS); L = self.L
        def nop(ip, n, st, ev, i, a): return None
        S = "std::__cxx11::basic_string::"
        def ctor(ip, n, st, ev, i, a):
            q = self.m.dem(i.callee); par = q[q.rfind("basic_string("):] if "::basic_string(" in q else q[q.rfind(">("):]
            if len(a) == 1: self.set_text(ip, st, a[0], "")
            elif "string_view" in q[q.find("::basic_string<std::"):][:60] or "__sv_wrapper" in par: self.set_text(ip, st, a[0], "")       # the copy of the input, which only the reader looks at
            elif "char const*, unsigned long" in par:
                t = text_of(ip, st, a[1]); k = ip.norm(st, a[2])
                if t is None or not k.is_const(): raise Undecided("an unknown text at %s" % i.where())
                self.set_text(ip, st, a[0], t[:k.c])
            elif "char const*" in par:
                t = text_of(ip, st, a[1])
                if t is None: raise Undecided("an unknown text at %s" % i.where())
                self.set_text(ip, st, a[0], t)
            elif isinstance(a[1], P): self.set_text(ip, st, a[0], self.need_text(ip, st, a[1], i)); moved(ip, st, par, a[1])
            else: raise Undecided("a string made by %s" % par[:60])
            return None
        def moved(ip, st, par, s):
            if "&&" in par: self.set_text(ip, st, s, "")
        def assign(ip, n, st, ev, i, a):
            q = self.m.dem(i.callee)
            if len(a) == 3: t = text_of(ip, st, a[1]); t = t[:a[2].c] if t is not None and a[2].is_const() else None
            elif "operator=(char const*)" in q or "assign(char const*)" in q: t = text_of(ip, st, a[1])
            else: t = self.get_text(ip, st, a[1]); 
            if t is None: raise Undecided("an unknown text at %s" % i.where())
            self.set_text(ip, st, a[0], t)
            if len(a) == 2 and q.endswith("&&)"): self.set_text(ip, st, a[1], "")
            return a[0]
        def vassign(ip, n, st, ev, i, a):
            q = self.m.dem(i.callee); mm = re.search(r"::(?:operator=|emplace)<(.*)", q)
            d = a[0]
            if not mm:
                self.copy_value(ip, st, d, a[1], i); return d
            ty = mm.group(1)
            src = a[1] if len(a) > 1 else None
            st.aux.pop(("map", *self.at(d)), None)
            if re.match(r"(std::)?nullptr_t|decltype ?\(nullptr\)", ty): k = "null"
            elif re.match(r"bool", ty):
                k = "bool"; b = ip.norm(st, ip.load(st, src, 1, "i8", _I)) if src is not None else const(8, 0)
                ip.store(st, d, b, 1, _I)
            elif re.match(r"std::__cxx11::basic_string|std::string", ty):
                k = "string"; self.set_text(ip, st, d, self.need_text(ip, st, src, i) if src is not None else "")
            elif re.match(r"std::map", ty): k = "object"; st.aux[("map", *self.at(d))] = st.aux.get(("map", *self.at(src)), ()) if src is not None else ()
            elif re.match(r"std::vector", ty):
                k = "array"
                for q in (0, 8, 16): ip.store(st, ip.padd(d, const(64, q)), ip.load(st, ip.padd(src, const(64, q)), 8, "ptr", _I) if src is not None else const(64, 0), 8, _I)
            else: raise Undecided("a value becomes %s" % ty[:60])
            self.set_kind(ip, st, d, k)
            return d
        def jassign(ip, n, st, ev, i, a):
            v = const(64, L.jvalue_value); self.copy_value(ip, st, ip.padd(a[0], v), ip.padd(a[1], v), i); return a[0]
        def jctor(ip, n, st, ev, i, a):
            v = const(64, L.jvalue_value)
            if len(a) > 1: self.copy_value(ip, st, ip.padd(a[0], v), ip.padd(a[1], v), i)
            else: self.set_kind(ip, st, ip.padd(a[0], v), "null")
            return None
        def node(ip, st, mp, key, i, make=True):
            k = ("map", *self.at(mp)); t = self.need_text(ip, st, key, i)
            have = st.aux.get(k, ())
            r = ip.region("node:%s.%s:%s" % (k[1].args[0], k[2], t), kind="node")
            if t not in have:
                if not make: return None, t, False
                st.aux[k] = have + (t,)
                self.set_kind(ip, st, P(r, const(64, 64 + L.jvalue_value)), "null"); self.set_text(ip, st, P(r, const(64, 32)), t)
                return r, t, True
            return r, t, False
        def index(ip, n, st, ev, i, a): return P(node(ip, st, a[0], a[1], i)[0], const(64, 64))
        def iat(ip, n, st, ev, i, a):
            r = node(ip, st, a[0], a[1], i, False)[0]
            if r is None: ip.raise_(n, st, ev, i, ("throw", "std::out_of_range", None)); return []
            return P(r, const(64, 64))
        def find(ip, n, st, ev, i, a):
            r = node(ip, st, a[0], a[1], i, False)[0]
            return ip.padd(a[0], const(64, 8)) if r is None else P(r, const(64, 0))
        def end(ip, n, st, ev, i, a): return ip.padd(a[0], const(64, 8))
        def emplace(ip, n, st, ev, i, a):
            q = self.m.dem(i.callee); assign_ = "insert_or_assign" in q
            r, t, new = node(ip, st, a[0], a[1], i)
            d = P(r, const(64, 64 + L.jvalue_value))
            if new or assign_:
                if len(a) > 2: self.copy_value(ip, st, d, ip.padd(a[2], const(64, L.jvalue_value)), i)
                else: self.set_kind(ip, st, d, "null")
            return Agg([P(r, const(64, 0)), const(8, int(new))])
        def realloc(ip, n, st, ev, i, a):
            dem = self.m.dem(i.callee); mm = re.search(r"vector<([\w:]+)", dem); ty = mm.group(1).split("::")[-1] if mm else "?"
            es = {"jvalue": L.jvalue_size, "json_to_jvalue_stack_entry": L.jj_size}.get(ty)
            if es is None or len(a) < 2: raise Undecided("a vector of %s grows" % ty)
            v, pos = a[:2]; x = a[2] if len(a) > 2 else None
            b = ip.load(st, v, 8, "ptr", _I); e = ip.load(st, ip.padd(v, const(64, 8)), 8, "ptr", _I)
            if isinstance(b, P): raise Undecided("a vector grows beyond the bound")
            c = st.aux.get(("vecs",), 0); st.aux[("vecs",)] = c + 1
            buf = term(64, ADDR_LO, ADDR_HI, "region", ("vec:%s:%d" % (ty, c), "vec"), True)
            if ty == "jvalue":
                if x is not None: self.copy_value(ip, st, P(buf, const(64, L.jvalue_value)), ip.padd(x, const(64, L.jvalue_value)), i)
                else: self.set_kind(ip, st, P(buf, const(64, L.jvalue_value)), "null")
            else:
                if x is None: raise Undecided("an empty entry is pushed")
                ip.store(st, P(buf, const(64, L.jj_value)), ip.load(st, ip.padd(x, const(64, L.jj_value)), 8, "ptr", _I), 8, _I)
                self.set_text(ip, st, P(buf, const(64, L.jj_key)), self.need_text(ip, st, ip.padd(x, const(64, L.jj_key)), i))
            ip.store(st, v, P(buf, const(64, 0)), 8, _I); ip.store(st, ip.padd(v, const(64, 8)), P(buf, const(64, es)), 8, _I)
            ip.store(st, ip.padd(v, const(64, 16)), P(buf, const(64, es * 64)), 8, _I)
            return P(buf, const(64, 0))
        def parse(ip, n, st, ev, i, a):
            if i.get("sret"): a = a[1:]
            state = a[2]
            if not isinstance(state, P): raise Undecided("the handler is not known")
            work = [(st.copy(), ())]; out = []
            while work:
                s, tr = work.pop()
                ctx = context(tr)
                if not ctx and tr:
                    s.aux[("parsed",)] = 1; s.aux[("trace",)] = tr; out.append((s, parsed(1), list(ev))); continue
                if not tr: nexts = list(self.first)
                else:
                    room = self.maxlen - len(tr) - len(ctx)
                    nexts = []
                    if ctx[-1] == "obj": nexts = [("end_object",)] + ([("key", k) for k in self.keys] if room > 1 else [])
                    elif ctx[-1] == "key": nexts = [("string", "s"), ("bool", 1), ("null",)] + ([("start_array",), ("start_object",)] if room > 1 else [])
                    else: nexts = [("end_array",)] + ([("number", "12"), ("bool", 0), ("null",)] if room > 0 else []) + ([("start_array",), ("start_object",)] if room > 1 else [])
                for k in nexts:
                    nm, args = {"start_object": ("object", []), "end_object": ("endobject", []), "start_array": ("array", []), "end_array": ("endarray", []), "null": ("null", [])}.get(k[0], (k[0], None))
                    s2 = s.copy()
                    if args is None: args = [const(1, k[1])] if k[0] == "bool" else [self.text(ip, s2, k[1] + "?"), const(32, len(k[1]))]
                    r = ip.enter(n, s2, ev, i, "sa_ev_" + nm, [state] + args)
                    for s3, v, _ in r:
                        v = ip.norm(s3, v)
                        if not v.is_const(): raise Undecided("a handler's answer is not known")
                        if v.c & 1: work.append((s3, tr + (k,)))
                        else: s3.aux[("parsed",)] = 0; s3.aux[("trace",)] = tr + (k,); out.append((s3, parsed(0), list(ev)))
            return out
        def parsed(ok): return Agg([const(64, 0 if ok else 16), const(64, 0)]) if self.agg else const(64, 0)
        def res_ok(ip, n, st, ev, i, a): return const(1, st.aux[("parsed",)])
        def res_err(ip, n, st, ev, i, a): return const(1, 1 - st.aux[("parsed",)])
        def res_code(ip, n, st, ev, i, a): return const(32, 0 if st.aux[("parsed",)] else 16)
        self.agg = True
        for q in (S + "basic_string",): M[q] = ctor
        for q in (S + "operator=", S + "assign"): M[q] = assign
        for q in (S + "push_back", S + "append", S + "reserve", "std::vector::~vector", S + "~basic_string", "rapidjson::Reader::Reader", "rapidjson::GenericReader::GenericReader", "rapidjson::GenericInsituStringStream::GenericInsituStringStream", "rapidjson::GenericReader::~GenericReader", "abieos::json_to_jvalue_state::~json_to_jvalue_state", "abieos::json_to_jvalue_stack_entry::~json_to_jvalue_stack_entry", "abieos::jvalue::~jvalue", "std::map::~map", "std::__new_allocator::~__new_allocator"): M[q] = nop
        M["std::variant::operator="] = M["std::variant::emplace"] = vassign; M["abieos::jvalue::operator="] = jassign; M["abieos::jvalue::jvalue"] = jctor
        def mapctor(ip, n, st, ev, i, a):
            if len(a) > 1 and isinstance(a[1], P) and st.aux.get(("map", *self.at(a[1]))): raise Undecided("an object with members is moved")
            st.aux[("map", *self.at(a[0]))] = (); return None
        M["std::map::map"] = mapctor; M["std::map::clear"] = mapctor
        M["std::map::operator[]"] = index; M["std::map::at"] = iat; M["std::map::find"] = find; M["std::map::end"] = end
        M["std::map::emplace"] = M["std::map::try_emplace"] = M["std::map::insert_or_assign"] = emplace
        M["std::vector::_M_realloc_insert"] = M["std::vector::_M_realloc_append"] = realloc
        M["rapidjson::GenericReader::Parse"] = M["rapidjson::GenericReader::IterativeParse"] = parse
        M["rapidjson::ParseResult::operator bool"] = res_ok; M["rapidjson::ParseResult::IsError"] = M["rapidjson::GenericReader::HasParseError"] = res_err
        M["rapidjson::ParseResult::Code"] = M["rapidjson::GenericReader::GetParseErrorCode"] = res_code
        return M

    def unknown(self, ip, n, st, ev, i, a):
        f = self.m.fns.get(i.callee)
        if f is not None and f.blocks and re.match(r"abieos::|eosio::", f.q): return ip.enter(n, st, ev, i, i.callee, a)      # part of a recursion
        raise Undecided("a call of %s at %s" % (self.m.dem(i.callee)[:100] if i.callee else "an unknown function", i.where()))

    def read(self, ip, st, v, depth=0):
        """the tree at a jvalue"""
        p = ip.padd(v, const(64, self.L.jvalue_value)); k = self.kind(ip, st, p)
        if depth > 8 or k is None: return ("?",)
        if k == "null": return ("null",)
        if k == "bool":
            b = ip.norm(st, ip.load(st, p, 1, "i8", _I)); return ("bool", b.c if b.is_const() else None)
        if k == "string": return ("string", self.get_text(ip, st, p))
        if k == "object":
            out = []
            for t in st.aux.get(("map", *self.at(p)), ()):
                kk = ("map", *self.at(p)); r = ip.region("node:%s.%s:%s" % (kk[1].args[0], kk[2], t), kind="node")
                out.append((t, self.read(ip, st, P(r, const(64, 64)), depth + 1)))
            return ("object", tuple(sorted(out)))
        b = ip.load(st, p, 8, "ptr", _I); e = ip.load(st, ip.padd(p, const(64, 8)), 8, "ptr", _I)
        if isnull(b) and isnull(e): return ("array", ())
        if not isinstance(b, P) or not isinstance(e, P) or b.base is not e.base: return ("?",)
        n = (e.off.c - b.off.c) // self.L.jvalue_size
        return ("array", tuple(self.read(ip, st, ip.padd(b, const(64, j * self.L.jvalue_size)), depth + 1) for j in range(n)))

    def run(self):
        def setup(ip, st):
            self.ip = ip
            r = ip.argregs["root"]
            self.set_kind(ip, st, P(r, const(64, self.L.jvalue_value)), "null")
        ip, outs = analyse(self.m, "sa_tree", ["root", const(64, 5), ("json", "bytes")], setup, unroll=100, models=self.models(), default_model=self.unknown, limit=100000, max_nodes=400000)
        return ip, outs


def context(tr):
    c = []
    for k in tr:
        if k[0] == "key": c.append("key"); continue
        if k[0] in ("end_object", "end_array"): c.pop()
        elif k[0] == "start_object": c.append("obj"); continue
        elif k[0] == "start_array": c.append("arr"); continue
        if c and c[-1] == "key": c.pop()
    return c


def spec_tree(tr):
    pos = [0]
    def value():
        k = tr[pos[0]]; pos[0] += 1
        if k[0] in ("null", "bool"): return k
        if k[0] in ("string", "number"): return ("string", k[1])
        if k[0] == "start_array":
            out = []
            while tr[pos[0]][0] != "end_array": out.append(value())
            pos[0] += 1; return ("array", tuple(out))
        d = {}
        while tr[pos[0]][0] != "end_object":
            f = tr[pos[0]][1]; pos[0] += 1; d[f] = value()
        pos[0] += 1; return ("object", tuple(sorted(d.items())))
    return value()


def dup(tr):
    """does an object name a member twice?"""
    c = []
    for k in tr:
        if k[0] == "start_object": c.append(set())
        elif k[0] == "end_object": c.pop()
        elif k[0] == "key":
            if k[1] in c[-1]: return True
            c[-1].add(k[1])
    return False


STARTS = [("null",), ("bool", 0), ("bool", 1), ("string", "s"), ("number", "12"), ("start_object",), ("start_array",)]


def trees(rep, rule, n):
    from .texts import pool
    lay(); treemod()
    jobs = [(f, n) for f in STARTS]
    for (f, _), r in zip(jobs, pool(jobs, _tree)):
        sub = "documents that begin with %s" % " ".join(map(str, f))
        if isinstance(r, str): rep.unknown(rule, sub, r); continue
        bad = [m for ok, m in r if not ok]
        for ok, m in r[:-1] if not bad else (): rep.ob(rule, m, True)
        rep.ob(rule, sub, not bad, "json_to_jvalue: " + "; ".join(bad[:2]), key="tree:%s" % f[0])


def _tree(job):
    first, n = job
    try:
        T = Tree([first], maxlen=n); ip, outs = T.run(); res = []
        for o in outs:
            tr = o.state.aux.get(("trace",), ())
            if dup(tr): continue
            what = " ".join(k[0] if len(k) == 1 else "%s:%s" % k for k in tr)
            if o.kind == "ret":
                w, g = spec_tree(tr), T.read(ip, o.state, P(ip.argregs["root"], const(64, 0)))
                if "?" in repr(g) or "None" in repr(g): return "the tree built for %s is not known" % what
                res.append((w == g, "%s becomes %s" % (what, g)))
            elif o.kind == "throw": res.append((False, "%s is refused" % what))
            else: return "an outcome of kind %s" % o.kind
        return res
    except Undecided as e: return str(e)
    except (build.Broken, TooBig) as e: return str(e)
    except KeyError as e: return "no counterpart of %s" % e
