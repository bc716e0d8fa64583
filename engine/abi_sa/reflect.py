"""The reflected structures of the library: discovered in the syntax tree, their visitors instantiated in a generated driver, and the
sequence of visited members read from the compiled form."""
import hashlib, os, re, subprocess
from . import build
from .build import Broken
from .eng import module

HEADERS = ["abieos.hpp", "eosio/abi.hpp", "eosio/chain_types.hpp", "eosio/from_bin.hpp", "eosio/from_json.hpp", "eosio/from_string.hpp", "eosio/opaque.hpp",
           "eosio/ship_protocol.hpp", "eosio/convert.hpp", "eosio/to_bin.hpp", "eosio/to_json.hpp", "eosio/to_key.hpp"]
FLAGS = [f for f in build.CXXFLAGS if f not in ("-emit-llvm", "-c", "-g")]


def discover():
    """[(namespace, type as written)] of every eosio_for_each_field overload"""
    out = os.path.join(build.cachedir(), "reflected.txt")
    if not os.path.exists(out):
        src = os.path.join(build.cachedir(), "reflected.cpp")
        with open(src, "w") as f: f.write("".join("#include \"%s\"\n" % h for h in HEADERS))
        r = subprocess.run(["clang++-18"] + FLAGS + ["-fsyntax-only", "-Xclang", "-ast-dump", "-Xclang", "-ast-dump-filter=eosio_for_each_field", src], capture_output=True, text=True)
        if r.returncode: raise Broken("the headers do not compile: %s" % r.stderr[:500])
        res = []; ns = None
        for l in r.stdout.splitlines():
            m = re.match(r"Dumping (.*)::eosio_for_each_field:", l)
            if m: ns = m.group(1); seen = False; continue
            if l.startswith("Dumping "): ns = ""; seen = False; continue
            m = re.match(r"^[^A-Za-z]{2}[|`]-ParmVarDecl .*'([^']*?) \*'(:'.*')?$", l)
            if m and ns is not None and not seen:
                seen = True
                if (ns, m.group(1)) not in res and "<" not in m.group(1): res.append((ns, m.group(1)))
        tmp = out + ".tmp%d" % os.getpid()
        with open(tmp, "w") as f: f.write("".join("%s\t%s\n" % x for x in res))
        os.replace(tmp, out)
    return [tuple(l.rstrip("\n").split("\t")) for l in open(out)]


def driver(variants):
    ts = discover()
    s = "".join("#include \"%s\"\n" % h for h in HEADERS)
    s += """
template <typename M> void sa_note(const char* n, M& m);
template <typename V> void sa_alternatives(V& v);
template <typename T> void sa_self(T& v);
template <typename T> void sa_visit(T& x) { sa_self(x); eosio_for_each_field((T*)nullptr, [&](const char* n, auto m) { sa_note(n, x.*m((T*)nullptr)); }); }
"""
    for k, (ns, t) in enumerate(ts):
        s += "namespace %s { extern \"C\" void sa_refl_%d(%s& x) { ::sa_visit(x); } }\n" % (ns, k, t) if ns else "extern \"C\" void sa_refl_%d(%s& x) { ::sa_visit(x); }\n" % (k, t)
    for k, v in enumerate(variants): s += "extern \"C\" void sa_var_%d(%s& x) { sa_alternatives(x); }\n" % (k, v)
    name = "refl-" + hashlib.sha256(s.encode()).hexdigest()[:12]
    p = os.path.join(build.cachedir(), name + ".cpp")
    if not os.path.exists(p):
        with open(p + ".tmp%d" % os.getpid(), "w") as f: f.write(s)
        os.replace(p + ".tmp%d" % os.getpid(), p)
    return ts, name


def args_of(t):
    """template arguments at the top level of a demangled type"""
    i = t.find("<")
    if i < 0: return []
    out = []; d = 0; cur = ""
    for c in t[i + 1:t.rindex(">")]:
        if c in "<(": d += 1
        if c in ">)": d -= 1
        if c == "," and d == 0: out.append(cur.strip()); cur = ""
        else: cur += c
    return out + [cur.strip()] if cur.strip() else out


def plain(t):
    """one spelling of a type for the demangler and the debug information"""
    return re.sub(r"(\d)(ul|UL|u|U|l|L)\b", r"\1", re.sub(r">\s+>", ">>", re.sub(r">\s+>", ">>", t))).replace("std::__cxx11::", "std::").replace("__int128 unsigned", "unsigned __int128")


class Reflection:
    def __init__(self, variants=()):
        self.ts, unit = driver(variants)
        self.mod = m = module(["gen:" + unit], "refl", types=True, closure=False, inline=r"^(?!.*(sa_note|sa_alternatives|sa_self)).*$")
        self.types = {plain(t["name"]): t for t in m.types if t.get("members") is not None or t.get("enum")}
        self.visits = {}
        for k, (ns, t) in enumerate(self.ts):
            f = m.fns.get("sa_refl_%d" % k)
            if f is None: continue
            self.visits[k] = [i for b in f.order for i in f.blocks[b] if i.callee and "sa_note" in i.callee]

    def full(self, k):
        """qualified name of the type in the debug information"""
        f = self.mod.fns["sa_refl_%d" % k]
        for b in f.order:
            for i in f.blocks[b]:
                if i.callee and "sa_self" in i.callee:
                    q = plain(re.search(r"sa_self<(.*)>\(", self.mod.dem(i.callee)).group(1))
                    return q if q in self.types else None
        return None

    def members(self, q, base=0):
        """[(name, offset, type)] of the data members, those of bases first"""
        t = self.types.get(plain(q))
        if t is None: raise Broken("no layout of %s" % q)
        out = []
        for x in t["members"]:
            if "base" in x: out += self.members(x["base"], base + x["off"]) if self.types.get(plain(x["base"]), {}).get("members") else []
            elif not x.get("static"): out.append((x["n"], base + x["off"], x["ty"]))
        return out

    def visited(self, k):
        """[(label, offset or None, type)] in the order of the visits"""
        f = self.mod.fns["sa_refl_%d" % k]; out = []
        for i in self.visits[k]:
            o = i.ops[1]; off = None
            if o == ["v", 0] or o == ("v", 0): off = 0
            elif o[0] == "v":
                d = f.insts.get(o[1])
                base = 0
                while d is not None and d.op == "getelementptr" and isinstance(d.get("off"), int) and not d.get("vars"):
                    base += d.get("off")
                    if d.ops[0][0] == "v" and d.ops[0][1] == 0: off = base; break
                    d = f.insts.get(d.ops[0][1]) if d.ops[0][0] == "v" else None
            n = i.ops[0]; name = None
            if n[0] == "g":
                g = self.mod.globals.get(n[1])
                if g and "hex" in g: name = bytes.fromhex(g["hex"]).split(b"\0")[0].decode("latin1")
            ty = re.search(r"sa_note<(.*)>\(", self.mod.dem(i.callee))
            out.append((name, off, ty.group(1) if ty else None))
        return out

    def alternatives(self, k):
        f = self.mod.fns.get("sa_var_%d" % k)
        if f is None: return None
        for b in f.order:
            for i in f.blocks[b]:
                if i.callee and "sa_alternatives" in i.callee:
                    t = re.search(r"sa_alternatives<(.*)>\(", self.mod.dem(i.callee)).group(1)
                    return args_of(t) if t.startswith("std::variant<") else None
