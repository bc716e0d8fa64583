"""The structural machines of both conversions are interpreted abstractly over small types and compared with the same table of items
(flags, counts, discriminants, fields); the conversions of the built-in types are compared instantiation against instantiation: both
must be the same code over the state's getters and writer.  The getters of the tree state are interpreted and must return the content
of the value they test.  The builder of the document tree is interpreted over every well-formed sequence of reader events up to a
bound and the tree compared with the one the events describe."""
from ..steps import *
from ..tree import trees
from ..iso import Iso, Diff, features
from .. import lib

TECHNIQUE = "abstract interpretation of both conversion machines, and structural comparison of the two instantiations of every leaf conversion"
LEVEL = "other"
NOTE = "Structural shapes are bounded as in C16. Leaf conversions are compared as code: both instantiations perform the same operations on what the state's getters return."

L = r"abieos::json_to_bin_state|eosio::json_token_stream"
R = r"abieos::jvalue_to_bin_state"
GET = "a getter of the tree state returns the content of the value it stands at"
TREE = "the document tree holds the values of the document"
SAME = "both instantiations of a leaf conversion are the same code"


def getters(rep):
    """jvalue_to_bin_state's getters over a value of every kind"""
    m = stepmod(); l = lay()
    kinds = sorted(set(l.jkind) - {"bool"}) + [("bool", 0), ("bool", 1)]
    length = mkterm(term(64, 0, 1 << 40, "sym", ("len",)))
    for g in ("bool", "string", "null", "nullp"):
        for k in kinds:
            k, bit = k if isinstance(k, tuple) else (k, None)
            sub = "get_%s on %s" % (g.replace("nullp", "null_pred"), k if bit is None else ("false", "true")[bit])
            def setup(ip, st, k=k, bit=bit):
                r = ip.argregs["v"]
                def put(off, v, size):
                    reg = st.mem.get(r) or Reg(); c = dict(reg.cells); c[off] = (size, v); st.mem[r] = Reg(c, reg.ver)
                put(l.jvalue_value + l.jix, const(8, l.jkind[k]), 1)
                if k == "bool": put(l.jvalue_value, const(8, bit), 1)
                if k == "string":
                    put(l.jvalue_value, P(ip.region("chars", kind="bytes"), const(64, 0)), 8)
                    put(l.jvalue_value + 8, length, 8)
            try: ip, outs = analyse(m, "sa_jg_" + g, ["v"] if g != "string" else ["v", ("o", "obj")], setup)
            except build.Broken as e: rep.unknown(GET, sub, str(e)); continue
            fits = g == "nullp" or g == k
            for o in outs:
                msg = None
                if o.kind == "throw":
                    if fits: msg = "it is refused"
                    if g == "nullp": msg = "it throws"
                elif o.kind != "ret": rep.unknown(GET, sub, o.kind); continue
                elif not fits: msg = "it is accepted"
                elif g in ("nullp", "bool"):
                    v = ip.norm(o.state, o.value)
                    if not v.is_const(): rep.unknown(GET, sub, "the answer is not known"); continue
                    if (v.c & 1) != (int(k == "null") if g == "nullp" else bit): msg = "the answer is %d" % (v.c & 1)
                elif g == "string":
                    reg = o.state.mem.get(ip.argregs["o"]); c = reg.cells if reg else {}
                    d, n = (ip.norm(o.state, c[x][1]) if x in c else None for x in (0, 8))
                    if d is None or n is None: rep.unknown(GET, sub, "the text returned is not known"); continue
                    if not (isinstance(d, P) and d.base.args[0] == "chars" and d.off.is_const() and d.off.c == 0): msg = "another text is returned"
                    elif n.key != length.key: msg = "the length returned is not that of the text"
                rep.ob(GET, sub, msg is None, "jvalue_to_bin_state::%s: %s" % (sub, msg), key="getter:%s:%s" % (g, k))


def run(rep, tier):
    ranges = {"accepts": "the same documents are accepted", "rejects": "the same documents are accepted", "bytes": "the items of the document are written in order", "range": "output is only appended"}
    survey(rep, structures() + others(), ("js", "jv"), ranges)
    trees(rep, TREE, 7 if tier == "quick" else 8)
    getters(rep)
    m = lib.lib()
    same = set()
    for n in m.fns:
        q = m.q(n)
        if q.startswith("abieos::jvalue_to_bin_state::get_"): same.add(("eosio::json_token_stream::" + q.split("::")[-1], q))
    iso = Iso(m, L, R, same)
    jv = {iso.norm(n, iso.r): n for n in m.fns if iso.r.search(m.dem(n))}
    for n, f in sorted(m.fns.items()):
        d = m.dem(n)
        if not f.blocks or m.q(n) != "abieos::json_to_bin" or "abieos::json_to_bin_state&" not in d or "pseudo_" in d or "jvalue_to" in d: continue
        ty = re.search(r"\(([^,]*)\*, ", d)
        sub = "json_to_bin of %s" % (ty.group(1) if ty else d[:60])
        sub = re.sub(r"std::__cxx11::basic_string<.*", "std::string", sub)
        o = jv.get(iso.norm(n, iso.l))
        if o is None: rep.unknown(SAME, sub, "there is no counterpart"); continue
        try: iso.compare(n, o, iso.state_params(f, iso.l), iso.state_params(m.fns[o], iso.r)); rep.ob(SAME, sub, True)
        except Diff as e:
            fa, fb = features(m, n, iso.l, iso), features(m, o, iso.r, iso)
            if fa == fb: rep.unknown(SAME, sub, "%s: %s" % (e.where, e.why)); continue
            x = sorted(fa - fb, key=str)[:2]; y = sorted(fb - fa, key=str)[:2]
            rep.ob(SAME, sub, False, "%s: %s; only streaming: %s; only reorderable: %s" % (e.where, e.why, x, y), key="leaf:" + sub)
            iso.done.clear()
    rep.need(SAME, 25); rep.need("the items of the document are written in order", 100); rep.need(GET, 12); rep.need(TREE, 100)
