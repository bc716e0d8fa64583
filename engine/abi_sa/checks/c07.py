"""Every function of the C interface is interpreted abstractly with a valid context and fallible callees; each change to the map of
loaded ABIs is recorded with its key and value.  An outcome that reports failure must not have changed the map; only the functions
that load an ABI may change it; an outcome of theirs that reports success must have put under the caller's contract, replacing an
earlier entry, the ABI object that was filled by the conversion of the fully parsed definition after its version was tested.  ABIs
are moved, never copied (types of an ABI point to each other)."""
import re
from ..eng import *
from ..capi import *
from ..lib import lib

TECHNIQUE = "abstract interpretation of every C interface function; recorded effects on the map of loaded ABIs at each outcome"
LEVEL = "proof"
NOTE = "insert_or_assign is assumed to have the strong exception guarantee for a fresh entry and a non-throwing move assignment otherwise."
REPLACE = {"insert_or_assign", "abi ="}


def copies(rep):
    m = lib(); n = 0
    for f in m.fns.values():
        for i in f.all():
            if i.op in ("call", "invoke") and i.callee:
                d = m.dem(i.callee)
                if re.search(r"^eosio::abi::(abi|operator=)\(eosio::abi const&\)", d) and f.q not in ("eosio::abi::abi", "eosio::abi::operator="):
                    rep.ob("an ABI is moved, not copied", f.q, False, "%s is called at %s: the copied types would point into the original" % (m.q(i.callee), i.where()))
        n += 1
    rep.ob("an ABI is moved, not copied", "%d functions scanned" % n, True)


def run(rep, tier):
    res = results(); n = 0
    arg = lambda ip, st, k: ip.norm(st, mkterm(term(64, 0, (1 << 64) - 1, "sym", ("arg", k))))
    for name, (A, outs) in sorted(res.items()):
        if name == "abieos_destroy": continue
        loader = name.startswith("abieos_set_abi"); bad = {}; fails = {}; k = 0; ns = 0
        say = lambda d, m: d.__setitem__(m, d.get(m, 0) + 1)
        for o in outs:
            if o.kind != "ret": continue
            st = o.state; k += 1
            mut = st.aux.get(("mut",), ())
            if not loader:
                if mut: say(bad, "changes the loaded ABIs (%s)" % ", ".join(x[0] for x in mut))
                continue
            s = status(A, o)
            if not s:
                if mut: say(fails, "the loaded ABIs have been changed by %s" % ", ".join(x[0] for x in mut))
                continue
            ns += 1
            if not mut: say(bad, "success although no ABI was stored"); continue
            for x in mut:
                if x[0] not in REPLACE and x[0] != "operator[]": say(bad, "the loaded ABIs are changed by %s, which does not replace an earlier entry" % x[0] if x[0] in ("insert", "emplace", "try_emplace", "emplace_hint") else "the loaded ABIs are changed by %s" % x[0])
                if not (isinstance(x[1], V) and A.ip.norm(st, x[1]) == arg(A.ip, st, 1)): say(bad, "%s uses a key other than the caller's contract" % x[0])
            fin = [x for x in mut if x[0] in REPLACE]
            if not fin: say(bad, "success although no ABI was stored"); continue
            c = fin[-1][3]
            if not fin[-1][4]: say(bad, "the ABI is copied into the map: its types point into the original")
            if not c: say(bad, "the ABI stored is not the one the conversion filled"); continue
            if not c[0]: say(bad, "the ABI is converted before its version is tested")
            if not c[1].endswith("eosio::abi_def"): say(bad, "what is converted is not the definition parsed from the input")
            if c[1].startswith("from_json") and not c[2]: say(bad, "the ABI is converted before the end of the document is tested")
        if loader:
            rep.ob("failure leaves the loaded ABIs alone", name, not fails, "; ".join("%s (%d of %d outcomes)" % (t, x, k) for t, x in fails.items()))
            rep.ob("success stores the checked ABI under the caller's contract", name, not bad and ns > 0, "; ".join("%s (%d of %d outcomes)" % (t, x, ns) for t, x in bad.items()) or "no successful outcome")
        else: rep.ob("no other call changes the loaded ABIs", name, not bad and k > 0, "; ".join("%s (%d of %d outcomes)" % (t, x, k) for t, x in bad.items()))
        for msg in A.bad.get("copied", ()): rep.ob("an ABI is moved, not copied", name, False, msg)
        n += k
    copies(rep)
    rep.note("outcomes analysed", n)
    rep.need("success stores the checked ABI under the caller's contract", 3); rep.need("no other call changes the loaded ABIs", 11)
