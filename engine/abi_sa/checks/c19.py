"""The integer reader of every width (8 to 128 bits, signed, unsigned, varuint32, varint32) is inlined into a driver and analysed by
abstract interpretation over boxes of texts: the texts of each length are partitioned into products of character sets that are
entirely representable, entirely out of range or entirely not numbers, and the analysis must derive the same verdict for the whole
box and, where the text is accepted, that the stored value is the linear function of the digits which the text denotes."""
from ..eng import *
from ..texts import *

TECHNIQUE = "abstract interpretation over boxes of texts with linear values (no wrap-around is proved, not assumed)"
LEVEL = "bounded"
NOTE = "texts up to two characters longer than the longest representable number; the configuration with a native 128-bit integer"
TYPES = [("u8", 8, 0), ("u16", 16, 0), ("u32", 32, 0), ("u64", 64, 0), ("u128", 128, 0), ("i8", 8, 1), ("i16", 16, 1), ("i32", 32, 1), ("i64", 64, 1), ("i128", 128, 1), ("vu32", 32, 0), ("vi32", 32, 1)]


def jobs(w, sg, extra):
    """(box, sign, number of digits when accepted or None)"""
    out = [([], 1, None)]
    for neg in (0, 1):
        pre = [mask("-")] if neg else []
        M = (1 << (w - 1)) - 1 + neg if sg else (1 << w) - 1
        top = len(str(M))
        if neg and not sg:
            for n in range(0, 4): out.append((pre + [FULL] * n, 1, None))
            continue
        if neg: out.append((pre, 1, None))
        for n in range(1, top + 1 + extra):
            for box, ok in number_boxes(M, n, fine=True): out.append((pre + box, -1 if neg else 1, n if ok else None))
        for n in list(range(1, top + 1)):
            for k in range(n) if n <= 5 or n == top else (0, n // 2, n - 1):
                bad = FULL & ~DIGITS & ~(mask("-") if not neg and sg and k == 0 else 0)
                out.append((pre + [DIGITS] * k + [bad] + [FULL if n <= 5 else DIGITS] * (n - k - 1), 1, None))
    return out


def run(rep, tier):
    mod = module(["drv:ints"], "ints")
    work = [(nm, w, sg, j) for nm, w, sg in TYPES for j in jobs(w, sg, 1 if tier == "quick" else 4)]

    def one(job):
        nm, w, sg, (box, sign, digits) = job
        name = "sa_int_" + nm
        def go(box):
            ip, outs = analyse(mod, name, [("text", "bytes"), const(64, len(box)), "r"], feas_setup(box), access=[bounded(len(box))], unroll=64, limit=200)
            return ip, [(o.kind == "ret", o.state, o.info or o.kind) for o in outs]

        def value(ip, st):
            v = ip.norm(st, ip.load_const(st, ip.argregs["r"], 0, w // 8, "i%d" % w))
            return sum_value(st, v, decimal(ip.argregs["text"], len(box) - digits, digits, sign), 0, w)
        return decide(go, box, digits is not None, value)
    for (nm, w, sg, (box, sign, digits)), res in zip(work, pool(work, one)):
        for rule, ok, why in res:
            what = "from_json of %s, text %s" % (("u" if not sg else "") + "int%d" % w if nm[0] != "v" else "var%sint32" % ("u" if not sg else ""), show(box))
            if ok is None: rep.unknown(rule, what, why)
            else: rep.ob(rule, what, ok, why)
    rep.need("accepted", 500); rep.need("rejected", 500); rep.need("value", 500)
