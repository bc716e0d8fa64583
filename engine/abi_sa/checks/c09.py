"""For every type with a binary reader and writer, the reader is interpreted abstractly on symbolic items (counts, presence flags and
discriminants fork), then the writer of each sink on the object the reader left: the items emitted must be the items consumed, each
from the place it was stored in.  Members and elements are items, so agreement composes over nested types.  Variable-length integers
are decided bit for bit over every magnitude; each write of the three sinks is interpreted and must account for exactly its bytes.
The ABI-driven conversions are compared with one table of items: what the JSON side writes and what the decoder takes."""
from ..codec import *
from ..varu import writers as vwriters, readers as vreaders, bools, sinks
from ..steps import survey, structures, others
from ..texts import pool

TECHNIQUE = "abstract interpretation of each reader followed by its writer over symbolic items, bit-exact for variable-length integers"
LEVEL = "bounded"
NOTE = ("Counts are represented by 0, 1 and 3 (byte sequences also by a count above 65535), since loops treat every element alike. list, deque, set and map readers are "
        "judged on an empty object. might_not_exist is compared where the item is present.")
ITEMS = "the writer emits the items the reader consumes"
VU = "a variable-length integer is read as it was written"
SINK = "every sink accounts for the bytes of every write"


def _one(job):
    t, r, ws = job
    try: return judge(t, r, ws)
    except Exception as e: return "%s: %s" % (type(e).__name__, e)


def run(rep, tier):
    P_, noread, nowrite = pairs()
    m = codecmod()
    if len(P_) < 150: raise build.Broken("only %d types with a reader and a writer were found" % len(P_))
    jobs = [(t, r, ws) for t, (r, ws) in sorted(P_.items())]
    n = 0
    for (t, r, ws), res in zip(jobs, pool(jobs, _one)):
        f = m.fns[r]
        if isinstance(res, str): rep.unknown(ITEMS, t, res); continue
        n += 1
        bad = [x for ok, x in res if ok is False]; und = [x for ok, x in res if ok is None]
        for ok, x in res:
            if ok: rep.ob(ITEMS, "%s: %s" % (t, x), True)
        if bad: rep.ob(ITEMS, t, False, "%s (%s): %s" % (t, f.where() if hasattr(f, "where") else f.q, bad[0]), key="items:" + t)
        elif und: rep.unknown(ITEMS, t, und[0])
    rep.note("types with reader and writer", len(P_))
    rep.note("types only read", noread); rep.note("types only written", nowrite[:40])
    vwriters(rep, VU); vreaders(rep, VU, VU); bools(rep, VU)
    sinks(rep, SINK)
    survey(rep, structures() + others(), ("js", "bj"), {"bytes": "ABI-driven conversions write the items the decoder takes"})
    rep.need(ITEMS, 400); rep.need(VU, 300); rep.need(SINK, 25)
