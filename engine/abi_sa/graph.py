"""Small graph and operand helpers shared by the call-graph checks."""
import sys


def sccs(g):
    """strongly connected components that contain a cycle (iterative Tarjan)"""
    idx, low, on, st, out = {}, {}, set(), [], []
    for root in g:
        if root in idx: continue
        work = [(root, iter(g[root]))]; idx[root] = low[root] = len(idx); st.append(root); on.add(root)
        while work:
            v, it = work[-1]
            for w in it:
                if w not in idx:
                    idx[w] = low[w] = len(idx); st.append(w); on.add(w); work.append((w, iter(g[w]))); break
                elif w in on: low[v] = min(low[v], idx[w])
            else:
                work.pop()
                if work: low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == idx[v]:
                    s = []
                    while True:
                        w = st.pop(); on.discard(w); s.append(w)
                        if w == v: break
                    if len(s) > 1 or v in g[v]: out.append(s)
    return out


def acyclic(nodes, edges):
    g = {n: [] for n in nodes}
    for a, b in edges: g[a].append(b)
    return not sccs(g)


def calls(f):
    return [i for i in f.all() if i.op in ("call", "invoke")]


def args_of(i):
    """call operands without the callee (dumped last when indirect)"""
    return i.ops


def place(f, o, depth=0):
    """(root operand, byte-free path) of an address expression, or None"""
    path = []
    while o[0] == "v" and o[1] in f.insts and depth < 20:
        i = f.insts[o[1]]; depth += 1
        if i.op == "getelementptr":
            if any(x[0] != "c" for x in i.ops[1:]): return None
            k = tuple(x[1] for x in i.ops[1:])
            if any(k): path.append((i.get("srcty") or i.get("sty") or "", k))
            o = i.ops[0]
        elif i.op == "bitcast": o = i.ops[0]
        else: break
    return tuple(map(str, o[:2])), tuple(reversed(path))


def origin(f, o, d=0):
    """see through casts and +/- constants: (operand, constant added)"""
    k = 0
    while o[0] == "v" and o[1] in f.insts and d < 20:
        i = f.insts[o[1]]; d += 1
        if i.op in ("zext", "sext", "trunc", "freeze"): o = i.ops[0]
        elif i.op in ("add", "sub") and i.ops[1][0] == "c":
            k += i.ops[1][1] if i.op == "add" else -i.ops[1][1]; o = i.ops[0]
        elif i.op == "add" and i.ops[0][0] == "c": k += i.ops[0][1]; o = i.ops[1]
        else: break
    return o, k


def upper_bound(i, limit):
    """for a comparison of a value with a constant: (operand, bounded when true, bounded when false); bounded = at most limit"""
    if i.op != "icmp": return None
    p = i.d["pred"]; a, b = i.ops[0], i.ops[1]
    if a[0] == "c":
        a, b = b, a
        p = {"ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule", "slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle"}.get(p, p)
    if b[0] != "c" or a[0] == "c": return None
    c = b[1]
    if c < 0: return None
    t = p in ("ult", "slt", "ule", "sle", "eq") and c <= limit
    f = p in ("ugt", "sgt", "uge", "sge", "ne") and c <= limit
    return (a, t, f) if t or f else None
