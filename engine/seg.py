"""Paths between the heads of loops: entry to head, head to head, head to exit."""
from .q import Path
from .core import Broken


def heads(v):
    """blocks at which loops are entered"""
    col, out = {}, set()
    st = [(0, iter([s for s, _ in v.succ[0]]))]
    col[0] = 1
    while st:
        u, it = st[-1]
        for s in it:
            if col.get(s) == 1:
                out.add(s)
            elif s not in col:
                col[s] = 1
                st.append((s, iter([x for x, _ in v.succ[s]])))
                break
        else:
            col[u] = 2
            st.pop()
    return out


def segments(v, edge=None, limit=20000):
    """[Path]: .blocks from a head (or the entry) up to the next head, which is .cut, or to the end of the function"""
    hs = heads(v)
    out = []

    def go(b, bs):
        if len(out) > limit:
            raise Broken('too many paths in ' + v.name)
        bs = bs + [b]
        ss = [(s, l) for s, l in v.succ[b] if not edge or edge(b, s, l)]
        if not v.succ[b]:
            done(bs, None)
        for s in dict.fromkeys(s for s, _ in ss):
            if s in hs:
                done(bs, s)
            else:
                go(s, bs)

    def done(bs, cut):
        p = Path(v)
        p.blocks = bs
        p.cut = cut
        p.insts = [i for b in bs for i in v.blocks[b]]
        out.append(p)
    import sys
    sys.setrecursionlimit(20000)
    for h in [0] + sorted(hs - {0}):
        go(h, [])
    return out


def phis(v, b):
    return [i for i in v.blocks[b] if i.op == 'phi']


def arrive(fl, p):
    """{phi of the head a segment leads to: value brought along}"""
    r = {}
    for i in phis(p.v, p.cut):
        for x, pb in i.d['in']:
            if pb == p.blocks[-1]:
                r[i.id] = fl.opd(x)
    return r
