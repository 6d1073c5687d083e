"""C03: locks are taken in one global order."""
from ..q import *
from ..locks import *
import collections

ENTRIES, KEEP, UNKEEP, PLAIN = [], [], [], True


def order(P):
    L = Locks(P)
    acq = collections.defaultdict(dict)      # fn -> class -> explaining callee/inst
    callers = P.callers()
    wl = []
    for f in P.fn.values():
        if f.name in PRIM:
            continue
        for i in f.allcalls():
            if i.callee in ACQ:
                c = lock_class(f.term(i.args[0])) or '?' + f.name
                if c not in acq[f.name]:
                    acq[f.name][c] = None
                    wl.append((f.name, c))
    while wl:
        n, c = wl.pop()
        for k in callers.get(n, []):
            m = k.fn.name
            # cleanup run by a raise is part of the functions that registered it
            if c not in acq[m] and m not in PRIM and m not in ('exception_mgr_throw', 'report_panic'):
                acq[m][c] = n
                wl.append((m, c))
    edges = {}
    sites = 0
    for name in L.result:
        f = P.fn[name]
        for i in f.allcalls():
            held = {lock_class(k) or '?' for k, kind in L.may(f, i)}
            if not held:
                continue
            if i.callee in ACQ:
                got = {lock_class(f.term(i.args[0])) or '?': i.callee}
            else:
                if i.callee in PRIM:
                    continue
                got = {}
                for t in i.targets():
                    for c in acq.get(t, {}):
                        got[c] = t
            for h in held:
                for g, via in got.items():
                    sites += 1
                    edges.setdefault((h, g), []).append((i, via))
    return L, acq, edges, sites


def path_text(acq, fn, c):
    r = []
    while fn and len(r) < 10:
        r.append(fn)
        fn = acq.get(fn, {}).get(c)
    return ' -> '.join(r)


def acyclic(ctx, P):
    """the relation 'taken while held' between lock classes has no cycle, over all functions and everything they call"""
    L, acq, edges, sites = order(P)
    g = collections.defaultdict(set)
    for a, b in edges:
        g[a].add(b)

    def reaches(a, b):
        seen, st = set(), [a]
        while st:
            x = st.pop()
            if x == b:
                return True
            for y in g[x]:
                if y not in seen:
                    seen.add(y)
                    st.append(y)
        return False
    for (a, b), is_ in sorted(edges.items()):
        i, via = is_[0]
        ctx.ob('order', '%s before %s' % (a, b), not (a == b or reaches(b, a)), 'the opposite order occurs too' if a != b else 'taken while one of the same class is held', at=i,
               why=path_text(acq, via, b) if via not in ACQ else '')
    for f in P.fn.values():
        for i in f.calls('spinlock_lock', 'mutex_lock'):
            ctx.ob('classified', f.name, lock_class(f.term(i.args[0])) is not None, 'the lock cannot be told apart', at=i)
    ctx.floor('order', 1)
    ctx.floor('classified', 40)
    ctx.note('order: ' + '; '.join('%s < %s' % e for e in sorted(edges)))


RULES = [acyclic]
