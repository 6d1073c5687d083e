"""Which locks are held where: a forward typestate analysis per function, composed over the call graph."""
import collections
from .core import leaf_field, base_of
from .facts import Broken

ACQ = {'spinlock_lock': 'spin', 'mutex_lock': 'mutex', 'pthread_mutex_lock': 'mutex'}
REL = {'spinlock_unlock': 'spin', 'mutex_unlock': 'mutex', 'pthread_mutex_unlock': 'mutex'}
PRIM = set(ACQ) | set(REL) | {'cond_var_wait', 'cond_var_timedwait', 'cond_var_signal', 'cond_var_broadcast', 'mutex_init', 'mutex_free', 'spinlock_init', 'spinlock_free',
                              'pthread_cond_wait', 'pthread_cond_timedwait'}


def substargs(t, args):
    """callee term -> caller term (None when it depends on callee-local values)"""
    if not isinstance(t, tuple):
        return t
    if t[0] == 'arg':
        return args[t[1]] if t[1] < len(args) else None
    if t[0] in ('phi', 'alloca', 'op', 'deep', 'call'):
        return None if t[0] != 'call' else (t if t[1] in ('am_self',) else None)
    r = []
    for x in t:
        y = substargs(x, args) if isinstance(x, tuple) else x
        if y is None and x is not None:
            return None
        r.append(y)
    return tuple(r)


class Locks:
    def __init__(self, P):
        self.P = P
        self.net = {}           # fn -> {(key,kind): +1/-1}
        self.errors = {}        # fn -> [(kind, key, inst, text)]
        self.held = {}          # fn -> {inst id: frozenset of (key, kind) maybe held before the instruction}
        self._run()

    def key(self, f, o):
        return f.norm(f.term(o))

    def effects(self, f, i):
        """[(key, kind, +1/-1, definite)] of a call"""
        c = i.callee
        if c in ACQ:
            return [(self.key(f, i.args[0]), ACQ[c], 1)]
        if c in REL:
            return [(self.key(f, i.args[0]), REL[c], -1)]
        if c in self.net and self.net[c]:
            args = [f.norm(f.term(a)) for a in i.args]
            r = []
            for (k, kind), d in self.net[c].items():
                t = substargs(k, args)
                if t is not None:
                    r.append((t, kind, d))
            return r
        return []

    def analyse(self, f):
        keys = {}
        for i in f.insts():
            if i.op == 'call':
                e = self.effects(f, i)
                if e:
                    keys[i.id] = e
        if not keys:
            return None
        allk = sorted({(k, kind) for e in keys.values() for k, kind, d in e}, key=repr)
        n = len(allk)
        idx = {k: j for j, k in enumerate(allk)}
        start = tuple(frozenset([0]) for _ in range(n))
        st = {0: start}
        wl = [0]
        errs = []
        exits = {}
        throws = {}
        held = {}

        def run(b, s, final):
            s = list(s)
            for i in f.blocks[b]:
                if final:
                    held[i.id] = tuple(s)
                for k, kind, d in keys.get(i.id, []):
                    j = idx[(k, kind)]
                    s[j] = frozenset(x + d for x in s[j])
                    if any(x > 1 or x < -1 for x in s[j]) or (len(s[j]) == 1 and False):
                        if final:
                            errs.append(('twice' if d > 0 else 'unheld', (k, kind), i))
                        s[j] = frozenset(max(-1, min(1, x)) for x in s[j])
                if final:
                    if i.op == 'ret':
                        exits[i] = tuple(s)
                    if i.callee == 'vp.unwind':
                        throws[i] = tuple(s)
            return tuple(s)
        while wl:
            b = wl.pop()
            s = run(b, st[b], False)
            for t, l in f.succ[b]:
                o = st.get(t)
                m = s if o is None else tuple(x | y for x, y in zip(o, s))
                if m != o:
                    st[t] = m
                    wl.append(t)
        for b in st:
            run(b, st[b], True)
        return allk, exits, throws, held, errs

    def _run(self):
        P = self.P
        order = [f for f in P.fn.values() if f.name not in PRIM]
        done = {}
        for rnd in range(6):
            changed = False
            for f in order:
                a = self.analyse(f)
                if a is None:
                    continue
                done[f.name] = a
                allk, exits, throws, held, errs = a
                net = {}
                for j, k in enumerate(allk):
                    vals = set()
                    for s in list(exits.values()) + list(throws.values()):
                        vals |= s[j]
                    if len(vals) == 1 and vals != {0}:
                        net[k] = next(iter(vals))
                if net != self.net.get(f.name, {}):
                    self.net[f.name] = net
                    changed = True
            if not changed:
                break
        self.result = done
        for n, (allk, exits, throws, held, errs) in done.items():
            f = P.fn[n]
            e = []
            for kind, k, i in errs:
                e.append((kind, k, i))
            for j, k in enumerate(allk):
                net = self.net.get(n, {}).get(k)
                for x, s in list(exits.items()) + list(throws.items()):
                    if s[j] == {0} or (net is not None and s[j] == {net}):
                        continue
                    e.append(('kept' if any(v > 0 for v in s[j]) else 'unheld', k, x))
                # wrappers without callers end unbalanced
                if net is not None and not P.callers().get(n):
                    x = next(iter(exits or throws))
                    e.append(('kept' if net > 0 else 'unheld', k, x))
                # released without being held on some path
            for i, s in held.items():
                pass
            self.errors[n] = e
            self.held[n] = {iid: frozenset(allk[j] for j in range(len(allk)) if any(v > 0 for v in s[j])) for iid, s in held.items()}

    def acquires(self):
        """fn -> {(key, kind)} it may take at some point, in terms of its arguments"""
        if hasattr(self, '_acq'):
            return self._acq
        P = self.P
        acq = {}
        for rnd in range(8):
            ch = False
            for f in P.fn.values():
                if f.name in PRIM:
                    continue
                r = set()
                for i in f.allcalls():
                    if i.callee in ACQ:
                        r.add((self.key(f, i.args[0]), ACQ[i.callee]))
                        continue
                    for t in i.targets():
                        if t in acq and t not in PRIM:
                            args = [f.norm(f.term(a)) for a in i.args]
                            for k, kind in acq[t]:
                                x = substargs(k, args)
                                if x is not None and depth(x) < 14:
                                    r.add((x, kind))
                if r != acq.get(f.name, set()):
                    acq[f.name] = r | acq.get(f.name, set())
                    ch = True
            if not ch:
                break
        self._acq = acq
        return acq

    def dips(self, f):
        """releases of a lock this function does not hold at that point although it ends balanced"""
        r = []
        res = self.result.get(f.name)
        if not res:
            return r
        allk, held = res[0], res[3]
        for i in f.insts():
            if i.op == 'call':
                for k, kind, d in self.effects(f, i):
                    if d < 0 and i.id in held:
                        j = allk.index((k, kind))
                        if any(v <= 0 for v in held[i.id][j]) and self.net.get(f.name, {}).get((k, kind)) is None:
                            r.append(((k, kind), i))
        return r

    def must(self, f, i):
        """keys that are held on every path reaching instruction i"""
        r = self.result.get(f.name)
        if not r:
            return set()
        allk, held = r[0], r[3]
        s = held.get(i.id)
        return {allk[j] for j in range(len(allk)) if s and s[j] == {1}}

    def may(self, f, i):
        return self.held.get(f.name, {}).get(i.id, frozenset())


def depth(t):
    return 1 + max([depth(x) for x in t if isinstance(x, tuple)] or [0]) if isinstance(t, tuple) else 0


def lock_class(t):
    """Struct.field (or global) a lock belongs to"""
    l = leaf_field(t)
    if l:
        return l
    b = base_of(t)
    if b[0] in ('global',):
        return b[1]
    return None


def closure(P, pred):
    """functions that may (transitively, by direct or resolved calls) reach a callee satisfying pred; value = explaining callee"""
    why = {}
    callers = P.callers()
    wl = []
    names = set(callers) | set(P.fn)
    for n in names:
        if pred(n):
            why[n] = None
            wl.append(n)
    while wl:
        n = wl.pop()
        for c in callers.get(n, []):
            if c.fn.name not in why:
                why[c.fn.name] = n
                wl.append(c.fn.name)
    return why


def chain(why, n):
    r = [n]
    while why.get(n):
        n = why[n]
        r.append(n)
        if len(r) > 12:
            break
    return ' -> '.join(r)
