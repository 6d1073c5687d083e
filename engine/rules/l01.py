"""L01: every loop can make progress."""
from ..q import *
from ..core import base_of, NEG, load, COMMON_KEEP

ENTRIES, KEEP, PLAIN = [], [], True
UNKEEP = [x for x in COMMON_KEEP if x.startswith(('json_read', 'json_skip', 'str_', 'list_', 'opt_int_of', 'buf_reserve', 'buf_emplace', 'buf_write'))]

# C library functions that write nothing the program reads through its own fields
PURE = set('''strlen strcmp strncmp memcmp strcasecmp strncasecmp strchr strrchr strstr isdigit isalpha isalnum isspace tolower toupper
__errno_location gettid getpid abs labs floor ceil pow log log2 sqrt fabs clock_gettime time am_self __ctype_b_loc'''.split())


def comps(n, succ):
    """strongly connected components with a cycle; succ(v) -> list"""
    idx, low, st, on, out, c = {}, {}, [], set(), [], [0]
    for v in n:
        if v in idx:
            continue
        work = [(v, iter(succ(v)))]
        idx[v] = low[v] = c[0]; c[0] += 1
        st.append(v); on.add(v)
        while work:
            u, it = work[-1]
            adv = False
            for w in it:
                if w not in idx:
                    idx[w] = low[w] = c[0]; c[0] += 1
                    st.append(w); on.add(w)
                    work.append((w, iter(succ(w))))
                    adv = True
                    break
                elif w in on:
                    low[u] = min(low[u], idx[w])
            if adv:
                continue
            work.pop()
            if work:
                low[work[-1][0]] = min(low[work[-1][0]], low[u])
            if low[u] == idx[u]:
                comp = []
                while True:
                    w = st.pop(); on.discard(w); comp.append(w)
                    if w == u:
                        break
                if len(comp) > 1 or u in succ(u):
                    out.append(set(comp))
    return out


def place(f, a):
    """what a store or load touches: field name, the alloca, or '*'"""
    t = f.term(a)
    lf = leaf_field(t)
    if lf:
        return lf
    b = base_of(t)
    if b[0] == 'alloca':
        return ('alloca', b[1])
    if b[0] == 'global':
        return ('global', b[1])
    return '*'


def returning(f, stops):
    """instructions from which the function can still return"""
    stop = {c.id for c in stops}
    ok = set()
    good = set()          # blocks whose start can return
    ch = True
    while ch:
        ch = False
        for b, bl in enumerate(f.blocks):
            if b in good:
                continue
            out = bl[-1].op == 'ret' or any(s in good for s, l in f.succ[b] if l != ('exc',))
            if out and not any(i.id in stop for i in bl):
                good.add(b)
                ch = True
    for b, bl in enumerate(f.blocks):
        if bl[-1].op == 'ret' or any(s in good for s, l in f.succ[b] if l != ('exc',)):
            k = max([n for n, i in enumerate(bl) if i.id in stop], default=-1)
            ok |= {i.id for i in bl[k + 1:]}
    return ok


class Mods:
    """what a call may change (transitively)"""

    def __init__(self, P):
        self.P = P
        self.m, self.calls = {}, {}
        from .f04 import never
        nev = never(P)
        for f in P.fn.values():
            s = set()
            # what happens only on the way to an error does not count
            back = returning(f, [c for c in f.allcalls() if c.callee in nev])
            for i in f.insts():
                if i.id not in back:
                    continue
                if i.op == 'store':
                    p = place(f, i.args[1])
                    if not (isinstance(p, tuple) and p[0] == 'alloca'):
                        s.add(p)
                elif i.op in ('atomicrmw', 'cmpxchg'):
                    s.add(place(f, i.args[0]))
                elif i.op == 'call':
                    ts = i.targets()
                    if not ts:
                        s.add('*')
                    for t in ts:
                        if t not in P.fn and t not in PURE and not t.startswith(('vp.', 'llvm.')):
                            s.add('*')
                        if t.startswith('llvm.mem'):
                            s.add('*')
            self.m[f.name] = s
            self.calls[f.name] = [c for c in f.allcalls() if c.id in back]
        ch = True
        while ch:
            ch = False
            for f in P.fn.values():
                s = self.m[f.name]
                n = len(s)
                for i in self.calls[f.name]:
                    for t in i.targets():
                        s |= self.m.get(t, set())
                if len(s) != n:
                    ch = True

    def of(self, i):
        ts = i.targets()
        if not ts:
            return {'*'}
        r = set()
        for t in ts:
            if t in self.m:
                r |= self.m[t]
            elif t.startswith('llvm.mem'):
                r.add('*')
            elif t not in PURE and not t.startswith(('vp.', 'llvm.')):
                r.add('*')
        return r


def step(f, phi, v, c):
    """does the value taken over differ from the phi, on ways inside c?"""
    seen = set()

    def same(t):
        if t == ('phi', phi):
            return True
        if t[0] == 'phi' and f.inst[t[1]].b in c:
            if t[1] in seen:
                return True
            seen.add(t[1])
            return all(same(f.term(x)) for x, pb in f.inst[t[1]].d['in'] if pb in c)
        return False
    return not same(f.term(v))


WAITS = set('cond_var_wait cond_var_timedwait event_wait wait_event wait_event_time coroutine_suspend epoll_wait pthread_cond_wait pthread_cond_timedwait nanosleep usleep sleep pthread_join sched_yield'.split())


class Refs:
    """what a call reads, and whether it waits (transitively)"""

    def __init__(self, P):
        self.r, self.w = {}, set()
        for f in P.fn.values():
            s = set()
            for i in f.insts():
                if i.op == 'load':
                    p = place(f, i.args[0])
                    if not (isinstance(p, tuple) and p[0] == 'alloca'):
                        s.add(p)
            self.r[f.name] = s
        ch = True
        while ch:
            ch = False
            for f in P.fn.values():
                s = self.r[f.name]
                n = len(s)
                for i in f.allcalls():
                    for t in i.targets():
                        s |= self.r.get(t, set())
                if len(s) != n:
                    ch = True
                # every way through it waits
                if f.name not in self.w:
                    ws = [i for i in f.allcalls() if self.waits(i)]
                    if ws and f.from_entry(f.exits(), avoid=ws) is None:
                        self.w.add(f.name)
                        ch = True

    def of(self, i):
        r = set()
        for t in i.targets():
            r |= self.r.get(t, set())
        return r

    def waits(self, i):
        ts = i.targets()
        return bool(ts) and all(t in WAITS or t in self.w for t in ts)


class Slice:
    """the loop's phis, loads and calls a set of conditions depends on"""

    def __init__(self, f, blocks):
        self.f, self.blocks = f, blocks
        self.phis, self.loads, self.calls, self.seen = set(), set(), set(), set()

    def add(self, t):
        f = self.f
        if not isinstance(t, tuple) or not t:
            return
        if t[0] == 'phi':
            i = f.inst[t[1]]
            if i.id in self.seen:
                return
            self.seen.add(i.id)
            if i.b in self.blocks:
                self.phis.add(i.id)
                for v, b in i.d['in']:
                    if b in self.blocks:
                        self.add(f.term(v))
            return
        if t[0] in ('load', 'op') or (t[0] == 'call' and not isinstance(t[2], tuple)):
            i = f.inst[t[2]]
            if i.id in self.seen:
                return
            self.seen.add(i.id)
            if i.b in self.blocks:
                if t[0] == 'load':
                    self.loads.add(i.id)
                elif t[0] == 'call':
                    self.calls.add(i.id)
                for a in i.args:
                    self.add(f.term(a))
            return
        for x in t:
            if isinstance(x, tuple):
                self.add(x)


def progress(ctx, P):
    """every way around every loop changes something that one of the loop's exits depends on, or waits for another thread"""
    mods, refs = Mods(P), Refs(P)
    names = [f.name for f in P.fn.values() if comps(range(len(f.blocks)), lambda v: [s for s, _ in f.succ[v]])]
    # with the functions called from the loops seen in their place
    Q = load(sorted(names), [], UNKEEP)
    n = 0
    for f in list(Q.views.values()):
        todo = comps(range(len(f.blocks)), lambda v: [s for s, _ in f.succ[v]])
        while todo:
            blocks = todo.pop()
            n += 1
            check_loop(ctx, P, f, blocks, mods, refs)
            # the loops inside it, without the way around it
            heads = {b for b in blocks if b == 0 or any(p not in blocks for p, _ in f.pred[b])}
            inner = blocks - heads
            todo += comps(sorted(inner), lambda v: [s for s, _ in f.succ[v] if s in inner])
    ctx.notes.append('%d functions with loops, %d loops (those of inlined callees seen in each caller)' % (len(names), n))
    ctx.floor('progress', 800)


def around(f, c, heads, succ):
    """is there a way around whose branches do not contradict each other? nothing the exits depend on changes on it,
    so the same place is the same value everywhere on it"""
    budget = [20000]

    def fixed(t):
        return not deep(f, t, lambda x: x[0] in ('call', 'op', 'phi', 'deep'))

    def go(b, h, facts, on):
        budget[0] -= 1
        if budget[0] < 0:
            return True
        for s, l in f.succ[b]:
            if s not in c or s not in succ(b):
                continue
            fs = facts
            if l and l[0] == 'br':
                new = []
                for x in cond_facts(f, l):
                    k = (x[1], f.norm(x[2]), f.norm(x[3]))
                    if fixed(x[2]) and fixed(x[3]):
                        new.append(k)
                if any((NEG.get(p), a, d) in facts for p, a, d in new):
                    continue
                fs = facts | set(new)
            if s == h:
                return True
            if s in on:
                continue
            if go(s, h, fs, on | {s}):
                return True
        return False
    return any(go(h, h, frozenset(), frozenset([h])) for h in c & heads)


def decided(f, c, succ, blocks, mods, refs):
    """whether the way is left depends on something that changes on it"""
    sl = Slice(f, blocks)
    for b in c:
        inside = set(succ(b)) & c
        if len(inside) < len({s for s, _ in f.succ[b]}):
            for s, l in f.succ[b][:1]:
                if l and l[0] in ('br', 'sw'):
                    sl.add(f.term(l[1]))
    places = set()
    for l in sl.loads:
        places.add(place(f, f.inst[l].args[0]))
    for x in sl.calls:
        places |= refs.of(f.inst[x])
    for b in c:
        for i in f.blocks[b]:
            if i.op == 'store' and place(f, i.args[1]) in places:
                return True
            if i.op == 'call' and not (i.callee or '').startswith(('vp.', 'llvm.')):
                m = mods.of(i)
                if m & places or (i.id in sl.calls and '*' in m):
                    return True
            if i.op == 'phi' and i.id in sl.phis:
                for v, pb in i.d['in']:
                    if pb in c and b in succ(pb) and step(f, i.id, v, c):
                        return True
    return False


def check_loop(ctx, P, f, blocks, mods, refs):
    heads = {b for b in blocks if b == 0 or any(p not in blocks for p, _ in f.pred[b])}
    sl = Slice(f, blocks)
    exits = 0
    throws = False
    outs = {b for b in blocks if any(s not in blocks for s, _ in f.succ[b])}
    # blocks from which the loop can be left without starting over
    leave = set(outs)
    ch = True
    while ch:
        ch = False
        for b in blocks:
            if b not in leave and any(s in leave and s not in heads for s, _ in f.succ[b]):
                leave.add(b)
                ch = True
    for b in blocks:
        ss = f.succ[b]
        rel = [s not in blocks or (s in leave and s not in heads) for s, _ in ss]
        ext = [s not in blocks for s, _ in ss]
        if any(ext):
            exits += 1
        if any(l and l[0] == 'exc' for s, l in ss):
            throws = True
            continue
        if any(rel) and not all(rel) or any(ext):
            for s, l in ss[:1]:
                if l and l[0] in ('br', 'sw'):
                    sl.add(f.term(l[1]))
                elif l is None:
                    pass
    at = None
    for b in sorted(blocks):
        for i in f.blocks[b]:
            if i.d.get('l') and i.op != 'phi':
                at = i
                break
        if at:
            break
    throws = throws or any(i.op == 'call' and set(i.targets()) & P.maythrow for b in blocks for i in f.blocks[b])
    if not exits and not throws:
        ctx.ob('progress', f.name, False, 'the loop has no exit', at=at)
        return
    places = set()
    for l in sl.loads:
        places.add(place(f, f.inst[l].args[0]))
    for c in sl.calls:
        places |= refs.of(f.inst[c])
    # values carried around the loop
    carried = {i.id for b in heads for i in f.blocks[b] if i.op == 'phi' and i.id in sl.phis}
    top = set(carried)
    wl = list(carried)
    while wl:
        i = f.inst[wl.pop()]
        for v, b in i.d['in']:
            t = f.term(v)
            if b in blocks and t[0] == 'phi' and f.inst[t[1]].b in blocks and t[1] not in carried:
                carried.add(t[1])
                wl.append(t[1])

    def touches(ps):
        # (a named field is not what a plain pointer reads)
        return bool(places) and any(p in places or p == '*' and not isinstance(p, tuple) for p in ps)

    def is_progress(i):
        if i.op == 'store':
            return touches({place(f, i.args[1])})
        if i.op in ('atomicrmw', 'cmpxchg'):
            return True
        if i.op == 'load':
            return i.id in sl.loads and bool(i.d.get('ord') or i.d.get('vol'))
        if i.op == 'call':
            c = i.callee or ''
            if c.startswith('vp.') or c.startswith('llvm.') and not c.startswith('llvm.mem'):
                return False
            if refs.waits(i):
                return True
            m = mods.of(i)
            if i.id in sl.calls and ('*' in m or not i.targets()):
                return True
            return touches(m)
        return False
    stuck = {b for b in blocks if any(is_progress(i) for i in f.blocks[b])}
    keep = blocks - stuck

    def moves(i, b):
        for v, pb in i.d['in']:
            if pb != b:
                continue
            t = f.term(v)
            if t == ('phi', i.id):
                continue
            if t[0] == 'phi' and t[1] in carried and not (t[1] in top and i.id in top):
                continue
            return True
        return False

    def succ(b):
        return [s for s, l in f.succ[b] if s in keep and not any(i.op == 'phi' and i.id in carried and moves(i, b) for i in f.blocks[s])]
    bad = comps(sorted(keep), succ)
    # only ways around this loop: those inside are looked at on their own
    bad = [c for c in bad if c & heads and around(f, c, heads, succ) and not decided(f, c, succ, blocks, mods, refs)]
    if bad:
        bl = min(bad, key=len)
        for b in sorted(bl):
            for i in f.blocks[b]:
                if i.d.get('l') and i.op != 'phi':
                    at = i
                    break
            else:
                continue
            break
    ctx.ob('progress', f.name, not bad, 'a way around the loop changes nothing its exits depend on', at=at)


RULES = [progress]
