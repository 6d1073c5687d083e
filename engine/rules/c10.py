"""C10: cancellation leaves nothing behind that points into a dead stack."""
from ..q import *

ENTRIES = ['wait_event', 'wait_event_time', 'event_wait', 'coroutine_cancel', 'coroutine_cancel_pause', 'coroutine_cancel_resume', 'coroutine_mgr_create', 'cancellation_point', 'timer_mgr_remove', 'poller_read', 'poller_write', 'coroutine_init']
KEEP = ['timer_start', 'timer_stop', 'timer_mgr_add', 'timer_mgr_remove', 'coroutine_cancel_pause', 'coroutine_cancel_resume', 'poller_mod', 'context_create', 'coroutine_mgr_add', 'coroutine_mgr_add_ready', 'coroutine_init', 'arena_reset', 'error_reset', 'context_stack_allocate', 'timer_mgr_update']
UNKEEP, PLAIN = ['event_wait', 'wait_event_time', 'wait_event'], True

# what links an object of the caller into a shared structure: function -> (kind, parameter of the object, parameter of the place)
LINKS = {
    'timer_mgr_add': ('timer', 1, None),
    'poller_read': ('read', 3, 1),
    'poller_write': ('write', 3, 1),
    'ring_write': ('bus', 1, None),
    'list_append': ('list', 1, 0),
    'list_push': ('list', 1, 0),
}
BENIGN = ('list_init', 'str_set', 'str_set_cstr', 'str_set_u8', 'buf_free', 'json_free')


def roots(f, t, seen=None):
    """what an address is derived from by address arithmetic alone"""
    seen = set() if seen is None else seen
    t = strip_cast(t)
    if t[0] in ('field', 'index'):
        return roots(f, t[1], seen)
    if t[0] == 'phi':
        if t[1] in seen:
            return []
        seen.add(t[1])
        return [x for v, b in f.inst[t[1]].d['in'] for x in roots(f, f.term(v), seen)]
    if t[0] == 'select':
        return roots(f, t[2], seen) + roots(f, t[3], seen)
    return [t]


def is_null(f, t):
    return strip_cast(t) in (('null',), ('const', 0))


class Links:
    """who links an object given to it into a shared structure, who removes it again"""

    def __init__(self, P):
        self.P = P
        self.reg = {k: {v} for k, v in LINKS.items()}       # fn -> {(kind, object param, place param)}
        change = True
        while change:
            change = False
            for f in P.fn.values():
                if f.name in LINKS:
                    continue
                for c in f.allcalls():
                    for kind, o, pl in self.regs(f, c):
                        for r in roots(f, o):
                            if r[0] != 'arg':
                                continue
                            # the place the object is linked to belongs to the object: not shared
                            if pl is not None and kind == 'list' and roots(f, pl) == [r]:
                                continue
                            pk = next((x[1] for x in roots(f, pl) if x[0] == 'arg'), None) if pl is not None else None
                            e = (kind, r[1], pk)
                            if e not in self.reg.setdefault(f.name, set()):
                                self.reg[f.name].add(e)
                                change = True
        # must-remove summaries: fn -> {(kind, parameter the removal is about)}
        self.un = {}
        change = True
        while change:
            change = False
            for f in P.fn.values():
                if f.name in LINKS:
                    continue
                cand = {}
                for c in f.allcalls():
                    for kind, t in self.unregs(f, c):
                        for r in (roots(f, t) if t is not None else [None]):
                            if r is None:
                                cand.setdefault((kind, None), []).append(c)
                            elif r[0] == 'arg':
                                cand.setdefault((kind, r[1]), []).append(c)
                for k, cs in cand.items():
                    if k in self.un.get(f.name, ()):
                        continue
                    edge = timer_off(f) if k[0] == 'timer' else None
                    if missing(f, None, f.exits() + f.unwinds(), cs, edge=edge) is None:
                        self.un.setdefault(f.name, set()).add(k)
                        change = True

    def regs(self, f, c):
        """(kind, object term, place term) of what this call links"""
        r = []
        for t in c.targets():
            for kind, o, pl in self.reg.get(t, ()):
                if o < len(c.args):
                    if t in ('poller_read', 'poller_write') and is_null(f, f.term(c.args[2])):
                        continue
                    r.append((kind, f.term(c.args[o]), f.term(c.args[pl]) if pl is not None and pl < len(c.args) else None))
        return r

    def unregs(self, f, c):
        """(kind, term the removal is about)"""
        r = []
        for t in c.targets():
            if t in ('poller_read', 'poller_write') and len(c.args) > 2 and is_null(f, f.term(c.args[2])):
                r.append((LINKS[t][0], f.term(c.args[1])))
            if t == 'timer_mgr_remove':
                r.append(('timer', f.term(c.args[1])))
            if t == 'list_unlink':
                r.append(('list', f.term(c.args[0])))
            if t == 'wait_event':
                r.append(('list', f.term(c.args[0])))
                r.append(('bus', f.term(c.args[0])))
            if t in ('task_wait', 'thread_join'):
                r.append(('bus', None))
            for kind, k in self.un.get(t, ()):
                r.append((kind, f.term(c.args[k]) if k is not None else None))
        return r


def timer_off(f):
    """edges on which the timer is known not to be registered"""
    return cut_when(f, lambda fs: any(leaf_field(strip_cast(a)) == 'Timer.active' and b[0] == 'const' and ((p == 'eq' and b[1] == 0) or (p == 'ne' and b[1] == 1)) for _, p, a, b in fs))


def stack(ctx, P):
    """an object on the stack that was linked into a shared structure (timer, poller, queue, bus, job list) is unlinked, or the one using it is waited for, on every way out of the function, errors and cancellation included"""
    L = Links(P)
    n = 0
    for f in P.fn.values():
        for c in f.allcalls():
            for kind, o, pl in L.regs(f, c):
                al = [r for r in roots(f, o) if r[0] == 'alloca']
                if not al:
                    continue
                # linked to a place of the same frame
                if kind == 'list' and pl is not None and all(r[0] == 'alloca' for r in roots(f, pl)):
                    continue
                n += 1
                undo = []
                for u in f.allcalls():
                    for k2, t in L.unregs(f, u):
                        if k2 != kind and not (kind in ('bus', 'list') and k2 in ('bus', 'list')):
                            continue
                        if t is None:
                            undo.append(u)
                        elif kind in ('read', 'write'):
                            if pl is None or f.norm(t) == f.norm(pl):
                                undo.append(u)
                        elif set(roots(f, t)) & set(al):
                            undo.append(u)
                edge = timer_off(f) if kind == 'timer' else None
                ends = f.exits() + f.unwinds()
                bad = f.can_reach(c, ends, avoid=undo, edge=edge)
                ctx.ob('stack-object', '%s:%s' % (f.name, kind), bad is None, 'the function ends while an object of its frame is still linked', at=c,
                       why='' if bad is None else 'leaves at ' + bad.where())
        # arguments given to a thread that is started
        for c in f.calls('task_create_nothrow', 'task_create'):
            for a in c.args:
                for r in roots(f, f.term(a)):
                    if r[0] == 'alloca':
                        n += 1
                        w = f.calls('cond_wait', 'task_wait', 'thread_join')
                        # removed edges: the thread was not started
                        e = f.can_reach(c, f.exits() + f.unwinds(), avoid=w, edge=error_edges(f, [c], is_fail))
                        ctx.ob('stack-object', '%s:thread' % f.name, e is None, 'the function ends while a thread it started uses its frame', at=c)
    ctx.floor('stack-object', 6)


def abandoned(ctx, P):
    """who waits for an event of an object that is linked into a shared structure does not leave it linked when the wait is cancelled"""
    L = Links(P)
    n = 0
    for f in P.fn.values():
        ws = [c for c in f.calls('event_wait')]
        for w in ws:
            o = roots(f, f.term(w.args[0]))
            if not o or leaf_field(f.term(w.args[0])) is None:
                continue
            links = [c for c in f.allcalls() for kind, t, pl in L.regs(f, c) if kind in ('list', 'bus') and set(roots(f, t)) & set(o) and f.can_reach(c, [w])]
            if not links:
                continue
            n += 1
            un = [u for u in f.allcalls() for kind, t in L.unregs(f, u) if kind == 'list' and t is not None and set(roots(f, t)) & set(o)]
            bad = f.can_reach(w, f.unwinds(), avoid=un)
            ctx.ob('abandoned-wait', f.name, bad is None, 'a cancelled wait leaves its request linked', at=w)
    ctx.notes.append('%d cancellable waits for an event of a linked object' % n)


def waiting(ctx, P):
    """a wait forgets who waits once it is over and stops its timer; it stops waiting when the coroutine is cancelled and raises, before and after it waited"""
    for name in ('wait_event', 'wait_event_time'):
        v = P.view(name)
        k = 0
        for p in paths(v):
            if p.end() != 'ret':
                continue
            tr = trace(p)
            st = [e for e in tr if e.k == 'store' and e.f == 'Event.wait']
            sw = [e for e in tr if e.k == 'call' and e.f in ('coroutine_suspend', 'coroutine_mgr_switch', 'context_swap')]
            set_ = [e for e in st if not wrote(e, const=0)]
            if not set_:
                ctx.ob('wait', name, not sw, 'waits without being woken', at=p.insts[-1])
                continue
            k += 1
            ctx.ob('wait', name, len(sw) == 1 and set_[-1].n < sw[0].n, 'does not wait', at=p.insts[-1])
            ctx.ob('wait', name, wrote(st[-1], const=0) and bool(sw) and st[-1].n > sw[0].n, 'the event keeps pointing to the coroutine after the wait', at=p.insts[-1])
            for e in set_:
                ctx.ob('wait', name, e.v[0] == 'arg' and e.v[2] == 'coro', 'another coroutine is woken', at=e.i)
            started = sel(tr, 'call', 'timer_start', 'timer_mgr_add')
            stopped = [e for e in sel(tr, 'call', 'timer_stop', 'timer_mgr_remove')]
            if started:
                a = fact_says(p, isload('Timer.active'))
                ctx.ob('wait', name, bool(stopped) or a == {0}, 'its timer stays active after the wait', at=p.insts[-1])
        ctx.ob('wait', name, k > 0, 'never waits')
    v = P.view('event_wait')
    sw = v.calls('coroutine_suspend', 'coroutine_mgr_switch', 'context_swap')

    def cancelled(fs):
        return truth(v, fs, isload('Coroutine.cancel')) is False
    ctx.ob('cancelled', 'event_wait', bool(sw) and v.from_entry(sw, edge=cut_when(v, cancelled)) is None, 'waits although the coroutine is already cancelled', at=sw[0] if sw else None)
    ctx.ob('cancelled', 'event_wait', bool(sw) and v.can_reach(sw, v.exits(), edge=cut_when(v, cancelled)) is None, 'a cancelled wait returns as if the event had happened', at=sw[0] if sw else None)
    ctx.ob('cancelled', 'event_wait', len(v.unwinds()) > 0, 'cancellation is not reported')
    for u in v.calls('report_error'):
        ctx.ob('cancelled', 'event_wait', any(leaf_field(strip_cast(a)) == 'Coroutine.cancel' for _, p, a, b in v.conds(u)), 'reports a cancellation nobody asked for', at=u)
    v = P.view('timer_mgr_remove')
    for p in paths(v, visits=3):
        if p.end() != 'ret':
            continue
        tr = trace(p)
        off = [e for e in tr if e.k == 'store' and e.f == 'Timer.active']
        cnt = [e for e in tr if e.k == 'store' and e.f == 'TimerMgr.timers_count']
        a = fact_says(p, isload('Timer.active'))
        if a == {0}:
            ctx.ob('timer', 'timer_mgr_remove', not cnt, 'removes a timer that is not registered', at=p.insts[-1])
        else:
            ctx.ob('timer', 'timer_mgr_remove', len(off) == 1 and wrote(off[0], const=0) and len(cnt) == 1, 'the timer stays registered', at=p.insts[-1])
    # every slot but the removed one is kept
    for i in v.insts():
        if i.op == 'store' and v.term(i.args[1])[0] == 'index' and leaf_field(v.term(i.args[1])) == 'TimerMgr.timers':
            cs = v.conds(i)
            ctx.ob('timer', 'timer_mgr_remove', any(p == 'ne' and ('arg', 1, v.params[1]) in (strip_cast(a), strip_cast(b)) for _, p, a, b in cs), 'the removed timer is kept in the list', at=i)
    for n, fld in (('poller_read', 'read'), ('poller_write', 'write')):
        v = P.view(n)
        for p in paths(v):
            if p.end() != 'ret':
                continue
            tr = trace(p)
            a = [e for e in tr if e.k == 'store' and e.f == 'Fd.on_%s' % fld]
            b = [e for e in tr if e.k == 'store' and e.f == 'Fd.on_%s_arg' % fld]
            m = sel(tr, 'call', 'poller_mod')
            if m:
                ctx.ob('poller', n, len(a) == 1 and a[0].v == ('arg', 2, v.params[2]) and len(b) == 1 and b[0].v == ('arg', 3, v.params[3]) and max(a[0].n, b[0].n) < m[0].n, 'the handler is not replaced together with the mask', at=p.insts[-1])
            else:
                ctx.ob('poller', n, len(a) == len(b), 'handler and its argument are not replaced together', at=p.insts[-1])
                same = any(f[1] == 'eq' and {leaf_field(strip_cast(f[2])), leaf_field(strip_cast(f[3]))} & {'Fd.mask'} for f in p.facts)
                ctx.ob('poller', n, same or bool(a), 'the old handler stays registered', at=p.insts[-1])
    ctx.floor('poller', 4)


def other_raise(P):
    """functions that may raise something else than a cancellation that arrived during a pause"""
    if not hasattr(P, '_other'):
        r = {'report_error', 'rethrow', 'exception_mgr_throw', 'longjmp'}
        change = True
        while change:
            change = False
            for f in P.fn.values():
                if f.name in r or f.name == 'coroutine_cancel_resume' or f.name not in P.maythrow:
                    continue
                for c in f.allcalls():
                    if (not c.callee and not c.targets()) or any(t in r for t in c.targets()):
                        r.add(f.name)
                        change = True
                        break
        P._other = r
    return P._other


def no_late_cancel(P, f):
    """while cancellation is paused, the end of an inner pause does not raise"""
    o = other_raise(P)

    def edge(b, s, l):
        if l == ('exc',):
            cs = [i for i in f.blocks[b] if i.op == 'call' and not (i.callee or '').startswith(('vp.', 'llvm.'))]
            return not cs or not cs[-1].targets() or any(t in o for t in cs[-1].targets())
        return True
    return edge


def pauses(ctx, P):
    """every pause of cancellation is undone on every way out; a cancellation that arrives meanwhile is kept and takes effect when the last pause ends, and one that arrives otherwise takes effect at once"""
    n = 0
    PA, RE = ('cancel_pause', 'coroutine_cancel_pause'), ('cancel_resume', 'coroutine_cancel_resume')
    for f in P.fn.values():
        if f.name in PA + RE:
            continue
        pa, re = f.calls(*PA), f.calls(*RE)
        for c in pa:
            n += 1
            bad = f.can_reach(c, f.exits() + f.unwinds() + pa, avoid=re, edge=no_late_cancel(P, f))
            ctx.ob('paused', f.name, bad is None, 'cancellation stays paused', at=c)
        for c in re:
            ctx.ob('paused', f.name, f.dominated(c, pa) and f.can_reach(c, re, avoid=pa) is None, 'cancellation is resumed without having been paused', at=c)
        for w in f.calls('wait_event', 'event_wait', 'wait_event_time'):
            if leaf_field(f.term(w.args[0])) in ('Job.on_complete', 'Rpc.on_complete', 'Coroutine.on_exit'):
                ctx.ob('spurious', f.name, f.dominated(w, pa) and f.can_reach(re, [w], avoid=pa) is None, 'a cancellation ends the wait although what it waits for is still running', at=w)
    ctx.floor('paused', 6)
    ctx.floor('spurious', 4)
    v = P.view('coroutine_cancel_pause')
    for p in paths(v):
        st = [e for e in trace(p) if e.f == 'Coroutine.cancel_pause' and e.k in ('store', 'rmw')]
        ctx.ob('pause-count', 'coroutine_cancel_pause', len(st) == 1 and wrote(st[0], delta=1), 'the pause is not counted', at=p.insts[-1])
    v = P.view('coroutine_cancel_resume')
    for p in paths(v):
        tr = trace(p)
        st = [e for e in tr if e.f == 'Coroutine.cancel_pause' and e.k in ('store', 'rmw')]
        ctx.ob('pause-count', 'coroutine_cancel_resume', len(st) == 1 and wrote(st[0], delta=-1), 'the end of the pause is not counted', at=p.insts[-1])
        rep = sel(tr, 'call', 'report_error')
        # what the path knows after the count went down
        q = before(p, len(p.insts), st[0].n if st else -1)
        ps = fact_says(q, lambda t: isload('Coroutine.cancel_pause')(t) or (t[0] == 'bin' and isload('Coroutine.cancel_pause')(strip_cast(t[2])) and t[1] == 'add'))
        rv = fact_says(p, isload('Coroutine.cancel_pause_recv'))
        if rep:
            ctx.ob('pause-late', 'coroutine_cancel_resume', ps & {0, 1} == {0} and 0 not in rv, 'a cancellation is reported although none arrived or another pause holds', at=rep[0].i)
            cs = [e for e in tr if e.k == 'store' and e.f == 'Coroutine.cancel']
            ctx.ob('pause-late', 'coroutine_cancel_resume', len(cs) == 1 and wrote(cs[0], const=1) and cs[0].n < rep[0].n, 'the cancellation is forgotten after it was reported once', at=rep[0].i)
        else:
            ctx.ob('pause-late', 'coroutine_cancel_resume', 0 not in ps or not (rv & {1, 2}), 'a cancellation that arrived during the pause is dropped', at=p.insts[-1])
    v = P.view('coroutine_cancel')
    for p in paths(v):
        tr = trace(p)
        ps = fact_says(p, isload('Coroutine.cancel_pause'))
        cs = [e for e in tr if e.k == 'store' and e.f == 'Coroutine.cancel']
        rs = sel(tr, 'call', 'coroutine_resume', 'coroutine_mgr_add_ready')
        rv = [e for e in tr if e.k == 'store' and e.f == 'Coroutine.cancel_pause_recv']
        if 1 in ps and 2 in ps and not (ps & {0}):
            ctx.ob('cancel', 'coroutine_cancel', not cs and not rs, 'a paused coroutine is cancelled', at=p.insts[-1])
            ctx.ob('cancel', 'coroutine_cancel', len(rv) == 1 and (wrote(rv[0], delta=1) or (const_of(rv[0].v) or 0) > 0), 'a cancellation during a pause is lost', at=p.insts[-1])
        elif not (ps & {1, 2}):
            ctx.ob('cancel', 'coroutine_cancel', len(cs) == 1 and wrote(cs[0], const=1), 'the coroutine is not marked cancelled', at=p.insts[-1])
            woke = bool(rs) or any(mentions(v, x, 'Coroutine.link_ready') for f in p.facts for x in (strip_cast(f[2]), strip_cast(f[3])))
            ctx.ob('cancel', 'coroutine_cancel', woke and (not rs or not cs or cs[0].n < rs[0].n), 'a waiting coroutine is not woken by its cancellation', at=p.insts[-1])
        else:
            ctx.ob('cancel', 'coroutine_cancel', False, 'cancels without looking at the pauses', at=p.insts[-1])
    ctx.floor('cancel', 4)


def reuse(ctx, P):
    """a coroutine object that is used again starts uncancelled, unpaused and without an error of its predecessor"""
    v = P.view('coroutine_mgr_create')
    ends = v.calls('coroutine_mgr_add_ready')
    if not ends:
        raise Broken('coroutine_mgr_create does not schedule')
    fresh = v.calls('coroutine_init')
    for fld in ('cancel', 'cancel_pause', 'cancel_pause_recv'):
        st = [s for s in stores(v, 'Coroutine.' + fld) if const_of(v.term(s.args[0])) == 0]
        ctx.ob('reuse', 'coroutine_mgr_create:' + fld, v.from_entry(ends, avoid=st + fresh) is None, 'a coroutine starts with the state of the one before it', at=ends[0])
    for fn, fld in (('event_init', 'Coroutine.on_exit'), ('list_init', 'Coroutine.link_ready'), ('error_reset', 'Coroutine.error')):
        cs = [c for c in v.calls(fn, 'event_init_bus', 'ipc_init') if argfield(v, c, 0) == fld]
        if fn == 'event_init':
            cs += [s for s in stores(v, 'Event.wait') if 'Coroutine.on_exit' in fields_in(v.term(s.args[1]))]
        if fn == 'error_reset':
            cs += [s for s in stores(v, 'Error.code') if const_of(v.term(s.args[0])) == 0]
        ctx.ob('reuse', 'coroutine_mgr_create:' + fld, v.from_entry(ends, avoid=cs + fresh) is None, 'a coroutine starts with the state of the one before it', at=ends[0])
    v = P.view('coroutine_init')
    zero = [c for c in v.calls('memset', 'llvm.memset.p0.i64')]
    for fld in ('cancel', 'cancel_pause', 'cancel_pause_recv'):
        st = [s for s in stores(v, 'Coroutine.' + fld) if const_of(v.term(s.args[0])) == 0]
        ctx.ob('reuse', 'coroutine_init:' + fld, v.from_entry(v.exits(), avoid=st + zero) is None, 'a coroutine starts with undefined state')


RULES = [stack, abandoned, waiting, pauses, reuse]
