"""C06: lock waiters are served in order and never forgotten."""
from ..q import *

ENTRIES = ['lock_mgr_lock', 'lock_mgr_unlock', 'unlock_all', 'lock_mgr_lock_access', 'access_merge']
KEEP = ['lock_resolve', 'lock_allocate', 'lock_free', 'lock_mgr_lock', 'lock_mgr_unlock', 'access_sort', 'access_add', 'am_self', 'list_append', 'list_push', 'list_insert']
UNKEEP, PLAIN = [], True

SPIN = ('spinlock_lock', 'spinlock_unlock')


def S(p, t):
    """location of a term on this path, without identity of loads"""
    return p.v.norm(subst(t, p.env))


def step(p, i):
    """(location, delta) of a store that adds a constant to what was there"""
    if i.op != 'store':
        return None
    a = S(p, p.v.term(i.args[1]))
    v = strip_cast(S(p, p.v.term(i.args[0])))
    if v[0] == 'bin' and v[1] in ('add', 'sub') and v[3][0] == 'const' and strip_cast(v[2])[0] == 'load' and strip_cast(v[2])[1] == a:
        return a, v[3][1] if v[1] == 'add' else -v[3][1]
    return None


def ev_of(p):
    """the events of a path, in order: (what, object, inst)"""
    r = []
    for i in p.insts:
        if i.op == 'store':
            a = S(p, p.v.term(i.args[1]))
            st = step(p, i)
            f = leaf_field(a)
            if f == 'Relation.lock_set':
                r.append(('set', st[1] if st else None, a, i))
            elif f == 'Relation.lock_wait_count':
                r.append(('count', st[1] if st else None, a, i))
            elif f == 'Lock.waiting':
                r.append(('waiting', const_of(S(p, p.v.term(i.args[0]))), a, i))
            elif f == 'Lock.refs':
                r.append(('refs', st[1] if st else ('=', const_of(S(p, p.v.term(i.args[0])))), a, i))
            elif f == 'Lock.coro':
                r.append(('coro', S(p, p.v.term(i.args[0])), a, i))
        elif i.op == 'call' and i.callee and not i.callee.startswith('vp.'):
            r.append(('call', i.callee, [S(p, p.v.term(a)) for a in i.args], i))
    return r


def calls(evs, *names):
    return [e for e in evs if e[0] == 'call' and e[1] in names]


def link_of(t, fld):
    """the object whose link this is"""
    return t[1] if t[0] == 'field' and t[2] == fld else None


def only(xs):
    return xs[0] if len(xs) == 1 else None


def asked(p):
    """[(answer, call inst)] of lock_resolve on this path, from the branches taken"""
    return [(t, c) for c, t in p.answers(lambda i: 'lock_resolve' in i.targets())]


def request(ctx, P):
    """a request is either granted at once - only if nobody waits and it conflicts with no holder - or appended to the tail of the relation's queue, counted, marked as waiting, its event attached before the relation is unlocked, and waited for; a repeated request of the same holder for the same kind is only counted"""
    v = P.view('lock_mgr_lock')
    n = 0
    for p in paths(v, visits=2):
        evs = ev_of(p)
        e = p.end()
        if e == 'panic':
            continue
        w = 'lock_mgr_lock'
        sets = [x for x in evs if x[0] == 'set']
        app = [x for x in calls(evs, 'list_append', 'list_push', 'list_insert') if leaf_field(x[2][0]) == 'Relation.lock_wait']
        alloc = calls(evs, 'lock_allocate')
        at = p.insts[-1]
        ret = S(p, v.term(p.insts[-1].args[0])) if e == 'ret' else None
        if not alloc:
            # nothing requested, or repeated
            same_rel = any(pr == 'eq' and 'Lock.rel' in fields_in(a) + fields_in(b) for _, pr, a, b in p.facts)
            same_kind = any(pr == 'eq' and 'Lock.rel_lock' in fields_in(a) + fields_in(b) for _, pr, a, b in p.facts)
            inc = [x for x in evs if x[0] == 'refs']
            n += 1
            if ret == ('null',) or ret == ('const', 0):
                none = p.truth(lambda t: t[0] == 'arg' and t[2] == v.params[2])
                ctx.ob('request-none', w, none is False or any(pr == 'eq' and a[0] == 'arg' and b == ('const', 0) for _, pr, a, b in p.facts), 'a real request returns without a lock', at=at)
            else:
                ctx.ob('request-repeat', w, same_rel and same_kind, 'treats another lock as already held', at=at)
                ctx.ob('request-repeat', w, len(inc) == 1 and inc[0][1] == 1, 'a repeated request is not counted once', at=at)
                ctx.ob('request-repeat', w, bool(inc) and ret == inc[0][2][1], 'returns another lock than the one counted', at=at)
            ctx.ob('request-repeat', w, not sets and not app, 'a repeated request changes the set of locks', at=at)
            continue
        n += 1
        lock = ('call', 'lock_allocate')
        ctx.ob('request-one', w, len(sets) + len(app) == 1, 'neither granted nor queued, or both', at=at)
        ctx.ob('request-known', w, len([x for x in calls(evs, 'list_append') if leaf_field(x[2][1]) == 'Lock.link_mgr']) == 1, 'is not registered with the manager', at=at)
        wait = calls(evs, 'event_wait', 'wait_event')
        if sets:
            nowait = any(no_waiters(f) for f in p.facts)
            ctx.ob('no-overtake', w, nowait, 'granted although others are waiting', at=sets[0][3])
            ctx.ob('granted-one', w, sets[0][1] == 1, 'is not counted once', at=sets[0][3])
            ctx.ob('granted-one', w, not wait, 'waits although granted', at=at)
            ctx.ob('granted-one', w, [t for t, c in asked(p)] == [True], 'granted without having been compatible', at=sets[0][3])
        if app:
            a = app[0]
            ctx.ob('queued-tail', w, a[1] == 'list_append', 'not queued at the end', at=a[3])
            cnt = [x for x in evs if x[0] == 'count']
            ctx.ob('queued-count', w, len(cnt) == 1 and cnt[0][1] == 1, 'the number of waiters does not follow the queue', at=a[3])
            wt = [x for x in evs if x[0] == 'waiting' and x[1]]
            ctx.ob('queued-marked', w, len(wt) == 1, 'is not marked as waiting', at=a[3])
            ln = link_of(a[2][1], 'Lock.link')
            ctx.ob('queued-lock', w, ln is not None and ln[0] == 'call' and ln[1] == 'lock_allocate', 'another lock is queued', at=a[3])
            k = evs.index(a)
            rel = a[2][0][1]
            unl = [j for j, x in enumerate(evs) if x[0] == 'call' and x[1] == 'spinlock_unlock' and x[2][0] == ('field', rel, 'Relation.lock') and j > k]
            att = [j for j, x in enumerate(evs) if x[0] == 'call' and x[1] == 'event_attach']
            ctx.ob('attached-first', w, bool(att) and bool(unl) and att[0] < unl[0], 'can be granted before its event is attached to this thread', at=a[3])
            ctx.ob('queued-waits', w, len(wait) == 1 and bool(unl) and evs.index(wait[0]) > unl[0], 'does not wait until it is granted', at=a[3])
            if wait:
                ctx.ob('queued-waits', w, wait[0][2][0] == ('field', ln, 'Lock.event'), 'waits for another event', at=wait[0][3])
                lim = wait[0][2][1] if len(wait[0][2]) > 1 else ('const', -1)
                ctx.ob('queued-waits', w, wait[0][1] == 'wait_event' or (const_of(lim) or 0) < 0, 'gives up waiting', at=wait[0][3])
        if e == 'ret':
            # handed to the holder
            named = p.truth(lambda t: t[0] == 'arg' and t[2] == v.params[3])
            own = [x for x in calls(evs, 'list_append') if leaf_field(x[2][0]) == 'Coroutine.locks']
            refs = [x for x in evs if x[0] == 'refs']
            coro = [x for x in evs if x[0] == 'coro']
            isnull = any(pr == 'eq' and a[0] == 'arg' and a[2] == v.params[3] and b == ('null',) for _, pr, a, b in p.facts)
            if isnull:
                ctx.ob('owned', w, len(own) == 1 and link_of(own[0][2][1], 'Lock.link') is not None, 'is not attached to its holder', at=at)
                ctx.ob('owned', w, len(refs) == 1 and refs[0][1] in (1, ('=', 1)) and len(coro) == 1, 'its holder or its count is not recorded', at=at)
            else:
                ctx.ob('owned', w, not own and not coro, 'a detached lock is attached to the caller', at=at)
    ctx.floor('request-one', 4)
    ctx.floor('request-repeat', 3)
    ctx.floor('queued-waits', 3)


def no_waiters(f):
    _, p, a, b = f
    if leaf_field(strip_cast(a)) != 'Relation.lock_wait_count' or b[0] != 'const':
        return False
    return (p == 'eq' and b[1] == 0) or (p in ('sle', 'ule') and b[1] == 0) or (p in ('slt', 'ult') and b[1] == 1)


def release(ctx, P):
    """releasing gives back exactly the granted kind once, forgets the lock, and then grants the waiters from the head of the queue until the queue is empty or the first waiter conflicts: each granted waiter is counted as holder, removed from the queue and its count, unmarked and woken exactly once"""
    v = P.view('lock_mgr_unlock')
    w = 'lock_mgr_unlock'
    n = m = 0
    for p in paths(v, visits=3):
        if p.end() == 'panic':
            continue
        evs = ev_of(p)
        at = p.insts[-1]
        me = ('arg', 1, v.params[1])
        sets = [x for x in evs if x[0] == 'set']
        down = [x for x in sets if x[1] == -1]
        up = [x for x in sets if x[1] == 1]
        if not sets:
            null = any(pr == 'eq' and a == me and b == ('null',) for _, pr, a, b in p.facts)
            none = any(pr == 'eq' and b == ('const', 0) and strip_cast(a)[0] == 'load' and leaf_field(strip_cast(a)) == 'Lock.rel_lock' for _, pr, a, b in p.facts)
            refs = [x for x in evs if x[0] == 'refs']
            still = any(positive(p, f) for f in p.facts)
            ctx.ob('release-skip', w, null or none or (len(refs) == 1 and refs[0][1] == -1 and still), 'a held lock is not given back', at=at)
            ctx.ob('release-skip', w, not calls(evs, 'lock_free', 'event_signal'), 'freed without being given back', at=at)
            continue
        n += 1
        ctx.ob('release-one', w, len(down) == 1 and not [x for x in sets if x[1] not in (1, -1)], 'is not given back exactly once', at=at)
        if len(down) != 1:
            continue
        base, kind = slot(down[0][2])
        ctx.ob('release-own', w, kind == ('load', ('field', me, 'Lock.rel_lock')) and base == ('load', ('field', me, 'Lock.rel')), 'gives back another kind or relation than was granted', at=down[0][3])
        un = [x for x in calls(evs, 'list_unlink') if x[2][0] == ('field', me, 'Lock.link_mgr')]
        ctx.ob('release-forget', w, len(un) == 1, 'stays registered with the manager', at=at)
        held = any(pr == 'ne' and b == ('null',) and leaf_field(strip_cast(a)) == 'Lock.coro' for _, pr, a, b in p.facts)
        own = [x for x in calls(evs, 'list_unlink') if x[2][0] == ('field', me, 'Lock.link')]
        ctx.ob('release-forget', w, len(own) == (1 if held else 0), 'stays attached to its holder', at=at)
        # the relation stays locked from the give back to the last grant
        lo = evs.index(down[0])
        unl = [j for j, x in enumerate(evs) if x[0] == 'call' and x[1] == 'spinlock_unlock' and leaf_field(x[2][0]) == 'Relation.lock']
        ctx.ob('release-locked', w, len(unl) == 1 and all(evs.index(x) < unl[0] for x in up) and lo < unl[0], 'the relation is unlocked between giving back and granting', at=at)
        # grants
        res = asked(p)
        yes = [c for t, c in res if t is True]
        firsts = calls(evs, 'list_first')
        for x in up:
            m += 1
            k = evs.index(x)
            b2, kd = slot(x[2])
            wl = waiter_of(kd)
            ctx.ob('grant-first', w, wl is not None and from_head(wl), 'grants another waiter than the first', at=x[3])
            nx = [j for j in range(k + 1, len(evs)) if evs[j][0] == 'set']
            hi = nx[0] if nx else (unl[0] if unl else len(evs))
            pv = [j for j in range(k) if evs[j][0] == 'call' and evs[j][1] == 'lock_resolve']
            seg = evs[(pv[-1] if pv else 0):]
            # until the next question or the end
            q = [j for j in range(k, len(evs)) if evs[j][0] == 'call' and evs[j][1] == 'lock_resolve']
            seg = evs[(pv[-1] if pv else 0):(q[0] if q else len(evs))]
            cnt = [y for y in seg if y[0] == 'count']
            ctx.ob('grant-count', w, len(cnt) == 1 and cnt[0][1] == -1, 'the number of waiters does not follow the queue', at=x[3])
            ul = [y for y in calls(seg, 'list_unlink', 'list_pop') if y[1] == 'list_pop' or link_of(y[2][0], 'Lock.link') == wl]
            ctx.ob('grant-unlink', w, len(ul) == 1, 'the granted waiter stays queued', at=x[3])
            sg = [y for y in calls(seg, 'event_signal') if y[2][0] == ('field', wl, 'Lock.event')]
            ctx.ob('grant-wake', w, len(sg) == 1, 'the granted waiter is not woken exactly once', at=x[3])
            if ul and sg:
                ctx.ob('grant-order', w, evs.index(ul[0]) < evs.index(sg[0]) and k < evs.index(sg[0]), 'woken before it is granted and unqueued', at=x[3])
            mk = [y for y in seg if y[0] == 'waiting' and y[1] == 0]
            ctx.ob('grant-mark', w, len(mk) == 1, 'stays marked as waiting', at=x[3])
        # no one is woken or unqueued without being granted
        ctx.ob('wake-granted', w, len(calls(evs, 'event_signal')) == len(up), 'a waiter is woken without being granted', at=at)
        # the others keep their place
        ul = [y for y in calls(evs, 'list_unlink', 'list_pop') if (y[1] == 'list_pop' and leaf_field(y[2][0]) == 'Relation.lock_wait') or (y[1] == 'list_unlink' and link_of(y[2][0], 'Lock.link') not in (None, me))]
        ctx.ob('keep-place', w, len(ul) == len(up) and not [y for y in calls(evs, 'list_append', 'list_push', 'list_insert') if leaf_field(y[2][0]) == 'Relation.lock_wait'],
               'a waiter that was not granted loses its place in the queue', at=at)
        # why the loop ended
        last = res[-1][0] if res else None
        empty = ended_empty(p)
        ctx.ob('serve-all', w, last is False or empty, 'stops serving although the next waiter could be granted', at=at)
        if last is False:
            ctx.ob('serve-until', w, len(yes) == len(up) and not any(t is False for t, c in res[:-1]), 'passes over a waiter that conflicts', at=at)
    ctx.floor('release-one', 4)
    ctx.floor('grant-wake', 2)
    ctx.floor('release-skip', 3)


def positive(p, f):
    """refs are still above zero"""
    _, pr, a, b = f
    if 'Lock.refs' not in fields_in(a):
        return False
    e = le0(f)
    if pr == 'ne' and b == ('const', 0):
        return True
    # refs - 1 > 0   <=>   2 - refs <= 0 in terms of the loaded value
    return e is not None and any(k is not None and c < 0 for k, c in e.items()) and e.get(None, 0) >= 2


def slot(t):
    """(relation, kind) of lock_set[kind]"""
    k = ('const', 0)
    while t[0] == 'index':
        k, t = t[2], t[1]
    return (t[1], strip_cast(k)) if t[0] == 'field' else (None, strip_cast(k))


def waiter_of(kind):
    """the lock object a kind was read from"""
    return kind[1][1] if kind[0] == 'load' and kind[1][0] == 'field' and kind[1][2] == 'Lock.rel_lock' else None


def from_head(t):
    """object reached through the head of the wait queue"""
    if t[0] == 'index':
        t = t[1]
    if t[0] == 'call' and t[1] in ('list_first', 'list_pop'):
        return t[2][0][0] == 'field' and t[2][0][2] == 'Relation.lock_wait'
    if t[0] == 'load' and t[1][0] == 'field' and t[1][2] == 'List.next':
        return t[1][1][0] == 'field' and t[1][1][2] == 'Relation.lock_wait'
    return False


def ended_empty(p):
    """the last thing known about the queue is that it is empty"""
    fs = [f for f in p.facts if leaf_field(strip_cast(f[2])) == 'Relation.lock_wait_count' or
          (strip_cast(f[2])[0] == 'call' and strip_cast(f[2])[1] in ('list_empty',))]
    if not fs:
        return False
    f = fs[-1]
    if strip_cast(f[2])[0] == 'call':
        return f[1] == 'ne'
    return no_waiters(f)


def all_of_mine(ctx, P):
    """a transaction that ends releases every lock it holds, however often it took it: each lock of the list is given back completely before the list is emptied"""
    v = P.view('unlock_all')
    un = v.calls('lock_mgr_unlock')
    ctx.ob('all', 'unlock_all', bool(un), 'releases nothing')
    n = 0
    for p in paths(v, visits=3, cut=True):
        evs = ev_of(p)
        it = 0
        for k, e in enumerate(evs):
            if e[0] == 'call' and e[1] == 'lock_mgr_unlock':
                n += 1
                lock = e[2][1]
                ones = [x for x in evs[:k] if x[0] == 'refs' and x[2] == ('field', lock, 'Lock.refs')]
                ctx.ob('all-refs', 'unlock_all', bool(ones) and ones[-1][1] == ('=', 1), 'a lock that was taken repeatedly stays held', at=e[3])
    # every element: the cursor starts at one end of the list and each step releases
    for p in paths(v, visits=2, cut=True):
        # the links of a list are never null
        if p.end() == 'ret' and not any(f[1] == 'eq' and f[3] == ('null',) and leaf_field(f[2]) in ('List.prev', 'List.next') for f in p.facts):
            evs = ev_of(p)
            rel = len(calls(evs, 'lock_mgr_unlock'))
            adv = len([1 for f in p.facts if f[1] == 'ne' and any(x[0] == 'field' and x[2] == 'Coroutine.locks' for x in (f[2], f[3]))])
            ctx.ob('all-each', 'unlock_all', rel >= adv or adv == 0, 'skips a lock', at=p.insts[-1])
    ctx.floor('all-refs', 1)


def whole_access(ctx, P):
    """locking an access list locks every relation in it with the requested kind, in the global relation order"""
    v = P.view('lock_mgr_lock_access')
    cs = v.calls('lock_mgr_lock')
    w = 'lock_mgr_lock_access'
    ctx.ob('access-each', w, len(cs) == 1 and in_loop(v, cs[0]), 'does not lock every relation')
    for c in cs:
        r, k = S0(v, c.args[1]), S0(v, c.args[2])
        ctx.ob('access-pair', w, leaf_field(r) == 'AccessRecord.rel' and leaf_field(k) == 'AccessRecord.lock' and rec(r) == rec(k), 'locks another relation or kind than recorded', at=c)
        ctx.ob('access-order', w, 'Access.list_ordered' in fields_in(r), 'does not follow the relation order', at=c)
        # the loop covers 0 .. list_count
        ph = phis(v, v.term(c.args[1]))
        ok = False
        for q in ph:
            ini = [v.term(x) for x, b in v.inst[q].d['in']]
            if any(t == ('const', 0) for t in ini) and any(t[0] == 'bin' and t[1] == 'add' and t[3] == ('const', 1) for t in ini):
                for f in v.conds(c):
                    if f[1] in ('slt', 'ult', 'ne') and f[2] == ('phi', q) and leaf_field(strip_cast(f[3])) == 'Access.list_count':
                        ok = True
        ctx.ob('access-all', w, ok, 'does not cover the whole list', at=c)
    f = P.get('access_cmp')
    for e in f.exits():
        t = f.term(e.args[0])
        fs = [x for x in fields_in(expand(f, t))]
        ctx.ob('access-order', 'access_cmp', 'Relation.lock_order' in fs, 'relations are not compared by their order', at=e)
    v = P.view('access_merge')
    ctx.ob('access-sorted', 'access_merge', missing(v, None, v.exits(), v.calls('access_sort')) is None, 'a merged list is not put in order')
    for a in v.calls('access_add'):
        ctx.ob('access-sorted', 'access_merge', v.can_reach(a, v.exits(), avoid=v.calls('access_sort')) is None, 'a relation is added after the list was ordered', at=a)


def expand(f, t, d=0):
    """a term with the arguments of calls in place"""
    if t[0] == 'call' and d < 5:
        i = f.inst[t[2]]
        return ('call', t[1]) + tuple(expand(f, f.term(a), d + 1) for a in i.args)
    if t[0] == 'phi':
        return ('phi',) + tuple(expand(f, f.term(v), d + 1) for v, b in f.inst[t[1]].d['in']) if d < 5 else t
    return tuple(expand(f, x, d) if isinstance(x, tuple) else x for x in t)


def S0(v, o):
    return v.norm(v.term(o))


def rec(t):
    return strip_cast(t)[1][1]


def phis(v, t):
    r = []
    def see(y):
        if y[0] == 'phi':
            r.append(y[1])
        return False
    deep(v, t, see)
    return r


RULES = [request, release, all_of_mine, whole_access]
