"""W06: a request to the background log worker is never lost."""
from ..q import *
from .. import core

ENTRIES = ['wal_worker_main', 'wal_worker_request', 'wal_worker_init', 'wal_worker_stop', 'wal_worker_start']
KEEP = ['wal_sync', 'wal_create', 'wal_overflow', 'task_wait', 'task_create', 'error_catch_leave']
UNKEEP = []


def bits(P):
    e = P.enum('WAL_CREATE')
    return e['WAL_CREATE'], e['WAL_SYNC'], e['WAL_SYNC_CREATE'], e['WAL_SHUTDOWN']


def taken(v):
    """the value taken from the pending set"""
    return loads(v, 'WalWorker.pending')


def bit_fact(v, f, ids):
    """(mask, is_set) the fact says about the taken requests"""
    _, p, a, b = f
    a, b = strip_cast(a), strip_cast(b)
    if a[0] == 'bin' and a[1] == 'and' and a[3][0] == 'const' and a[2][0] == 'load' and a[2][2] in ids and b[0] == 'const':
        m = a[3][1]
        if p in ('ne', 'eq') and b[1] == 0:
            return m, p == 'ne'
        if p in ('ne', 'eq') and b[1] == m and m & (m - 1) == 0:
            return m, p == 'eq'
    return None


def iterations(v):
    ps = []
    for p in paths(v, visits=2, cut=True):
        ps.append(p)
    return ps


def performed(ctx, P):
    """from taking a set of requests to taking the next one (or ending), every request in the set was performed or turned out to be already satisfied"""
    CREATE, SYNC, SYNC_CREATE, SHUT = bits(P)
    v = P.view('wal_worker_main')
    tk = taken(v)
    clr = [s for s in stores(v, 'WalWorker.pending')]
    ctx.ob('takes', 'wal_worker_main', bool(tk) and bool(clr), 'the worker does not take requests')
    take = [l for l in tk if any(v.can_reach(l, [s]) for s in clr)]
    n = 0
    seen = set()
    for p in iterations(v):
        ks = [k for k, i in enumerate(p.insts) if i in clr]
        for q, k in enumerate(ks):
            lock = [x for x in range(k + 1, len(p.insts)) if p.insts[x].callee == 'mutex_lock' and leaf_field(v.term(p.insts[x].args[0])) == 'WalWorker.lock']
            endk = lock[0] if lock else len(p.insts)
            if not lock and p.end() not in ('ret',):
                continue        # the path was cut before the iteration ended
            seg = p.insts[k:endk]
            # the taken value: last load of pending before the clear
            ld = [i for i in p.insts[:k] if i in tk]
            if not ld:
                continue
            ids = {i.id for i in tk}
            known = {}
            # facts gathered within this iteration only: first iteration paths suffice
            if q > 0:
                continue
            for f in p.facts:
                r = bit_fact(v, f, ids)
                if r and r[0] & (r[0] - 1) == 0:
                    known.setdefault(r[0], r[1])
                elif r and not r[1]:
                    for b in (CREATE, SYNC, SYNC_CREATE, SHUT):
                        if r[0] & b:
                            known.setdefault(b, False)
            full = p.truth(lambda t: t[0] == 'call' and t[1] == 'wal_overflow')
            sy = [i for i in seg if i.callee == 'wal_sync']
            cr = [i for i in seg if i.callee == 'wal_create']
            thrown = failed(p, seg)
            shut_end = p.end() == 'ret' and not lock
            key = (tuple(sorted(known.items())), full, len(sy), len(cr), thrown, shut_end, seg[-1].id)
            if key in seen:
                continue
            seen.add(key)
            n += 1
            at = seg[-1]
            if known.get(SYNC) is not False:
                old = [s for s in sy if not cr or p.index(s) < p.index(cr[0])]
                ctx.ob('flush-performed', 'wal_worker_main', bool(old) or thrown, 'a requested flush is not performed', at=at)
            if known.get(CREATE) is not False:
                ctx.ob('rotate-performed', 'wal_worker_main', bool(cr) or full is False or thrown, 'a requested rotation is not performed', at=at)
            if known.get(SYNC_CREATE) is not False:
                new = [s for s in sy if const_of(p.arg(s, 1)) not in (0, None)]
                ctx.ob('create-flush-performed', 'wal_worker_main', bool(new) or thrown or (full is False and known.get(CREATE) is True), 'a requested flush of the new file is not performed', at=at)
            if known.get(SHUT) is not False:
                ctx.ob('shutdown-performed', 'wal_worker_main', shut_end, 'a shutdown request does not end the worker', at=at)
            else:
                ctx.ob('no-other-end', 'wal_worker_main', not shut_end, 'the worker ends without having been told to', at=at)
    ctx.floor('flush-performed', 2)
    ctx.floor('shutdown-performed', 2)
    # an error does not end the worker
    ctx.ob('errors-caught', 'wal_worker_main', not v.unwinds(), 'an error while performing a request ends the worker and loses later requests', at=v.unwinds()[0] if v.unwinds() else None)


def failed(p, seg):
    """an operation of the iteration raised an error on this path"""
    v = p.v
    for a, b in zip(p.blocks, p.blocks[1:]):
        for s, l in v.succ[a]:
            if s == b and l == ('exc',):
                blk = v.blocks[a]
                if any(i in seg for i in blk if i.op == 'call' and not (i.callee or '').startswith('vp.')):
                    return True
    return False


def taken_once(ctx, P):
    """the worker takes and clears the requests under one hold of the lock and sleeps only while there are none"""
    v = P.view('wal_worker_main')
    lk, ul = call_on(v, 'mutex_lock', 'WalWorker.lock'), call_on(v, 'mutex_unlock', 'WalWorker.lock')
    clr, tk = stores(v, 'WalWorker.pending'), taken(v)
    for i in clr + tk:
        ctx.ob('taken-locked', 'wal_worker_main', v.dominated(i, lk) and not any(v.can_reach(u, [i], avoid=lk) for u in ul), 'the requests are touched without the lock', at=i)
    for s in clr:
        ctx.ob('taken-cleared', 'wal_worker_main', const_of(v.term(s.args[0])) == 0, 'only some of the requests are cleared', at=s)
        last = [t for t in tk if v.can_reach(t, [s], avoid=[x for x in tk if x is not t] + ul) ]
        ctx.ob('taken-cleared', 'wal_worker_main', bool(last), 'requests are cleared without being taken', at=s)
    for w in v.calls('cond_var_wait'):
        none = any(f[1] == 'eq' and leaf_field(f[2]) == 'WalWorker.pending' and const_of(f[3]) == 0 for f in v.conds(w))
        ctx.ob('sleeps-only-idle', 'wal_worker_main', none or idle_loop(v, w), 'the worker sleeps although there are requests', at=w)
        ctx.ob('rechecks', 'wal_worker_main', v.can_reach(w, clr, avoid=tk) is None, 'requests are taken after a wakeup without looking', at=w)
        ctx.ob('wait-pair', 'wal_worker_main', leaf_field(v.term(w.args[0])) == 'WalWorker.cond_var' and leaf_field(v.term(w.args[1])) == 'WalWorker.lock', 'waits on something else', at=w)
    ctx.floor('taken-locked', 2)
    ctx.floor('rechecks', 1)


def idle_loop(v, w):
    """every way into the wait passes the branch 'no requests'"""
    def some(fs):
        return any(f[1] == 'eq' and leaf_field(f[2]) == 'WalWorker.pending' and const_of(f[3]) == 0 for f in fs)
    cut = cut_when(v, some)
    lk = call_on(v, 'mutex_lock', 'WalWorker.lock')
    return v.can_reach(lk + [w], [w], edge=cut) is None


def request(ctx, P):
    """a request adds its actions to the pending ones and then wakes the worker, under the lock"""
    v = P.view('wal_worker_request')
    lk, ul = call_on(v, 'mutex_lock', 'WalWorker.lock'), call_on(v, 'mutex_unlock', 'WalWorker.lock')
    st, sg = stores(v, 'WalWorker.pending'), call_on(v, 'cond_var_signal', 'WalWorker.cond_var') + call_on(v, 'cond_var_broadcast', 'WalWorker.cond_var')
    m = missing(v, None, v.exits(), st)
    ctx.ob('request-recorded', 'wal_worker_request', m is None, 'a request is not recorded', at=m)
    m = missing(v, None, v.exits(), sg)
    ctx.ob('request-wakes', 'wal_worker_request', m is None, 'the worker is not woken', at=m)
    for s in st:
        t = strip_cast(v.term(s.args[0]))
        ok = t[0] == 'bin' and t[1] == 'or' and any(leaf_field(x) == 'WalWorker.pending' for x in t[2:]) and any(x[:2] == ('arg', 1) for x in t[2:])
        ctx.ob('request-merged', 'wal_worker_request', ok, 'a request replaces the pending ones', at=s)
        ctx.ob('request-locked', 'wal_worker_request', v.dominated(s, lk) and not any(v.can_reach(u, [s], avoid=lk) for u in ul), 'recorded without the lock', at=s)
        ctx.ob('request-wakes', 'wal_worker_request', v.can_reach(s, v.exits(), avoid=sg) is None, 'the worker is woken before the request is recorded', at=s)


def distinct(ctx, P):
    """the actions are distinct bits and every use of the worker requests only known ones"""
    b = bits(P)
    ctx.ob('distinct-bits', 'WAL_*', len(set(b)) == 4 and all(x and x & (x - 1) == 0 for x in b), 'two actions share a bit')
    n = 0
    for c in P.callers().get('wal_worker_request', []):
        f = c.fn
        for t in resolve(f, f.term(c.args[1])):
            k = const_of(t)
            if k is not None:
                n += 1
                ctx.ob('known-actions', f.name, k and not k & ~sum(b), 'an unknown action is requested', at=c)
    v = P.view('wal_worker_init')
    z = [s for s in stores(v, 'WalWorker.pending') if const_of(v.term(s.args[0])) == 0]
    ctx.ob('starts-empty', 'wal_worker_init', missing(v, None, v.exits(), z) is None, 'starts with arbitrary requests')
    v = P.view('wal_worker_stop')
    m = missing(v, None, v.exits(), v.calls('task_wait'))
    ctx.ob('stop-waits', 'wal_worker_stop', m is None, 'does not wait for the worker', at=m)


RULES = [performed, taken_once, request, distinct]
