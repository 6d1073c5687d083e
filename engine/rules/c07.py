"""C07: no wakeup is lost."""
from ..q import *

WAITERS = ['cond_wait', 'request_wait', 'job_mgr_next', 'wal_worker_main']
SETTERS = ['cond_signal', 'request_complete', 'job_mgr_add', 'job_mgr_stop', 'wal_worker_request']
ENTRIES = WAITERS + SETTERS + ['event_signal_local', 'event_signal', 'wait_event', 'wait_event_time', 'wait_event_timer', 'coroutine_resume', 'coroutine_suspend', 'coroutine_mgr_scheduler',
                               'coroutine_mgr_create', 'coroutine_mgr_add_ready', 'coroutine_cancel', 'coroutine_cancel_resume', 'bus_send', 'bus_step', 'mainloop', 'notify_signal', 'notify_on_read', 'mailbox_pop',
                               'request_queue_pop', 'request_queue_push', 'request_queue_peek', 'track_write', 'rpc_send', 'run', 'rpc_execute', 'job_run', 'job_worker_main',
                               'task_coroutine_main', 'task_shutdown', 'timer_mgr_step', 'ring_write', 'ring_read', 'ring_pending', 'poll_read', 'poll_write']
KEEP = ['event_signal_local', 'event_signal', 'event_attach', 'wait_event', 'wait_event_time', 'event_wait', 'coroutine_resume', 'coroutine_suspend', 'coroutine_mgr_switch', 'context_swap', 'context_create',
        'coroutine_mgr_scheduler', 'coroutine_mgr_add_ready', 'coroutine_mgr_add', 'coroutine_mgr_del', 'coroutine_mgr_add_free', 'bus_send', 'bus_step', 'ring_write', 'ring_read', 'notify_signal',
        'timer_mgr_step', 'timer_mgr_add', 'timer_mgr_remove', 'timer_start', 'timer_stop', 'poller_step', 'mailbox_append', 'mailbox_pop', 'request_queue_peek', 'job_mgr_add', 'job_mgr_next', 'job_run', 'rpc_signal',
        'task_send', 'timer_mgr_time_min', 'timer_mgr_timer_min', 'cancellation_point', 'task_shutdown', 'error_copy', 'coroutine_cancel', 'poller_read', 'poller_write']
UNKEEP, PLAIN = [], True

WAIT = ('cond_var_wait', 'cond_var_timedwait')
NOTIFY = ('cond_var_signal', 'cond_var_broadcast')


def view_of(P, n):
    return P.views.get(n) or P.get(n)


def loc(i):
    l = i.d.get('l')
    return (i.src(), l[0][1] if l else 0, i.callee or i.op)


def possible(facts, f, where):
    """values -3..5 the facts allow for a location"""
    vals = set(range(-3, 6))
    for _, p, a, b in facts:
        a = strip_cast(a)
        if a[0] == 'load' and f.norm(a[1]) == where and b[0] == 'const':
            vals = {x for x in vals if holds(p, x, b[1])}
    return vals


ALLV = set(range(-3, 6))


def site_views(P, names, what):
    """[(function or view, instruction)] of every place of the program, seen with helpers inlined where the entry points reach it"""
    r, seen = [], set()
    for n in names:
        v = view_of(P, n)
        for i in v.insts():
            if what(v, i):
                r.append((v, i))
                seen.add(loc(i))
    for f in P.fn.values():
        for i in f.insts():
            if what(f, i) and loc(i) not in seen:
                r.append((f, i))
    return r


def waits(ctx, P):
    """a thread sleeps on a condition variable only after seeing, under the mutex it hands over and without releasing it in between, that there is nothing to do, and looks again after waking up before it goes on"""
    preds = {}
    n = 0
    for v, w in site_views(P, WAITERS, lambda f, i: i.op == 'call' and i.callee in WAIT):
        n += 1
        lock = v.norm(v.term(w.args[1]))
        cv = v.norm(v.term(w.args[0]))
        owner = lock[1] if lock[0] == 'field' else None
        acq = [i for i in v.calls('mutex_lock') if v.norm(v.term(i.args[0])) == lock]
        rel = [i for i in v.calls('mutex_unlock') if v.norm(v.term(i.args[0])) == lock]
        name = v.src if v.view is False else v.name
        ctx.ob('wait-locked', name, bool(acq) and v.dominated(w, acq) and v.can_reach(rel, [w], avoid=acq) is None if rel else bool(acq) and v.dominated(w, acq), 'waits without holding the mutex', at=w)
        facts = v.conds(w)
        cand = {}
        for f in facts:
            a = strip_cast(f[2])
            if a[0] == 'load' and f[3][0] == 'const' and a[1][0] == 'field' and v.norm(a[1][1]) == owner:
                cand.setdefault(v.norm(a[1]), []).append(a[2])
        # a fact counts when its load cannot be older than the mutex (or the previous wait)
        fresh = {}
        for place, ids in cand.items():
            lds = [v.inst[x] for x in ids]
            if all(v.can_reach(rel + [w], [w], avoid=lds) is None for _ in (0,)) and all(v.dominated(l, acq) and v.can_reach(rel, [l], avoid=acq) is None for l in lds):
                fresh[place] = possible(facts, v, place)
        ctx.ob('wait-checked', name, any(s != ALLV for s in fresh.values()), 'waits without having checked under the mutex that there is something to wait for', at=w)
        for place, s in fresh.items():
            preds.setdefault(leaf_field(place), []).append((s, leaf_field(cv), leaf_field(lock)))

        def again(fs, v=v, fresh=fresh):
            for place, s in fresh.items():
                t = possible(fs, v, place)
                if t != ALLV and not (t & s):
                    return True
            return False
        if w.callee == 'cond_var_wait':
            e = v.can_reach(w, rel + v.exits() + v.unwinds(), edge=cut_when(v, again))
            ctx.ob('wait-again', name, e is None, 'goes on after a wakeup without having seen the condition hold', at=e or w)
        else:
            lds = [i for i in v.insts() if i.op == 'load' and v.norm(v.term(i.args[0])) in fresh]
            e = v.can_reach(w, rel + v.exits(), avoid=lds)
            ctx.ob('wait-again', name, e is None, 'reports the state from before the wait', at=e or w)
    ctx.floor('wait-checked', 4)
    ctx._preds = preds
    ctx.ob('waits-known', 'conditions', set(preds) >= {'Cond.signal', 'Request.complete', 'JobMgr.jobs_count', 'JobMgr.shutdown', 'WalWorker.pending'}, 'a waiter no longer depends on the state its peer changes')


def notifies(ctx, P):
    """whoever makes the awaited condition true does so under the same mutex and then wakes a waiter on every path; a condition that no waiter consumes wakes all of them"""
    preds = ctx._preds
    n = 0

    def sets(f, i):
        if i.op not in ('store', 'atomicrmw'):
            return False
        t = f.term(i.args[1] if i.op == 'store' else i.args[0])
        if t[0] != 'field' or t[2] not in preds:
            return False
        if i.op == 'store':
            s = set.intersection(*[x[0] for x in preds[t[2]]])
            v = strip_cast(f.norm(f.term(i.args[0])))
            c = const_of(v)
            if c is not None:
                return c not in s
            if v[0] == 'bin' and v[1] in ('add', 'sub') and v[3][0] == 'const' and strip_cast(v[2]) == ('load', f.norm(t)):
                d = v[3][1] if v[1] == 'add' else -v[3][1]
                return d > 0
        return True
    for v, i in site_views(P, SETTERS, sets):
        t = v.norm(v.term(i.args[1] if i.op == 'store' else i.args[0]))
        fld, owner = t[2], t[1]
        _, cvf, lkf = preds[fld][0]
        name = v.name
        n += 1
        lock = ('field', owner, lkf)
        acq = [c for c in v.calls('mutex_lock') if v.norm(v.term(c.args[0])) == lock]
        rel = [c for c in v.calls('mutex_unlock') if v.norm(v.term(c.args[0])) == lock]
        ok = bool(acq) and v.dominated(i, acq) and (not rel or v.can_reach(rel, [i], avoid=acq) is None)
        ctx.ob('notify-locked', name + ':' + fld, ok, 'the awaited state changes without the mutex of the waiter', at=i)
        sig = [c for c in v.calls(*NOTIFY) if v.norm(v.term(c.args[0])) == ('field', owner, cvf)]
        ends = v.exits() + v.unwinds()
        bad = v.can_reach(i, ends, avoid=sig)
        ctx.ob('notify-after', name + ':' + fld, bad is None, 'the waiter is not woken', at=i)
        if fld == 'JobMgr.shutdown':
            br = [c for c in sig if c.callee == 'cond_var_broadcast']
            ctx.ob('notify-all', name + ':' + fld, v.can_reach(i, ends, avoid=br) is None, 'only one of several waiters is woken for a condition none of them consumes', at=i)
        if fld == 'Request.complete':
            # the request belongs to the waiter as soon as the mutex is free
            ctx.ob('notify-owned', name, v.can_reach(rel, sig) is None, 'the request is touched after its waiter may have released it', at=i)
    ctx.floor('notify-after', 5)


def jobs(ctx, P):
    """the job queue and its counter move together, and a worker leaves on shutdown only when no job is left"""
    v = P.view('job_mgr_next')
    for p in paths(v):
        if p.end() != 'ret':
            continue
        tr = trace(p)
        pop = [e for e in sel(tr, 'call', 'list_pop')]
        dec = [e for e in tr if e.k == 'store' and e.f == 'JobMgr.jobs_count']
        ret = v.norm(subst(v.term(p.insts[-1].args[0]), p.env))
        if ret == ('null',):
            ctx.ob('jobs-drained', 'job_mgr_next', not pop and not dec, 'a job is taken and dropped', at=p.insts[-1])
            left = fact_says(last_facts(p, 'JobMgr.jobs_count'), isload('JobMgr.jobs_count'))
            ctx.ob('jobs-drained', 'job_mgr_next', not [x for x in left if x > 0], 'a worker leaves although jobs are waiting', at=p.insts[-1])
        else:
            ctx.ob('jobs-counted', 'job_mgr_next', len(pop) == 1 and len(dec) == 1 and wrote(dec[0], delta=-1), 'taking a job does not follow the counter', at=p.insts[-1])
    v = P.view('job_mgr_add')
    for p in paths(v):
        if p.end() == 'ret':
            tr = trace(p)
            ins = sel(tr, 'call', 'list_append', 'list_push')
            inc = [e for e in tr if e.k == 'store' and e.f == 'JobMgr.jobs_count']
            ctx.ob('jobs-counted', 'job_mgr_add', len(ins) == 1 and len(inc) == 1 and wrote(inc[0], delta=1), 'adding a job does not follow the counter', at=p.insts[-1])
    for n, done in (('job_run', 'Job.on_complete'), ('rpc_execute', None)):
        v = P.view(n)
        ctx.ob('answered', n, not v.unwinds(), 'an error escapes instead of being handed to the requester', at=v.unwinds()[0] if v.unwinds() else None)
        sig = [c for c in v.calls('event_signal') if argfield(v, c, 0) == done] if done else v.calls('rpc_signal')
        ctx.ob('answered', n, missing(v, None, v.exits(), sig) is None, 'the requester is not woken', at=v.exits()[0])
        cp = v.calls('error_copy')
        ctx.ob('answered', n, bool(cp) and v.can_reach(sig, cp) is None, 'the error is stored after the requester was woken', at=v.exits()[0])
        for c in sig:
            ctx.ob('answered', n, v.can_reach(c, sig) is None, 'the requester is woken twice', at=c)
    v = P.view('job_worker_main')
    nx, rn = v.calls('job_mgr_next'), v.calls('job_run')
    got = lambda fs: any(p == 'eq' and b == ('null',) and strip_cast(a)[0] == 'call' and strip_cast(a)[1] == 'job_mgr_next' for _, p, a, b in fs)
    ctx.ob('answered', 'job_worker_main', v.can_reach(nx, nx + v.exits(), avoid=rn, edge=cut_when(v, got)) is None, 'a job is taken and not run', at=v.exits()[0] if v.exits() else None)


def last_facts(p, field):
    """the path seen after the last wait"""
    q = Path(p.v)
    ks = [k for k, i in enumerate(p.insts) if i.op == 'call' and i.callee in WAIT]
    k0 = ks[-1] if ks else -1
    q.facts = [f for f, a in zip(p.facts, p.at) if a > k0]
    return q


def events(ctx, P):
    """signalling an event records it before waking the waiter and wakes every waiter; waiting consumes a recorded signal instead of sleeping, and announces itself before it sleeps"""
    v = P.view('event_signal_local')
    for p in paths(v):
        tr = trace(p)
        e = ('arg', 0, v.params[0])
        st = [x for x in tr if x.k == 'store' and x.a == ('field', e, 'Event.signal')]
        rs = [x for x in sel(tr, 'call', 'coroutine_resume') if x.a[0] == ('load', ('field', e, 'Event.wait'))]
        up = [x for x in sel(tr, 'call', 'event_signal_local') if x.a[0] == ('load', ('field', e, 'Event.parent'))]
        ctx.ob('signal-recorded', 'event_signal_local', len(st) == 1 and wrote(st[0], const=1), 'the signal is not recorded', at=p.insts[-1])
        nowait = fact_says(p, isload('Event.wait')) == {0}
        nopar = fact_says(p, isload('Event.parent')) == {0}
        ctx.ob('signal-wakes', 'event_signal_local', nowait or len(rs) == 1, 'the waiter is not woken', at=p.insts[-1])
        ctx.ob('signal-parent', 'event_signal_local', nopar or len(up) == 1, 'the parent event is not signalled', at=p.insts[-1])
        for x in rs:
            ctx.ob('signal-recorded', 'event_signal_local', st and st[0].n < x.n, 'the waiter is woken before the signal is recorded', at=x.i)
    v = P.view('event_signal')
    for p in paths(v):
        tr = trace(p)
        far = sel(tr, 'call', 'bus_send')
        near = sel(tr, 'call', 'event_signal_local')
        nobus = fact_says(p, isload('Event.bus')) == {0}
        ctx.ob('signal-route', 'event_signal', (len(near) == 1 and not far) if nobus else (len(far) == 1 and not near), 'the signal does not go to the thread the event is attached to', at=p.insts[-1])
    for n in ('wait_event', 'wait_event_time'):
        v = P.view(n)
        for p in paths(v):
            if p.end() == 'panic':
                continue
            tr = trace(p)
            e = ('arg', 0, v.params[0])
            sus = sel(tr, 'call', 'coroutine_suspend')
            st = [x for x in tr if x.k == 'store' and x.a == ('field', e, 'Event.signal')]
            wt = [x for x in tr if x.k == 'store' and x.a == ('field', e, 'Event.wait')]
            first = next((f for f in p.facts if isload('Event.signal')(strip_cast(f[2]))), None)
            had = first is not None and first[1] == 'ne'
            ctx.ob('wait-consumes', n, first is not None, 'does not look for a recorded signal', at=p.insts[-1])
            ctx.ob('wait-consumes', n, bool(st) and all(wrote(x, const=0) for x in st), 'the signal stays recorded after the wait', at=p.insts[-1])
            if had:
                ctx.ob('wait-consumes', n, not sus, 'sleeps although the event was already signalled', at=p.insts[-1])
                continue
            ctx.ob('wait-announced', n, len(sus) == 1, 'returns without having waited', at=p.insts[-1])
            if len(sus) != 1:
                continue
            b = [x for x in wt if x.n < sus[0].n]
            a = [x for x in wt if x.n > sus[0].n]
            coro = sus[0].a[0]
            ctx.ob('wait-announced', n, len(b) == 1 and b[0].v == coro, 'sleeps without being registered at the event', at=sus[0].i)
            ctx.ob('wait-announced', n, len(a) == 1 and wrote(a[0], const=0), 'stays registered at the event after waking up', at=sus[0].i)
            ctx.ob('wait-announced', n, not [x for x in st if x.n < sus[0].n], 'a signal is discarded before sleeping', at=sus[0].i)
            if n == 'wait_event_time':
                go = sel(tr, 'call', 'timer_start', 'timer_mgr_add')
                stop = sel(tr, 'call', 'timer_stop', 'timer_mgr_remove')
                tm = v.params.index('time_ms')
                neg = fact_says(p, lambda t: t == ('arg', tm, 'time_ms'))
                ctx.ob('wait-timer', n, bool(go) or not [x for x in neg if x >= 0], 'a timed wait starts no timer', at=sus[0].i)
                act = fact_says(p, isload('Timer.active'))
                ctx.ob('wait-timer', n, bool(stop) or 1 not in act, 'a running timer outlives the wait it points to', at=p.insts[-1])
                for x in go:
                    ctx.ob('wait-timer', n, x.n < sus[0].n, 'the timer is started after the wait', at=x.i)
    v = P.view('wait_event_timer')
    ctx.ob('wait-timer', 'wait_event_timer', missing(v, None, v.exits(), v.calls('coroutine_resume')) is None, 'an expired timer does not wake the waiter', at=v.exits()[0])
    ctx.floor('wait-announced', 6)


def scheduling(ctx, P):
    """a woken coroutine is queued exactly once and runs; the queue counter follows the queue; the loop does not sleep while something is runnable"""
    v = P.view('coroutine_resume')
    for p in paths(v):
        tr = trace(p)
        add = sel(tr, 'call', 'coroutine_mgr_add_ready')
        linked = p.truth(iscall('list_empty')) is False
        free = p.truth(iscall('list_empty')) is True
        ctx.ob('ready-once', 'coroutine_resume', linked and not add or free and len(add) == 1, 'a woken coroutine is not queued exactly once', at=p.insts[-1])
        for x in sel(tr, 'call', 'list_empty'):
            ctx.ob('ready-once', 'coroutine_resume', leaf_field(x.a[0]) == 'Coroutine.link_ready', 'looks at another link', at=x.i)
    v = P.view('coroutine_mgr_add_ready')
    for p in paths(v):
        tr = trace(p)
        app = [x for x in sel(tr, 'call', 'list_append', 'list_push') if leaf_field(x.a[0]) == 'CoroutineMgr.list_ready' and leaf_field(x.a[1]) == 'Coroutine.link_ready']
        cnt = [x for x in tr if x.k == 'store' and x.f == 'CoroutineMgr.count_ready']
        ctx.ob('ready-counted', 'coroutine_mgr_add_ready', len(app) == 1 and len(cnt) == 1 and wrote(cnt[0], delta=1), 'the counter does not follow the queue', at=p.insts[-1])
        ctx.ob('ready-fair', 'coroutine_mgr_add_ready', all(x.f == 'list_append' for x in app), 'a woken coroutine overtakes those already queued', at=p.insts[-1])
    v = P.view('coroutine_mgr_scheduler')
    for p in paths(v):
        if p.end() != 'ret':
            continue
        tr = trace(p)
        pops = [x for x in sel(tr, 'call', 'list_pop') if leaf_field(x.a[0]) == 'CoroutineMgr.list_ready']
        sw = sel(tr, 'call', 'context_swap')
        cnt = [x for x in tr if x.k == 'store' and x.f == 'CoroutineMgr.count_ready']
        ini = [x for x in sel(tr, 'call', 'list_init') if leaf_field(x.a[0]) == 'Coroutine.link_ready']
        cur = [x for x in tr if x.k == 'store' and x.f == 'CoroutineMgr.current']
        ctx.ob('ready-run', 'coroutine_mgr_scheduler', len(pops) == len(sw) == len(cnt) == len(ini) == len(cur) and all(wrote(x, delta=-1) for x in cnt), 'a queued coroutine is not unqueued, counted and run exactly once', at=p.insts[-1])
        for a, b, c, d, e in zip(pops, cnt, ini, cur, sw):
            ctx.ob('ready-run', 'coroutine_mgr_scheduler', a.n < e.n and b.n < e.n and c.n < e.n and d.n < e.n, 'a coroutine runs before the queue is consistent, so its wakeups are lost', at=e.i)
        lf = [f for f in p.facts if isload('CoroutineMgr.count_ready')(strip_cast(f[2]))]
        z = lf and possible([lf[-1]], v, v.norm(strip_cast(lf[-1][2])[1]))
        ctx.ob('ready-all', 'coroutine_mgr_scheduler', bool(z) and not [x for x in z if x > 0], 'stops although coroutines are ready', at=p.insts[-1])
    v = P.view('coroutine_mgr_create')
    for p in paths(v):
        if p.end() != 'ret':
            continue
        tr = trace(p)
        ok = len(sel(tr, 'call', 'coroutine_mgr_add_ready')) == 1 and len(sel(tr, 'call', 'coroutine_mgr_add')) == 1
        ctx.ob('ready-created', 'coroutine_mgr_create', ok, 'a created coroutine is not scheduled', at=p.insts[-1])
        ini = [x for x in sel(tr, 'call', 'list_init') if leaf_field(x.a[0]) == 'Coroutine.link_ready']
        ctx.ob('ready-created', 'coroutine_mgr_create', len(ini) == 1, 'a reused coroutine keeps its old queue link', at=p.insts[-1])
        cr = sel(tr, 'call', 'context_create')
        ctx.ob('ready-created', 'coroutine_mgr_create', len(cr) == 1, 'a created coroutine has no context', at=p.insts[-1])
        for fld in ('Coroutine.cancel', 'Coroutine.cancel_pause', 'Coroutine.cancel_pause_recv'):
            st = [x for x in tr if x.k == 'store' and x.f == fld]
            ctx.ob('ready-created', 'coroutine_mgr_create', bool(st) and wrote(st[-1], const=0), 'a reused coroutine keeps the cancellation of its predecessor (%s)' % fld, at=p.insts[-1])
    v = P.view('coroutine_cancel')
    for p in paths(v):
        tr = trace(p)
        paused = fact_says(p, isload('Coroutine.cancel_pause'))
        st = [x for x in tr if x.k == 'store' and x.f == 'Coroutine.cancel']
        rc = [x for x in tr if x.k == 'store' and x.f == 'Coroutine.cancel_pause_recv']
        if 0 in paused:
            ctx.ob('cancel', 'coroutine_cancel', len(st) == 1 and wrote(st[0], const=1) and len(sel(tr, 'call', 'coroutine_resume')) == 1, 'a cancelled coroutine is not woken', at=p.insts[-1])
        else:
            ctx.ob('cancel', 'coroutine_cancel', not st and len(rc) == 1 and wrote(rc[0], delta=1), 'a cancellation during a pause is forgotten', at=p.insts[-1])
    v = P.view('task_coroutine_main')
    for p in paths(v):
        tr = trace(p)
        sw = sel(tr, 'call', 'coroutine_mgr_switch')
        if not sw:
            continue
        done = [x for x in sel(tr, 'call', 'event_signal') if leaf_field(x.a[0]) == 'Coroutine.on_exit']
        last = [x for x in sel(tr, 'call', 'event_signal') if leaf_field(x.a[0]) == 'CoroutineMgr.on_exit']
        dl, fr = sel(tr, 'call', 'coroutine_mgr_del'), sel(tr, 'call', 'coroutine_mgr_add_free')
        ctx.ob('exit', 'task_coroutine_main', len(done) == 1 and len(dl) == 1 and len(fr) == 1 and dl[0].n < fr[0].n < sw[0].n and done[0].n < sw[0].n, 'who waits for the end of the coroutine is not woken', at=sw[0].i)
        cs = [f for f in p.facts if isload('CoroutineMgr.count')(strip_cast(f[2]))]
        one = cs and possible([cs[-1]], v, v.norm(strip_cast(cs[-1][2])[1]))
        ctx.ob('exit', 'task_coroutine_main', bool(one) and (len(last) == 1 if one == {1} else 1 not in one), 'the end of the last other coroutine is not reported', at=sw[0].i)
    ctx.ob('exit', 'task_coroutine_main', not v.unwinds(), 'an error escapes from the coroutine', at=v.unwinds()[0] if v.unwinds() else None)
    v = view_of(P, 'task_shutdown')
    for p in paths(v, visits=3):
        if p.end() == 'ret':
            tr = trace(p)
            w = [x for x in sel(tr, 'call', 'wait_event') if leaf_field(x.a[0]) == 'CoroutineMgr.on_exit']
            one = fact_says(p, isload('CoroutineMgr.count')) == {1}
            ctx.ob('exit', 'task_shutdown', one and not w or len(w) == 1, 'the task ends while coroutines are still running', at=p.insts[-1])


def sleeping(ctx, P):
    """before the event loop sleeps it announces that it will and then looks again for messages; a sender publishes first and then looks whether it has to wake the loop; the wakeup flag is cleared after the wakeup was consumed"""
    v = P.view('bus_send')
    for p in paths(v):
        tr = trace(p, loads=True)
        wr = sel(tr, 'call', 'ring_write')
        sl = [x for x in tr if x.k in ('rmw', 'load') and x.f == 'Bus.sleep']
        no = sel(tr, 'call', 'notify_signal')
        if not wr:
            rf = [x for x in tr if x.k == 'rmw' and x.f == 'Ipc.refs']
            dup = any(rf and f[1] == 'ne' and strip_cast(f[2]) == v.term(['v', rf[0].i.id]) for f in p.facts)
            ctx.ob('send', 'bus_send', len(rf) == 1 and dup and wrote(rf[0], delta=1), 'a message is dropped although it is not already on its way', at=p.insts[-1])
            continue
        ctx.ob('send', 'bus_send', len(wr) == 1, 'sent more than once', at=wr[0].i)
        ctx.ob('send-look', 'bus_send', len(sl) == 1 and sl[0].n > wr[0].n, 'looks whether the receiver sleeps before the message is visible', at=wr[0].i)
        if len(sl) != 1:
            continue
        ctx.ob('send-look', 'bus_send', strong(sl[0].i), 'the look at the sleep flag may be ordered before the message', at=sl[0].i)
        asleep = [f for f in p.facts if strip_cast(f[2]) == v.term(['v', sl[0].i.id])]
        yes = not asleep or asleep[-1][1] == 'ne'
        ctx.ob('send-wake', 'bus_send', len(no) == 1 if yes else True, 'a sleeping receiver is not woken', at=sl[0].i)
    v = P.view('bus_step')
    for p in paths(v, visits=3):
        if p.end() != 'ret':
            continue
        tr = trace(p)
        rd = sel(tr, 'call', 'ring_read')
        ans = [fact_for(p, x.i, k, rd) for k, x in enumerate(rd)]
        got = [x for x, a in zip(rd, ans) if a is not False]
        sg = sel(tr, 'call', 'event_signal_local')
        un = [x for x in tr if x.f == 'Ipc.refs' and wrote(x, const=0)]
        ctx.ob('deliver', 'bus_step', bool(rd) and ans[-1] is False, 'stops while messages are pending', at=p.insts[-1])
        ctx.ob('deliver', 'bus_step', len(sg) == len(got), 'a received message does not wake its receiver', at=p.insts[-1])
        ctx.ob('deliver-rearm', 'bus_step', len(un) == len(got), 'a received message cannot be sent again', at=p.insts[-1])
        kinds = [f for f in p.facts if isload('Ipc.id')(strip_cast(f[2]))]
        mb = sel(tr, 'call', 'mailbox_append')
        en = P.enum('IPC_EVENT')
        msgs = 0
        for f in kinds:
            c = f[3][1] if f[3][0] == 'const' else None
            if f[1] == 'ne' and c == en['IPC_EVENT'] or f[1] == 'eq' and c == en['IPC_MSG']:
                msgs += 1
        ctx.ob('deliver-mail', 'bus_step', len(mb) == msgs, 'a message is not put in the mailbox, or an event is', at=p.insts[-1])
        for x in mb:
            nx = [s for s in sg if leaf_field(s.a[0]) == 'Mailbox.event']
            ctx.ob('deliver-mail', 'bus_step', len(nx) >= msgs, 'a message does not signal the mailbox', at=x.i)
    v = P.view('mainloop') if 'mainloop' in P.views else P.get('mainloop')
    ps = v.calls('poller_step')
    ctx.ob('sleep-announce', 'mainloop', len(ps) >= 1, 'never polls')
    ann = [i for i in v.insts() if i.op == 'atomicrmw' and leaf_field(v.term(i.args[0])) == 'Bus.sleep' and const_of(v.term(i.args[1])) not in (0, None)]
    clr = [i for i in v.insts() if leaf_field(v.term(i.args[0] if i.op == 'atomicrmw' else i.args[1] if i.op == 'store' else ['n'])) == 'Bus.sleep' and i not in ann and i.op in ('store', 'atomicrmw')]
    for x in ps:
        ctx.ob('sleep-announce', 'mainloop', v.dominated(x, ann) and v.can_reach(clr, [x], avoid=ann) is None, 'sleeps without having announced it', at=x)
        for a in ann:
            ctx.ob('sleep-announce', 'mainloop', strong(a), 'the announcement may be ordered after the look for messages', at=a)
            lk = [i for i in v.insts() if i.op in ('load', 'atomicrmw') and leaf_field(v.term(i.args[0])) == 'Ring.pos_write']
            ctx.ob('sleep-look', 'mainloop', v.can_reach(a, [x], avoid=lk) is None, 'does not look for messages after announcing the sleep', at=x)

            def busy(fs, v=v, lk=lk):
                return any(p == 'eq' and any(is_term(t, lk) for t in (aa, bb)) for _, p, aa, bb in fs)
            ctx.ob('sleep-look', 'mainloop', v.can_reach(a, [x], edge=cut_when(v, busy)) is None, 'sleeps although messages are pending', at=x)
        ctx.ob('sleep-work', 'mainloop', v.can_reach(x, ps, avoid=v.calls('bus_step')) is None and v.can_reach(x, ps, avoid=v.calls('coroutine_mgr_scheduler')) is None,
               'sleeps again without having handled what woke it', at=x)
    st, sc = v.calls('bus_step'), v.calls('coroutine_mgr_scheduler')
    ctx.ob('sleep-work', 'mainloop', v.can_reach(st, ps, avoid=sc) is None, 'sleeps before the woken coroutines ran')
    # time-out of the sleep
    tm = v.calls('timer_mgr_step')
    n = 0
    for p in paths(v, visits=2, cut=True):
        tr = trace(p)
        for x in sel(tr, 'call', 'poller_step')[:1]:
            n += 1
            t = strip_cast(x.a[1])
            fired = [y for y in sel(tr, 'call', 'timer_mgr_step') if y.n < x.n]
            if t == ('const', 2 ** 32 - 1) or t == ('const', -1):
                some = any(isload('TimerMgr.timers_count')(strip_cast(f[2])) and not [z for z in possible([f], v, v.norm(strip_cast(f[2])[1])) if z > 0] for f in before(p, x.n).facts) or any(f[1] == 'eq' and f[3] == ('null',) for f in before(p, x.n).facts)
                ctx.ob('sleep-timer', 'mainloop', some, 'sleeps without limit although a timer is set', at=x.i)
            elif t != ('const', 0):
                e = lin(t)
                fl = {leaf_field(k): c for k, c in e.items() if k is not None}
                ctx.ob('sleep-timer', 'mainloop', fl.get('Timer.timeout', 0) == 1 and fl.get('TimerMgr.time_ms', 0) == -1 and len(fl) == 2 and e.get(None, 0) <= 0, 'does not wake up for the next timer', at=x.i)
                pos = [f for f in before(p, x.n).facts if f[3] == ('const', 0) and f[1] == 'sgt' and {leaf_field(k) for k in lin(v.norm(f[2])) if k} == {'Timer.timeout', 'TimerMgr.time_ms'}]
                ctx.ob('sleep-timer', 'mainloop', bool(pos), 'an expired timer makes the loop sleep', at=x.i)
            has = any(isload('TimerMgr.timers_count')(strip_cast(f[2])) and not [z for z in possible([f], v, v.norm(strip_cast(f[2])[1])) if z <= 0] for f in before(p, x.n).facts)
            ctx.ob('sleep-timer', 'mainloop', bool(fired) or not has, 'expired timers are not run', at=x.i)
    ctx.floor('sleep-timer', 3)
    v = P.view('notify_signal')
    for p in paths(v):
        tr = trace(p)
        fl = [x for x in tr if x.k == 'rmw' and x.f == 'Notify.signaled']
        wr = sel(tr, 'call', 'write')
        if not fl:
            ctx.ob('notify', 'notify_signal', bool(fact_says(p, isload('Fd.fd')) == {-1}), 'returns without notifying', at=p.insts[-1])
            continue
        was = [f for f in p.facts if strip_cast(f[2]) == v.term(['v', fl[0].i.id])]
        first = not was or holds(was[-1][1], 0, const_of(was[-1][3]) or 0)
        ctx.ob('notify', 'notify_signal', (len(wr) == 1 and wr[0].n > fl[0].n) if first else not wr, 'the receiver is not woken by the first notification', at=p.insts[-1])
        for x in wr:
            ctx.ob('notify', 'notify_signal', leaf_field(x.a[0]) == 'Fd.fd' and const_of(x.a[2]) == 8, 'the notification is not written to the event descriptor', at=x.i)
    v = P.get('notify_on_read') if 'notify_on_read' not in P.views else P.view('notify_on_read')
    for p in paths(v):
        tr = trace(p)
        rd = sel(tr, 'call', 'read')
        cl = [x for x in tr if x.f == 'Notify.signaled' and x.k in ('store', 'rmw')]
        cb = [x for x in tr if x.k == 'call' and x.f not in ('read',) and x.n > (rd[0].n if rd else 0)]
        ctx.ob('notify-consume', 'notify_on_read', len(rd) == 1 and len(cl) == 1 and rd[0].n < cl[0].n, 'the flag is cleared before the wakeup is consumed: a wakeup sent in between is swallowed and the flag stays set', at=p.insts[-1])
        if cl:
            ctx.ob('notify-consume', 'notify_on_read', all(cl[0].n < x.n for x in cb), 'the flag is cleared after the work: a wakeup sent during the work is lost', at=p.insts[-1])
            ctx.ob('notify-consume', 'notify_on_read', cl[0].i.d.get('ord') not in (None, 'monotonic', 'unordered') or cl[0].k == 'rmw', 'the flag is cleared without ordering', at=cl[0].i)
    ring(ctx, P)


def ring(ctx, P):
    v = P.view('ring_write')
    for p in paths(v):
        tr = trace(p, loads=True)
        if p.end() != 'ret':
            continue
        cl = [x for x in tr if x.k == 'rmw' and x.f == 'Ring.pos_claim']
        ctx.ob('ring', 'ring_write', len(cl) == 1 and wrote(cl[0], delta=1), 'a slot is not claimed atomically', at=p.insts[-1])
        if len(cl) != 1:
            continue
        slot = v.norm(v.term(['v', cl[0].i.id]))
        pub = [x for x in tr if x.k == 'store' and x.f == 'Ring.pos_write']
        put = [x for x in tr if x.k == 'store' and x.f == 'Ring.ring']
        ctx.ob('ring', 'ring_write', len(pub) == 1 and len(put) == 1 and put[0].n < pub[0].n, 'the message is published before it is stored', at=p.insts[-1])
        if len(pub) != 1:
            continue
        ctx.ob('ring', 'ring_write', pub[0].i.d.get('ord') in ('release', 'seq_cst'), 'the message may become visible after its publication', at=pub[0].i)
        my = v.term(['v', cl[0].i.id])
        ctx.ob('ring', 'ring_write', v.term(pub[0].i.args[0]) == ('bin', 'add', my, ('const', 1)), 'publishes another position than the claimed one', at=pub[0].i)
        turn = any(f[1] == 'eq' and my in (f[2], f[3]) and ('Ring.pos_write' in fields_in(f[2]) + fields_in(f[3])) for f in p.facts)
        ctx.ob('ring', 'ring_write', turn, 'publishes out of turn', at=pub[0].i)
        room = any(room_fact(f, my) for f in p.facts)
        ctx.ob('ring', 'ring_write', room, 'overwrites a message that was not read yet', at=put[0].i if put else pub[0].i)
        rl = [x for x in tr if x.k == 'load' and x.f == 'Ring.pos_read']
        ctx.ob('ring', 'ring_write', bool(rl) and all(x.i.d.get('ord') in ('acquire', 'seq_cst') for x in rl), 'the slot may be overwritten before its reader took it', at=p.insts[-1])
        same = [x for x in put if x.a[0] == 'index' and fields_in(x.a[1]) and 'Ring.ring' in fields_in(x.a[1])]
        ctx.ob('ring-index', 'ring_write', len(same) == 1 and index_ok(same[0].a[2], slot), 'the slot of a position is not its position modulo the size', at=p.insts[-1])
    v = P.view('ring_read')
    for p in paths(v):
        tr = trace(p, loads=True)
        pub = [x for x in tr if x.k == 'store' and x.f == 'Ring.pos_read']
        get = [x for x in tr if x.k == 'load' and x.a[0] == 'index' and 'Ring.ring' in fields_in(x.a[1])]
        ret = v.norm(subst(v.term(p.insts[-1].args[0]), p.env))
        if ret == ('null',):
            ctx.ob('ring', 'ring_read', not pub and any(f[1] == 'eq' and set(fields_in(f[2]) + fields_in(f[3])) >= {'Ring.pos_read', 'Ring.pos_write'} for f in p.facts), 'reports no message although one is there', at=p.insts[-1])
            continue
        ctx.ob('ring', 'ring_read', len(pub) == 1 and len(get) == 1 and get[0].n < pub[0].n and wrote(pub[0], delta=1), 'the slot is given back before it was read', at=p.insts[-1])
        if len(pub) == 1:
            ctx.ob('ring', 'ring_read', pub[0].i.d.get('ord') in ('release', 'seq_cst'), 'the slot may be reused before it was read', at=pub[0].i)
        wl = [x for x in tr if x.k == 'load' and x.f == 'Ring.pos_write']
        ctx.ob('ring', 'ring_read', bool(wl) and all(x.i.d.get('ord') in ('acquire', 'seq_cst') for x in wl), 'the message may be read before it was stored', at=p.insts[-1])
        if len(get) == 1:
            ctx.ob('ring-index', 'ring_read', index_ok(get[0].a[2], ('load', ('field', ('arg', 0, v.params[0]), 'Ring.pos_read'))), 'the slot of a position is not its position modulo the size', at=get[0].i)
    ctx.floor('ring', 10)


def room_fact(f, my):
    """slot < pos_read + ring_size"""
    e = le0(f)
    if e is None:
        return False
    fl = {}
    for k, c in e.items():
        if k is None:
            continue
        fl[leaf_field(k) if k != my else 'slot'] = c
    return fl.get('slot') == 1 and fl.get('Ring.pos_read') == -1 and fl.get('Ring.ring_size') == -1 and e.get(None, 0) >= 1


def index_ok(t, pos):
    t = strip_cast(t)
    if t[0] == 'bin' and t[1] in ('and', 'urem'):
        a, b = strip_cast(t[2]), strip_cast(t[3])
        e = lin(b)
        fl = {leaf_field(k): c for k, c in e.items() if k is not None}
        return a == pos and fl == {'Ring.ring_size': 1} and e.get(None, 0) == (-1 if t[1] == 'and' else 0)
    return False


def is_term(t, insts):
    t = strip_cast(t)
    return t[0] in ('load', 'op') and any(t[2] == i.id for i in insts)


def strong(i):
    """a sequentially consistent read-modify-write (or load): not reordered with earlier stores"""
    return i.op == 'atomicrmw' and i.d.get('ord') in ('seq_cst', 'acq_rel') or i.d.get('ord') == 'seq_cst'


def fact_for(p, call, k, rd):
    """True/False/None: the k-th result was non-null"""
    nx = rd[k + 1].n if k + 1 < len(rd) else 10 ** 9
    for f, a in zip(p.facts, p.at):
        if rd[k].n < a <= nx and strip_cast(f[2])[0] == 'call' and strip_cast(f[2])[2] == call.id and f[3] == ('null',):
            return f[1] == 'ne'
    return None


def queues(ctx, P):
    """a reader of a queue sleeps only when the queue is empty and looks again after every wakeup; a writer puts the item in the queue before it signals; the receiver's event is attached to its thread before anyone else can signal it"""
    v = P.view('mailbox_pop')
    for w in v.calls('wait_event', 'event_wait'):
        pop = v.calls('list_pop')
        look = v.calls('list_empty')
        ctx.ob('queue-look', 'mailbox_pop', v.can_reach(w, pop + v.exits(), avoid=look) is None and v.dominated(w, look), 'takes a message without looking whether there is one', at=w)
        ctx.ob('queue-look', 'mailbox_pop', v.can_reach(w, pop, edge=cut_when(v, lambda fs: truth(v, fs, iscall('list_empty')) is False)) is None, 'takes a message from an empty queue', at=w)
        ctx.ob('queue-event', 'mailbox_pop', argfield(v, w, 0) == 'Mailbox.event' and all(argfield(v, x, 0) == 'Mailbox.list' for x in pop + look), 'waits for another event', at=w)
    v = P.view('request_queue_pop')
    ws = v.calls('event_wait', 'wait_event')
    pk = v.calls('request_queue_peek')
    for w in ws:
        ctx.ob('queue-look', 'request_queue_pop', v.can_reach(w, v.exits(), avoid=pk) is None and v.dominated(w, pk), 'returns without looking for a request', at=w)
        ctx.ob('queue-event', 'request_queue_pop', argfield(v, w, 0) == 'RequestQueue.on_write', 'waits for another event', at=w)
    empty = lambda fs: any(p == 'ne' and b == ('null',) and any(t[0] == 'call' and t[1] == 'request_queue_peek' for t in resolve(v, strip_cast(a))) for _, p, a, b in fs)
    ctx.ob('queue-look', 'request_queue_pop', v.from_entry(v.exits(), edge=cut_when(v, empty)) is None, 'returns although there is no request')
    ctx.ob('queue-look', 'request_queue_pop', bool(ws), 'does not wait for a request')
    v = P.view('request_queue_push')
    for p in paths(v):
        tr = trace(p)
        app = [x for x in sel(tr, 'call', 'list_append') if leaf_field(x.a[0]) == 'RequestQueue.list']
        sg = [x for x in sel(tr, 'call', 'event_signal') if leaf_field(x.a[0]) == 'RequestQueue.on_write']
        k = v.params.index('signal')
        off = p.truth(lambda t: t == ('arg', k, 'signal')) is False
        ctx.ob('queue-write', 'request_queue_push', len(app) == 1, 'the request is not queued', at=p.insts[-1])
        ctx.ob('queue-write', 'request_queue_push', (len(sg) == 1 and app and app[0].n < sg[0].n) or (off and not sg), 'the reader is not woken after the request was queued', at=p.insts[-1])
    v = P.view('track_write')
    for p in paths(v):
        tr = trace(p)
        app, sg = sel(tr, 'call', 'mailbox_append'), sel(tr, 'call', 'event_signal')
        ctx.ob('queue-write', 'track_write', len(app) == 1 and len(sg) == 1 and app[0].n < sg[0].n, 'the reader is not woken after the message was queued', at=p.insts[-1])
    for n, pub in (('rpc_send', ('task_send', 'bus_send')), ('run', ('job_mgr_add',))):
        v = view_of(P, n)
        at = v.calls('event_attach')
        pb = v.calls(*pub)
        ctx.ob('attach-first', n, bool(pb) and all(v.dominated(x, at) for x in pb), 'is published before its event is attached to this thread, so its completion is signalled from the wrong thread', at=pb[0] if pb else None)
        ini = [c for c in v.calls('event_init')]
        ctx.ob('attach-first', n, not v.can_reach(at, ini), 'its event is detached again', at=at[0] if at else None)
    for n, reg, fld in (('poll_read', 'poller_read', 'arm'), ('poll_write', 'poller_write', 'arm')):
        v = view_of(P, n)
        ws = v.calls('event_wait', 'wait_event', 'wait_event_time')
        arm = [c for c in v.calls(reg) if v.term(c.args[2]) != ('null',)]
        ctx.ob('poll-armed', n, bool(ws) and bool(arm) and all(v.dominated(w, arm) for w in ws), 'waits for the descriptor without having registered for it', at=ws[0] if ws else None)


RULES = [waits, notifies, jobs, events, scheduling, sleeping, queues]
