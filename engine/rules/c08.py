"""C08: every request is completed exactly once."""
from ..q import *
from . import c07

ENTRIES = ['rpc', 'rpc_send', 'rpc_recv', 'rpc_signal', 'rpc_execute', 'rpc_set_wait', 'rpc_init', 'run', 'job_init', 'job_run', 'job_worker_main', 'job_mgr_add', 'job_mgr_next', 'job_mgr_stop', 'job_mgr_start',
           'request_complete', 'error_copy', 'error_reset']
KEEP = [x for x in c07.KEEP if x not in ('job_mgr_next',)] + ['job_mgr_next', 'rpc_init', 'rpc_free', 'rpc_send', 'rpc_recv', 'coroutine_cancel_pause', 'coroutine_cancel_resume', 'job_init', 'task_wait', 'job_worker_free',
                                                              'job_worker_allocate', 'job_worker_start', 'job_worker_stop', 'thread_join', 'exception_mgr_throw', 'error_reset']
UNKEEP, PLAIN = [], True

WAITS = ('wait_event', 'event_wait', 'wait_event_time')


def executed(ctx, P):
    """an accepted job is taken once, run, its error stored and only then its submitter woken, exactly once; a job left in the queue at shutdown is still run"""
    c07.jobs(ctx, P)
    v = P.view('job_run')
    for p in paths(v):
        ind = [i for i in p.insts if i.op == 'call' and not i.callee and isinstance(i.d['f'], list) and leaf_field(v.term(i.d['f'])) == 'Job.main']
        if p.end() != 'panic':
            ctx.ob('run-once', 'job_run', len(ind) == 1, 'the job is not run exactly once', at=p.insts[-1])
        for i in ind:
            ctx.ob('run-once', 'job_run', leaf_field(v.term(i.args[0])) == 'Job.main_argv', 'the job is run with other arguments than it was given', at=i)
    v = P.view('rpc_execute')
    for p in paths(v):
        ind = [i for i in p.insts if i.op == 'call' and not i.callee and isinstance(i.d['f'], list) and v.term(i.d['f'])[0] == 'arg']
        if p.end() != 'panic':
            ctx.ob('run-once', 'rpc_execute', len(ind) == 1, 'the request is not run exactly once', at=p.insts[-1])
    for n, src in (('job_run', 'Job.error'), ('rpc_execute', 'Rpc.error')):
        v = P.view(n)
        for c in v.calls('error_copy'):
            ctx.ob('error-handed', n, leaf_field(v.term(c.args[0])) == src and leaf_field(v.term(c.args[1])) == 'Coroutine.error', 'the error of the handler is not what the submitter gets', at=c)
        # an error of the handler is never dropped
        fail = [p for p in paths(v) if any(i.callee == 'vp.throws' for i in p.insts)]
        for p in paths(v):
            if p.end() == 'panic':
                continue
            trig = p_threw(p)
            if trig:
                ctx.ob('error-handed', n, len(p.calls('error_copy')) == 1, 'an error of the handler is reported to the submitter as success', at=p.insts[-1])
            else:
                ctx.ob('error-handed', n, not p.calls('error_copy'), 'a stale error is reported to the submitter', at=p.insts[-1])
    v = P.view('job_mgr_stop')
    sh = [i for i in stores(v, 'JobMgr.shutdown')]
    st = v.calls('job_worker_stop', 'task_wait', 'thread_join')
    fr = v.calls('job_worker_free')
    ctx.ob('stop-drains', 'job_mgr_stop', bool(st) and all(v.dominated(s, sh) for s in st), 'waits for a worker that was not told to stop', at=st[0] if st else None)
    for c in fr:
        ctx.ob('stop-drains', 'job_mgr_stop', v.dominated(c, st) and in_loop(v, c), 'a worker is freed while it runs', at=c)
    ctx.ob('stop-drains', 'job_mgr_stop', all('JobMgr.workers' in list_loop_head(v, c) for c in st) and bool(st), 'not every worker is waited for')
    rs = [c for c in v.calls('list_init') if argfield(v, c, 0) == 'JobMgr.jobs'] + stores(v, 'JobMgr.jobs_count')
    ctx.ob('stop-drains', 'job_mgr_stop', not rs, 'jobs in the queue are dropped', at=rs[0] if rs else None)


def p_threw(p):
    """the path takes an exceptional edge"""
    for b, n in zip(p.blocks, p.blocks[1:]):
        if any(s == n and l == ('exc',) for s, l in p.v.succ[b]) and not any(s == n and l != ('exc',) for s, l in p.v.succ[b]):
            return True
    return False


def awaited(ctx, P):
    """whoever submitted a request waits for its completion on every path before its memory goes away, and turns a failed result into its own error"""
    v = P.view('rpc_recv')
    w = [c for c in v.calls(*WAITS) if argfield(v, c, 0) == 'Rpc.on_complete']
    wait_rule(ctx, P, v, 'rpc_recv', None, w)
    v = P.view('run')
    sub = v.calls('job_mgr_add')
    w = [c for c in v.calls(*WAITS) if argfield(v, c, 0) == 'Job.on_complete']
    wait_rule(ctx, P, v, 'run', sub, w)
    rs = [i for i in v.insts() if i.op == 'store' and leaf_field(v.term(i.args[1])) == 'Error.code' and const_of(v.term(i.args[0])) == 0]
    rs += v.calls('error_reset')
    ctx.ob('result-fresh', 'run', bool(sub) and all(v.dominated(s, rs) for s in sub), 'an earlier error is taken for the result', at=sub[0] if sub else None)
    ji = v.calls('job_init')
    ctx.ob('result-fresh', 'run', bool(sub) and all(v.dominated(s, ji) for s in sub), 'the job is submitted uninitialised')
    for c in ji:
        ctx.ob('result-fresh', 'run', leaf_field(v.term(c.args[1])) == 'Coroutine.error', 'the error of the job goes elsewhere than the submitter looks', at=c)
    result_rule(ctx, v, 'run', w, 'Error.code')
    v = P.view('rpc')
    sub = v.calls('rpc_send')
    w = v.calls('rpc_recv')
    ctx.ob('awaited', 'rpc', bool(sub) and v.can_reach(sub, v.exits() + v.unwinds() + v.calls('rpc_free'), avoid=w) is None, 'returns or frees the request before it was completed', at=sub[0] if sub else None)
    ctx.ob('result-fresh', 'rpc', bool(sub) and all(v.dominated(s, v.calls('rpc_init')) for s in sub), 'the request is submitted uninitialised', at=sub[0] if sub else None)
    ctx.ob('awaited', 'rpc', v.can_reach(w, v.exits() + v.unwinds(), avoid=v.calls('rpc_free')) is None and v.can_reach(v.calls('rpc_free'), v.calls('rpc_free')) is None, 'the request is not released exactly once', at=w[0] if w else None)
    result_rule(ctx, v, 'rpc', w, 'Error.code')
    th = v.calls('rethrow', 'exception_mgr_throw')
    cp = [c for c in v.calls('error_copy') if leaf_field(v.term(c.args[0])) == 'Coroutine.error' and leaf_field(v.term(c.args[1])) == 'Rpc.error']
    ctx.ob('error-kept', 'rpc', bool(th) and all(v.dominated(t, cp) for t in th), 'raises another error than the one of the request', at=th[0] if th else None)
    v = P.view('rpc_init')
    ini = v.calls('memset', 'llvm.memset.p0.i64', 'error_init')
    ctx.ob('result-fresh', 'rpc_init', any(leaf_field(v.term(c.args[0])) == 'Rpc.error' for c in ini) or bool([i for i in v.insts() if i.op == 'store' and leaf_field(v.term(i.args[1])) == 'Error.code']), 'the result of the request is not initialised')
    ctx.ob('result-fresh', 'rpc_init', bool([c for c in v.calls('event_init') if argfield(v, c, 0) == 'Rpc.on_complete'] or stores(v, 'Event.signal')), 'the completion event is not initialised')
    v = P.view('rpc_signal')
    sg = [c for c in v.calls('event_signal') if argfield(v, c, 0) == 'Rpc.on_complete']
    ctx.ob('awaited', 'rpc_signal', missing(v, None, v.exits(), sg) is None, 'the submitter is not woken', at=v.exits()[0])
    v = P.view('rpc_send')
    for c in v.calls('task_send', 'bus_send'):
        ctx.ob('awaited', 'rpc_send', v.can_reach(c, v.calls('task_send', 'bus_send')) is None, 'sent twice', at=c)
    ctx.ob('awaited', 'rpc_send', missing(v, None, v.exits(), v.calls('task_send', 'bus_send')) is None, 'the request is not sent', at=v.exits()[0])


def wait_rule(ctx, P, v, n, sub, w):
    ends = v.exits() + v.unwinds()
    bad = missing(v, None, ends, w) if sub is None else v.can_reach(sub, ends, avoid=w)
    ctx.ob('awaited', n, bool(w) and bad is None, 'leaves before the request was completed', at=bad or (w[0] if w else None))
    for c in w:
        ctx.ob('awaited', n, c.callee not in P.maythrow, 'the wait is abandoned when the coroutine is already cancelled while the request still uses its stack', at=c)
        pa, re = v.calls('coroutine_cancel_pause'), v.calls('coroutine_cancel_resume')
        ctx.ob('paused', n, v.dominated(c, pa) and (not re or v.can_reach(re, [c], avoid=pa) is None), 'can be cancelled while the request still uses its stack', at=c)
        ctx.ob('paused', n, v.can_reach(pa, ends, avoid=re) is None, 'cancellation stays paused', at=c)


def result_rule(ctx, v, n, w, field):
    def ok(fs):
        return any(leaf_field(strip_cast(a)) == field and b[0] == 'const' and not ({1, 2} & {x for x in range(-3, 6) if holds(p, x, b[1])}) for _, p, a, b in fs)
    def bad(fs):
        return any(leaf_field(strip_cast(a)) == field and b[0] == 'const' and not holds(p, 0, b[1]) for _, p, a, b in fs)
    e = v.can_reach(w, v.exits(), edge=cut_when(v, ok))
    ctx.ob('result', n, bool(w) and e is None, 'returns normally although the request failed', at=e or (w[0] if w else None))
    th = v.calls('rethrow', 'exception_mgr_throw')
    e = v.can_reach(w, th, edge=cut_when(v, bad))
    ctx.ob('result', n, bool(th) and e is None, 'raises although the request succeeded', at=e)


def all_of_them(ctx, P):
    """a set of requests is waited for completely, even when one fails or the waiter is cancelled, and the first error is raised afterwards"""
    v = P.view('rpc_set_wait')
    rv = v.calls('rpc_recv')
    pa, re = v.calls('coroutine_cancel_pause'), v.calls('coroutine_cancel_resume')
    for c in rv:
        ctx.ob('set-paused', 'rpc_set_wait', v.dominated(c, pa) and (not re or v.can_reach(re, [c], avoid=pa) is None), 'a cancellation ends the wait while other requests are still running', at=c)
        q = phis(v, v.term(c.args[0]))
        ok = False
        for x in q:
            ins = [strip_cast(v.term(val)) for val, b in v.inst[x].d['in']]
            if ('const', 0) in ins and any(t[0] == 'bin' and t[1] == 'add' and t[3] == ('const', 1) for t in ins):
                for f in v.conds(c):
                    if f[1] in ('slt', 'ult', 'ne') and strip_cast(f[2]) == ('phi', x) and leaf_field(strip_cast(f[3])) == 'RpcSet.set_count':
                        ok = True
        ctx.ob('set-all', 'rpc_set_wait', ok, 'does not wait for all requests of the set', at=c)
    ctx.ob('set-paused', 'rpc_set_wait', bool(pa) and v.can_reach(pa, v.exits() + v.unwinds(), avoid=re, exc=False) is None, 'cancellation stays paused')
    n = 0
    for p in paths(v, visits=3):
        thrown = p_threw(p)
        tr = trace(p)
        r = sel(tr, 'call', 'rpc_recv')
        if thrown and p.end() == 'unwind' and not p.calls('rethrow', 'exception_mgr_throw'):
            continue
        n += 1
        failed = [f for f in p.facts if leaf_field(strip_cast(f[2])) == 'Error.code' and not holds(f[1], 0, const_of(f[3]) or 0)]
        seen = [f for f in p.facts if leaf_field(strip_cast(f[2])) == 'Error.code']
        ctx.ob('set-result', 'rpc_set_wait', len(seen) == len(r) or failed, 'the result of a request is not looked at', at=p.insts[-1])
        ctx.ob('set-result', 'rpc_set_wait', (p.end() == 'unwind') == bool(failed), 'does not report exactly a failed request', at=p.insts[-1])
        fin = any(f[1] in ('sge', 'uge', 'eq') and leaf_field(strip_cast(f[3])) == 'RpcSet.set_count' and const_of(f[2]) == len(r) for f in p.facts) or \
            any(f[1] in ('sle', 'ule', 'eq') and leaf_field(strip_cast(f[2])) == 'RpcSet.set_count' and const_of(f[3]) == len(r) for f in p.facts)
        ctx.ob('set-all', 'rpc_set_wait', fin, 'stops before every request of the set was waited for', at=p.insts[-1])
        if failed:
            cp = sel(tr, 'call', 'error_copy')
            ctx.ob('set-result', 'rpc_set_wait', len(cp) == 1 and leaf_field(cp[0].a[0]) == 'Coroutine.error', 'the error of the request is lost', at=p.insts[-1])
    ctx.floor('set-result', 6)


def phis(v, t):
    r = []

    def see(y):
        if y[0] == 'phi':
            r.append(y[1])
        return False
    deep(v, t, see)
    return r


def error_value(ctx, P):
    """an error is handed over with its code, place and text"""
    v = P.view('error_copy')
    for p in paths(v):
        tr = trace(p)
        for fld in ('code', 'file', 'function', 'line'):
            f = 'Error.' + fld
            st = [e for e in tr if e.k == 'store' and e.f == f]
            ctx.ob('error-copy', 'error_copy:' + fld, len(st) >= 1 and st[-1].a == ('field', ('arg', 0, v.params[0]), f) and st[-1].v == ('load', ('field', ('arg', 1, v.params[1]), f)), 'is not copied', at=p.insts[-1])
        rs = [e for e in sel(tr, 'call', 'buf_reset') if leaf_field(e.a[0]) == 'Error.text']
        wr = [e for e in sel(tr, 'call', 'buf_write_buf', 'buf_write') if leaf_field(e.a[0]) == 'Error.text']
        ctx.ob('error-copy', 'error_copy:text', len(wr) == 1 and len(rs) == 1 and rs[0].n < wr[0].n, 'the text is not replaced', at=p.insts[-1])


def native(ctx, P):
    """completing a client request stores its code before its waiter can see it as complete, and runs its completion callback once"""
    v = P.view('request_complete')
    for p in paths(v):
        tr = trace(p)
        st = [e for e in tr if e.k == 'store' and e.f == 'Request.complete']
        cd = [e for e in tr if e.k == 'store' and e.f == 'Request.code']
        un = [e for e in sel(tr, 'call', 'mutex_unlock')]
        cb = [i for i in p.insts if i.op == 'call' and not i.callee and isinstance(i.d['f'], list) and leaf_field(v.term(i.d['f'])) == 'Request.on_complete']
        ctx.ob('native', 'request_complete', len(st) == 1 and wrote(st[0], const=1), 'the request is not marked complete', at=p.insts[-1])
        ctx.ob('native', 'request_complete', len(cd) == 1 and cd[0].v[0] == 'arg' and bool(un) and cd[0].n < un[0].n, 'the result code is not stored with the completion', at=p.insts[-1])
        has = fact_says(p, isload('Request.on_complete'))
        ctx.ob('native', 'request_complete', len(cb) == (0 if has == {0} else 1), 'the completion callback is not run exactly once', at=p.insts[-1])


RULES = [executed, awaited, all_of_them, error_value, native]
