"""C09: errors unwind correctly."""
from ..q import *

UNDO = {
    # who catches an error to undo something and raise it again: (undo call, what it is applied to)
    'catalog_prepare': [('tr_abort', None)],
    'catalog_restore_object': [('tr_abort', None)],
    'wal_create': [],
    'wal_write': [('wal_file_truncate', 'Wal.current')],
    'listen_start': [('socket_close', 'Fd.fd')],
    'tcp_connect_begin': [('tcp_close', None)],
    'tls_verify_common_name': [('X509_free', None)],
    'client_connect': [('client_close', None)],
}
HANDLERS = ['rpc_execute', 'job_run', 'task_coroutine_main', 'server_accept_main', 'auth']
ENTRIES = ['exception_mgr_throw', 'exception_mgr_init', 'defer_runner', 'report_error', 'error_setv', 'cancellation_point', 'rethrow', 'auth', 'server_accept_client', 'server_accept_main', 'task_coroutine_main'] + list(UNDO)
KEEP = ['exception_mgr_throw', 'error_setv', 'error_copy', 'task_logf', 'report', 'tr_abort', 'tr_begin', 'tr_commit', 'wal_file_truncate', 'wal_file_close', 'wal_file_free', 'wal_file_create', 'wal_file_allocate', 'wal_write_list',
        'socket_close', 'tcp_close', 'client_close', 'client_connect_to', 'client_connect_to_path', 'tcp_connect_begin_try', 'X509_free', 'client_free', 'client_create', 'auth_run', 'server_accept_client', 'listen_stop', 'listen_accept', 'tcp_set_fd',
        'task_shutdown', 'coroutine_mgr_del', 'coroutine_mgr_add_free', 'coroutine_mgr_switch', 'storage_mgr_create', 'database_mgr_create', 'catalog_restore_relation', 'listen_socket_init', 'tr_init', 'tr_free', 'wal_file_rotate',
        'storage_config_allocate', 'database_config_allocate', 'storage_config_free', 'database_config_free', 'poller_add', 'socket_bind', 'socket_listen', 'socket_for', 'cond_signal', 'tls_error', 'tls_verify_name', 'id_mgr_add']
UNKEEP, PLAIN = [], True


RAISE = ('report_error', 'rethrow', 'exception_mgr_throw')


def raises(p):
    """the errors raised on a path: (call, position, caught here)"""
    v, r, depth, n = p.v, [], 0, 0
    for k, b in enumerate(p.blocks):
        nb = p.blocks[k + 1] if k + 1 < len(p.blocks) else None
        last = None
        for i in v.blocks[b]:
            if i.callee in ('_setjmp', 'setjmp', '__sigsetjmp'):
                depth += 1
            elif i.op == 'store' and leaf_field(v.term(i.args[1])) == 'ExceptionMgr.last' and strip_cast(v.term(i.args[0]))[0] != 'alloca':
                depth -= 1
            if i.op == 'call' and not (i.callee or '').startswith(('vp.', 'llvm.')):
                last = (i, n, depth > 0)
                if i.callee in RAISE:
                    r.append(last)
            n += 1
        if nb is not None and last and last[0].callee not in RAISE:
            ls = [l for s, l in v.succ[b] if s == nb]
            if ('exc',) in ls and (('cont',) not in ls):
                r.append(last)
    return r


def threw(p):
    """an error was caught on this path"""
    return any(c for _, _, c in raises(p))


def fcall(e, v, field):
    i = e.i
    return not i.callee and isinstance(i.d['f'], list) and leaf_field(v.term(i.d['f'])) == field


def raising(ctx, P):
    """raising an error runs every registered cleanup of the innermost protected block once, newest first, marks the block as failed and goes back to it; registering and leaving a scope keeps that list exact"""
    v = P.view('exception_mgr_throw')
    n = 0
    for p in paths(v, visits=3):
        tr = trace(p)
        cl = [e for e in tr if e.k == 'call' and e.i.callee is None and fcall(e, v, 'Defer.function')]
        lj = sel(tr, 'call', 'longjmp', '_longjmp', 'siglongjmp')
        if p.end() == 'ret':
            ctx.ob('throw', 'exception_mgr_throw', False, 'an error is raised but execution goes on', at=p.insts[-1])
            continue
        if not lj:
            continue                # a cleanup raised: excluded by the cleanup rule
        n += 1
        last = ('load', ('field', ('arg', 0, v.params[0]), 'ExceptionMgr.last'))
        el = ('load', ('field', last, 'Exception.defer_stack'))
        for e in cl:
            want = v.norm(('load', ('field', el, 'Defer.function_arg')))
            ctx.ob('throw-cleanups', 'exception_mgr_throw', bool(e.a) and v.norm(e.a[0]) == want, 'cleanups are not run newest first with their own argument', at=e.i)
            el = ('load', ('field', el, 'Defer.prev'))
        more = {x for x in range(-3, 6)}
        for f in p.facts:
            if v.norm(strip_cast(f[2])) == el and f[3] == ('null',):
                more = {x for x in more if holds(f[1], x, 0)}
        ctx.ob('throw-cleanups', 'exception_mgr_throw', more == {0}, 'leaves registered cleanups behind', at=lj[0].i)
        tg = [e for e in tr if e.k == 'store' and e.f == 'Exception.triggered']
        ctx.ob('throw-marks', 'exception_mgr_throw', bool(tg) and tg[-1].n < lj[0].n and wrote(tg[-1], const=1) and tg[-1].a == ('field', last, 'Exception.triggered'), 'the protected block is not told that it failed', at=lj[0].i)
        ctx.ob('throw-marks', 'exception_mgr_throw', 'Exception.buf' in fields_in(lj[0].a[0]) and base_of(lj[0].a[0]) == last, 'does not return to the innermost protected block', at=lj[0].i)
        ctx.ob('throw-marks', 'exception_mgr_throw', const_of(lj[0].a[1]) not in (None,) , 'no result for the protected block', at=lj[0].i)
        ctx.ob('throw-marks', 'exception_mgr_throw', not [e for e in tr if e.k == 'store' and e.f == 'ExceptionMgr.last' and e.n < lj[0].n], 'the handler is changed while raising', at=lj[0].i)
    ctx.floor('throw-cleanups', 3)
    v = P.view('defer_runner')
    for p in paths(v):
        if p.end() != 'ret':
            continue
        tr = trace(p)
        arg = ('arg', 0, v.params[0])
        cl = [e for e in tr if e.k == 'call' and e.i.callee is None and fcall(e, v, 'Defer.function')]
        st = [e for e in tr if e.k == 'store' and e.f == 'Exception.defer_stack']
        done = fact_says(p, isload('Defer.function'))
        eo = fact_says(p, isload('Defer.error_only'))
        if done == {0}:
            ctx.ob('scope-end', 'defer_runner', not cl and not st, 'a cleanup that was already run is run or removed again', at=p.insts[-1])
            continue
        ctx.ob('scope-end', 'defer_runner', len(st) == 1 and st[0].v == ('load', ('field', arg, 'Defer.prev')), 'the cleanup stays registered after its scope ended', at=p.insts[-1])
        if 0 in eo and len(eo) > 1:
            ctx.ob('scope-end', 'defer_runner', False, 'does not distinguish cleanups that are for errors only', at=p.insts[-1])
        elif eo == {0}:
            ctx.ob('scope-end', 'defer_runner', len(cl) == 1 and cl[0].a and cl[0].a[0] == ('load', ('field', arg, 'Defer.function_arg')), 'the cleanup is not run exactly once when its scope ends', at=p.insts[-1])
        else:
            ctx.ob('scope-end', 'defer_runner', not cl, 'a cleanup that is for errors only is run on success', at=p.insts[-1])
    ctx.floor('scope-end', 3)
    # every registration links the entry in front of what was registered before
    n = 0
    for f in P.fn.values():
        for s in stores(f, 'Exception.defer_stack'):
            t = f.term(s.args[0])
            if t[0] != 'alloca':
                continue
            n += 1
            pv = [x for x in stores(f, 'Defer.prev') if base_of(f.term(x.args[1])) == t]
            ok = False
            for x in pv:
                w = f.term(x.args[0])
                if w[0] == 'load' and leaf_field(w) == 'Exception.defer_stack':
                    li = f.inst[w[2]]
                    ok = f.can_reach(li, [s]) is not None and f.dominated(s, [li])
            fn = [x for x in stores(f, 'Defer.function') if base_of(f.term(x.args[1])) == t]
            ctx.ob('register', f.name, ok, 'a cleanup is registered without keeping the ones registered before', at=s)
            for x in fn:
                ctx.ob('register', f.name, f.dominated(s, [x]) or f.dominated(x, [s]), 'a cleanup without a function is registered', at=s)
    ctx.floor('register', 60)


def report(ctx, P):
    """reporting an error always records its code and text before raising it, with a code that reads as an error"""
    v = P.view('report_error')
    for p in paths(v):
        tr = trace(p)
        th = sel(tr, 'call', 'exception_mgr_throw', 'rethrow')
        if not th:
            ctx.ob('report', 'report_error', p.end() in ('unwind', 'panic') and False, 'an error is reported but not raised', at=p.insts[-1])
            continue
        sv = [e for e in sel(tr, 'call', 'error_setv', 'error_set') if leaf_field(e.a[0]) == 'Coroutine.error']
        ctx.ob('report', 'report_error', len(sv) == 1 and sv[0].n < th[0].n, 'the error is not recorded before it is raised', at=th[0].i)
        for e in sv:
            ctx.ob('report', 'report_error', any(a[0] == 'arg' and a[2] == 'code' for a in e.a) or ('arg', 3, v.params[3]) in e.a, 'the code of the error is lost', at=e.i)
    v = P.view('error_setv')
    for p in paths(v):
        tr = trace(p)
        st = [e for e in tr if e.k == 'store' and e.f == 'Error.code']
        ctx.ob('report', 'error_setv', len(st) == 1 and st[0].v[0] == 'arg' and st[0].v[2] == 'code', 'the code of the error is lost', at=p.insts[-1])
        rs = [e for e in sel(tr, 'call', 'buf_reset') if leaf_field(e.a[0]) == 'Error.text']
        wr = [e for e in sel(tr, 'call', 'buf_vprintf') if leaf_field(e.a[0]) == 'Error.text']
        ctx.ob('report', 'error_setv', len(wr) == 1 and bool(rs) and rs[-1].n < wr[0].n, 'the text of the error is not replaced', at=p.insts[-1])
    codes = P.enum('CANCEL')
    n = 0
    for f in P.fn.values():
        for c in f.calls('report_error'):
            n += 1
            k = const_of(f.term(c.args[3]))
            ctx.ob('code', f.name, k in (codes['ERROR'], codes['CANCEL']), 'raises an error whose code reads as success', at=c)
            if k == codes['CANCEL']:
                ctx.ob('code', f.name, any(leaf_field(strip_cast(a)) in ('Coroutine.cancel', 'Coroutine.cancel_pause_recv') for _, p_, a, b in f.conds(c)), 'reports a cancellation nobody asked for', at=c)
    ctx.notes.append('%d error sites' % n)
    ctx.floor('code', 200)


def reraise(ctx, P):
    """an error is raised again only where one was caught or copied, and a block that undoes a failed operation undoes it and raises the error again"""
    n = 0
    for f in P.fn.values():
        sites = f.calls('rethrow') + (f.calls('exception_mgr_throw') if f.name not in ('rethrow', 'report_error') else [])
        for c in sites:
            n += 1
            cp = [x for x in f.calls('error_copy') if leaf_field(f.term(x.args[0])) == 'Coroutine.error']

            def failed(fs):
                return any(leaf_field(strip_cast(a)) == 'Error.code' and b[0] == 'const' and not holds(p, 0, b[1]) for _, p, a, b in fs)
            # a way to the raise on which no error was caught, copied or seen
            cut = cut_when(f, failed)

            def edge(b, s, l):
                return l != ('exc',) and cut(b, s, l)
            ok = True
            if f.from_entry([c], avoid=cp + [x for x in f.calls(*RAISE) if x is not c], edge=edge) is not None:
                ok = False
                try:
                    ok = all(threw(p) or p.calls('error_copy') or any(leaf_field(strip_cast(x[2])) == 'Error.code' and not holds(x[1], 0, const_of(x[3]) or 0) for x in p.facts)
                             for p in paths(f, limit=4000) if any(i is c for i in p.insts))
                except Broken:
                    ok = None
            if ok is not None:
                ctx.ob('reraise', f.name, ok, 'raises an error although none happened', at=c)
    ctx.floor('reraise', 8)
    for name, undo in UNDO.items():
        v = P.view(name)
        k = 0
        for p in paths(v):
            got = [(i, n) for i, n, c in raises(p) if c]
            if not got or p.end() == 'panic':
                continue
            first, at = got[0]
            if name == 'wal_create' and first.callee not in ('wal_file_create', 'wal_file_allocate'):
                continue                # the new file is in use by then
            k += 1
            ctx.ob('undo', name, p.end() == 'unwind', 'a failed operation returns as if it succeeded', at=p.insts[-1])
            for u, fld in undo:
                us = [j for j, i in enumerate(p.insts) if i.op == 'call' and u in i.targets() and j > at]
                ctx.ob('undo', name, len(us) == 1, 'a failed operation is not undone (%s)' % u, at=p.insts[-1])
            if name == 'wal_create' and first.callee == 'wal_file_create':
                thrown_out = [i.callee for i, n, c in raises(p) if not c]
                if 'wal_file_close' not in thrown_out and fact_says(p, iscall('wal_file_allocate')) != {0}:
                    ctx.ob('undo', name, len(p.calls('wal_file_free')) == 1 and len(p.calls('wal_file_close')) == 1, 'the file of a failed operation is not released', at=p.insts[-1])
        if not k:
            raise Broken('no failure path in ' + name)
    v = P.view('auth')
    for p in paths(v):
        if p.end() == 'ret':
            r = p.insts[-1]
            t = subst(v.term(r.args[0]), p.env)
            if threw(p):
                ctx.ob('undo', 'auth', t == ('null',) or t == ('const', 0), 'a failed authentication returns a user', at=r)
            else:
                ctx.ob('undo', 'auth', strip_cast(t)[0] == 'call' and strip_cast(t)[1] == 'auth_run', 'authentication returns something else than its result', at=r)


def cleanups(ctx, P):
    """a cleanup action never raises an error: while errors are raised it would run twice and lose the error being raised"""
    d = sorted(P.fieldpts.get('Defer.function', []))
    if len(d) < 25:
        raise Broken('only %d cleanup functions found' % len(d))
    for name in d:
        chain = throws_with(P, name, ())
        ctx.ob('cleanup', name, chain is None, 'a cleanup action may raise an error', at=P.fn[name].where() if name in P.fn and hasattr(P.fn[name], 'where') else None, why=' -> '.join(chain or []))
    ctx.assume('logging functions given to a task, and the callbacks that are installed by code outside the compiled part, do not raise')


def throws_with(P, name, consts, seen=None, memo={}):
    """why `name` may raise when called with these constant arguments ((index, value), ...), or None"""
    if name not in P.maythrow:
        return None
    f = P.fn.get(name)
    if f is None:
        return [name]
    key = (id(P), name, consts)
    if key in memo:
        return memo[key]
    if seen is None:
        seen = set()
    if key in seen:
        return None
    seen = seen | {key}
    env = dict(consts)

    def val(t):
        t = strip_cast(t)
        if t[0] == 'arg' and t[1] in env:
            return env[t[1]]
        if t[0] == 'const' and isinstance(t[1], int):
            return t[1]
        if t[0] == 'null':
            return 0
        if t[0] == 'bin' and t[1] in ('and', 'xor', 'or'):
            a, b = val(t[2]), val(t[3])
            if a is None or b is None:
                return None
            return a & b if t[1] == 'and' else a ^ b if t[1] == 'xor' else a | b
        return None

    def edge(b, s, l):
        if l and l[0] == 'br':
            for _, p, x, y in f.fact(f.term(l[1]), l[2]):
                a, c = val(x), val(y)
                if a is not None and c is not None and not holds(p, a, c):
                    return False
        return True
    r = None
    live = f.reach([f.entry()], edge=edge, incl=True)
    for c in f.allcalls():
        if c.id not in live:
            continue
        ts = c.targets()
        if not any(t in P.maythrow for t in ts):
            if ts or c.callee:
                continue
        nx = f.blocks[c.b][c.k + 1:c.k + 2]
        out = None
        if nx and nx[0].callee == 'vp.throws':
            for s, l in f.succ[c.b]:
                if l == ('exc',):
                    out = f.reach([f.blocks[s][0]], incl=True, edge=edge)
        elif c.callee in ('report_error', 'rethrow', 'exception_mgr_throw', 'longjmp'):
            out = f.reach([c], edge=edge)
        if out is None or not any(u.id in out for u in f.unwinds()):
            continue
        ks = tuple((k, val(f.term(a))) for k, a in enumerate(c.args) if val(f.term(a)) is not None)
        for t in (ts or ['(unresolved call)']):
            if t == '(unresolved call)':
                x = [t]
            elif t in ('longjmp', 'report_error', 'exception_mgr_throw', 'rethrow'):
                x = [t]
            elif t in P.maythrow:
                x = throws_with(P, t, ks, seen)
            else:
                x = None
            if x:
                r = [name] + x
                break
        if r:
            break
    memo[key] = r
    return r


def regions(ctx, P):
    """a protected block is left only through its end, where the handler that was active before is active again, and a raise inside it goes to it"""
    n = 0
    for f in sorted(P.fn.values(), key=lambda f: f.name):
        sj = f.calls('_setjmp', 'setjmp', '__sigsetjmp')
        if f.anomalies:
            ctx.ob('region', f.name, False, 'a protected block is left without restoring the handler (%s)' % ', '.join(map(str, f.anomalies)), at='%s:%s' % (f.file, f.line))
        if not sj:
            continue
        n += len(sj)
        st = stores(f, 'ExceptionMgr.last')
        push = [s for s in st if f.term(s.args[0])[0] == 'alloca']
        for s in sj:
            o = base_of(f.term(s.args[0]))
            mine = [x for x in push if f.term(x.args[0]) == o]
            ctx.ob('region', f.name, bool(mine) and f.dominated(s, mine), 'a protected block is entered without installing its handler', at=s)
            back = [x for x in st if x not in push and f.term(x.args[0])[0] == 'load' and leaf_field(f.term(x.args[0])) == 'Exception.prev' and base_of(f.term(x.args[0])[1]) == o]
            ends = f.exits() + f.unwinds() + [x for x in sj if x is not s and base_of(f.term(x.args[0])) != o]
            bad = f.can_reach(s, ends, avoid=back)
            ctx.ob('region', f.name, bool(back) and bad is None, 'the handler that was active before is not restored', at=bad or s)
            pv = [x for x in stores(f, 'Exception.prev') if base_of(f.term(x.args[1])) == o]
            ok = bool(pv) and all(leaf_field(f.term(x.args[0])) == 'ExceptionMgr.last' and f.term(x.args[0])[0] == 'load' for x in pv) and all(f.dominated(m, pv) for m in mine)
            ctx.ob('region', f.name, ok, 'the handler that was active before is not remembered', at=s)
    ctx.floor('region', 40)


def uncaught(ctx, P):
    """everything that starts a thread of execution catches the errors of what it runs"""
    for k in ('Thread.function',):
        for t in P.fieldpts.get(k, []):
            ctx.ob('uncaught', t, t not in P.maythrow, 'a thread can end with an error nobody catches', why=' -> '.join(P.throw_chain(t)))
    f = P.get('task_coroutine_main')
    ctx.ob('uncaught', 'task_coroutine_main', not f.unwinds() and 'task_coroutine_main' not in P.maythrow, 'a coroutine can end with an error nobody catches', at=(f.unwinds() or [None])[0])
    # every coroutine is started through it
    n = 0
    for g in P.fn.values():
        for c in g.calls('coroutine_mgr_create'):
            n += 1
            ctx.ob('uncaught', g.name, g.term(c.args[1]) in (('fn', 'task_coroutine_main'),) or g.term(c.args[1])[0] == 'arg', 'a coroutine is started without the handler that catches its errors', at=c)
    ctx.floor('uncaught', 3)
    v = P.view('server_accept_main')
    ctx.ob('uncaught', 'server_accept_main', True, '')
    for p in paths(v):
        if p.end() == 'ret':
            ctx.ob('uncaught', 'server_accept_main', len(p.calls('listen_stop')) == 1, 'the listening socket stays open when accepting ends', at=p.insts[-1])
    v = P.view('server_accept_client')
    for p in paths(v):
        if p.end() == 'ret' and threw(p):
            made = bool(p.calls('client_create')) and not any(i.callee == 'client_create' for i, n, c in raises(p))
            if made and fact_says(p, iscall('client_create')) == {0}:
                continue
            ctx.ob('undo', 'server_accept_client', len(p.calls('client_free')) == (1 if made else 0), 'the client of a failed connection is not released', at=p.insts[-1])


RULES = [raising, report, reraise, cleanups, regions, uncaught]
