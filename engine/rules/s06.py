"""S06: one client cannot take the server down."""
from ..q import *
from ..core import load as core_load
from ..flow import Flow, key, add, num
from .s01 import fact, call_of, nonnull, noexc, A
from .s03 import calls, thrown_at, zero, isset, is_

ENTRIES, KEEP, PLAIN = [], [], True


def last_call(p):
    r = None
    for i in p.insts:
        if i.op == 'call' and i.callee and not i.callee.startswith(('vp.', 'llvm.')):
            r = i
    return r


def confined(ctx, P):
    """an error with one client does not leave the handling of that client: only waiting for the next one may end the loop, and that only when cancelled or the listening itself fails"""
    n = 'server_accept_client'
    Q = core_load([n], ['listen_accept', 'client_create', 'client_free', 'socket_close', 'tcp_set_fd', 'report_error'], [], False)
    v = Q.view(n)
    for p in paths(v):
        evs = trace(p)
        ac = calls(evs, 'listen_accept')
        if p.end() == 'unwind':
            ctx.ob('confined.accepted', n, len(ac) == 1 and thrown_at(p, ac[0]), 'an error with one client ends the accepting of others', at=last_call(p) or p.insts[-1])
    # waiting for a client fails for nothing a client does
    n = 'listen_accept'
    Q = core_load([n], ['poll_read', 'report_error', 'socket_accept'], [], False)
    v = Q.view(n)
    for p in paths(v):
        evs = trace(p)
        at = p.insts[-1]
        if p.end() == 'unwind':
            w = calls(evs, 'poll_read', 'report_error')
            ok = bool(w) and w[-1].f == 'poll_read' and thrown_at(p, w[-1])
            ctx.ob('confined.waiting', n, ok, 'a client that went away before it was accepted ends the accepting of others', at=w[-1].i if w else at)
        elif p.end() == 'ret':
            r = strip_cast(v.norm(p.arg(at, 0)))
            ok = r[0] == 'call' and r[1] == 'socket_accept' and fact(p, lambda o, a, b: a == r and (o == 'ne' and const_of(b) == -1 or o in ('sge',) and const_of(b) == 0 or o == 'sgt' and const_of(b) == -1))
            ctx.ob('confined.descriptor', n, ok, 'a failed accept is handled as a client', at=at)
    # the loop goes on
    n = 'server_accept_main'
    Q = core_load([n], ['server_accept_client', 'vfs_unlink', 'listen_stop', 'coroutine_set_name'], [], False)
    v = Q.view(n)
    for p in paths(v):
        evs = trace(p)
        ac = calls(evs, 'server_accept_client')
        if p.end() != 'ret':
            continue
        ctx.ob('confined.next', n, bool(ac) and thrown_at(p, ac[-1]), 'the accepting of clients ends by itself', at=p.insts[-1])
        st = calls(evs, 'listen_stop')
        ctx.ob('confined.stopped', n, len(st) == 1 and bool(ac) and st[0].n > ac[-1].n, 'the listening socket stays open', at=p.insts[-1])
    for x in ('confined.accepted', 'confined.waiting', 'confined.descriptor', 'confined.next', 'confined.stopped'):
        ctx.floor(x, 1)


def released(ctx, P):
    """the descriptor of a client is handed to the client or closed, exactly once, and the client is handed over or freed, on every path"""
    n = 'server_accept_client'
    Q = core_load([n], ['listen_accept', 'client_create', 'client_free', 'socket_close', 'tcp_set_fd', 'client_set_auth', 'tcp_set_tls', 'report_error'], [], False)
    v = Q.view(n)
    me = A(v, 0)
    known = ('listen_accept', 'client_create', 'client_free', 'socket_close', 'tcp_set_fd', 'client_set_auth', 'tcp_set_tls', 'report_error')
    for p in paths(v):
        evs = trace(p)
        ac = calls(evs, 'listen_accept')
        at = p.insts[-1]
        if not ac or thrown_at(p, ac[0]) or p.end() not in ('ret', 'unwind'):
            continue
        fl = Flow(p, P)
        res = {e.f: e.r for e in fl.calls}
        # neither answers with nothing
        never = [res[x] for x in ('client_create',) if x in res] + [add(res['listen_accept'], num(1))]
        if fl.torn() or any(f[1] == 'eq' and any(key(f[2]) == key(x) for x in never) for f in fl.facts):
            continue
        cr = [e for e in calls(evs, 'client_create') if not thrown_at(p, e)]
        given = [e for e in calls(evs, 'tcp_set_fd') if not thrown_at(p, e)]
        # the unresolved handler
        on = [e for e in evs if e.k == 'call' and e.f not in known and len(e.a) == 2 and strip_cast(e.a[0]) == me and not thrown_at(p, e)]
        fr, cl = calls(evs, 'client_free'), calls(evs, 'socket_close')
        for e in given:
            ctx.ob('released.same', n, is_(p, strip_cast(e.a[1]), ac[0]) or sameval(fl, e, 1, res), 'another descriptor is given to the client', at=e.i)
        # closed directly exactly when the client did not get it
        ctx.ob('released.descriptor', n, len(cl) == (0 if given else 1) and all(sameval(fl, e, 0, res) for e in cl), 'the descriptor of a client is not closed exactly once' , at=at)
        if cr:
            ctx.ob('released.client', n, len(fr) == (0 if on else 1) and (not on or bool(given)), 'a client is not handed over or freed exactly once', at=at)
        else:
            ctx.ob('released.client', n, not fr, 'a client that was not created is freed', at=at)
    ctx.floor('released.descriptor', 3)
    ctx.floor('released.client', 3)
    # what follows an error in tcp_set_fd: the client does not own it yet
    n = 'tcp_set_fd'
    Q = core_load([n], ['report_error'], [], False)
    v = Q.view(n)
    for p in paths(v):
        evs = trace(p)
        st = [e for e in evs if e.k == 'store' and e.f == 'Fd.fd']
        if p.end() == 'unwind':
            ctx.ob('released.kept', n, not st, 'a descriptor is owned by a client that is said to have failed to take it', at=p.insts[-1])
        if p.end() == 'ret':
            ctx.ob('released.taken', n, len(st) == 1 and st[0].v == A(v, 1), 'a descriptor is not kept', at=p.insts[-1])
    ctx.floor('released.taken', 1)


def sameval(fl, e, k, res):
    return any(x.n == e.n and key(x.a[k]) == key(res['listen_accept']) for x in fl.calls)


def closing(ctx, P):
    """closing and freeing a client never fails, and releases everything a client has"""
    Q = core_load(['client_close', 'client_free', 'tcp_close'], ['report_error'], [], False)
    for n in ('client_close', 'client_free', 'tcp_close'):
        v = Q.view(n)
        for p in paths(v):
            ctx.ob('closing.quiet', n, p.end() != 'unwind', 'closing a client may fail (whatever the other end did)', at=last_call(p) or p.insts[-1])
    Q = core_load(['client_free', 'client_close'], ['http_free', 'readahead_free', 'tls_context_free', 'tcp_free', 'am_free', 'tcp_close', 'http_reset', 'readahead_reset', 'tcp_getpeername', 'info'], [], False)
    v = Q.view('client_free')
    me = A(v, 0)
    want = [('http_free', 'Client.request'), ('http_free', 'Client.reply'), ('readahead_free', 'Client.readahead'), ('tcp_close', 'Client.tcp'), ('tls_context_free', 'Client.tls_context')]
    for p in paths(v):
        if p.end() != 'ret':
            continue
        evs = trace(p)
        at = p.insts[-1]
        fr = calls(evs, 'am_free')
        for f, x in want:
            es = [e for e in calls(evs, f) if e.a == [('field', me, x)]]
            ctx.ob('closing.released', 'client_free:' + x, len(es) == 1 and len(fr) == 1 and es[0].n < fr[0].n, 'what a client has is not released exactly once', at=at)
        ctx.ob('closing.freed', 'client_free', len(fr) == 1 and fr[0].a == [me], 'a client is not freed', at=at)
        tf = calls(evs, 'tls_context_free')
        tc = calls(evs, 'tcp_close')
        ctx.ob('closing.order', 'client_free', bool(tf) and bool(tc) and tc[0].n < tf[0].n, 'the context is freed before the session that uses it', at=at)
    v = Q.view('client_close')
    me = A(v, 0)
    for p in paths(v):
        if p.end() != 'ret':
            continue
        evs = trace(p)
        tc = calls(evs, 'tcp_close')
        ctx.ob('closing.connection', 'client_close', len(tc) == 1 and tc[0].a == [('field', me, 'Client.tcp')], 'the connection stays open', at=p.insts[-1])
        rs = [e for e in calls(evs, 'readahead_reset') if e.a == [('field', me, 'Client.readahead')]]
        ctx.ob('closing.forgotten', 'client_close', bool(rs), 'what was read from one connection is taken for the next', at=p.insts[-1])
    for x in ('closing.quiet', 'closing.released', 'closing.connection', 'closing.order'):
        ctx.floor(x, 1)


def listed(ctx, P):
    """a client is counted exactly as long as it is in the list"""
    Q = core_load(['client_mgr_add', 'client_mgr_del'], ['list_append', 'list_unlink', 'list_init', 'opt_int_add', 'opt_int_sub', 'list_push'], [], False)
    for n, d, ls, st in (('client_mgr_add', 1, ('list_append', 'list_push'), 'opt_int_add'), ('client_mgr_del', -1, ('list_unlink',), 'opt_int_sub')):
        v = Q.view(n)
        me, cl = A(v, 0), A(v, 1)
        for p in paths(v, edge=noexc):
            if p.end() != 'ret':
                continue
            evs = trace(p)
            at = p.insts[-1]
            l = calls(evs, *ls)
            ok = len(l) == 1 and ('field', cl, 'Client.link') in l[0].a
            ctx.ob('listed.link', n, ok, 'a client is not in the list exactly while it is served', at=at)
            cs = [e for e in evs if e.k == 'store' and e.f == 'ClientMgr.list_count']
            old = ('load', ('field', me, 'ClientMgr.list_count'))
            ok = len(cs) == 1 and plin(cs[0].v) == addc(plin(old), d) if cs else False
            ctx.ob('listed.count', n, ok, 'the number of clients is not that of the list', at=at)
            so = calls(evs, st)
            ctx.ob('listed.state', n, len(so) == 1 and const_of(so[0].a[1]) == 1, 'the number of connections is another', at=at)
    ctx.floor('listed.link', 2)
    ctx.floor('listed.count', 2)


def addc(l, c):
    r = dict(l)
    r[None] = r.get(None, 0) + c
    return {k: x for k, x in r.items() if x}


RULES = [confined, released, closing, listed]
