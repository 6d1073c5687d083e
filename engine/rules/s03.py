"""S03: an encrypted connection verifies its peer as configured."""
from ..q import *
from ..core import load as core_load
from .s01 import fact, call_of, nonnull, SZ, noexc, A

ENTRIES, KEEP, PLAIN = [], [], True
PLAINIO = ('socket_read', 'socket_write', 'socket_writev', 'recv', 'send', 'sendmsg', 'recvmsg', 'writev', 'readv', 'read', 'write')


def cmp0(op, b):
    """what a comparison with a constant says about sign"""
    c = const_of(b)
    return op, c


def zero(p, t):
    return fact(p, lambda o, a, b: a == t and o == 'eq' and (b == ('null',) or const_of(b) == 0))


def isset(p, t):
    """the path knows that a pointer or flag is set (True), is not (False), or nothing (None)"""
    if zero(p, t):
        return False
    if fact(p, lambda o, a, b: a == t and o == 'ne' and (b == ('null',) or const_of(b) == 0)):
        return True
    return None


def truth(t):
    """the comparison a boolean stands for, as (op, a, b)"""
    neg = False
    while True:
        t = strip_cast(t)
        if t[0] == 'bin' and t[1] == 'xor' and const_of(t[3]) in (1, -1):
            neg, t = not neg, t[2]
        elif t[0] == 'cmp' and t[1] in ('eq', 'ne') and const_of(t[3]) == 0 and strip_cast(t[2])[0] in ('cmp', 'bin'):
            neg, t = neg != (t[1] == 'eq'), t[2]
        else:
            break
    if t[0] != 'cmp' or t[1] not in ('eq', 'ne'):
        return None
    return ({'eq': 'ne', 'ne': 'eq'}[t[1]] if neg else t[1]), t[2], t[3]


def torn(p, *ts):
    """what does not change is found both set and not set"""
    return any(zero(p, t) and fact(p, lambda o, a, b: a == t and o == 'ne' and (b == ('null',) or const_of(b) == 0)) for t in ts)


def calls(evs, *names):
    return [e for e in evs if e.k == 'call' and e.f in names]


def is_(p, t, e):
    """a term is the result of a call (arguments chosen by the path are not substituted in facts)"""
    return t[0] == 'call' and t[1] == e.f and (t == mk(e) or sum(1 for i in p.insts if i.op == 'call' and i.callee == e.f) == 1)


def mk(e):
    return ('call', e.f, tuple(e.a))


def good(p, e):
    """the call did not return 0 or less"""
    return fact(p, lambda o, a, b: is_(p, a, e) and (o in ('sgt', 'ugt') and const_of(b) is not None and const_of(b) >= 0 or o in ('ne',) and const_of(b) == 0 or o == 'eq' and const_of(b) == 1 or o in ('sge', 'uge') and (const_of(b) or 0) >= 1))


def connected(ctx, P):
    """a connection is taken for usable only when it is not configured for encryption, or its handshake finished"""
    names = sorted({f.name for f in P.fn.values() if any(i.op == 'store' and leaf_field(strip_cast(f.term(i.args[1]))) == 'Tcp.connected' and const_of(strip_cast(f.term(i.args[0]))) == 1 for i in f.insts())})
    entries = P.outside(names)
    Q = core_load(entries, ['tls_create', 'tls_handshake', 'poll_write', 'poll_read', 'tcp_close', 'socket_connect', 'socket_for', 'socket_error', 'poller_add'], [], False)
    k = 0
    for n in sorted(entries):
        v = Q.view(n)
        me = A(v, 0)
        tls = ('field', me, 'Tcp.tls')
        c = ('load', ('field', tls, 'Tls.context'))
        for p in paths(v):
            if p.end() != 'ret':
                continue
            at = p.insts[-1]
            evs = trace(p)
            on = [e for e in evs if e.k == 'store' and e.f == 'Tcp.connected']
            if not on or const_of(on[-1].v) != 1:
                continue
            cr, hs = calls(evs, 'tls_create'), calls(evs, 'tls_handshake')
            shook = bool(cr) and bool(hs) and cr[-1].a[0] == tls and hs[-1].a[0] == tls and cr[-1].n < hs[-1].n
            ctx.ob('connected.handshake', n, isset(p, c) is False or shook, 'an encrypted connection is used before its handshake', at=at)
            if shook:
                k += 1
                ctx.ob('connected.socket', n, cr[-1].a[1] == ('field', me, 'Tcp.fd'), 'the handshake is made on another socket', at=at)
    ctx.floor('connected.handshake', 2)
    ctx.floor('connected.socket', 1)


def handshake(ctx, P):
    """a handshake is finished, of the configured side; the name of the server was compared, and the result of the verification looked at"""
    n = 'tls_handshake'
    Q = core_load([n], ['tls_error', 'tls_lib_error', 'poll_read', 'poll_write', 'report_error', 'tls_verify_name'], [], False)
    v = Q.view(n)
    me = A(v, 0)
    tctx = ('load', ('field', me, 'Tls.context'))
    client, server, ssl = ('load', ('field', tctx, 'TlsContext.client')), ('load', ('field', tctx, 'TlsContext.server')), ('load', ('field', me, 'Tls.ssl'))
    k = 0
    for p in paths(v):
        at = p.insts[-1]
        if p.end() != 'ret' :
            continue
        evs = trace(p)
        if calls(evs, 'tls_error', 'tls_lib_error', 'report_error'):
            # these do not return
            continue
        if torn(p, client, server):
            continue
        k += 1
        cl = isset(p, client)
        hs = calls(evs, 'SSL_connect', 'SSL_accept', 'SSL_do_handshake')
        ok = bool(hs) and hs[-1].a[0] == ssl and fact(p, lambda o, a, b: a == mk(hs[-1]) and (o in ('sgt', 'ugt') and const_of(b) == 0 or o == 'eq' and const_of(b) == 1 or o in ('sge',) and const_of(b) == 1))
        ctx.ob('handshake.finished', n, ok, 'the handshake has not finished', at=at)
        ctx.ob('handshake.side', n, bool(hs) and (hs[-1].f != 'SSL_connect' or cl is True) and (hs[-1].f != 'SSL_accept' or cl is False), 'the handshake is of the other side', at=at)
        rs = calls(evs, 'SSL_get_verify_result')
        okv = bool(rs) and bool(hs) and rs[-1].n > hs[-1].n and rs[-1].a[0] == ssl and fact(p, lambda o, a, b: a == mk(rs[-1]) and o == 'eq' and const_of(b) in (0, 18, 19))
        ctx.ob('handshake.verified', n, okv, 'the certificate was not verified', at=at)
        if cl is not False and isset(p, server) is not False:
            nm = calls(evs, 'tls_verify_name')
            tx = calls(evs, 'X509_NAME_get_text_by_NID')
            ok = cl is True and isset(p, server) is True and len(nm) == 1 and len(tx) == 1 and tx[0].n < nm[0].n and bool(hs) and hs[-1].n < tx[0].n
            if ok:
                e, t = nm[0], tx[0]
                ok = strip0(e.a[0]) == strip0(t.a[2]) and e.a[1] == ('load', ('field', server, 'Str.pos')) and fact(p, lambda o, a, b: a == mk(e) and o == 'ne' and const_of(b) == 0)
                sub = call_of(t.a[0])
                ok = ok and const_of(t.a[1]) == 13 and sub is not None and sub[1] == 'X509_get_subject_name' and nonnull(p, sub) and call_of(sub[2][0]) == ('call', 'SSL_get_peer_certificate', (ssl,)) or ok and sub is not None and fromcert(sub, ssl)
                # the name is the whole one
                ok = ok and fact(p, lambda o, a, b: a == mk(t) and o == 'ne' and const_of(b) == -1 or a == mk(t) and o in ('sge', 'sgt') and const_of(b) in (0, -1))
                ok = ok and fact(p, lambda o, a, b: o == 'eq' and mk(t) in (a, b) and any(x[0] == 'call' and x[1] == 'strlen' and strip0(x[2][0]) == strip0(t.a[2]) for x in (a, b)))
            ctx.ob('handshake.name', n, bool(ok), 'the name of the server was not compared', at=at)
    ctx.floor('handshake.finished', 2)
    ctx.floor('handshake.name', 1)


def fromcert(sub, ssl):
    c = call_of(sub[2][0]) if sub[1] == 'X509_get_subject_name' else None
    return c is not None and c[1] in ('SSL_get_peer_certificate', 'SSL_get1_peer_certificate', 'SSL_get0_peer_certificate') and c[2] == (ssl,)


def strip0(t):
    t = strip_cast(t)
    while t[0] == 'index' and const_of(t[2]) == 0:
        t = strip_cast(t[1])
    return t


def chr_at(t):
    """(string, n) of a character"""
    t = strip_cast(t)
    if t[0] != 'load':
        return None
    n, t = 0, strip_cast(t[1])
    while t[0] == 'index':
        if const_of(t[2]) is None:
            return None
        n += const_of(t[2])
        t = strip_cast(t[1])
    return t, n


def tail(t):
    n, t = 0, strip_cast(t)
    while t[0] == 'index' and const_of(t[2]) is not None:
        n += const_of(t[2])
        t = strip_cast(t[1])
    return t, n


def names(ctx, P):
    """a name matches only when it is the same, or a wildcard stands for exactly the first label of it, above at least two others"""
    n = 'tls_verify_name'
    Q = core_load([n], [], [], False)
    v = Q.view(n)
    cert, name = A(v, 0), A(v, 1)
    k = 0
    for p in paths(v, edge=noexc):
        if p.end() != 'ret':
            continue
        at = p.insts[-1]
        r = strip_cast(v.norm(p.arg(at, 0)))
        evs = trace(p)
        eq = [e for e in calls(evs, 'strcasecmp', 'strcmp') if fact(p, lambda o, a, b, e=e: a == mk(e) and o == 'eq' and const_of(b) == 0)]
        if const_of(r) == 0:
            continue
        same = [e for e in calls(evs, 'strcasecmp', 'strcmp') if truth(r) == ('eq', mk(e), ('const', 0))]
        if same:
            eq += same
            r = ('const', 1)
        if const_of(r) is None:
            ctx.ob('names.answer', n, False, 'the answer is not understood: %r' % (r,), at=at)
            continue
        k += 1
        if any({strip0(x) for x in e.a} == {cert, name} for e in eq):
            ctx.ob('names.same', n, True, '', at=at)
            continue
        ch = lambda s, i, c, op: fact(p, lambda o, a, b: chr_at(a) == (s, i) and o == op and const_of(b) == c)
        dot = [e for e in calls(evs, 'strchr') if const_of(e.a[1]) == 46]
        inner = [mk(e) for e in dot if tail(e.a[0]) == (cert, 2)]
        dom = [mk(e) for e in dot if tail(e.a[0]) == (name, 0)]
        ok = ch(cert, 0, 42, 'eq') and ch(cert, 1, 46, 'eq')
        ctx.ob('names.wildcard', n, ok, 'something else than a wildcard label matches', at=at)
        ok = ch(cert, 2, 46, 'ne') and any(nonnull(p, c) for c in inner)
        ok = ok and any(fact(p, lambda o, a, b: chr_at(a) == (c, 1) and o == 'ne' and const_of(b) == 46) for c in inner)
        ctx.ob('names.labels', n, ok, 'a wildcard over a whole top level domain matches', at=at)
        ok = ch(name, 0, 46, 'ne') and any(nonnull(p, c) for c in dom)
        ctx.ob('names.host', n, ok, 'a wildcard matches a name without a host part', at=at)
        ok = any(tail(x) == (cert, 1) and any(tail(y) == (c, 0) for c in dom for y in e.a if y is not x) for e in eq for x in e.a)
        ctx.ob('names.domain', n, ok, 'the rest of the name is another one', at=at)
    ctx.floor('names.same', 1)
    ctx.floor('names.domain', 1)


def plain(ctx, P):
    """plain bytes are exchanged only on a connection that is not configured for encryption"""
    k = 0
    fs = sorted({f.name for f in P.fn.values() for c in f.calls(*PLAINIO) if any('Tcp.fd' in fields_in(f.term(a)) for a in c.args)})
    entries = P.outside(fs)
    Q = core_load(sorted(entries), list(PLAINIO) + ['tls_read', 'tls_writev', 'tls_write', 'tls_read_pending', 'poll_read', 'poll_write'], [], False)
    for n in sorted(entries):
        v = Q.view(n)
        for p in paths(v, edge=noexc):
            for e in trace(p):
                if e.k == 'call' and e.f in PLAINIO and any('Tcp.fd' in fields_in(a) for a in e.a):
                    own = [x for x in e.a if 'Tcp.fd' in fields_in(x)]
                    me = own[0]
                    while not (me[0] == 'field' and me[2] == 'Tcp.fd'):
                        me = me[1]
                    c = ('load', ('field', ('field', me[1], 'Tcp.tls'), 'Tls.context'))
                    ctx.ob('plain.unconfigured', n, isset(p, c) is False, 'plain bytes on a connection configured for encryption', at=e.i)
    ctx.floor('plain.unconfigured', 2)


def configured(ctx, P):
    """a context is created only with everything that was configured: certificate, key, authorities with verification of the peer, no anonymous or empty ciphers, no SSL 2 and 3"""
    n = 'tls_context_create'
    Q = core_load([n], ['report_error', 'tls_lib_error'], [], False)
    v = Q.view(n)
    me = A(v, 0)
    F = lambda x: ('load', ('field', me, 'TlsContext.' + x))
    S = lambda x: ('load', ('field', F(x), 'Str.pos'))
    new = None
    for p in paths(v, edge=noexc):
        if p.end() != 'ret':
            continue
        at = p.insts[-1]
        evs = trace(p)
        if calls(evs, 'tls_lib_error', 'report_error'):
            continue
        nw = calls(evs, 'SSL_CTX_new')
        ok = len(nw) == 1 and fact(p, lambda o, a, b: is_(p, a, nw[0]) and o == 'ne' and b == ('null',)) and any(e.k == 'store' and e.f == 'TlsContext.ctx' and is_(p, strip_cast(e.v), nw[0]) for e in evs)
        ctx.ob('configured.created', n, ok, 'there is no context', at=at)
        if not ok:
            continue
        c = mk(nw[0])
        mine = lambda e: is_(p, strip_cast(e.a[0]), nw[0]) or strip_cast(e.a[0]) == F('ctx')
        meth = call_of(nw[0].a[0])
        cl = isset(p, F('client'))
        ok = meth is not None and (meth[1] in ('TLS_client_method', 'SSLv23_client_method') and cl is True or meth[1] in ('TLS_server_method', 'SSLv23_server_method') and cl is False)
        ctx.ob('configured.side', n, ok, 'the context is for the other side', at=at)
        opts = 0
        for e in calls(evs, 'SSL_CTX_set_options'):
            if mine(e):
                opts |= const_of(e.a[1]) or 0
        minv = [e for e in calls(evs, 'SSL_CTX_ctrl') if const_of(e.a[1]) == 123 and (const_of(e.a[2]) or 0) >= 0x301]
        ctx.ob('configured.version', n, bool(opts & 0x02000000) or bool(minv), 'an obsolete protocol is accepted', at=at)
        clear = 0
        for e in calls(evs, 'SSL_CTX_clear_options'):
            clear |= const_of(e.a[1]) or 0
        ctx.ob('configured.version', n, not clear & 0x02000000, 'an obsolete protocol is accepted', at=at)
        cert, key = isset(p, F('file_cert')), isset(p, F('file_key'))
        uc = [e for e in calls(evs, 'SSL_CTX_use_certificate_chain_file', 'SSL_CTX_use_certificate_file') if mine(e) and strip_cast(e.a[1]) == S('file_cert')]
        uk = [e for e in calls(evs, 'SSL_CTX_use_PrivateKey_file') if mine(e) and strip_cast(e.a[1]) == S('file_key')]
        ck = [e for e in calls(evs, 'SSL_CTX_check_private_key') if mine(e)]
        ctx.ob('configured.certificate', n, cert is False or bool(uc) and good(p, uc[-1]), 'the certificate is not used', at=at)
        ctx.ob('configured.key', n, key is False or bool(uk) and good(p, uk[-1]), 'the key is not used', at=at)
        ctx.ob('configured.pair', n, cert is False or key is False or bool(ck) and good(p, ck[-1]), 'the key does not belong to the certificate', at=at)
        ca, cap = isset(p, F('file_ca')), isset(p, F('path_ca'))
        if not (ca is False and cap is False):
            lv = [e for e in calls(evs, 'SSL_CTX_load_verify_locations') if mine(e)]
            sv = [e for e in calls(evs, 'SSL_CTX_set_verify') if mine(e)]
            want = [S('file_ca') if ca else ('null',), S('path_ca') if cap else ('null',)]
            ok = len(lv) == 1 and good(p, lv[0]) and [strip_cast(x) for x in lv[0].a[1:3]] == want
            ctx.ob('configured.authorities', n, ok, 'the authorities are not used', at=at)
            ok = bool(sv) and bool((const_of(sv[-1].a[1]) or 0) & 1) and sv[-1].a[2] == ('null',)
            ctx.ob('configured.verify', n, ok, 'the peer is not verified', at=at)
        cp = [e for e in calls(evs, 'SSL_CTX_set_cipher_list') if mine(e)]
        ctx.ob('configured.ciphers', n, bool(cp) and good(p, cp[-1]), 'the ciphers are not set', at=at)
        for e in cp:
            s = text(P, v, e)
            ctx.ob('configured.ciphers', n, s is not None and '!aNULL' in s and '!eNULL' in s, 'a cipher without authentication or encryption is accepted', at=e.i)
    for x in ('configured.version', 'configured.certificate', 'configured.key', 'configured.pair', 'configured.authorities', 'configured.verify', 'configured.ciphers'):
        ctx.floor(x, 2)


def text(P, v, e):
    t = strip0(e.a[1])
    if t[0] == 'str':
        return t[1]
    if t[0] == 'alloca':
        src = [i.args[1] for i in v.insts() if i.op == 'call' and (i.callee or '').startswith('llvm.memcpy') and strip0(v.term(i.args[0])) == t]
        if len(src) == 1 and src[0][0] == 's':
            return src[0][1]
    return None


def asked(ctx, P):
    """what was configured for encryption is given a context before it is connected or accepted, made from the options it was configured with"""
    # the client side
    n = 'client_connect_to'
    opts = ['tls_cert', 'tls_key', 'tls_ca', 'tls_capath', 'tls_server']
    Q = core_load([n] if n in P.fn else [], ['tcp_connect', 'tcp_set_tls', 'tls_context_set', 'tls_context_create', 'resolve', 'info', 'report_error'], [], False)
    v = Q.view('client_connect_to')
    me = A(v, 0)
    ep = ('load', ('field', me, 'Client.endpoint'))
    proto = lambda t: t[0] == 'load' and t[1][0] == 'field' and t[1][1] == ('field', ep, 'Endpoint.proto') or t[0] == 'call' and t[1] == 'opt_int_of' and t[2] == (('field', ep, 'Endpoint.proto'),)
    https = P.enum('PROTO_HTTPS')['PROTO_HTTPS']
    tc = ('field', me, 'Client.tls_context')
    for p in paths(v, edge=noexc):
        evs = trace(p)
        for e in calls(evs, 'tcp_connect'):
            plainp = any(f[0] == 'cmp' and proto(strip_cast(v.norm(f[2]))) and (f[1] == 'ne' and const_of(f[3]) == https or f[1] == 'eq' and const_of(f[3]) != https) for f in p.facts)
            st = [x for x in calls(evs, 'tcp_set_tls') if x.n < e.n and x.a[0] == ('field', me, 'Client.tcp') and x.a[1] == tc and x.a[0] == e.a[0]]
            ctx.ob('asked.client', n, plainp or bool(st) or isset(p, ('load', ('field', ('field', e.a[0], 'Tcp.tls'), 'Tls.context'))) is True, 'a connection configured for encryption is not', at=e.i)
            if st:
                cr = [x for x in calls(evs, 'tls_context_create') if x.n < e.n and x.a[0] == tc]
                se = [x for x in calls(evs, 'tls_context_set') if x.a[0] == tc]
                created = nonnull(p, ('load', ('field', tc, 'TlsContext.ctx')))
                ok = created or len(cr) == 1 and len(se) == 1 and se[0].n < cr[0].n and const_of(se[0].a[1]) == 1 and [optstr(x) for x in se[0].a[2:7]] == [('field', ep, 'Endpoint.' + o) for o in opts]
                ctx.ob('asked.options', n, ok, 'the context is made from something else', at=e.i)
    # the server side
    n = 'server_accept_client'
    Q = core_load([n], ['listen_accept', 'client_create', 'client_set_auth', 'tcp_set_tls', 'tcp_set_fd', 'client_free', 'socket_close', 'report_error'], [], False)
    v = Q.view(n)
    me, li = A(v, 0), A(v, 1)
    tls = ('load', ('field', ('load', ('field', li, 'ServerListen.config')), 'ServerConfig.tls'))
    for p in paths(v, edge=noexc):
        evs = trace(p)
        for e in [x for x in evs if x.k == 'call' and x.f in ('?', None, '') or x.k == 'call' and x.f not in ('listen_accept', 'client_create', 'client_set_auth', 'tcp_set_tls', 'tcp_set_fd', 'client_free', 'socket_close', 'report_error') and len(x.a) == 2 and x.a[0] == me]:
            cl = e.a[1]
            st = [x for x in calls(evs, 'tcp_set_tls') if x.n < e.n and x.a == [('field', cl, 'Client.tcp'), ('field', me, 'Server.tls')]]
            ctx.ob('asked.server', n, isset(p, tls) is False or bool(st), 'a client is taken plain where encryption is configured', at=e.i)
            au = [x for x in calls(evs, 'client_set_auth') if x.n < e.n and x.a[0] == cl]
            ctx.ob('asked.auth', n, len(au) == 1 and strip_cast(au[0].a[1]) == ('load', ('field', ('load', ('field', li, 'ServerListen.config')), 'ServerConfig.auth')), 'the authentication configured is not asked for', at=e.i)
    n = 'server_add'
    Q = core_load([n], ['server_listen_allocate', 'resolve', 'report_error'], [], False)
    v = Q.view(n)
    tls = ('load', ('field', A(v, 1), 'ServerConfig.tls'))
    for p in paths(v, edge=noexc):
        for e in calls(trace(p), 'server_listen_allocate'):
            ok = isset(p, tls) is False or nonnull(p, ('load', ('field', ('field', A(v, 0), 'Server.tls'), 'TlsContext.ctx')))
            ctx.ob('asked.possible', n, ok, 'encryption is configured without a certificate', at=e.i)
    n = 'tls_context_set'
    Q = core_load([n, 'str_nullif'], ['str_nullif'], [], False)
    v = Q.view(n)
    want = dict(client=1, file_cert=2, file_key=3, file_ca=4, path_ca=5, server=6)
    for p in paths(v, edge=noexc):
        if p.end() != 'ret':
            continue
        evs = trace(p)
        for f, k in want.items():
            st = [e.v for e in evs if e.k == 'store' and e.f == 'TlsContext.' + f]
            t = strip_cast(st[-1]) if st else None
            ok = t is not None and (unbool(t) == A(v, k) or t[0] == 'call' and t[1] == 'str_nullif' and t[2] == (A(v, k),))
            ctx.ob('asked.kept', n + ':' + f, ok, 'an option is kept as another', at=p.insts[-1])
    v = Q.view('str_nullif')
    for p in paths(v, edge=noexc):
        if p.end() != 'ret':
            continue
        r = strip_cast(v.norm(p.arg(p.insts[-1], 0)))
        empty = fact(p, lambda o, a, b: SZ(a) == A(v, 0) and const_of(b) == 0 and o == 'eq')
        ctx.ob('asked.empty', 'str_nullif', r == A(v, 0) or r == ('null',) and (empty or zero(p, A(v, 0))), 'an option that is set is dropped', at=p.insts[-1])
    for f in P.fn.values():
        for c in f.calls('tls_context_set'):
            if f.name != 'server_configure_tls':
                continue
            a = [strip_cast(f.term(x)) for x in c.args]
            ok = const_of(a[1]) == 0 and [x[2] for x in a[2:7] if x[0] == 'field'] == ['Server.tls_cert', 'Server.tls_key', 'Server.tls_ca', 'Server.tls_capath', 'Server.tls_server'] and a[0][0] == 'field' and a[0][2] == 'Server.tls'
            ctx.ob('asked.server_options', f.name, ok, 'the context is made from something else', at=c)
    for x in ('asked.client', 'asked.options', 'asked.server', 'asked.possible', 'asked.kept', 'asked.server_options'):
        ctx.floor(x, 1)


def optstr(t):
    """the option a string belongs to"""
    t = strip_cast(t)
    if t[0] == 'call' and t[1] == 'opt_string_of':
        return strip_cast(t[2][0])
    if t[0] == 'field' and t[2].startswith('Opt.'):
        return t[1]
    return None


def unbool(t):
    t = strip_cast(t)
    while t[0] == 'cmp' and t[1] == 'ne' and const_of(t[3]) == 0:
        t = strip_cast(t[2])
    return t


def failing(ctx, P):
    """a connection whose establishment failed is closed"""
    Q = core_load(['client_connect', 'tcp_close'], ['client_connect_to', 'client_connect_to_path', 'client_close', 'report_error', 'socket_close', 'poller_del', 'tls_free', 'tls_init', 'rethrow'], [], False)
    v = Q.view('client_connect')
    for p in paths(v):
        evs = trace(p)
        for e in calls(evs, 'client_connect_to'):
            if p.end() == 'unwind' and thrown_at(p, e):
                cl = [x for x in calls(evs, 'client_close') if x.n > e.n and x.a == [A(v, 0)]]
                ctx.ob('failing.closed', 'client_connect', bool(cl), 'a connection that failed stays', at=e.i)
            if p.end() == 'ret':
                ctx.ob('failing.reported', 'client_connect', not thrown_at(p, e), 'a connection that failed is taken for established', at=e.i)
    v = Q.view('tcp_close')
    me = A(v, 0)
    fd = ('load', ('field', ('field', me, 'Tcp.fd'), 'Fd.fd'))
    for p in paths(v, edge=noexc):
        if p.end() != 'ret':
            continue
        at = p.insts[-1]
        evs = trace(p)
        closed = fact(p, lambda o, a, b: a == fd and o == 'eq' and const_of(b) == -1) or len([e for e in calls(evs, 'socket_close') if strip_cast(e.a[0]) == fd]) == 1
        ctx.ob('failing.socket', 'tcp_close', closed, 'the socket stays open', at=at)
        st = {e.f: e.v for e in evs if e.k == 'store'}
        ok = const_of(st.get('Tcp.connected', ('x',))) == 0 and const_of(st.get('Fd.fd', ('x',))) == -1
        ctx.ob('failing.unconnected', 'tcp_close', ok, 'a closed connection is taken for connected', at=at)
        tl = [e for e in calls(evs, 'tls_free') if e.a == [('field', me, 'Tcp.tls')]]
        ctx.ob('failing.session', 'tcp_close', len(tl) == 1, 'the session of a closed connection stays', at=at)
    ctx.floor('failing.closed', 1)
    ctx.floor('failing.socket', 2)


def thrown_at(p, e):
    """the path goes on with the exception of this call"""
    n = 0
    for j, b in enumerate(p.blocks[:-1]):
        n += len(p.v.blocks[b])
        if n > e.n:
            ls = [l for s, l in p.v.succ[b] if s == p.blocks[j + 1]]
            return ls == [('exc',)]
    return False


RULES = [connected, handshake, names, plain, configured, asked, failing]
