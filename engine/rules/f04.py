"""F04: no failed file or socket operation passes for success."""
from ..q import *

ENTRIES = ['tcp_connect', 'listen_accept', 'vfs_read', 'vfs_pread', 'vfs_write', 'vfs_pwrite', 'vfs_writev', 'vfs_pwritev', 'vfs_read_raw', 'tcp_write', 'tcp_read', 'tls_read', 'tls_write', 'file_write', 'file_writev', 'file_truncate', 'file_read_raw', 'file_import', 'file_read_buf', 'file_pread_buf', 'file_import_stream']
KEEP = ['socket_connect', 'socket_error', 'socket_accept', 'poller_add', 'tls_handshake', 'tls_create', 'vfs_read_raw', 'vfs_seek', 'socket_writev', 'tls_writev', 'tls_read', 'socket_read', 'tls_error', 'tls_error_as', 'tls_lib_error', 'poll_read', 'poll_write', 'file_error', 'file_open_rdonly', 'buf_advance', 'vfs_open', 'vfs_close', 'file_close', 'file_read', 'file_pread', 'file_read_raw', 'socket_error']
UNKEEP, PLAIN = [], True

INT = '''open read pread write pwrite writev pwritev readv fsync fdatasync sync_file_range ftruncate truncate lseek lseek64 rename unlink rmdir mkdir fstat stat lstat
fallocate posix_fallocate socket bind listen accept accept4 connect setsockopt getsockopt getsockname recv send sendmsg recvmsg epoll_ctl epoll_create epoll_create1 eventfd fcntl chmod
pthread_create getaddrinfo'''.split()
PTR = ['opendir', 'mmap', 'mremap']
# results that do not matter: releasing something, waking up, progress output
FREE = {'close', 'vfs_close', 'socket_close', 'closedir', 'munmap', 'vfs_munmap', 'poller_del', 'thread_join', 'pthread_join', 'epoll_wait', 'poller_step'}
FILES = ('amelie/runtime/lib/logger.c', 'amelie/runtime/lib/console.c', 'amelie/runtime/base/notify.c', 'amelie/runtime/lib/random.c', 'amelie/runtime/os/poll.h')
EFFORT = {
    ('server_listen', 'vfs_unlink'): 'a stale socket file may not exist',
    ('server_accept_main', 'vfs_unlink'): 'the listener is going away',
    ('readahead_read', 'tcp_read'): 'nothing was read, tried again',
    ('volume_rmdir', 'vfs_unlink'): 'only a link named by a unique id is left over',
    ('timezone_mgr_read', 'opendir'): 'there may be no zone files',
    ('tcp_connect_begin_try', 'socket_connect'): 'decided by rule connecting',
    ('tcp_write', 'socket_writev'): 'decided by rule vectors',
    ('server_accept_client', 'listen_accept'): 'decided by rule connecting',
    ('listen_accept', 'socket_accept'): 'the next connection is waited for',
    ('notify_open', 'poller_del'): 'undo of a failed open',
    ('tcp_read_socket', 'socket_read'): 'a broken connection reads as its end',
    ('wal_gc', 'fs_size'): 'size for a message',
    ('fs_exists', 'vfs_size'): 'failure is the answer',
}


def fallible(P, nev):
    r = {x: -1 for x in INT}
    r.update({x: None for x in PTR})
    change = True
    while change:
        change = False
        for f in P.fn.values():
            if f.name in r or f.ret == 'void' or f.name in FREE:
                continue
            cs = [c for c in f.allcalls() if c.callee in r]
            if not cs:
                continue
            for e in f.exits():
                if not e.args:
                    continue
                for t in resolve(f, f.term(e.args[0])):
                    if t == ('const', -1):
                        r[f.name] = -1
                    elif t[0] == 'call' and t[1] in r and r[t[1]] == -1:
                        # is the call's failure what is returned?
                        c = f.inst[t[2]]
                        seen = f.reach([c], stop=[c] + [x for x in f.allcalls() if x.callee in nev], edge=succeeded(f, c, -1))
                        if e.id in seen and t in returned(f, e, seen)[0]:
                            r[f.name] = -1
                    elif t == ('null',) and any(r[c.callee] is None for c in cs):
                        r.setdefault(f.name, None)
            if f.name in r:
                change = True
    return r


def never(P):
    """functions that do not return (they throw on every path)"""
    r = set()
    change = True
    while change:
        change = False
        for f in P.fn.values():
            if f.name in r:
                continue
            stops = [c for c in f.allcalls() if c.callee in r]
            if f.from_entry(f.exits(), avoid=stops) is None:
                r.add(f.name)
                change = True
    return r


def value_of(f, t, c):
    """does the term stand for the result of call c?"""
    return any(x[0] == 'call' and x[2] == c.id for x in resolve(f, t))


def succeeded(f, c, bad):
    """edges on which the result of c is known to be good"""
    ks = (None, -1, 0)

    def pred(fs):
        for _, p, a, b in fs:
            if b[0] not in ('const', 'null') or not value_of(f, a, c):
                continue
            k = b[1] if b[0] == 'const' else 0
            if bad is None:
                if not holds(p, 0, k) and not (b[0] == 'const' and k == -1):
                    return True
                if k == -1 and not holds(p, -1, -1):
                    return True
            elif not holds(p, -1, k):
                return True
        return False
    return cut_when(f, pred)


def returned(f, e, seen):
    """the values returned by exit e on paths through `seen`, and the other ones"""
    if not e.args:
        return [], []
    bad, good = [], []

    def go(o, b, inside, done):
        t = f.term(o)
        if t[0] == 'cast':
            i = f.inst[o[1]] if o[0] == 'v' else None
            if i is not None and i.op in ('zext', 'sext', 'trunc'):
                return go(i.args[0], b, inside, done)
        if t[0] == 'phi' and (t[1], inside) not in done:
            done.add((t[1], inside))
            for v, pb in f.inst[t[1]].d['in']:
                go(v, pb, inside and f.blocks[pb][-1].id in seen, done)
            return
        if t[0] == 'phi':
            return
        for x in resolve(f, t):
            (bad if inside else good).append(x)
    go(e.args[0], e.b, e.id in seen, set())
    return bad, good


def checked(ctx, P):
    """the result of every operating-system call that can fail, and of every function that passes such a failure on, is looked at, and a failure never ends in a normal return that reads as success"""
    nev = never(P)
    fall = fallible(P, nev)
    n = 0
    best = 0
    for f in P.fn.values():
        for c in f.allcalls():
            if c.callee not in fall:
                continue
            if c.callee in FREE or f.file in FILES or (f.name, c.callee) in EFFORT:
                best += 1
                continue
            n += 1
            bad = fall[c.callee]
            sub = '%s:%s' % (f.name, c.callee)
            us = f.users(c)
            if not us:
                ctx.ob('examined', sub, False, 'the result is not looked at', at=c)
                continue
            ctx.ob('examined', sub, True)
            edge = succeeded(f, c, bad)
            seen = f.reach([c], stop=[c] + [x for x in f.allcalls() if x.callee in nev], edge=edge)
            for e in f.exits():
                if e.id not in seen:
                    continue
                bad_v, good_v = returned(f, e, seen)
                ok = bool(bad_v)
                for t in bad_v:
                    told = t in (('const', -1), ('null',)) or (t[0] == 'call' and t[2] == c.id) or (t == ('const', 0) and f.ret in ('i1', 'ptr'))
                    told = told or t[0] == 'cmp' and value_of(f, t[2], c) or t[0] == 'const' and isinstance(t[1], int) and t[1] < 0
                    # a status that success does not have
                    told = told or t[0] == 'const' and good_v and t not in good_v and not any(x[0] == 'arg' for x in good_v)
                    ok = ok and told
                ctx.ob('failure', sub, ok, 'a failure ends in a normal return', at=c, why='returns at ' + e.where())
    ctx.notes.append('%d call sites of %d fallible functions, %d best-effort sites excluded' % (n, len(fall), best))
    ctx.assume('best-effort sites: ' + '; '.join('%s/%s (%s)' % (a, b, w) for (a, b), w in EFFORT.items()) + '; all calls in ' + ', '.join(FILES) + '; releasing calls ' + ', '.join(sorted(FREE)))
    ctx.floor('examined', 60)




# ---------------------------------------------------------------- the transfer loops

def iid(t):
    """identity of one execution of a call"""
    return (t[2], t[3] if len(t) > 3 else 1)


def executions(p, name):
    """[(position, call term of that execution)]"""
    cnt, r = {}, []
    for n, i in enumerate(p.insts):
        if i.op == 'call' and i.callee == name:
            cnt[i.id] = cnt.get(i.id, 0) + 1
            r.append((n, ('call', name, i.id) + ((cnt[i.id],) if cnt[i.id] > 1 else ())))
    return r


def possible(p, lo, hi, t):
    """small values the call result t may have, by the branches taken between two positions of the path"""
    vals = set(range(-1, 3))
    for f, a in zip(p.facts, p.at):
        if lo < a <= hi and strip_cast(f[2]) == t and f[3][0] == 'const':
            vals = {x for x in vals if holds(f[1], x, f[3][1])}
    return vals or {-1}      # nothing but -1 is below 0


def errnos(p, lo, hi):
    """errno values the path has tested positively"""
    r = set()
    for f, a in zip(p.facts, p.at):
        x = strip_cast(f[2])
        if lo < a <= hi and f[1] == 'eq' and x[0] == 'load' and x[1][0] == 'call' and x[1][1] == '__errno_location' and f[3][0] == 'const':
            r.add(f[3][1])
    return r


EINTR, EAGAIN = 4, 11


def zero(e):
    return not {k: c for k, c in e.items() if c}


def equal(p, e):
    """the branches of the path say that the linear form e is 0"""
    if zero(e):
        return True
    for f in p.facts:
        if f[1] == 'eq' and f[2] != ('null',) and f[3] != ('null',):
            d = ladd((1, plin(f[2])), (-1, plin(f[3])))
            if ladd((1, d), (-1, e)) == {} or ladd((1, d), (1, e)) == {}:
                return True
    return False


def transfer(ctx, P):
    """vfs_read, vfs_pread, vfs_write and vfs_pwrite move exactly the bytes asked for: every call continues where the
    previous ones stopped, only an interrupted call is repeated, and success is returned only when all bytes moved"""
    for name, call, ptr, size, off in (('vfs_read', 'read', 1, 2, None), ('vfs_pread', 'pread', 2, 3, 1), ('vfs_write', 'write', 1, 2, None), ('vfs_pwrite', 'pwrite', 1, 2, 3)):
        v = P.view(name)
        arg = lambda n: {('arg', n, v.params[n]): 1}
        ps = paths(v, visits=3, instances=True, cut=True)
        for p in ps:
            ex = executions(p, call)
            done = {}
            for k, (n, t) in enumerate(ex):
                c = p.insts[n]
                A = [plin(subst(v.term(a), p.envs[n])) for a in c.args]
                ok = A[0] == arg(0) and A[1] == ladd((1, arg(ptr)), (1, done)) and A[2] == ladd((1, arg(size)), (-1, done))
                if off is not None:
                    ok = ok and A[3] == ladd((1, arg(off)), (1, done))
                ctx.ob('transfer.continues', name, ok, '%s is not continued where the previous one stopped' % call, at=c)
                end = ex[k + 1][0] if k + 1 < len(ex) else len(p.insts)
                vals = possible(p, n, end, t)
                again = k + 1 < len(ex)
                fail = min(vals) < 0
                if again and fail:
                    ctx.ob('transfer.retry', name, max(vals) < 0 and errnos(p, n, end) <= {EINTR} and errnos(p, n, end), 'a failed %s is repeated although it was not interrupted' % call, at=c)
                elif not fail:
                    done = ladd((1, done), (1, {t: 1}))
                if again and 0 in vals:
                    ctx.ob('transfer.eof', name, False, 'an empty %s is repeated' % call, at=c)
                if not again and p.end() == 'ret':
                    r = subst(v.term(p.insts[-1].args[0]), p.env)
                    rr = strip_cast(r)
                    if rr[0] == 'const':
                        ctx.ob('transfer.result', name, rr[1] < 0, 'a constant is returned', at=p.insts[-1])
                    else:
                        left = ladd((1, arg(size)), (-1, done))
                        e = plin(r)
                        good = not fail and 0 not in vals and equal(p, left) and (e == done or e == arg(size))
                        ctx.ob('transfer.result', name, good, 'success is returned before all bytes moved', at=c)
    ctx.floor('transfer.continues', 12)
    ctx.floor('transfer.result', 8)


def vectors(ctx, P):
    """vfs_writev, vfs_pwritev and tcp_write write every byte of every vector once: after a short write the vectors are advanced
    by exactly what was written"""
    for name, call, vec, cnt, off, extra in (('vfs_writev', 'writev', 1, 2, None, ()), ('vfs_pwritev', 'pwritev', 2, 3, 1, ()), ('tcp_write', 'socket_writev', 1, 2, None, ('tls_writev',))):
        v = P.view(name)
        arg = lambda n: {('arg', n, v.params[n]): 1}
        names = (call,) + extra
        for p in paths(v, visits=3, instances=True, cut=True, limit=60000):
            ex = sorted([(n, t) for c in names for n, t in executions(p, c)])
            V, N, done = arg(vec), arg(cnt), {}
            for k, (n, t) in enumerate(ex):
                c = p.insts[n]
                A = [plin(subst(v.term(a), p.envs[n])) for a in c.args]
                ok = A[1] == V and A[2] == N
                if off is not None:
                    ok = ok and A[3] == ladd((1, arg(off)), (1, done))
                ctx.ob('vectors.continues', name, ok, '%s is not continued where the previous one stopped' % c.callee, at=c)
                again = k + 1 < len(ex)
                end = ex[k + 1][0] if again else len(p.insts)
                vals = possible(p, n, end, t)
                if min(vals) < 0:
                    if again:
                        e = errnos(p, n, end)
                        good = max(vals) < 0 and (e and e <= ({EINTR} if name != 'tcp_write' else {EINTR, EAGAIN}) or c.callee == 'tls_writev')
                        if name == 'tcp_write':
                            good = good and [x for x in p.insts[n:end] if x.op == 'call' and x.callee == 'poll_write']
                        ctx.ob('vectors.retry', name, good, 'a failed %s is repeated although the error is not temporary, or without waiting' % c.callee, at=c)
                    elif p.end() == 'ret':
                        r = p.insts[-1].args
                        rc = const_of(subst(v.term(r[0]), p.env)) if r else None
                        ctx.ob('vectors.result', name, rc is not None and rc < 0, 'a failure is returned as success', at=c)
                    continue
                # what happens to the vectors
                R = {t: 1}
                done = ladd((1, done), (1, R))
                base, len_ = None, None
                bad = None
                nv, nn = V, N
                passed = True
                for x in range(n + 1, end):
                    i = p.insts[x]
                    env = p.envs[x]
                    if i.op == 'store':
                        a = subst(v.term(i.args[1]), env)
                        if a[0] == 'field' and a[2] in ('iovec.iov_base', 'iovec.iov_len'):
                            val = plin(subst(v.term(i.args[0]), env))
                            if a[2] == 'iovec.iov_base':
                                base = (plin(a[1]), val)
                            else:
                                len_ = (plin(a[1]), val)
                # the elements the path went past
                for f, at in zip(p.facts, p.at):
                    if not n < at <= end:
                        continue
                    e = le0(f)
                    if e is None:
                        continue
                    e = ladd((1, e))
                    ln = [a for a in e if a and a[0] == 'load' and a[1][0] == 'field' and a[1][2] == 'iovec.iov_len' and plin(a[1][1]) == nv]
                    if not ln:
                        continue
                    a = ln[0]
                    if e == ladd((1, {a: 1}), (-1, R)):                      # len <= rest: passed
                        R = ladd((1, R), (-1, {a: 1}))
                        nv = ladd((1, nv), (1, {None: 16}))
                        nn = ladd((1, nn), (-1, {None: 1}))
                    elif e == ladd((-1, {a: 1}), (1, R), (1, {None: 1})):    # len > rest: a part of it
                        def same(u, w):
                            # equal up to which execution of the load it was
                            g = lambda e: sorted((str(q[:3] if q and q[0] == 'load' else q), c) for q, c in e.items())
                            return u is not None and g(u) == g(w)
                        lb = base and [q for q in base[1] if q and q[0] == 'load' and q[1][0] == 'field' and q[1][2] == 'iovec.iov_base']
                        ok = base and len_ and base[0] == nv and len_[0] == nv and lb and same(base[1], ladd((1, {lb[0]: 1}), (1, R)))
                        ll = len_ and [q for q in len_[1] if q and q[0] == 'load' and q[1][0] == 'field' and q[1][2] == 'iovec.iov_len']
                        ok = ok and ll and len_[1] == ladd((1, {ll[0]: 1}), (-1, R))
                        ctx.ob('vectors.partial', name, ok, 'a partly written vector is not advanced by what was written of it', at=c)
                        passed = False
                        break
                    else:
                        bad = f
                V, N = nv, nn
                if not again and p.end() == 'ret':
                    ok = passed and any(ladd((1, le0(f))) == ladd((1, N)) for f, at in zip(p.facts, p.at) if at > n and le0(f) is not None)
                    ctx.ob('vectors.all', name, ok, 'returns before every vector is written', at=c)
                    r = p.insts[-1].args
                    if r and off is None or r and off is not None:
                        ctx.ob('vectors.result', name, plin(subst(v.term(r[0]), p.env)) == done, 'returns something else than the bytes written', at=c)
    ctx.floor('vectors.continues', 12)
    ctx.floor('vectors.partial', 3)
    ctx.floor('vectors.all', 3)


def sizes(ctx, P):
    """a file grows in its structure by exactly what was written, and what is read is what was asked for"""
    for name, call in (('file_write', 'vfs_write'), ('file_writev', 'vfs_writev')):
        v = P.view(name)
        for p in paths(v, visits=2, instances=True):
            if p.end() != 'ret':
                continue
            ex = executions(p, call)
            tr = [(n, i) for n, i in enumerate(p.insts) if i.op == 'store' and leaf_field(v.term(i.args[1])) == 'File.size']
            ctx.ob('sizes.grow', name, len(tr) == len(ex), 'the size is not updated once per write', at=p.insts[-1])
            for (n, t), (m, st) in zip(ex, tr):
                val = plin(subst(v.term(st.args[0]), p.envs[m]))
                at = [a for a in val if a and a[0] == 'load' and leaf_field(a) == 'File.size']
                grown = len(at) == 1 and (val == ladd((1, {at[0]: 1}), (1, {t: 1})) or (name == 'file_write' and val == ladd((1, {at[0]: 1}), (1, {('arg', 2, v.params[2]): 1}))))
                ctx.ob('sizes.grow', name, m > n and grown, 'the size does not grow by what was written', at=st)
    v = P.view('file_write')
    for p in paths(v):
        if p.end() == 'ret' and p.insts[-1].args:
            # the offset at which the data went is the size before the write
            ld = [(n, i) for n, i in enumerate(p.insts) if i.op == 'load' and leaf_field(v.term(i.args[0])) == 'File.size']
            r = strip_cast(subst(v.term(p.insts[-1].args[0]), p.env))
            st = [n for n, i in enumerate(p.insts) if i.op == 'store' and leaf_field(v.term(i.args[1])) == 'File.size']
            ok = r[0] == 'load' and any(i.id == r[2] and (not st or n < st[0]) for n, i in ld)
            ctx.ob('sizes.offset', 'file_write', ok, 'does not return the offset the data was written at', at=p.insts[-1])
    for name, call, sz in (('file_read_buf', 'file_read', 2), ('file_pread_buf', 'file_pread', 2)):
        v = P.view(name)
        for p in paths(v):
            if p.end() != 'ret':
                continue
            c, a, r = p.calls(call), p.calls('buf_advance'), p.calls('buf_reserve')
            n = {('arg', sz, v.params[sz]): 1}
            ok = len(c) == 1 and len(a) == 1 and r and plin(p.arg(c[0], 2)) == n and plin(p.arg(a[0], 1)) == n and plin(p.arg(r[0], 1)) == n \
                and p.index(r[0]) < p.index(c[0]) < p.index(a[0])
            ctx.ob('sizes.read', name, ok, 'the buffer does not advance by what was read', at=p.insts[-1])
    ctx.floor('sizes.grow', 2)
    ctx.floor('sizes.read', 2)


def connecting(ctx, P):
    """a connect that fails is only waited for when it is in progress, and its outcome is then looked at; an accepted
    connection is a descriptor; tls reports only a temporary condition as nothing done"""
    v = P.view('tcp_connect')
    n = 0
    for p in paths(v, visits=2, instances=True, limit=60000):
        if p.end() != 'ret' or not remembered(p, 'Tcp.connected'):
            continue
        for k, t in executions(p, 'socket_connect'):
            n += 1
            vals = possible(p, k, len(p.insts), t)
            if -1 in vals:
                inprog = errnos(p, k, len(p.insts)) == {115}
                ctx.ob('connecting', 'tcp_connect', inprog, 'continues after a failed connect that is not in progress', at=p.insts[k])
                w = [x for x in p.insts[k:] if x.op == 'call' and x.callee == 'poll_write']
                se = executions(p, 'socket_error')
                good = w and se and any(possible(p, m, len(p.insts), u) == {0} for m, u in se)
                ctx.ob('connecting', 'tcp_connect', good, 'the outcome of the pending connect is not looked at', at=p.insts[k])
    ctx.floor('connecting', 2)
    v = P.view('listen_accept')
    for p in paths(v, visits=3, instances=True):
        if p.end() == 'ret':
            r = strip_cast(subst(v.term(p.insts[-1].args[0]), p.env))
            ex = executions(p, 'socket_accept')
            ok = ex and r == ex[-1][1] and -1 not in possible(p, ex[-1][0], len(p.insts), r)
            ctx.ob('connecting.accept', 'listen_accept', ok, 'something else than an accepted descriptor is returned', at=p.insts[-1])
    ctx.floor('connecting.accept', 1)
    for name, call in (('tls_read', 'SSL_read'), ('tls_write', 'SSL_write')):
        v = P.view(name)
        nev = never(P)
        for p in paths(v):
            if p.end() != 'ret' or p.calls(*nev):
                continue
            r = strip_cast(subst(v.term(p.insts[-1].args[0]), p.env))
            if r[0] == 'call' and r[1] == call:
                vals = {x for x in range(-3, 4)} & fact_says(p, lambda a, r=r: a == r)
                ctx.ob('connecting.tls', name, min(vals) > 0, 'a failed %s is returned as success' % call, at=p.insts[-1])
            elif r[0] == 'const' and r[1] < 0:
                ge = fact_codes(p)
                ctx.ob('connecting.tls', name, bool(ge) and ge <= {2, 3}, 'an error that is not temporary is reported as temporary', at=p.insts[-1])
                st = [i for i in p.insts if i.op == 'store' and v.term(i.args[1])[0] == 'call' and v.term(i.args[1])[1] == '__errno_location']
                ctx.ob('connecting.tls', name, st and v.term(st[-1].args[0]) == ('const', EAGAIN), 'errno is not EAGAIN when nothing was done', at=p.insts[-1])
            elif r[0] == 'const' and r[1] == 0:
                ctx.ob('connecting.tls', name, name == 'tls_read' and fact_codes(p) <= {5, 6} and bool(fact_codes(p)), 'nothing done is reported as success', at=p.insts[-1])
            else:
                ctx.ob('connecting.tls', name, False, 'an unknown value is returned', at=p.insts[-1])
    ctx.floor('connecting.tls', 5)


def remembered(p, field):
    """does the path agree with itself about a field it stored a constant in?"""
    v, last = p.v, None
    for n, i in enumerate(p.insts):
        if i.op == 'store' and leaf_field(v.term(i.args[1])) == field:
            last = const_of(subst(v.term(i.args[0]), p.envs[n]))
        elif i.op == 'load' and leaf_field(v.term(i.args[0])) == field and last is not None:
            t = truth(v, p.facts, lambda x: x[0] == 'load' and x[2] == i.id)
            if t is not None and t != bool(last):
                return False
    return True


def fact_codes(p):
    return {f[3][1] for f in p.facts if f[1] == 'eq' and strip_cast(f[2])[0] == 'call' and strip_cast(f[2])[1] == 'SSL_get_error' and f[3][0] == 'const'}


RULES = [connecting, checked, transfer, vectors, sizes]
