"""W02: durability of acknowledged writes."""
from ..q import *

ENTRIES = ['wal_mgr_write', 'wal_mgr_create', 'wal_mgr_stop', 'wal_mgr_start', 'wal_create', 'wal_sync', 'wal_open', 'wal_write', 'wal_overflow',
           'wal_periodic_main', 'vfs_fsync', 'vfs_fdatasync', 'wal_worker_main']
KEEP = ['wal_write', 'wal_worker_request', 'wal_create', 'wal_close', 'wal_worker_stop', 'wal_sync', 'wal_periodic_stop', 'id_mgr_add', 'coroutine_sleep',
        'wal_truncate', 'wal_worker_start', 'wal_overflow']
UNKEEP = ['vfs_fsync']
SYNC, DIRSYNC = 'fdatasync', 'fsync'


def bits(P):
    e = P.enum('WAL_CREATE')
    return e['WAL_CREATE'], e['WAL_SYNC'], e['WAL_SYNC_CREATE'], e['WAL_SHUTDOWN']


def o(field):
    return lambda v: (lambda t: is_opt(v, t, field))


def opt(p, field):
    return p.truth(lambda t: is_opt(p.v, t, field))


def dirarg(p, c):
    return const_of(p.arg(c, 1))


def write_then_sync(ctx, P):
    """a non-empty batch is written; with sync-on-write the flush follows the write and precedes rotation and return"""
    v = P.view('wal_mgr_write')
    n = 0
    for p in paths(v):
        if p.end() != 'ret':
            continue
        w = p.calls('wal_write')
        if not w:
            empty = any(leaf_field(a) == 'WriteList.list_count' and ((q == 'eq' and b == ('const', 0)) or (q in ('sle', 'slt', 'ult', 'ule'))) for _, q, a, b in p.facts)
            ctx.ob('batch-appended', 'wal_mgr_write', empty, 'a batch is dropped without being written', at=p.insts[-1])
            continue
        n += 1
        wi = p.index(w[-1])
        sy = [p.index(c) for c in p.calls('wal_sync', SYNC, DIRSYNC) if p.index(c) > wi]
        rot = [p.index(c) for c in p.calls('wal_create', 'wal_worker_request')]
        if opt(p, 'Config.wal_sync_on_write') is not False:
            ctx.ob('sync-after-write', 'wal_mgr_write', bool(sy), 'returns without flushing although sync-on-write is on', at=w[-1])
            ctx.ob('sync-before-rotate', 'wal_mgr_write', not (rot and sy) or min(sy) < min(rot), 'the log is rotated before the write is flushed', at=w[-1])
        full = p.truth(lambda t: t[0] == 'call' and t[1] == 'wal_write')
        if full is not False:
            ctx.ob('rotate-when-full', 'wal_mgr_write', bool(rot), 'a full log file is not rotated', at=w[-1])
        if full is False:
            ctx.ob('rotate-only-full', 'wal_mgr_write', not rot, 'the log is rotated although it is not full', at=w[-1])
    ctx.floor('sync-after-write', 1)
    ctx.floor('rotate-when-full', 1)


def sync_flushes(ctx, P):
    """flushing the log flushes the current file's data, and the directory entry when asked, and reports failures"""
    v = P.view('wal_sync')
    for p in paths(v):
        e = p.end()
        f = [c for c in p.calls(SYNC, DIRSYNC) if leaf_field(p.arg(c, 0)) == 'File.fd']
        d = [c for c in p.calls(DIRSYNC) if leaf_field(p.arg(c, 0)) == 'Wal.dirfd']
        if e == 'ret':
            ctx.ob('flush-data', 'wal_sync', bool(f) and all(mentions(v, p.arg(c, 0), 'Wal.current') for c in f), 'the current log file is not flushed', at=p.insts[-1])
            want = p.truth(lambda t: t[0] == 'arg' and t[1] == 1)
            if want is not False:
                ctx.ob('flush-directory', 'wal_sync', bool(d), 'the log directory is not flushed when asked', at=p.insts[-1])
            for c in f + d:
                bad = p.truth_fail(c) if hasattr(p, 'truth_fail') else None
                ok = any(strip_cast(a)[0] == 'call' and strip_cast(a)[2] == c.id and ((q == 'ne' and b == ('const', -1)) or (q == 'eq' and b == ('const', 0)) or q in ('sge', 'sgt'))
                         for _, q, a, b in p.facts)
                ctx.ob('flush-checked', 'wal_sync', ok, 'a failed flush is reported as success', at=c)
    ctx.floor('flush-data', 1)
    ctx.floor('flush-directory', 1)
    for n, prim in (('vfs_fsync', 'fsync'), ('vfs_fdatasync', 'fdatasync')):
        v = P.view(n)
        for r in v.exits():
            t = v.term(r.args[0])
            ctx.ob('flush-primitive', n, t[0] == 'call' and t[1] in ('fsync', 'fdatasync') and v.term(v.inst[t[2]].args[0])[0] == 'arg',
                   'does not flush the file it is given', at=r)


def request_bits(p, c):
    t = p.arg(c, 1)
    return t[1] if t[0] == 'const' else None


def rotation(ctx, P):
    """rotation flushes the old file (sync-on-close), creates the file for the next LSN, then flushes the new file and
    the directory (sync-on-create); through the worker the same is requested by flags"""
    CREATE, SYN, SYNC_CREATE, SHUT = bits(P)
    v = P.view('wal_mgr_create')
    kinds = set()
    for p in paths(v):
        if p.end() != 'ret':
            continue
        req, cr, sy = p.calls('wal_worker_request'), p.calls('wal_create'), p.calls('wal_sync')
        worker = opt(p, 'Config.wal_worker')
        onclose, oncreate = opt(p, 'Config.wal_sync_on_close'), opt(p, 'Config.wal_sync_on_create')
        ctx.ob('rotation-done', 'wal_mgr_create', bool(req or cr), 'rotation neither creates a file nor asks the worker to', at=p.insts[-1])
        for c in req:
            kinds.add('worker')
            b = request_bits(p, c)
            if b is None:
                ctx.ob('rotation-request', 'wal_mgr_create', False, 'the requested actions are not the configured ones', at=c)
                continue
            ctx.ob('rotation-request', 'wal_mgr_create', b & CREATE, 'the worker is not asked to create a file', at=c)
            ctx.ob('rotation-request', 'wal_mgr_create', not b & SHUT, 'the worker is told to stop', at=c)
            ctx.ob('rotation-request', 'wal_mgr_create', onclose is False or b & SYN, 'the worker is not asked to flush the old file', at=c)
            ctx.ob('rotation-request', 'wal_mgr_create', oncreate is False or b & SYNC_CREATE, 'the worker is not asked to flush the new file', at=c)
            ctx.ob('rotation-worker', 'wal_mgr_create', worker is not False, 'rotation is left to a worker that does not run', at=c)
        for c in cr:
            kinds.add('direct')
            k = p.index(c)
            ctx.ob('rotation-worker', 'wal_mgr_create', worker is not True, 'rotation is done while the worker owns it', at=c)
            pre = [x for x in sy if p.index(x) < k]
            post = [x for x in sy if p.index(x) > k]
            ctx.ob('rotation-sync-old', 'wal_mgr_create', onclose is False or bool(pre), 'the old log file is not flushed before it is closed', at=c)
            ctx.ob('rotation-sync-new', 'wal_mgr_create', oncreate is False or any(dirarg(p, x) for x in post), 'the new log file and its directory are not flushed', at=c)
            lsn_name(ctx, p, c, 'wal_mgr_create')
    ctx.ob('rotation-kinds', 'wal_mgr_create', 'direct' in kinds and 'worker' in kinds, 'rotation is not handled both with and without the worker')


def lsn_name(ctx, p, c, fn):
    t = strip_cast(p.arg(c, 1))
    ok = t[0] == 'bin' and t[1] == 'add' and ('const', 1) in t[2:] and any(is_opt(p.v, x, 'State.lsn') for x in t[2:])
    ctx.ob('file-named-by-next-lsn', fn, ok, 'the new log file is not named by the next LSN', at=c)


def worker_rotation(ctx, P):
    """the worker flushes, creates and flushes again in that order when asked"""
    v = P.view('wal_worker_main')
    CREATE, SYN, SYNC_CREATE, SHUT = bits(P)
    cr, sy = v.calls('wal_create'), v.calls('wal_sync')
    ctx.ob('worker-creates', 'wal_worker_main', bool(cr), 'the worker never creates a log file')

    def bit(i):
        r = set()
        for _, p, a, b in v.conds(i):
            a = strip_cast(a)
            if a[0] == 'bin' and a[1] == 'and' and a[3][0] == 'const' and ((p == 'ne' and b == ('const', 0)) or (p == 'eq' and b == a[3])):
                r.add(a[3][1])
        return r
    for c in cr:
        ctx.ob('worker-creates', 'wal_worker_main', bit(c) <= {CREATE} or CREATE in bit(c), 'a file is created under a wrong request', at=c)
        t = strip_cast(v.term(c.args[1]))
        ok = t[0] == 'bin' and t[1] == 'add' and ('const', 1) in t[2:] and any(is_opt(v, x, 'State.lsn') for x in t[2:])
        ctx.ob('file-named-by-next-lsn', 'wal_worker_main', ok, 'the new log file is not named by the next LSN', at=c)
    before = [s for s in sy if SYN in bit(s)]
    after_ = [s for s in sy if SYNC_CREATE in bit(s)]
    ctx.ob('worker-sync-old', 'wal_worker_main', bool(before), 'a requested flush is not performed')
    ctx.ob('worker-sync-new', 'wal_worker_main', any(const_of(v.term(s.args[1])) for s in after_), 'a requested flush of the new file and directory is not performed')
    lock = call_on(v, 'mutex_lock', 'WalWorker.lock')
    for s in before:
        for c in cr:
            ctx.ob('worker-order', 'wal_worker_main', v.can_reach(c, [s], avoid=lock) is None, 'the old file is flushed after it was replaced', at=s)
    for s in after_:
        for c in cr:
            ctx.ob('worker-order', 'wal_worker_main', v.can_reach(s, [c], avoid=lock) is None, 'the new file is flushed before it exists', at=s)
    ctx.floor('worker-order', 2)


def create_before_current(ctx, P):
    """the file exists and is registered before it becomes current; failure leaves the current file in place and nothing behind"""
    v = P.view('wal_create')
    op = v.calls('vfs_open')
    cur = stores(v, 'Wal.current')
    add = v.calls('id_mgr_add')
    ctx.ob('current-set', 'wal_create', bool(cur), 'the new file never becomes current')
    m = missing(v, None, v.exits(), cur)
    ctx.ob('current-set', 'wal_create', m is None, 'ends without making the new file current', at=m)
    m = missing(v, None, v.exits(), add)
    ctx.ob('file-registered', 'wal_create', m is None, 'the new file is not registered', at=m)
    for a in add:
        ctx.ob('file-registered', 'wal_create', v.term(a.args[1])[:2] == ('arg', 1), 'registered under another name', at=a)
        ctx.ob('file-registered', 'wal_create', v.dominated(a, op), 'registered before it exists', at=a)
    for s in cur:
        ctx.ob('create-before-current', 'wal_create', v.dominated(s, op), 'becomes current before it exists', at=s)
        ctx.ob('create-before-current', 'wal_create', v.can_reach(s, v.unwinds()) is None, 'a failed creation replaces the current file', at=s)
        lk, ul = call_on(v, 'mutex_lock', 'Wal.lock'), call_on(v, 'mutex_unlock', 'Wal.lock')
        ctx.ob('current-swapped-locked', 'wal_create', v.dominated(s, lk) and missing(v, None, [s], lk) is None and not any(v.can_reach(u, [s], avoid=lk) for u in ul),
               'the current file is replaced without the lock', at=s)
    for s in stores(v, 'WalFile.id'):
        ctx.ob('file-named-by-arg', 'wal_create', v.term(s.args[0])[:2] == ('arg', 1), 'the file gets another name', at=s)
    for c in op:
        fl = const_of(v.term(c.args[1]))
        ctx.ob('created-exclusively', 'wal_create', fl is not None and fl & 0o100 and not fl & 0o1000, 'the file is not created, or an existing one is emptied', at=c)
    # the previous file is closed only after it is no longer current
    for c in v.calls('vfs_close'):
        if any(v.can_reach(s, [c]) for s in cur):
            continue
        ctx.ob('close-after-swap', 'wal_create', v.can_reach(c, cur) is None, 'the previous file is closed while it is current', at=c)


def shutdown(ctx, P):
    """stopping flushes (sync-on-close) before closing, and waits for the worker after telling it to stop"""
    CREATE, SYN, SYNC_CREATE, SHUT = bits(P)
    v = P.view('wal_mgr_stop')
    kinds = set()
    for p in paths(v):
        if p.end() != 'ret':
            continue
        req, sy, cl, st = p.calls('wal_worker_request'), p.calls('wal_sync'), p.calls('wal_close'), p.calls('wal_worker_stop')
        ctx.ob('stop-closes', 'wal_mgr_stop', bool(cl), 'the log is not closed', at=p.insts[-1])
        worker, onclose = opt(p, 'Config.wal_worker'), opt(p, 'Config.wal_sync_on_close')
        if worker is not False and (req or st):
            kinds.add('worker')
            b = [request_bits(p, c) for c in req]
            ctx.ob('stop-worker', 'wal_mgr_stop', bool(b) and None not in b and any(x & SHUT for x in b), 'the worker is not told to stop', at=p.insts[-1])
            ctx.ob('stop-worker', 'wal_mgr_stop', bool(st) and bool(req) and p.index(st[0]) > p.index(req[0]) and (not cl or p.index(cl[0]) > p.index(st[0])), 'the log is closed while the worker uses it', at=p.insts[-1])
            ctx.ob('stop-sync', 'wal_mgr_stop', onclose is False or any(x and x & SYN for x in b) or bool(sy), 'the log is not flushed at shutdown', at=p.insts[-1])
        elif worker is not True:
            kinds.add('direct')
            ctx.ob('stop-sync', 'wal_mgr_stop', onclose is False or (bool(sy) and p.index(sy[0]) < p.index(cl[0]) if cl else True), 'the log is not flushed at shutdown', at=p.insts[-1])
        else:
            ctx.ob('stop-worker', 'wal_mgr_stop', False, 'the worker is not told to stop', at=p.insts[-1])
    ctx.ob('stop-kinds', 'wal_mgr_stop', kinds == {'direct', 'worker'}, 'shutdown is not handled both with and without the worker')
    v = P.view('wal_mgr_start')
    on = opt_off(v, 'Config.wal_worker')
    m = missing(v, None, v.exits(), v.calls('wal_worker_start'), edge=on)
    ctx.ob('worker-started', 'wal_mgr_start', m is None, 'the worker that later requests go to is not started', at=m)


def first_file(ctx, P):
    """the first log file is flushed with its directory when sync-on-create is on"""
    v = P.view('wal_open')
    cr, sy = v.calls('wal_create'), [s for s in v.calls('wal_sync') if const_of(v.term(s.args[1]))]
    ctx.ob('first-file', 'wal_open', bool(cr), 'no first log file is created')
    for c in cr:
        m = v.can_reach(c, v.exits(), avoid=sy, edge=opt_off(v, 'Config.wal_sync_on_create'))
        ctx.ob('first-file-sync', 'wal_open', m is None, 'the first log file is not flushed although sync-on-create is on', at=c)


def size_limit(ctx, P):
    """a file is reported full exactly when its size reached the configured limit"""
    for n in ('wal_write', 'wal_overflow'):
        v = P.view(n)
        k = 0
        for r in v.exits():
            for t in resolve(v, v.term(r.args[0])):
                while t[0] == 'cast':
                    t = t[4]
                if t[0] != 'cmp':
                    continue
                a, b, p = t[2], t[3], t[1]
                if leaf_field(b) == 'File.size':
                    a, b = b, a
                    p = {'ule': 'uge', 'uge': 'ule', 'ult': 'ugt', 'ugt': 'ult'}.get(p, p)
                k += 1
                ctx.ob('full-test', n, leaf_field(a) == 'File.size' and is_opt(v, b, 'Config.wal_size') and p in ('uge', 'ugt', 'sge', 'sgt'),
                       'the size limit is not what decides rotation', at=r)
        ctx.ob('full-test', n, k > 0, 'the size limit does not decide rotation')


def periodic(ctx, P):
    """the periodic flusher requests a flush whenever the LSN moved since the last request, and remembers the LSN it saw before the request"""
    v = P.view('wal_periodic_main')
    req = v.calls('wal_worker_request')
    ctx.ob('periodic-request', 'wal_periodic_main', bool(req), 'never requests a flush')
    _, SYN, _, _ = bits(P)
    for c in req:
        b = const_of(v.term(c.args[1]))
        ctx.ob('periodic-request', 'wal_periodic_main', b is not None and b & SYN, 'does not request a flush', at=c)
    for s in stores(v, 'WalPeriodic.lsn'):
        t = v.term(s.args[0])
        ok = is_opt(v, t, 'State.lsn')
        ctx.ob('periodic-seen', 'wal_periodic_main', ok and v.can_reach(v.inst[strip_cast(t)[2]] if ok else s, req) is not None,
               'remembers an LSN newer than the one it flushed', at=s)
        ctx.ob('periodic-seen', 'wal_periodic_main', v.dominated(s, req), 'remembers an LSN it did not flush', at=s)
    sl = v.calls('coroutine_sleep', 'wait_event_time')
    for c in req:
        for _, p, a, b in v.conds(c):
            if is_opt(v, a, 'State.lsn') or is_opt(v, b, 'State.lsn'):
                ctx.ob('periodic-when-moved', 'wal_periodic_main', p != 'eq', 'requests a flush only when nothing was written', at=c)


def synced_file(ctx, P):
    """the file that is flushed for sync-on-write is the file the batch went to: no one can replace the current file in between"""
    v = P.view('wal_sync')
    lk = call_on(v, 'mutex_lock', 'Wal.lock')
    # with a background worker the current file can be replaced by another thread between write and flush
    for l in loads(v, 'Wal.current'):
        ctx.ob('synced-file-is-written-file', 'wal_sync', v.dominated(l, lk) if lk else False,
               'the current file may be replaced by the log worker between the write and its flush', at=l)


RULES = [write_then_sync, sync_flushes, rotation, worker_rotation, create_before_current, shutdown, first_file, size_limit, periodic, synced_file]
