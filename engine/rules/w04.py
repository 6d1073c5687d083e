"""W04: log files still needed are never removed."""
from ..q import *
from .. import core

ENTRIES = ['id_mgr_gc_between', 'wal_gc', 'wal_snapshot', 'wal_add', 'wal_del', 'wal_slot_set', 'wal_slot_init', 'id_mgr_stats', 'wal_in_range', 'wal_status']
KEEP = ['id_mgr_gc_between', 'fs_unlink', 'fs_size', 'encode_basefile', 'id_mgr_find', 'id_mgr_next', 'id_mgr_min', 'id_mgr_add', 'id_mgr_reset', 'id_mgr_stats', 'defer_run']
UNKEEP = []


def slot_lsn(v, i):
    return i.op in ('load', 'atomicrmw') and leaf_field(v.term(i.args[0])) == 'WalSlot.lsn'


def minimum_of_slots(ctx, P):
    """the removal limit is lowered to the LSN of every registered slot, never raised, while the slot list is locked"""
    v = P.view('wal_gc')
    gc = v.calls('id_mgr_gc_between')
    ctx.ob('gc-uses-list', 'wal_gc', bool(gc), 'the files to remove are not taken from the file list')
    lk, ul = call_on(v, 'mutex_lock', 'Wal.lock'), call_on(v, 'mutex_unlock', 'Wal.lock')
    sl = [i for i in v.insts() if slot_lsn(v, i)]
    ctx.ob('gc-uses-slots', 'wal_gc', bool(sl), 'the registered slots do not limit what is removed')
    for c in gc:
        # the walk over the slots precedes the removal on every path: the exit edge of the walk
        heads = walk_exits(v, 'Wal.slots')
        ctx.ob('gc-uses-slots', 'wal_gc', bool(heads), 'the registered slots are not all visited', at=c)
        def no_exit(b, s, l, heads=heads):
            return (b, s) not in heads
        ctx.ob('gc-uses-slots', 'wal_gc', v.from_entry([c], edge=no_exit) is None, 'files are selected without visiting all slots', at=c)
        ctx.ob('gc-atomic', 'wal_gc', v.dominated(c, lk) and not any(v.can_reach(s, [c], avoid=lk) is None for s in sl) and not any(v.can_reach(u, [c], avoid=lk) for u in ul),
               'a snapshot can register between computing the limit and removing the files', at=c)
        for s in sl:
            ctx.ob('gc-atomic', 'wal_gc', not any(v.can_reach(s, [u], avoid=[c]) and v.can_reach(u, [c]) for u in ul),
                   'the lock is released between computing the limit and removing the files', at=s)
    n = 0
    for p in paths(v, visits=2):
        for k, i in enumerate(p.insts):
            if i.op == 'call' and i.callee == 'id_mgr_gc_between':
                lim = strip_cast(p.arg(i, 2))
                t = minimum_ok(v, p, k)
                if t is None:
                    continue
                n += 1
                ctx.ob('limit-is-minimum', 'wal_gc', t, 'the limit passed on is not the lowest of the given one and all slots', at=i)
    ctx.floor('limit-is-minimum', 1)


def minimum_ok(v, p, k):
    """on path p: every slot value read before instruction k is >= the limit used at k according to the branches taken"""
    seen = [x for x in p.insts[:k] if slot_lsn(v, x)]
    if not seen:
        return None
    call = p.insts[k]
    lim = strip_cast(p.arg(call, 2))
    # the limit lives in memory (its address was taken) or in a value
    cur = None
    addr = v.norm(lim[1]) if lim[0] == 'load' else None
    ok = True
    for x in seen:
        xt = v.term(['v', x.id])
        j = p.index(x)
        # comparison of this value with the running minimum
        good = False
        for f in p.facts:
            _, q, a, b = f
            if strip_cast(a) == xt or strip_cast(b) == xt:
                if strip_cast(b) == xt:
                    a, b = b, a
                    q = core.SWAP[q]
                # a is the slot value
                stored = [s for s in p.insts[j:k] if s.op == 'store' and strip_cast(v.term(s.args[0])) == xt]
                if q in ('ult', 'ule'):
                    # becomes the new minimum
                    if stored and (addr is None or any(v.norm(v.term(s.args[1])) == addr for s in stored)):
                        good = True
                    if strip_cast(lim) == xt:
                        good = True
                elif q in ('uge', 'ugt'):
                    # keeps the current one
                    if not stored and strip_cast(lim) != xt:
                        good = True
        ok = ok and good
    return ok


def walk_exits(v, field):
    """edges that leave the walk over a list"""
    r = []
    for bi in range(len(v.blocks)):
        for s, l in v.succ[bi]:
            for f in cond_facts(v, l):
                if f[1] == 'eq' and any(leaf_field(x) == field and x[0] == 'field' for x in f[2:]):
                    r.append((bi, s))
    return r


def only_files_below(ctx, P):
    """a file is taken out only if its successor starts at or below the limit, the newest file is never taken, and the number taken, copied and subtracted are the same"""
    P2 = core.load(['id_mgr_gc_between'], set(KEEP) - {'id_mgr_gc_between'}, UNKEEP, False)
    v = P2.view('id_mgr_gc_between')
    n = 0
    for p in paths(v, visits=3):
        if p.end() != 'ret':
            continue
        cp = p.calls('buf_write')
        cnt = [s for s in p.insts if s.op == 'store' and leaf_field(v.term(s.args[1])) == 'IdMgr.list_count']
        ret = const_of(p.arg(p.insts[-1], 0))
        if not cp and not cnt:
            ctx.ob('removed-count', 'id_mgr_gc_between', ret == 0, 'reports files it did not take', at=p.insts[-1])
            continue
        sz = const_of(p.arg(cp[0], 2)) if cp else None
        if sz is None or sz % 8:
            ctx.ob('removed-count', 'id_mgr_gc_between', False, 'the number of files taken is not determined', at=p.insts[-1])
            continue
        k = sz // 8
        n += 1
        ctx.ob('removed-count', 'id_mgr_gc_between', ret == k, 'reports another number of files than it took', at=p.insts[-1])
        new = lin(subst(v.term(cnt[0].args[0]), p.env)) if cnt else {}
        ctx.ob('removed-count', 'id_mgr_gc_between', new.get(None, 0) == -k and any(x is not None and leaf_field(x) == 'IdMgr.list_count' for x in new), 'the list shrinks by another number of files than were taken', at=cp[0])
        mv = [c for c in p.insts if c.op == 'call' and (c.callee or '').startswith(('llvm.memmove', 'memmove'))]
        src = p.arg(mv[0], 1) if mv else None
        ctx.ob('removed-count', 'id_mgr_gc_between', bool(mv) and list_index(v, src) == k and list_index(v, p.arg(mv[0], 0)) in (0,), 'the files kept are not the ones after those taken', at=cp[0])
        ctx.ob('removed-count', 'id_mgr_gc_between', list_index(v, p.arg(cp[0], 1)) == 0, 'the files taken are not the oldest ones', at=cp[0])
        # newest kept: k <= count - 1 ; successor at or below the limit
        keep = low = False
        for f in p.facts:
            e = le0(f)
            if e is None:
                continue
            m = {leaf_field(x) if x is not None and leaf_field(x) else ('arg' if x is not None and x[0] == 'arg' else x): c for x, c in e.items()}
            if m.get('IdMgr.list_count') == -1 and set(m) <= {'IdMgr.list_count', None} and m.get(None, 0) >= k + 1:
                keep = True
            at = [x for x, c in e.items() if x is not None and c == 1 and list_index(v, x) is not None]
            lo = [x for x, c in e.items() if x is not None and c == -1 and strip_cast(x)[:2] == ('arg', 2)]
            if at and lo and list_index(v, at[0]) == k and e.get(None, 0) >= 0:
                low = True
        ctx.ob('newest-kept', 'id_mgr_gc_between', keep, 'the newest file can be taken', at=cp[0])
        ctx.ob('successor-below-limit', 'id_mgr_gc_between', low, 'a file is taken although its successor starts above the limit', at=cp[0])
    ctx.floor('newest-kept', 1)


def list_index(v, t):
    """constant element index into IdMgr.list of an address or loaded value"""
    t = strip_cast(t)
    if t[0] == 'load' and t[1][0] == 'field' and leaf_field(t) == 'Buf.start':
        return 0
    if t[0] == 'load':
        t = t[1]
    off = 0
    while t[0] == 'index':
        k = const_of(t[2])
        if k is None:
            return None
        off += k * t[3]
        t = t[1]
    if t[0] == 'load' and leaf_field(t) == 'Buf.start' and off % 8 == 0:
        return off // 8
    return None


def removes_only_listed(ctx, P):
    """only files taken out of the list are deleted, by their own names"""
    v = P.view('wal_gc')
    un = v.calls('fs_unlink', 'vfs_unlink')
    gc = v.calls('id_mgr_gc_between')
    ctx.ob('removes-only-listed', 'wal_gc', bool(un), 'files are never removed')
    for u in un:
        ctx.ob('removes-only-listed', 'wal_gc', v.dominated(u, gc), 'a file is removed that was not taken out of the list', at=u)
        ok = any(x is not None and e.get(x) == -1 and strip_cast(x)[0] == 'call' and strip_cast(x)[1] == 'id_mgr_gc_between' and e.get(None, 0) >= 1
                 for e in bounds(v, u) for x in e)
        ctx.ob('removes-only-listed', 'wal_gc', ok, 'more files are removed than were taken out of the list', at=u)
    # nobody else removes files from the log
    k = 0
    for f in P.fn.values():
        if '/wal/' in f.file:
            for c in f.calls('fs_unlink', 'vfs_unlink'):
                k += 1
                ctx.ob('who-removes', f.name, f.name in ('wal_gc', 'wal_truncate') or only_called_by(P, f.name, ('wal_gc', 'wal_truncate')), 'log files are removed outside garbage collection and truncation', at=c)
    ctx.floor('who-removes', 1)
    for f in P.fn.values():
        for c in f.calls('id_mgr_gc_between', 'id_mgr_delete'):
            if leaf_field(f.term(c.args[0])) == 'Wal.list':
                ctx.ob('who-unlists', f.name, f.name == 'wal_gc' or only_called_by(P, f.name, ('wal_gc',)), 'log files are taken out of the list elsewhere', at=c)


def only_called_by(P, n, roots, d=0):
    cs = P.callers().get(n, [])
    return d < 5 and bool(cs) and all(c.fn.name in roots or only_called_by(P, c.fn.name, roots, d + 1) for c in cs)


def snapshot_first(ctx, P):
    """a snapshot registers a slot that holds everything back, counted and linked, before it lists files, with log and list locked throughout"""
    v = P.view('wal_snapshot')
    lk, ls = call_on(v, 'mutex_lock', 'Wal.lock'), call_on(v, 'spinlock_lock', 'IdMgr.lock')
    ul, us = call_on(v, 'mutex_unlock', 'Wal.lock'), call_on(v, 'spinlock_unlock', 'IdMgr.lock')
    reg = [c for c in v.calls('list_append', 'list_push') if leaf_field(v.term(c.args[0])) == 'Wal.slots']
    lst = v.calls('encode_basefile')
    ctx.ob('snapshot-registers', 'wal_snapshot', bool(reg), 'no slot is registered')
    ctx.ob('snapshot-lists', 'wal_snapshot', bool(lst), 'no files are listed')
    rd = [i for i in loads(v, 'IdMgr.list_count')]
    for c in lst + rd:
        ctx.ob('registered-before-listing', 'wal_snapshot', v.dominated(c, reg), 'files are listed before they are protected', at=c)
        for l, u, n in ((lk, ul, 'log'), (ls, us, 'list')):
            if n == 'list' and c in lst:
                continue
            ctx.ob('snapshot-locked', 'wal_snapshot', v.dominated(c, l) and not any(v.can_reach(x, [c], avoid=l) for x in u), 'files are listed without the %s lock' % n, at=c)
    zero = [i for i in v.insts() if i.op in ('store', 'atomicrmw', 'cmpxchg') and any(leaf_field(v.term(a)) == 'WalSlot.lsn' for a in i.args)]
    ctx.ob('snapshot-holds-all', 'wal_snapshot', any(const_of(v.term(i.args[0])) == 0 or const_of(v.term(i.args[1])) == 0 for i in zero), 'the slot does not hold everything back')
    for r in reg:
        ctx.ob('snapshot-holds-all', 'wal_snapshot', v.dominated(r, zero), 'the slot is registered before it holds everything back', at=r)
        for l, u in ((lk, ul),):
            ctx.ob('snapshot-locked', 'wal_snapshot', v.dominated(r, l) and not any(v.can_reach(x, [r], avoid=l) for x in u), 'registered without the log lock', at=r)
    for i in zero:
        ks = [const_of(v.term(a)) for a in i.args]
        ctx.ob('snapshot-holds-all', 'wal_snapshot', 0 in ks, 'the slot does not hold everything back', at=i)
    ad = [s for s in stores(v, 'WalSlot.added') if const_of(v.term(s.args[0])) not in (0, None)]
    cn = stores(v, 'Wal.slots_count')
    for xs, n in ((ad, 'marked'), (cn, 'counted')):
        m = missing(v, None, v.exits(), xs)
        ctx.ob('snapshot-registered', 'wal_snapshot', m is None, 'the slot is not %s' % n, at=m)
        for r in reg:
            m = v.can_reach(r, v.exits() + v.unwinds(), avoid=xs)
            ctx.ob('snapshot-registered', 'wal_snapshot', m is None or v.dominated(r, xs), 'an error leaves a linked slot that is not %s' % n, at=r)


def slots_consistent(ctx, P):
    """registering and unregistering a slot changes list, count and mark together, under the log lock, and unregistering an unregistered slot does nothing"""
    for n, op, d in (('wal_add', ('list_append', 'list_push'), 1), ('wal_del', ('list_unlink',), -1)):
        v = P.view(n)
        ch = v.calls(*op)
        cn, ad = stores(v, 'Wal.slots_count'), stores(v, 'WalSlot.added')
        lk, ul = call_on(v, 'mutex_lock', 'Wal.lock'), call_on(v, 'mutex_unlock', 'Wal.lock')
        ctx.ob('slot-linked', n, bool(ch), 'the slot list is not changed')
        for x in ch + cn + ad:
            ctx.ob('slot-locked', n, v.dominated(x, lk) and not any(v.can_reach(u, [x], avoid=lk) for u in ul), 'changed without the log lock', at=x)
        for p in paths(v):
            if p.end() != 'ret':
                continue
            a = len([1 for c in p.calls(*op)])
            b = [lin(subst(v.term(s.args[0]), p.env)).get(None, 0) for s in cn if s in p.insts]
            c = [const_of(v.term(s.args[0])) for s in ad if s in p.insts]
            ctx.ob('slot-consistent', n, (a, b, [bool(x) for x in c]) in ((1, [d], [d > 0]), (0, [], [])), 'list, count and mark disagree', at=p.insts[-1])
            if n == 'wal_del':
                t = p.truth(lambda t: leaf_field(t) == 'WalSlot.added')
                ctx.ob('slot-unregister', n, (a == 1) == (t is True), 'a registered slot is not removed, or one that is not registered is', at=p.insts[-1])
            else:
                ctx.ob('slot-register', n, a == 1, 'the slot is not registered', at=p.insts[-1])
    ctx.floor('slot-consistent', 3)


def streamer(ctx, P):
    """an LSN acknowledged to a slot never moves it past what was asked for"""
    v = P.view('wal_slot_set')
    w = [i for i in v.insts() if i.op in ('store', 'atomicrmw', 'cmpxchg')]
    for i in w:
        ctx.ob('slot-set', 'wal_slot_set', any(v.term(a)[:2] == ('arg', 1) for a in i.args), 'a slot is moved to another LSN than given', at=i)
    v = P.view('wal_slot_init')
    z = stores(v, 'WalSlot.lsn')
    ctx.ob('slot-init', 'wal_slot_init', any(const_of(v.term(s.args[0])) == 0 for s in z), 'a new slot does not hold everything back')


RULES = [minimum_of_slots, only_files_below, removes_only_listed, snapshot_first, slots_consistent, streamer]
