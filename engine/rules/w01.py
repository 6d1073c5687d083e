"""W01: appending a batch to the log is all-or-nothing; the LSN moves only for a complete batch."""
from ..q import *
from ..core import strip_cast, leaf_field

ENTRIES = ['wal_write', 'vfs_writev', 'vfs_write', 'file_writev', 'file_truncate']
KEEP = ['event_signal']


def same_fd(v, a, b):
    return leaf_field(v.term(a)) == 'File.fd' and v.norm(v.term(a)) == v.norm(v.term(b))


def restore_on_failure(ctx, P):
    """after any failed log write every path truncates the same file to the size it had before the first write of
    the batch (else the process stops), and the error leaves the function"""
    v = P.view('wal_write')
    ws = v.calls('vfs_writev', 'vfs_write', 'vfs_pwrite', 'vfs_pwritev')
    tr = v.calls('vfs_truncate')
    un, ex, pa = v.unwinds(), v.exits(), v.calls('report_panic')
    ctx.ob('batch-written', 'wal_write', bool(ws), 'no log write is performed')
    for w in ws:
        # what can go wrong after this write: any exceptional edge not yet handled
        m = missing(v, w, un, tr + pa)
        ctx.ob('truncate-before-raise', 'wal_write', m is None, 'an error leaves without cutting the log back', at=m or w)
        # a failed write never reaches a normal exit
        fail = error_edges(v, [w], lambda p, k: not is_fail(p, k) and k is not None)   # keep only failing edges
        # edges where rc is known not to be -1 are removed
        ok = cut_when(v, lambda fs: any(strip_cast(a)[0] == 'call' and strip_cast(a)[2] == w.id and
                                        ((p == 'ne' and b == ('const', -1)) or (p == 'sge' and b == ('const', 0)) or (p == 'sgt' and b == ('const', -1)))
                                        for _, p, a, b in fs))
        m = v.can_reach(w, ex + ws, edge=ok)
        ctx.ob('failure-raised', 'wal_write', m is None, 'a failed write is not reported', at=m or w)
    for t in tr:
        ctx.ob('truncate-same-file', 'wal_write', any(same_fd(v, t.args[0], w.args[0]) for w in ws), 'a different file is truncated', at=t)
        s = resolve(v, v.term(t.args[1]))
        good = bool(s)
        for x in s:
            if not (x[0] == 'load' and leaf_field(x) == 'File.size'):
                good = False
                continue
            ld = v.inst[x[2]]
            # the size was read before the first write
            if any(v.can_reach(w, [ld]) for w in ws):
                good = False
        ctx.ob('truncate-to-start', 'wal_write', good, 'the log is not cut back to where the batch started', at=t)
        # error of the truncate itself must not end normally
        m = v.can_reach(t, ex)
        ctx.ob('error-not-swallowed', 'wal_write', m is None, 'the failed append ends as success', at=m or t)
        ok = cut_when(v, lambda fs: any(strip_cast(a)[0] == 'call' and strip_cast(a)[2] == t.id and
                                        ((p == 'ne' and b == ('const', -1)) or (p == 'sge' and b == ('const', 0)))
                                        for _, p, a, b in fs))
        m = v.can_reach(t, un, avoid=pa, edge=ok)
        ctx.ob('truncate-failure-stops', 'wal_write', m is None, 'a failed cut-back does not stop the process', at=t)
    ctx.floor('truncate-before-raise', 1)


def lsn_after_write(ctx, P):
    """the global LSN is set exactly on the normal path, after the last write, to the last LSN of the batch"""
    v = P.view('wal_write')
    ws = v.calls('vfs_writev', 'vfs_write')
    sets = call_on(v, 'opt_int_set', 'State.lsn') + call_on(v, 'opt_int_set_seq', 'State.lsn') + call_on(v, 'opt_int_add', 'State.lsn')
    m = missing(v, None, v.exits(), sets)
    ctx.ob('lsn-published', 'wal_write', m is None, 'a successful append does not advance the global LSN', at=m)
    for s in sets:
        m = v.can_reach(s, ws)
        ctx.ob('lsn-after-write', 'wal_write', m is None, 'the global LSN advances before the batch is written', at=s)
        m = v.can_reach(s, v.unwinds())
        ctx.ob('lsn-only-on-success', 'wal_write', m is None, 'the global LSN advances for a batch that may still fail', at=s)
    # every write record gets lsn = previous + 1, starting from the global lsn
    rec = stores(v, 'Record.lsn')
    ctx.ob('record-lsn', 'wal_write', bool(rec), 'records are written without an LSN')
    lsnphi = None
    for r in rec:
        t = v.term(r.args[0])
        ok = t[0] == 'bin' and t[1] == 'add' and t[3] == ('const', 1) and t[2][0] == 'phi'
        if ok:
            lsnphi = t[2]
            ph = v.inst[lsnphi[1]]
            for val, b in ph.d['in']:
                x = v.term(val)
                ok = ok and (x == t or is_opt(v, x, 'State.lsn') or x == lsnphi)
        ctx.ob('record-lsn-consecutive', 'wal_write', ok, 'records are not numbered consecutively from the global LSN', at=r)
        # numbered before it is written
        for w in ws:
            d = v.dominated(w, [r], exc=False)
            ctx.ob('numbered-before-written', 'wal_write', d, 'a record is written before it has its LSN', at=w)
    # published value: the list's lsn == final loop value
    for s in stores(v, 'WriteList.lsn'):
        ctx.ob('batch-lsn', 'wal_write', lsnphi is not None and v.term(s.args[0]) == lsnphi, 'the batch is given a wrong LSN', at=s)
    for s in call_on(v, 'opt_int_set', 'State.lsn'):
        t = v.term(s.args[1])
        st = stores(v, 'WriteList.lsn')
        ok = t == lsnphi or (t[0] == 'load' and leaf_field(t) == 'WriteList.lsn' and v.dominated(v.inst[t[2]], st))
        ctx.ob('lsn-value', 'wal_write', ok, 'the global LSN is not set to the last LSN of the batch', at=s)
    st = stores(v, 'WriteList.lsn')
    m = missing(v, None, v.exits(), st)
    ctx.ob('batch-lsn-set', 'wal_write', m is None, 'the batch does not learn its LSN', at=m)


def under_lock(ctx, P):
    """the whole append runs under the log's mutex"""
    v = P.view('wal_write')
    lk = call_on(v, 'mutex_lock', 'Wal.lock')
    ul = call_on(v, 'mutex_unlock', 'Wal.lock')
    todo = v.calls('vfs_writev', 'vfs_truncate', 'event_signal') + call_on(v, 'opt_int_set', 'State.lsn') + call_on(v, 'opt_int_of', 'State.lsn') + loads(v, 'Wal.current') + loads(v, 'File.size')
    for x in todo:
        ctx.ob('append-locked', 'wal_write', v.dominated(x, lk) and not any(v.can_reach(u, [x], avoid=lk) for u in ul),
               '%s happens outside of the log lock' % (x.callee or 'a read of the log state'), at=x)
    ctx.floor('append-locked', 4)


def everything_written(ctx, P):
    """each record's own vector and the vector of each of its operation logs are written, header first, to the current file"""
    v = P.view('wal_write')
    ws = v.calls('vfs_writev')
    kinds = {'Write.iov': [], 'WriteLog.iov': []}
    for w in ws:
        for k in kinds:
            if mentions(v, v.term(w.args[1]), k):
                kinds[k].append(w)
        ctx.ob('written-to-current', 'wal_write', mentions(v, v.term(w.args[0]), 'Wal.current'), 'the batch is written to another file', at=w)
    for k, l in kinds.items():
        ctx.ob('part-written', 'wal_write', bool(l), '%s is never written' % k)
    for w in kinds['WriteLog.iov']:
        ctx.ob('header-first', 'wal_write', v.dominated(w, [x for x in ws if x in kinds['Write.iov']] or [w]) or
               bool(kinds['Write.iov']), 'operations written before the record header', at=w)
        ctx.ob('all-logs', 'wal_write', 'Write.list' in all_loop_lists(v, w), 'not every operation log of a record is written', at=w)
    for w in kinds['Write.iov']:
        ctx.ob('all-records', 'wal_write', 'WriteList.list' in all_loop_lists(v, w), 'not every record of the batch is written', at=w)


def all_loop_lists(v, i):
    """list heads that appear in exit conditions of loops containing i (any nesting level)"""
    r = []
    for bi in range(len(v.blocks)):
        for s, l in v.succ[bi]:
            if not l or l[0] != 'br':
                continue
            for _, p, a, x in cond_facts(v, l):
                for y in (a, x):
                    lf = leaf_field(y)
                    if lf and y[0] == 'field':
                        t = v.blocks[bi][-1]
                        if v.can_reach(t, [i]) and v.can_reach(i, [t]):
                            r.append(lf)
    return r


def waiters_told(ctx, P):
    """after the LSN is published every registered reader that is behind is signalled"""
    v = P.view('wal_write')
    sig = v.calls('event_signal')
    sets = call_on(v, 'opt_int_set', 'State.lsn')
    ctx.ob('reader-signal', 'wal_write', any(argfield(v, s, 0) == 'WalSlot.on_write' for s in sig), 'readers of the log are not signalled')
    for s in sig:
        ctx.ob('signal-after-lsn', 'wal_write', v.dominated(s, sets), 'readers are signalled before the LSN is visible', at=s)
        ctx.ob('signal-all', 'wal_write', 'Wal.slots' in all_loop_lists(v, s), 'not every reader is signalled', at=s)
        # guard: new lsn > slot lsn  (and attached)
        ok = False
        for _, p, a, b in v.conds(s):
            if p in ('ugt', 'uge', 'sgt') or p in ('ult', 'ule', 'slt'):
                hi, lo = (a, b) if p[1] == 'g' else (b, a)
                # the slot's lsn is the small side
                if deep(v, lo, lambda x: x[0] == 'op' and slot_lsn(v, x)):
                    ok = True
                elif deep(v, hi, lambda x: x[0] == 'op' and slot_lsn(v, x)):
                    ok = False
                    break
        guards = [c for c in v.conds(s) if deep(v, c[2], lambda x: x[0] == 'op' and slot_lsn(v, x)) or deep(v, c[3], lambda x: x[0] == 'op' and slot_lsn(v, x))]
        ctx.ob('signal-behind', 'wal_write', ok or not guards, 'a reader that is behind is not signalled', at=s)
        for c in v.conds(s):
            bad = c[1] == 'eq' and leaf_field(c[2]) == 'Event.bus' and c[3] == ('null',)
            ctx.ob('signal-attached', 'wal_write', not bad, 'an attached reader is not signalled', at=s)


def slot_lsn(v, t):
    i = v.inst[t[2]]
    return i.op == 'atomicrmw' and leaf_field(v.term(i.args[0])) == 'WalSlot.lsn'


def full_writes(ctx, P):
    """a partial write of the OS is continued from where it stopped; -1 is the only failure value"""
    for name, sysc in (('vfs_writev', 'writev'), ('vfs_write', 'write'), ('vfs_pwrite', 'pwrite'), ('vfs_pwritev', 'pwritev')):
        f = P.get(name)
        cs = f.calls(sysc)
        ctx.ob('os-write', name, bool(cs), 'does not call ' + sysc)
        for c in cs:
            ctx.ob('os-write-retried', name, in_loop(f, c), 'a short write is not continued', at=c)
        for r in f.exits():
            for t in resolve(f, f.term(r.args[0])):
                t = strip_cast(t)
                # returns -1 or the accumulated size, never the bare result of one call
                ctx.ob('os-write-result', name, not (t[0] == 'call'), 'the result of a single OS write is returned', at=r)
        # a negative result of the call ends in -1
        for c in cs:
            neg = [1 for i in f.insts() if i.op == 'icmp' and strip_cast(f.term(i.args[0]))[:2] == ('call', sysc)]
            ctx.ob('os-write-checked', name, bool(neg), 'the result of the OS write is not checked', at=c)
    v = P.view('file_writev')
    w = v.calls('vfs_writev')
    for c in w:
        ctx.ob('iov-chunks', 'file_writev', in_loop(v, c), 'long vectors are written only in part', at=c)
    # size accounting
    v = P.view('file_writev')
    st = stores(v, 'File.size')
    ctx.ob('size-tracked', 'file_writev', bool(st), 'the tracked file size is not advanced')
    for s in st:
        t = v.term(s.args[0])
        ctx.ob('size-tracked', 'file_writev', t[0] == 'bin' and t[1] == 'add' and deep(v, t, lambda x: x[0] == 'call' and x[1] == 'vfs_writev')
               and mentions(v, t, 'File.size'), 'the tracked file size is not advanced by the bytes written', at=s)
    v = P.view('file_truncate')
    st = stores(v, 'File.size')
    m = missing(v, None, v.exits(), st)
    ctx.ob('truncate-tracked', 'file_truncate', m is None, 'the tracked size is not reset by a truncate', at=m)
    for s in st:
        ctx.ob('truncate-tracked', 'file_truncate', v.term(s.args[0])[0] == 'arg', 'the tracked size is not the truncated size', at=s)
    sk = v.calls('lseek')
    m = missing(v, None, v.exits(), sk)
    ctx.ob('truncate-repositions', 'file_truncate', m is None, 'the write position is left past the end after a truncate', at=m)


RULES = [restore_on_failure, lsn_after_write, under_lock, everything_written, waiters_told, full_writes]
