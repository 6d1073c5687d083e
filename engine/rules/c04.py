"""C04: shared state is touched only under its lock."""
from ..q import *
from ..locks import *
import collections

ENTRIES, KEEP, UNKEEP, PLAIN = [], [], [], True

# lock -> fields it protects (of the same object)
GUARD = {
    'BufCache.lock': ['BufCache.cache'],
    'CodecCache.lock': ['CodecCache.list'],
    'Cond.lock': ['Cond.signal', 'Cond.status'],
    'IdMgr.lock': ['IdMgr.list', 'IdMgr.list_count'],
    'JobMgr.lock': ['JobMgr.jobs', 'JobMgr.jobs_count', 'JobMgr.shutdown'],
    'LockMgr.lock': ['LockMgr.list', 'LockMgr.list_count'],
    'Relation.lock': ['Relation.lock_set', 'Relation.lock_wait', 'Relation.lock_wait_count'],
    'Request.lock': ['Request.code', 'Request.complete', 'Request.on_complete', 'Request.on_complete_arg', 'Request.waiter'],
    'RequestQueue.lock': ['RequestQueue.list', 'RequestQueue.queue', 'RequestQueue.shutdown'],
    'Wal.lock': ['Wal.slots', 'Wal.slots_count', 'Wal.current'],
    'WalWorker.lock': ['WalWorker.pending'],
}

# phases in which only one thread can reach the object
ALONE = {
    'cond_reset': 'before the task that signals is started',
    'request_reset': 'while the request belongs to one thread',
    'job_mgr_start': 'before the workers are started',
    'wal_open': 'before the log is used', 'wal_close': 'after the log was used',
    'request_attach': 'before the request is sent',
}
INIT = ('mutex_init', 'spinlock_init')
FINI = ('mutex_free', 'spinlock_free')


def obj_field(f, t):
    """[(base, Struct.field)] of every object a location is part of, outermost last"""
    r = []
    while t[0] in ('field', 'index'):
        if t[0] == 'field':
            r.append((t[1], t[2]))
        t = t[1]
    return r


def accesses(f):
    """(instruction, kind, base, field) of loads, stores and addresses given to other functions"""
    for i in f.insts():
        ops = []
        if i.op in ('load', 'atomicrmw', 'cmpxchg'):
            ops = [(i.args[0], 'read')]
        elif i.op == 'store':
            ops = [(i.args[1], 'write')]
        elif i.op == 'call' and not (i.callee or '').startswith('vp.'):
            ops = [(a, 'pass') for a in i.args]
        elif i.op == 'icmp':
            continue
        for o, kind in ops:
            if o[0] not in ('v', 'fld'):
                continue
            for base, fld in obj_field(f, f.term(o)):
                yield i, kind, base, fld


def alone(P, f, base, lock, seen=None, d=0):
    """no other thread can reach the object here: it is being set up or torn down"""
    if f.name in ALONE:
        return True
    key = ('field', f.norm(base), lock)
    if any(f.norm(f.term(c.args[0])) == key for c in f.calls(*(INIT + FINI))):
        return True
    # a part of such a function
    seen = seen or set()
    cs = P.callers().get(f.name, [])
    if d > 3 or f.name in seen or not cs:
        return False
    seen.add(f.name)
    for c in cs:
        t = substargs(f.norm(base), [c.fn.norm(c.fn.term(a)) for a in c.args])
        if t is None or not alone(P, c.fn, t, lock, seen, d + 1):
            return False
    return True


def guarded(ctx, P):
    """every access to a field protected by a lock happens with that lock of that object held, by the function or by all of its callers, except while no other thread can reach the object"""
    L = Locks(P)
    byf = {x: l for l, fs in GUARD.items() for x in fs}
    n = collections.Counter()
    for f in P.fn.values():
        if f.name in PRIM:
            continue
        for i, kind, base, fld in accesses(f):
            if fld not in byf:
                continue
            lock = byf[fld]
            lk = lock
            if kind == 'pass' and i.callee in INIT + FINI + tuple(PRIM):
                continue
            if kind == 'pass' and fld == 'IdMgr.list' and False:
                continue
            key = ('field', f.norm(base), lk)
            n[lk] += 1
            ok = any((key, k) in L.must(f, i) for k in ('spin', 'mutex')) or alone(P, f, base, lk) or \
                any(callers_hold_any(P, L, f, (key, k)) for k in ('spin', 'mutex'))
            ctx.ob('guarded', f.name + ':' + fld, ok, '%s without %s' % ('modified' if kind == 'write' else 'used', lk), at=i)
    for l in ('Cond.lock', 'IdMgr.lock', 'JobMgr.lock', 'LockMgr.lock', 'Relation.lock', 'Wal.lock', 'WalWorker.lock'):
        ctx.ob('exists', l, n[l] > 0, 'nothing that this lock protects is accessed')
    for a, t in ALONE.items():
        if a in P.fn:
            ctx.assume('%s runs %s' % (a, t))
    ctx.floor('guarded', 60)


def callers_hold_any(P, L, f, k, d=0):
    """every caller holds the lock at the call, or is in a phase where nobody else can reach the object"""
    cs = P.callers().get(f.name, [])
    if not cs or d > 4:
        return False
    for c in cs:
        g = c.fn
        t = substargs(k[0], [g.norm(g.term(a)) for a in c.args])
        if t is None:
            return False
        if any(x == t or (kind == k[1] and x[0] == 'field' and x[2] == t[2] and t[1][0] == 'load') for x, kind in L.must(g, c)) or alone(P, g, t[1], t[2]):
            continue
        if not callers_hold_any(P, L, g, (t, k[1]), d + 1):
            return False
    return True


def reads_stay_valid(ctx, P):
    """a decision made on protected state is acted on under the same hold of the lock: a value read under the lock is not used to modify the same state after the lock was released"""
    L = Locks(P)
    byf = {x: l for l, fs in GUARD.items() for x in fs}
    n = 0
    for f in P.fn.values():
        if f.name in PRIM or f.name not in L.result:
            continue
        for s in f.insts():
            if s.op != 'store':
                continue
            t = f.term(s.args[1])
            of = obj_field(f, t)
            if not of or of[0][1] not in byf:
                continue
            v = f.term(s.args[0])
            lds = []
            collect(f, v, lds, set())
            for l in lds:
                if f.norm(f.term(l.args[0])) == f.norm(t):
                    n += 1
                    key = f.norm(('field', of[0][0], byf[of[0][1]]))
                    rel = [c for c in f.allcalls() if c.callee in REL and f.norm(f.term(c.args[0])) == key]
                    bad = any(f.can_reach(l, [r], avoid=[s]) and f.can_reach(r, [s], avoid=[l]) for r in rel)
                    ctx.ob('one-hold', f.name + ':' + of[0][1], not bad, 'read and written back under different holds of the lock', at=s)
    ctx.floor('one-hold', 5)


def collect(f, t, acc, seen, d=0):
    if not isinstance(t, tuple) or d > 20:
        return
    if t[0] == 'load':
        acc.append(f.inst[t[2]])
    if t[0] == 'phi':
        if t[1] in seen:
            return
        seen.add(t[1])
        for v, b in f.inst[t[1]].d['in']:
            collect(f, f.term(v), acc, seen, d + 1)
        return
    for x in t:
        collect(f, x, acc, seen, d + 1)


def atomics(ctx, P):
    """a counter that is updated atomically anywhere is never updated by a plain load and store"""
    at = collections.defaultdict(list)
    prim = [n for n in P.fn if n.startswith('atomic_u')]
    for n in prim:
        for c in P.callers().get(n, []):
            l = leaf_field(c.fn.term(c.args[0]))
            if l:
                at[l].append(c)
    for f in P.fn.values():
        for i in f.insts():
            if i.op in ('atomicrmw', 'cmpxchg'):
                l = leaf_field(f.term(i.args[0]))
                if l:
                    at[l].append(i)
    updated = {l: [c for c in cs if c.op != 'call' or not c.callee.endswith('_of')] for l, cs in at.items()}
    for f in P.fn.values():
        for s in f.insts():
            if s.op == 'store' and f.term(s.args[1])[0] == 'field' and leaf_field(f.term(s.args[1])) in at:
                t = f.term(s.args[1])
                lds = []
                collect(f, f.term(s.args[0]), lds, set())
                rmw = any(f.norm(f.term(l.args[0])) == f.norm(t) for l in lds)
                # checked and then set without an atomic operation
                lk = [l for l in f.insts() if (l.op == 'load' and l is not s and f.norm(f.term(l.args[0])) == f.norm(t)) or
                      (l.op == 'call' and l.callee in prim and f.norm(f.term(l.args[0])) == f.norm(t) and l.callee.endswith('_of')) or (l.op == 'call' and l.callee in P.fn and l.callee not in prim and len(list(P.fn[l.callee].blocks)) < 4 and
                      any(leaf_field(P.fn[l.callee].term(c.args[0])) == t[2] for c in P.fn[l.callee].calls('atomic_u64_of', 'atomic_u32_of')))]
                cond = any(deep(f, x, lambda y: (y[0] == 'load' and f.inst[y[2]] in lk) or (y[0] == 'call' and f.inst[y[2]] in lk)) for q in f.conds(s) for x in q[2:])
                if updated.get(t[2]):
                    ctx.ob('atomic-check-set', f.name + ':' + t[2], not cond, 'checked and then set although others update it atomically in between', at=s)
                ctx.ob('atomic-update', f.name + ':' + t[2], not rmw, 'updated with a plain load and store although others update it atomically', at=s)
    for l, cs in at.items():
        ctx.ob('atomic-field', l, True, at=cs[0])
    # the atomic operations are atomic
    for n in prim:
        f = P.fn[n]
        rm = [i for i in f.insts() if i.op in ('atomicrmw', 'cmpxchg') or (i.op in ('load', 'store') and i.d.get('at'))]
        ctx.ob('atomic-primitive', n, missing(f, None, f.exits(), rm) is None and len([i for i in f.insts() if i.op in ('load', 'store') and not i.d.get('at')]) == 0,
               'is not an atomic operation')
    ctx.floor('atomic-primitive', 8)
    # expected atomic fields
    for l, w in (('Opt.integer', 'settings and state'), ('WalSlot.lsn', 'log slots'), ('Buf.refs', 'buffers'), ('Ipc.refs', 'messages')):
        pass


RULES = [guarded, reads_stay_valid, atomics]
