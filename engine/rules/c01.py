"""C01: every lock taken is released on every path."""
from ..q import *
from ..locks import *

ENTRIES, KEEP, UNKEEP, PLAIN = [], [], [], True

TEXT = {'twice': 'the lock is taken although it may be held', 'unheld': 'the lock is released although it may not be held', 'kept': 'ends with the lock held'}


def balanced(ctx, P):
    """in every function each acquired spinlock or mutex is released exactly once on every path that returns or raises; functions that only take or only release a lock are accounted to their callers"""
    L = Locks(P)
    n = 0
    for name, (allk, exits, throws, held, errs) in L.result.items():
        f = P.fn[name]
        bad = L.errors[name]
        for k in allk:
            ops = [i for i in f.insts() if i.op == 'call' and any((a, b) == k for a, b, d in L.effects(f, i))]
            if not ops:
                continue
            n += 1
            mine = [b for b in bad if b[1] == k]
            cls = lock_class(k[0]) or f.show(k[0])
            # an acquire (or release) on a path the pairing cannot be decided for counts as broken
            if not mine:
                ctx.ob('balanced', name + ':' + cls, True, at=ops[0])
            for kind, _, i in mine:
                ctx.ob('balanced', name + ':' + cls, False, TEXT[kind] + (' when an error passes through' if i.callee == 'vp.unwind' else ''), at=i)
        for k, i in L.dips(f):
            if k[0] and not any(b[1] == k for b in bad):
                ctx.ob('balanced', name + ':' + (lock_class(k[0]) or f.show(k[0])), callers_hold(P, L, f, k), 'the lock is released without being held', at=i)
    ctx.floor('balanced', 30)
    w = sorted(n for n, v in L.net.items() if v)
    ctx.note('functions accounted to their callers: ' + (', '.join(w) or 'none'))


def not_retaken(ctx, P):
    """no function is called with a lock held that it takes itself"""
    L = Locks(P)
    acq = L.acquires()
    n = 0
    for name in L.result:
        f = P.fn[name]
        for i in f.allcalls():
            held = L.may(f, i)
            if not held or i.callee in PRIM:
                continue
            args = [f.norm(f.term(a)) for a in i.args]
            n += 1
            for t in i.targets():
                if L.net.get(t):
                    continue
                for k, kind in acq.get(t, ()):
                    x = substargs(k, args)
                    if x is not None and (x, kind) in held:
                        ctx.ob('not-retaken', name + ':' + (lock_class(x) or '?'), False, 'calls %s, which takes the lock that is already held' % t, at=i)
            ctx.ob('not-retaken', name, True, at=i)
    ctx.floor('not-retaken', 20)


def released_kind(ctx, P):
    """a lock is released with the operation of its own kind, and both ends of a pair name the same lock"""
    kinds = {}
    for f in P.fn.values():
        for i in f.allcalls():
            if i.callee in ACQ or i.callee in REL:
                c = lock_class(f.term(i.args[0]))
                if c:
                    kinds.setdefault(c, {}).setdefault(ACQ.get(i.callee) or REL.get(i.callee), []).append(i)
    for c, k in kinds.items():
        ctx.ob('one-kind', c, len(k) == 1, 'the lock is used both as a spinlock and as a mutex', at=list(k.values())[0][0])


def waits_held(ctx, P):
    """waiting on a condition happens with exactly the passed mutex held"""
    L = Locks(P)
    n = 0
    for f in P.fn.values():
        if f.name in PRIM:
            continue
        for c in f.calls('cond_var_wait', 'cond_var_timedwait'):
            k = (f.norm(f.term(c.args[1])), 'mutex')
            m = L.must(f, c)
            n += 1
            if f.name not in L.result and not callers_hold(P, L, f, k):
                ctx.ob('wait-held', f.name, False, 'waits on a condition without holding its mutex', at=c)
                continue
            ctx.ob('wait-held', f.name, k in m or callers_hold(P, L, f, k), 'waits on a condition without holding its mutex', at=c)
            ctx.ob('wait-only', f.name, not (set(L.may(f, c)) - {k}), 'sleeps while holding another lock', at=c)
    ctx.floor('wait-held', 3)


def callers_hold(P, L, f, k, d=0):
    cs = P.callers().get(f.name, [])
    if not cs or d > 3:
        return False
    for c in cs:
        g = c.fn
        t = substargs(k[0], [g.norm(g.term(a)) for a in c.args])
        if t is None:
            return False
        if (t, k[1]) not in L.must(g, c) and not callers_hold(P, L, g, (t, k[1]), d + 1):
            return False
    return True


def primitives(ctx, P):
    """the lock primitives themselves acquire and release: the spinlock by an atomic exchange that succeeded, the mutex by the system's mutex"""
    f = P.get('spinlock_lock')
    rm = [i for i in f.insts() if i.op in ('atomicrmw', 'cmpxchg')]
    ctx.ob('primitive', 'spinlock_lock', bool(rm), 'the spinlock is not taken atomically')
    for e in f.exits():
        ctx.ob('primitive', 'spinlock_lock', f.dominated(e, rm), 'returns without having taken the spinlock', at=e)
        # the last exchange must have found it free
        def free_(fs):
            for _, p, a, b in fs:
                a = strip_cast(a)
                if (a[0] == 'op' and a[1] in ('atomicrmw', 'cmpxchg', 'extractvalue')) or a[0] == 'phi':
                    return True
            return False
        m = all(f.can_reach(x, [e], edge=cut_when(f, free_)) is None for x in rm)
        ctx.ob('primitive', 'spinlock_lock', m, 'returns without checking that the spinlock was free', at=e)
    f = P.get('spinlock_unlock')
    z = [i for i in f.insts() if (i.op == 'store' and const_of(f.term(i.args[0])) == 0) or i.op in ('atomicrmw', 'cmpxchg')]
    ctx.ob('primitive', 'spinlock_unlock', missing(f, None, f.exits(), z) is None, 'the spinlock is not released')
    for i in z:
        if i.op == 'store':
            ctx.ob('primitive', 'spinlock_unlock', i.d.get('at') is not False, 'released without ordering', at=i)
    for n, s in (('mutex_lock', 'pthread_mutex_lock'), ('mutex_unlock', 'pthread_mutex_unlock')):
        f = P.get(n)
        ctx.ob('primitive', n, missing(f, None, f.exits(), f.calls(s)) is None, 'does not operate the mutex')
    for n, s in (('cond_var_wait', 'pthread_cond_wait'), ('cond_var_signal', 'pthread_cond_signal'), ('cond_var_broadcast', 'pthread_cond_broadcast')):
        if n in P.fn:
            f = P.get(n)
            ctx.ob('primitive', n, missing(f, None, f.exits(), f.calls(s)) is None, 'does not operate the condition')


RULES = [balanced, not_retaken, released_kind, waits_held, primitives]
