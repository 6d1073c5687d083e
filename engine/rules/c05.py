"""C05: incompatible table locks are never held together."""
from ..q import *
import itertools

ENTRIES = ['lock_resolve', 'access_add']
KEEP, UNKEEP, PLAIN = ['lock_resolve'], [], True

# which pairs exclude each other, by meaning
KINDS = ['LOCK_SHARED', 'LOCK_SHARED_RW', 'LOCK_EXCLUSIVE_RO', 'LOCK_EXCLUSIVE', 'LOCK_CALL']
CONFLICT = {frozenset(['LOCK_EXCLUSIVE', k]) for k in KINDS} | {frozenset(['LOCK_EXCLUSIVE_RO', 'LOCK_SHARED_RW'])}


def kinds(P):
    e = P.enum('LOCK_EXCLUSIVE')
    for k in KINDS:
        if k not in e:
            raise Broken('lock kind %s is gone' % k)
    return e


def strip_all(t):
    return strip_cast(t)


def ev(v, t, kind, held):
    """value of an integer term in the world {requested kind, set of held kinds}; None if unknown"""
    t = fold(t)
    if t[0] == 'const':
        return t[1]
    if t[0] == 'cast':
        x = ev(v, t[4], kind, held)
        if x is None:
            return None
        return x & 1 if t[3] == 'i1' else x
    if t[0] == 'arg':
        return kind if t[1] == 1 else None
    if t[0] == 'load':
        a = t[1]
        if a[0] == 'index' and leaf_field(a) == 'Relation.lock_set':
            n = ev(v, a[2], kind, held)
            return None if n is None else (1 if n in held else 0)
        if a[0] == 'field' and a[2] == 'Relation.lock_set':
            return 1 if 0 in held else 0
        return None
    if t[0] in ('bin', 'cmp'):
        a, b = ev(v, t[2], kind, held), ev(v, t[3], kind, held)
        if a is None or b is None:
            return None
        r = fold((t[0], t[1], ('const', a), ('const', b)))
        return r[1] if r[0] == 'const' else None
    if t[0] == 'select':
        c = ev(v, t[1], kind, held)
        return None if c is None else ev(v, t[2] if c else t[3], kind, held)
    return None


def decide(v, ps, kind, held):
    """the answers lock_resolve can give (True/False/'stop'/None) for a request in this world"""
    r = set()
    for p in ps:
        ok = True
        for _, pr, a, b in p.facts:
            x = ev(v, ('cmp', pr, a, b), kind, held)
            if x is None and not (fold(('cmp', pr, a, b))[0] == 'const'):
                # a branch on something else: either way
                if deep(v, a, lambda y: y[0] == 'arg' and y[1] == 1) or 'Relation.lock_set' in fields_in(a):
                    return {None}
                continue
            if x == 0:
                ok = False
                break
        # switch defaults carry no fact: exclude the listed values
        if ok:
            for b0, b1 in zip(p.blocks, p.blocks[1:]):
                t = v.blocks[b0][-1]
                if t.op == 'switch' and t.d['d'] == b1 and b1 not in [b for _, b in t.d['cs']]:
                    x = ev(v, subst(v.term(t.d['c']), p.env), kind, held)
                    if x is not None and x in [val for val, _ in t.d['cs']]:
                        ok = False
        if not ok:
            continue
        if p.end() != 'ret':
            r.add('stop')
            continue
        ret = p.insts[-1]
        x = ev(v, subst(v.term(ret.args[0]), p.env), kind, held)
        r.add(None if x is None else bool(x & 1))
    return r


def matrix(ctx, P):
    """for every requested kind and every combination of held kinds, lock_resolve agrees to grant exactly when none of the held kinds conflicts with it: exclusive conflicts with everything, exclusive read-only with shared writers, and nothing else conflicts; the resulting relation is symmetric"""
    e = kinds(P)
    v = P.view('lock_resolve')
    ps = paths(v)
    n = 0
    for k in KINDS:
        for r in range(len(KINDS) + 1):
            for h in itertools.combinations(KINDS, r):
                # only combinations that can be held together
                if any(frozenset([a, b]) in CONFLICT for a, b in itertools.combinations(h, 2)):
                    continue
                want = not any(frozenset([k, x]) in CONFLICT for x in h)
                got = decide(v, ps, e[k], {e[x] for x in h})
                n += 1
                ctx.ob('conflicts', k, got == {want}, '%s while %s is held' % ('refused' if want else 'not refused', ', '.join(h) or 'nothing'), at=v.entry())
    ctx.floor('conflicts', 50)
    # the set has room for every kind and starts empty
    off, size = offset_of(P, 'Relation', 'lock_set')
    ctx.ob('room', 'Relation.lock_set', size >= 4 * (max(e[k] for k in KINDS) + 1), 'no room for every lock kind')


def merge(ctx, P):
    """when one statement requests two locks on the same relation, the lock it takes conflicts with everything either request conflicts with"""
    e = kinds(P)
    inv = {e[k]: k for k in KINDS}
    v = P.view('access_add')
    order = None
    conf = {k: {x for x in KINDS if frozenset([k, x]) in CONFLICT} for k in KINDS}
    ps = paths(v, visits=2)
    # a function is only ever requested with its call lock, a table never is
    tables = [k for k in KINDS if k != 'LOCK_CALL']
    ctx.assume('LOCK_CALL is requested only on functions, and functions are requested with no other lock in an access list')
    for a, b in itertools.permutations(tables, 2):
        res = set()
        for p in ps:
            # the merge step: the path that found the relation
            st = [i for i in p.insts if i.op == 'store' and leaf_field(v.term(i.args[1])) == 'AccessRecord.lock']
            if not any(pr == 'eq' and 'AccessRecord.rel' in fields_in(x) + fields_in(y) for _, pr, x, y in p.facts):
                continue
            ok = True
            for _, pr, x, y in p.facts:
                r = ev2(v, ('cmp', pr, x, y), e[b], e[a])
                if r == 0:
                    ok = False
            if not ok:
                continue
            if not st:
                res.add(a)
                continue
            val = ev2(v, subst(v.term(st[-1].args[0]), p.env), e[b], e[a])
            res.add(inv.get(val))
        good = bool(res) and all(r is not None and conf[a] | conf[b] <= conf[r] for r in res)
        ctx.ob('merge', '+'.join(sorted([a, b])), good, 'requested together becomes a lock that does not exclude what both exclude', at=v.entry())
    ctx.floor('merge', 12)


def ev2(v, t, new, old):
    """value in the world {recorded lock, requested lock}"""
    t = fold(t)
    if t[0] == 'const':
        return t[1]
    if t[0] == 'cast':
        return ev2(v, t[4], new, old)
    if t[0] == 'arg':
        return new if t[1] == 2 else None
    if t[0] == 'load' and leaf_field(t) == 'AccessRecord.lock':
        return old
    if t[0] in ('bin', 'cmp'):
        a, b = ev2(v, t[2], new, old), ev2(v, t[3], new, old)
        if a is None or b is None:
            return None
        r = fold((t[0], t[1], ('const', a), ('const', b)))
        return r[1] if r[0] == 'const' else None
    if t[0] == 'select':
        c = ev2(v, t[1], new, old)
        return None if c is None else ev2(v, t[2] if c else t[3], new, old)
    return None


def grants(ctx, P):
    """a lock is counted as held only after lock_resolve agreed for that very relation and kind"""
    n = 0
    for f in P.fn.values():
        for s in f.insts():
            if s.op != 'store' or 'Relation.lock_set' not in fields_in(f.term(s.args[1])):
                continue
            t = f.term(s.args[1])
            v = f.term(s.args[0])
            d = delta(f, v, t)
            if d is None or d <= 0:
                continue
            n += 1
            rel, kind = grant_of(f, t)
            def agreed(fs):
                for _, p, a, b in fs:
                    for x in resolve(f, a):
                        x = strip_cast(x)
                        if p == 'ne' and b == ('const', 0) and x[0] == 'call' and x[1] == 'lock_resolve':
                            c = f.inst[x[2]]
                            if same_rel(f, f.norm(f.term(c.args[0])), rel) and f.norm(strip_cast(f.term(c.args[1]))) == kind:
                                return True
                return False
            rs = f.calls('lock_resolve')
            ok = agreed(f.conds(s)) or via_bool(f, s, agreed)
            ctx.ob('grant', f.name, ok, 'a lock is granted without asking whether it conflicts', at=s)
            # not changed in between
            if rs:
                others = [x for x in f.insts() if x.op == 'store' and 'Relation.lock_set' in fields_in(f.term(x.args[1])) and x is not s]
                ctx.ob('grant-fresh', f.name, not any(f.can_reach(r, [o]) and f.can_reach(o, [s], avoid=rs) and f.can_reach(r, [o], avoid=[s]) for r in rs for o in others),
                       'the decision is used after the set of locks changed', at=s)
    ctx.floor('grant', 2)


def same_rel(f, a, b):
    """the same relation; a waiter taken from a relation's queue belongs to that relation"""
    if a == b:
        return True
    if a[0] == 'load' and a[1][0] == 'field' and a[1][2] == 'Lock.rel':
        w = []
        deep(f, a[1][1], lambda y: w.append(y) if y[0] == 'call' else None)
        for y in w:
            if isinstance(y[2], tuple) and y[2] and y[2][0] == ('field', b, 'Relation.lock_wait'):
                return True
    return False


def delta(f, v, t):
    v = strip_cast(v)
    if v[0] == 'bin' and v[1] in ('add', 'sub') and v[3][0] == 'const' and v[2][0] == 'load' and f.norm(v[2][1]) == f.norm(t):
        return v[3][1] if v[1] == 'add' else -v[3][1]
    return None


def grant_of(f, t):
    """(relation, kind) of a slot of the lock set"""
    k = ('const', 0)
    while t[0] == 'index':
        k, t = t[2], t[1]
    if t[0] == 'field':
        return f.norm(t[1]), f.norm(strip_cast(k))
    return None, None


def via_bool(f, s, agreed):
    """the branch tests a variable that is true only where lock_resolve agreed"""
    for _, p, a, b in f.conds(s):
        a = strip_cast(a)
        if a[0] != 'phi' or p != 'ne' or b != ('const', 0):
            continue
        ok = True
        for val, pb in f.inst[a[1]].d['in']:
            t = strip_cast(f.term(val))
            if t == ('const', 0):
                continue
            if not agreed([('cmp', 'ne', t, ('const', 0))]) and not agreed(f.conds(f.blocks[pb][-1])):
                ok = False
        if ok:
            return True
    return False


RULES = [matrix, merge, grants]
