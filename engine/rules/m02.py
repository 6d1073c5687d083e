"""M02: shared objects live as long as they are referenced."""
from ..q import *
from ..core import load as core_load, Broken
from ..flow import Flow, key, add, num, atom, const, one, unkey
from .s01 import noexc
from .partops import handlers_of
from .w01 import all_loop_lists
from .i01 import same, fld, says, zero, St, wrapped

ENTRIES, KEEP, PLAIN = [], [], True

# what is counted, where a reference to it is kept, what ends the life of the keeper
COUNTED = (
    ('Storage.refs', 'Volume.storage', 'volume_free', 'volume_mgr_free'),
    ('Column.refs', 'Key.column', 'key_free', None),
)


def written(f, i):
    """the field a plain store or atomic operation changes"""
    if i.op == 'store':
        return leaf_field(f.term(i.args[1]))
    if i.op in ('atomicrmw', 'cmpxchg'):
        return leaf_field(f.term(i.args[0]))
    return None


def touching(P, *fields):
    """function -> the instructions that change one of the fields"""
    r = {}
    for n, f in P.fn.items():
        xs = [i for i in f.insts() if written(f, i) in fields]
        if xs:
            r[n] = xs
    return r


def helpers(P, count, hold):
    """functions that only change the count of the object they are given"""
    r = set()
    for n, xs in touching(P, count, hold).items():
        f = P.fn[n]
        ok = True
        for i in xs:
            t = f.term(i.args[1] if i.op == 'store' else i.args[0])
            if leaf_field(t) != count or not (strip_cast(t[1])[0] == 'arg' or at_arg(f, t[1])):
                ok = False
        if ok:
            r.add(n)
    return r


def at_arg(f, t):
    """the value of a variable that only ever holds a parameter"""
    t = strip_cast(f.norm(t))
    return t[0] == 'arg'


def units(P, count, hold):
    """the functions that decide when an object is referenced: those that change the count or the keeper, or call one that changes a count for them"""
    hs = helpers(P, count, hold)
    r = set(touching(P, count, hold)) - hs
    for n, f in P.fn.items():
        if n not in hs and f.calls(*hs):
            r.add(n)
    return hs, r


class Steps:
    """what a path does to counts and keepers, in order: (kind, n, object, place)"""
    def __init__(self, P, v, p, fl, count, hold, ends):
        self.v, self.p, self.fl = v, p, fl
        self.up, self.down, self.set, self.clear, self.odd, self.end = [], [], [], [], [], []
        values = {n: x for n, a, s, x, i in fl.stores}
        where = {n: a for n, a, s, x, i in fl.stores}
        for e in trace(p):
            if e.k == 'store' and e.f == count:
                base = add(where[e.n], num(fl.off(count)), -1)
                if wrote(e, delta=1):
                    self.up.append((e.n, base, e.i))
                elif wrote(e, delta=-1):
                    self.down.append((e.n, base, e.i))
                elif not (wrote(e, const=0) and fresh(base)):
                    self.odd.append(e.i)
            elif e.k == 'rmw' and e.f == count:
                self.odd.append(e.i)
            elif e.k == 'store' and e.f == hold:
                at = where[e.n]
                keeper = add(at, num(fl.off(hold)), -1)
                x = values[e.n]
                (self.clear if const(x) == 0 else self.set).append((e.n, x, keeper, e.i))
        for c in fl.calls:
            if c.f == ends and c.a:
                self.end.append((c.n, c.a[0], c.i))

    def calm(self, a, b):
        """nothing between two points of a path can raise"""
        return not any(i.op == 'call' and i.callee == 'vp.throws' for i in self.p.insts[min(a, b):max(a, b)])


def fresh(x):
    """a new object"""
    a = one(x)
    return a is not None and (a[0] == 'alloca' or a[0] == 'call' and (a[1] == 'am_malloc' or a[1].endswith(('_allocate', '_copy', '_read'))))


def counted(ctx, P):
    """a count goes up exactly when a reference is stored and down exactly when one is given up; what keeps a reference is not freed with it"""
    for count, hold, ends, whole in COUNTED:
        hs, us = units(P, count, hold)
        us |= {n for n, f in P.fn.items() if f.calls(ends) and n != whole}
        for n in sorted(us):
            if all(i.is_defer for i in P.fn[n].calls(ends)) and n not in touching(P, count, hold) and not P.fn[n].calls(*hs):
                continue
            others = [x for x in P.fn if x not in hs and x != n]
            v = core_load([n], others, [], False).view(n)
            for p in paths(v, edge=noexc, visits=3):
                if p.end() != 'ret':
                    continue
                fl = Flow(p, P, pure=('json_', 'storage_mgr_find', 'volume_mgr_find', 'columns_find'))
                if fl.torn() or wrapped(fl):
                    continue
                s = Steps(P, v, p, fl, count, hold, ends)
                for i in s.odd:
                    ctx.ob('count.step', n, False, '%s is changed by something else than one' % count, at=i)
                downs, ups = list(s.down), list(s.up)
                for m, x, keeper, i in s.set:
                    k = [u for u in ups if same(u[1], x)]
                    ok = len(k) == 1 and s.calm(m, k[0][0])
                    ctx.ob('ref.stored', n, ok, 'stores a reference in %s without counting it once' % hold, at=i)
                    if k:
                        ups.remove(k[0])
                    # what was there before
                    ctx.ob('ref.kept', n, fresh(keeper) or P_open(n, fl, keeper), 'overwrites a reference that may still be counted', at=i)
                for m, b, i in ups:
                    ctx.ob('ref.counted', n, False, 'counts a reference that it does not keep in %s' % hold, at=i)
                for m, x, keeper, i in s.clear:
                    if fresh(keeper):
                        continue
                    k = [d for d in downs if was(fl, d, keeper, hold)]
                    nul = zero(fl, before_of(fl, keeper, hold))
                    ctx.ob('ref.dropped', n, nul is True or len(k) == 1 and s.calm(m, k[0][0]), 'forgets a reference without giving it up', at=i)
                for m, b, i in list(downs):
                    c = [x for x in s.clear if was(fl, (m, b), x[2], hold)] + [x for x in s.end if was(fl, (m, b), x[1], hold) and x[0] > m]
                    ctx.ob('ref.once', n, bool(c), 'gives up a reference and keeps it in %s: it will be given up twice' % hold, at=i)
                same_obj = [(x, y) for k, x in enumerate(downs) for y in downs[k + 1:] if same(x[1], y[1])]
                ctx.ob('ref.once', n, not same_obj, 'gives the same reference up twice')
                for m, x, i in s.end:
                    if fresh(x):
                        continue
                    k = [d for d in downs if was(fl, d, x, hold) and d[0] < m]
                    ctx.ob('keeper.freed', n, len(k) == 1, 'frees what keeps a reference in %s without giving it up' % hold, at=i)
        ctx.floor('ref.stored', 1)
        ctx.floor('ref.once', 1)


def before_of(fl, keeper, hold):
    return atom(('init', key(add(keeper, num(fl.off(hold))))))


def was(fl, d, keeper, hold):
    """the object whose count went down is the one the keeper held"""
    a = one(d[1])
    return a is not None and a[0] in ('init', 'load', 'mem') and same(unkey(a[1]) if a[0] == 'init' else {}, add(keeper, num(fl.off(hold)))) or \
        same(d[1], before_of(fl, keeper, hold))


# where a keeper is given its reference the first time
FIRST = ('volume_mgr_ref', 'keys_add')


def P_open(n, fl, keeper):
    return n in FIRST


def places(ctx, P):
    """references are stored the first time where an object is opened or added, nowhere else"""
    for count, hold, ends, whole in COUNTED:
        for n, xs in touching(P, hold).items():
            for i in xs:
                x = P.fn[n].term(i.args[0])
                if x == ('null',):
                    continue
                b = strip_cast(P.fn[n].norm(P.fn[n].term(i.args[1])[1]))
                ctx.ob('place', n, n in FIRST or b[0] in ('call', 'load'), 'stores a reference into a %s from elsewhere' % hold, at=i)


def pins(ctx, P):
    """what is referenced cannot be dropped or renamed"""
    for n, act, count, k in (('storage_mgr_drop', 'relation_mgr_drop', 'Storage.refs', 2), ('storage_mgr_rename', 'storage_config_set_name', 'Storage.refs', 0),
                             ('storage_mgr_rename', 'log_relation', 'Storage.refs', 3), ('table_mgr_column_drop', 'column_set_dropped', 'Column.refs', 0)):
        v = core_load([n], [x for x in P.fn if x != n], [], False).view(n)
        seen = 0
        for p in paths(v, edge=noexc, visits=2):
            fl = Flow(p, P, pure=('storage_mgr_find', 'columns_find', 'table_mgr_find', 'log_relation', 'encode_', 'report_error'))
            if fl.torn():
                continue
            for e in fl.calls:
                if e.f != act:
                    continue
                seen += 1
                obj = e.a[k]
                a = one(obj)
                if act == 'storage_config_set_name' and a and a[0] == 'init':
                    obj = add(unkey(a[1]), num(fl.off('Storage.config')), -1)
                elif act in ('relation_mgr_drop', 'log_relation'):
                    obj = add(obj, num(fl.off('Storage.rel')), -1)
                c = atom(('init', key(add(obj, num(fl.off(count))))))
                a = one(obj)
                ctx.ob('pin', n, a is not None and a[0] == 'call' and fl.proves(c, e.n), 'goes on although %s is not known to be 0' % count, at=e.i)
        ctx.ob('pin.reached', n, seen > 0, 'never does %s' % act)
    # the mark is the only way a column is dropped
    for f in P.fn.values():
        for c in f.calls('column_set_dropped'):
            x = f.term(c.args[1])
            ctx.ob('pin.mark', f.name, f.name in ('table_mgr_column_drop', 'column_copy') or const_of(x) == 0, 'drops a column without looking at its references', at=c)


def order(ctx, P):
    """whoever owns the keepers gives their references up before they are freed, after the last use of what they refer to"""
    # (function, before what, what has to happen)
    for n, act, need, field in (('tier_mgr_remove', 'tier_free', 'volume_mgr_unref', 'TierConfig.volumes'), ('part_mgr_drop', None, 'volume_mgr_unref', 'PartMgrConfig.volumes'),
                                ('table_tier_delete', 'tier_config_free', 'tier_mgr_remove', None), ('tier_mgr_free', None, 'tier_mgr_remove', None)):
        v = core_load([n], [x for x in P.fn if x != n], [], False).view(n)
        cs = [c for c in v.calls(need) if field is None or argfield(v, c, 0) == field]
        if n == 'tier_mgr_free':
            for c in cs:
                ctx.ob('owner.all', n, 'TierMgr.list' in all_loop_lists(v, c), 'does not give up the references of every tier', at=c)
            ctx.ob('owner.all', n, bool(cs), 'keeps the references of its tiers')
            continue
        for p in paths(v, edge=noexc, visits=3):
            if p.end() != 'ret':
                continue
            tr = trace(p)
            hit = [e.n for e in sel(tr, 'call', need) if e.i in cs]
            for e in (sel(tr, 'call', act) if act else [None]):
                ok = len(hit) == 1 and (e is None or hit[0] < e.n)
                ctx.ob('owner', n, ok, 'frees what keeps references without giving them up once' if e else 'is left without giving the references of its volumes up', at=e.i if e else p.insts[-1])
            for e in sel(tr, 'call', 'volume_mgr_rmdir', 'tier_drop'):
                ctx.ob('owner.last', n, all(e.n < h for h in hit), 'removes the directories of volumes that do not know their storage any more', at=e.i)
    # dropping a table drops both of its managers, freeing it gives tiers up
    v = core_load(['table_free'], [x for x in P.fn if x != 'table_free'], [], False).view('table_free')
    for p in paths(v, edge=noexc, visits=2):
        if p.end() != 'ret':
            continue
        tr = trace(p)
        drop = None
        for f in p.facts:
            if strip_cast(f[2])[0] == 'arg' and strip_cast(f[2])[1] == 1 and const_of(f[3]) == 0:
                drop = {'ne': True, 'eq': False}.get(f[1], drop)
        free = sel(tr, 'call', 'table_config_free')
        for m, q in (('part_mgr', 'part_mgr_drop'), ('tier_mgr', 'tier_mgr_drop')):
            d, fr = sel(tr, 'call', q), sel(tr, 'call', m + '_free')
            ctx.ob('table', 'table_free', len(fr) == 1 and all(fr[0].n < x.n for x in free), 'frees the configuration before (or without) the %s' % m)
            ctx.ob('table.drop', 'table_free', drop is None or len(d) == (1 if drop else 0) and all(x.n < y.n for x in d for y in fr), '%s happens exactly when the table is dropped, before it is freed' % q)
    # dropping for good and undoing a creation are drops, not frees
    for n, k in (('relation_mgr_create', 1), ('relation_mgr_drop', 0)):
        for c in P.fn[n].calls('log_relation'):
            hs = handlers_of(P, P.fn[n].norm(P.fn[n].term(c.args[1])))
            ctx.ob('relation.drop', n, hs is not None, 'registers unknown handlers', at=c)
            if hs:
                v = core_load([hs[k]], ['relation_drop', 'relation_free', 'log_relation_of'], [], False).view(hs[k])
                for p in paths(v, edge=noexc):
                    tr = trace(p)
                    ctx.ob('relation.drop', hs[k], p.end() != 'ret' or len(sel(tr, 'call', 'relation_drop')) == 1 and not sel(tr, 'call', 'relation_free'), 'frees a relation that goes for good without dropping it', at=p.insts[-1])
    # keys refer to columns
    for f in P.fn.values():
        cf = f.calls('columns_free')
        for k in f.calls('keys_free', 'index_config_free'):
            for c in cf:
                if c.is_defer or k.is_defer:
                    continue
                ctx.ob('keys.first', f.name, not f.can_reach(c, [k]), 'frees columns before the keys that count them', at=k)
    ctx.floor('keys.first', 1)


def buffers(ctx, P):
    """a shared buffer goes back to its cache exactly when its last holder frees it"""
    kept = ['buf_cache_push', 'buf_free_memory']
    v = core_load(['buf_free'], kept, [], False).view('buf_free')
    n = 'buf_free'
    me = atom(('arg', 0))
    for p in paths(v):
        if p.end() != 'ret':
            continue
        fl = Flow(p, P)
        cache = atom(('init', key(fld(P, me, 'Buf.cache'))))
        refs = atom(('init', key(fld(P, me, 'Buf.refs'))))
        tr = trace(p)
        downs = [e for e in tr if e.k == 'rmw' and e.f == 'Buf.refs']
        zeros = [e for e in tr if e.k == 'store' and e.f == 'Buf.refs'] + [e for e in tr if e.k == 'rmw' and e.f == 'Buf.refs' and e.v[0] == 'xchg']
        push, mem = [c for c in fl.calls if c.f == 'buf_cache_push'], [c for c in fl.calls if c.f == 'buf_free_memory']
        own = zero(fl, cache)
        ctx.ob('buf.kind', n, own is not None, 'does not look whether the buffer is shared')
        if own:
            ctx.ob('buf.own', n, len(mem) == 1 and same(mem[0].a[0], me) and not push and not downs, 'a buffer of one owner is freed once')
            continue
        ctx.ob('buf.dec', n, len([e for e in downs if wrote(e, delta=-1)]) == 1 and not mem, 'gives its reference up once')
        last = zero(fl, refs)
        if last is None:
            ctx.ob('buf.last', n, False, 'does not look whether it was the last reference')
        elif last:
            ok = len(push) == 1 and same(push[0].a[0], cache) and same(push[0].a[1], me)
            ctx.ob('buf.last', n, ok, 'the last reference gives the buffer back to its cache')
            ctx.ob('buf.reset', n, bool(zeros) and all(wrote(z, const=0) and z.n < push[0].n for z in zeros) if ok else False, 'the count starts at 0 again before anyone else can take the buffer')
        else:
            ctx.ob('buf.shared', n, not push and not zeros, 'a buffer that others hold is left alone')
    f = P.fn['buf_ref']
    ops = [e for p in paths(core_load(['buf_ref'], [], [], False).view('buf_ref')) for e in trace(p) if e.f == 'Buf.refs']
    ctx.ob('buf.inc', 'buf_ref', len(ops) == 1 and ops[0].k == 'rmw' and wrote(ops[0], delta=1), 'takes one reference, atomically')
    # who else changes the count
    for m, xs in touching(P, 'Buf.refs').items():
        for i in xs:
            ctx.ob('buf.who', m, m in ('buf_free', 'buf_ref', 'buf_init'), 'changes the references of a buffer', at=i)
    for m in ('buf_init',):
        for p in paths(core_load([m], [], [], False).view(m)):
            z = [e for e in trace(p) if e.f == 'Buf.refs']
            ctx.ob('buf.init', m, len(z) == 1 and wrote(z[0], const=0), 'a new buffer has one holder (count 0)')
    # only who knows that nobody else holds a buffer frees its memory
    for m, f in P.fn.items():
        if m in ('buf_free', 'buf_cache_free', 'buf_cache_push'):
            continue
        for c in f.calls('buf_free_memory'):
            t = strip_cast(f.norm(f.term(c.args[0])))
            ctx.ob('buf.embedded', m, t[0] in ('field', 'op', 'alloca', 'var'), 'frees the memory of a buffer that may be shared', at=c)
    # the cache
    n = 'buf_cache_pop'
    v = core_load([n], ['spinlock_lock', 'spinlock_unlock'], [], False).view(n)
    for p in paths(v):
        if p.end() != 'ret':
            continue
        fl = Flow(p, P, pure=('spinlock_',))
        head = fld(P, me, 'BufCache.cache')
        h = atom(('init', key(head)))
        r = fl.opd(p.insts[-1].args[0])
        new = fl.mem.get(key(head), h)
        if zero(fl, h):
            ctx.ob('cache.empty', n, (const(r) == 0 or same(r, h)) and same(new, h), 'an empty cache stays empty')
        else:
            ctx.ob('cache.pop', n, zero(fl, h) is False and same(r, h) and same(new, atom(('init', key(fld(P, h, 'Buf.cache_next'))))), 'a buffer that is handed out leaves the cache')
    n = 'buf_cache_push'
    v = core_load([n], ['spinlock_lock', 'spinlock_unlock', 'buf_free_memory'], [], False).view(n)
    for p in paths(v):
        if p.end() != 'ret':
            continue
        fl = Flow(p, P, pure=('spinlock_', 'buf_free_memory'))
        head, buf = fld(P, me, 'BufCache.cache'), atom(('arg', 1))
        h = atom(('init', key(head)))
        new = fl.mem.get(key(head), h)
        freed = [c for c in fl.calls if c.f == 'buf_free_memory']
        if freed:
            ctx.ob('cache.free', n, len(freed) == 1 and same(freed[0].a[0], buf) and same(new, h), 'a freed buffer does not stay in the cache')
        else:
            link = fl.mem.get(key(fld(P, buf, 'Buf.cache_next')))
            ctx.ob('cache.push', n, same(new, buf) and link is not None and same(link, h), 'a buffer that comes back is added to the cache')
    n = 'buf_cache_create'
    v = core_load([n], ['buf_cache_pop', 'buf_reserve', 'buf_init', 'report_error', 'malloc'], ['buf_reset', 'am_malloc'], False).view(n)
    for p in paths(v, edge=noexc):
        if p.end() != 'ret':
            continue
        fl = Flow(p, P, pure=('buf_reserve', 'buf_init', 'buf_cache_pop'))
        if fl.torn():
            continue
        r = fl.opd(p.insts[-1].args[0])
        pop = [c for c in fl.calls if c.f == 'buf_cache_pop']
        got = pop[0].r if pop else None
        ini = [c for c in fl.calls if c.f == 'buf_init']
        if got is not None and zero(fl, got) is False:
            start = atom(('init', key(fld(P, got, 'Buf.start'))))
            pos = fl.mem.get(key(fld(P, got, 'Buf.position')))
            ctx.ob('cache.reuse', n, same(r, got) and pos is not None and same(pos, start), 'a buffer that is used again is empty')
        else:
            c = fl.mem.get(key(fld(P, r, 'Buf.cache')))
            ctx.ob('cache.new', n, len(ini) == 1 and same(ini[0].a[0], r) and c is not None and same(c, me), 'a new buffer is initialised and knows its cache')


def codecs(ctx, P):
    """a codec has one user at a time"""
    n = 'codec_cache_pop'
    v = core_load([n], ['spinlock_lock', 'spinlock_unlock', 'list_unlink'], [], False).view(n)
    some = 0
    for p in paths(v, visits=3):
        if p.end() != 'ret':
            continue
        fl = Flow(p, P, pure=('spinlock_', 'list_unlink'))
        if fl.torn() or wrapped(fl):
            continue
        r = fl.opd(p.insts[-1].args[0])
        out = [c for c in fl.calls if c.f == 'list_unlink']
        if const(r) == 0:
            ctx.ob('codec.none', n, not out, 'takes a codec out that it does not return')
            continue
        some += 1
        ok = len(out) == 1 and same(out[0].a[0], fld(P, r, 'Codec.link'))
        ctx.ob('codec.out', n, ok, 'the codec it returns leaves the cache')
        iface = fl.load(fld(P, r, 'Codec.iface'))
        idf = fl.load(fld(P, iface, 'CodecIf.id'))
        ctx.ob('codec.kind', n, says(fl, add(idf, atom(('arg', 1)), -1), ('eq',)), 'returns a codec of another kind')
    ctx.ob('codec.some', n, some > 0, 'never returns a codec')
    for m, f in P.fn.items():
        for c in f.calls('codec_cache_push'):
            t = strip_cast(f.norm(f.term(c.args[1])))
            if t[0] != 'load':
                ctx.ob('codec.owner', m, t[0] == 'arg', 'gives a codec back that it does not own', at=c)
                continue
            st = [i for i in f.insts() if i.op == 'store' and strip_cast(f.norm(f.term(i.args[1]))) == t[1]]
            gone = [k for k in f.insts() if k.op == 'call' and k.callee in ('am_free', 'free')]
            throws = [k for k in f.insts() if k.op == 'call' and k.callee == 'vp.throws']
            bad = missing(f, c, [i for i in f.insts() if i.op == 'ret'] + throws, st + gone)
            ctx.ob('codec.once', m, not bad, 'gives a codec back and keeps it', at=c)
    ctx.floor('codec.once', 2)


def locks(ctx, P):
    """a lock that is taken again by its holder is the same lock, and it is given back when it was unlocked as often"""
    n = 'lock_mgr_lock'
    kept = ['lock_allocate', 'lock_mgr_lock_of', 'list_append', 'list_init', 'list_unlink', 'lock_mgr_remove', 'lock_free', 'event_signal', 'spinlock_lock', 'spinlock_unlock', 'lock_resolve', 'list_first']
    v = core_load([n], kept, [], False).view(n)
    for p in paths(v, edge=noexc, visits=3):
        if p.end() != 'ret':
            continue
        fl = Flow(p, P, pure=('list_', 'lock_allocate', 'lock_mgr_lock_of'))
        if fl.torn() or wrapped(fl):
            continue
        r = fl.opd(p.insts[-1].args[0])
        new = [c for c in fl.calls if c.f == 'lock_allocate']
        put = [c for c in fl.calls if c.f == 'lock_mgr_lock_of']
        if const(r) == 0:
            ctx.ob('lock.none', n, not new and not put and says(fl, atom(('arg', 2)), ('eq',)), 'takes no lock only where none is asked for')
            continue
        mine = St(P, fl, r, 'Lock')
        up = [e for e in trace(p) if e.k == 'store' and e.f == 'Lock.refs']
        if not new:
            ok = says(fl, add(mine.old('rel'), atom(('arg', 1)), -1), ('eq',)) and says(fl, add(mine.old('rel_lock'), atom(('arg', 2)), -1), ('eq',))
            ctx.ob('lock.again', n, ok and not put, 'uses a lock again that is another one')
            ctx.ob('lock.again', n, len(up) == 1 and wrote(up[0], delta=1) and same(mine.new('refs'), add(mine.old('refs'), num(1))), 'counts how often a lock is taken')
            continue
        ctx.ob('lock.new', n, len(new) == 1 and same(r, new[0].r) and same(new[0].a[0], atom(('arg', 1))) and same(new[0].a[1], atom(('arg', 2))), 'creates the lock that is asked for')
        ctx.ob('lock.new', n, len(put) == 1 and same(put[0].a[1], r), 'a new lock waits for its turn')
        att = [c for c in fl.calls if c.f == 'list_append' and same(c.a[1], mine.addr('link'))]
        named = zero(fl, atom(('arg', 3)))
        if named is None:
            continue
        ctx.ob('lock.mine', n, (len(att) == 1 and len(up) == 1 and wrote(up[0], delta=1)) if named else (not att and not up), 'a lock belongs to the coroutine that takes it, unless it has a name')
    n = 'lock_mgr_unlock'
    v = core_load([n], kept, [], False).view(n)
    lock = atom(('arg', 1))
    for p in paths(v, edge=noexc, visits=2):
        if p.end() != 'ret':
            continue
        fl = Flow(p, P, pure=('list_', 'spinlock_', 'lock_resolve', 'lock_mgr_remove', 'event_signal', 'lock_free'))
        if fl.torn() or wrapped(fl):
            continue
        me = St(P, fl, lock, 'Lock')
        out = [c for c in fl.calls if c.f == 'lock_mgr_remove']
        free = [c for c in fl.calls if c.f == 'lock_free']
        unl = [c for c in fl.calls if c.f == 'list_unlink' and same(c.a[0], me.addr('link'))]
        dec = [e for e in trace(p) if e.k == 'store' and e.f == 'Lock.refs']
        if zero(fl, lock) or says(fl, me.old('rel_lock'), ('eq',)):
            ctx.ob('unlock.none', n, not out and not dec, 'no lock is given back where there is none')
            continue
        coro = zero(fl, me.old('coro'))
        if coro is None:
            ctx.ob('unlock.coro', n, False, 'does not look whether the lock belongs to a coroutine')
            continue
        if coro:
            ctx.ob('unlock.named', n, len(out) == 1 and len(free) == 1 and not dec and not unl, 'a named lock is given back at once')
            continue
        ctx.ob('unlock.count', n, len(dec) == 1 and wrote(dec[0], delta=-1), 'unlocking counts down by one')
        left = add(me.old('refs'), num(-1))
        if fl.proves(left):            # refs - 1 <= 0
            ctx.ob('unlock.last', n, len(out) == 1 and same(out[0].a[1], lock) and len(unl) == 1 and len(free) == 1, 'the last unlock gives the lock back once')
        else:
            ctx.ob('unlock.held', n, fl.proves(add(num(1), left, -1)) and not out and not free and not unl, 'a lock that was taken more often stays taken')
    ctx.floor('unlock.last', 1)
    ctx.floor('unlock.held', 1)
    ctx.floor('lock.again', 2)
    for m, xs in touching(P, 'Lock.refs').items():
        for i in xs:
            ctx.ob('lock.who', m, m in ('lock_mgr_lock', 'lock_mgr_unlock', 'lock_init', 'unlock_all'), 'changes how often a lock is taken', at=i)


def messages(ctx, P):
    """a message is queued at most once, and again only after it was received"""
    n = 'bus_send'
    v = core_load([n], ['ring_write', 'notify_signal'], [], False).view(n)
    ipc = atom(('arg', 1))
    some = 0
    for p in paths(v):
        if p.end() != 'ret':
            continue
        fl = Flow(p, P, pure=('ring_write', 'notify_signal'))
        if fl.torn():
            continue
        refs = atom(('init', key(fld(P, ipc, 'Ipc.refs'))))
        w = [c for c in fl.calls if c.f == 'ring_write']
        ops = [e for e in trace(p) if e.f == 'Ipc.refs']
        ctx.ob('send.count', n, len(ops) == 1 and ops[0].k == 'rmw' and (wrote(ops[0], delta=1) or ops[0].v[0] == 'xchg' and const_of(ops[0].v[1])), 'marks a message as sent, atomically')
        first = zero(fl, refs)
        if first is None:
            ctx.ob('send.first', n, False, 'does not look whether the message is queued already')
        elif first:
            some += 1
            ctx.ob('send.first', n, len(w) == 1 and same(w[0].a[1], ipc), 'a message that is not queued is queued once')
        else:
            ctx.ob('send.again', n, not w, 'a message that is queued is not queued again')
    ctx.ob('send.some', n, some > 0, 'never sends')
    n = 'bus_step'
    v = core_load([n], ['ring_read', 'mailbox_append', 'event_signal_local', 'ipc_unref'], [], False).view(n)
    for p in paths(v, visits=3):
        if p.end() != 'ret':
            continue
        fl = Flow(p, P, pure=('ring_read', 'mailbox_append', 'event_signal_local', 'ipc_unref'))
        if fl.torn() or wrapped(fl):
            continue
        got = [c for c in fl.calls if c.f == 'ring_read' and zero(fl, c.r) is not True]
        for c in got:
            off = [x for x in fl.calls if x.f == 'ipc_unref' and same(x.a[0], c.r)]
            ctx.ob('step.again', n, len(off) == 1, 'a message that was received can be sent again', at=c.i)
    ctx.floor('step.again', 1)
    v = core_load(['ipc_unref'], [], [], False).view('ipc_unref')
    for p in paths(v):
        z = [e for e in trace(p) if e.f == 'Ipc.refs']
        ctx.ob('step.zero', 'ipc_unref', len(z) == 1 and wrote(z[0], const=0), 'receiving a message clears its mark')
    for m, xs in touching(P, 'Ipc.refs').items():
        for i in xs:
            ctx.ob('send.who', m, m in ('ipc_init', 'ipc_ref', 'ipc_unref'), 'changes the mark of a message', at=i)


RULES = [counted, places, pins, order, buffers, codecs, locks, messages]
