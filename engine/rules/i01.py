"""I01: all index kinds and iterators obey one contract."""
from ..q import *
from ..core import load as core_load
from ..flow import Flow, key, add, num, atom, const, one, unkey, scale
from .. import seg
from .s01 import noexc

ENTRIES, KEEP, PLAIN = [], [], True

ASKS = ['compare', 'row_hash', 'report_error', 'rbtree_next', 'rbtree_prev', 'rbtree_min', 'rbtree_set', 'rbtree_remove']
READS = ('compare', 'row_hash', 'rbtree_next', 'rbtree_prev', 'rbtree_min', 'tree_find', 'meta_region', 'region_row', 'meta_iterator_search')


def ending(v, p, fl):
    """what a path returns (form), or None"""
    i = p.insts[-1]
    if i.op != 'ret' or not i.args:
        return {}
    r = truth(fl.opd(i.args[0]))
    a = one(r)
    if a and a[0] == 'cmp' and a[1] in ('eq', 'ne') and a[3] == ():
        z = zero(fl, unkey(a[2]))
        if z is not None:
            return num(int(z == (a[1] == 'eq')))
    return r


def same(a, b):
    return key(a) == key(b)


def flows(P, n, keep=(), visits=3, model=None):
    """[(path, flow)] of the returning paths of a function"""
    v = core_load([n], ASKS + list(keep), [], False).view(n)
    r = []
    for p in paths(v, edge=noexc, visits=visits):
        if p.end() != 'ret':
            continue
        fl = Flow(p, P, model=model, pure=READS)
        if not fl.torn() and not wrapped(fl):
            r.append((p, fl))
    return v, r


def wrapped(fl):
    """what the path knows cannot be true: a remainder that is negative, a number above and below another at once"""
    lo, hi, ne = {}, {}, {}
    for f in fl.facts:
        op, x = f[1], f[2]
        c = x.get(None, 0)
        r = {k: v for k, v in x.items() if k is not None}
        if op not in ('eq', 'ne', 'slt', 'sle', 'sgt', 'sge'):
            continue
        if not r:
            if not {'eq': c == 0, 'ne': c != 0, 'slt': c < 0, 'sle': c <= 0, 'sgt': c > 0, 'sge': c >= 0}[op]:
                return True
            continue
        k = key(r)
        if k[0][2] < 0:
            r, c, op = scale(r, -1), -c, {'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle'}.get(op, op)
            k = key(r)
        if len(r) == 1:
            a = next(iter(r))
            if a[0] == 'bin' and a[1] == 'urem':
                lo[k] = max(lo.get(k, 0), 0)
        # r op -c
        if op in ('eq', 'sge', 'sgt'):
            lo[k] = max(lo.get(k, -c), -c + (op == 'sgt'))
        if op in ('eq', 'sle', 'slt'):
            hi[k] = min(hi.get(k, -c), -c - (op == 'slt'))
        if op == 'ne':
            ne.setdefault(k, set()).add(-c)
    for k in lo:
        h = hi.get(k)
        if h is not None and (lo[k] > h or lo[k] == h and h in ne.get(k, ())):
            return True
    return False


def truth(r):
    """a condition over constants"""
    a = one(r)
    if a and a[0] == 'cmp' and a[1] in ('eq', 'ne'):
        x, y = const(unkey(a[2])), const(unkey(a[3]))
        if x is not None and y is not None:
            return num(int((x == y) == (a[1] == 'eq')))
    return r


def fld(P, base, sf):
    st, f = sf.split('.')
    return add(base, num(offset_of(P, st, f)[0]))


def says(fl, form, ops, upto=None):
    """the path knows form (op) 0"""
    for f in fl.facts:
        if upto is not None and f[0] > upto:
            continue
        if f[1] in ops and same(f[2], form) or {'eq': 'eq', 'ne': 'ne', 'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle'}.get(f[1]) in ops and same(scale(f[2], -1), form):
            return True
    return False


# ---- hash store

class Probe:
    """one path through a search of a hash store"""
    def __init__(self, P, v, p, fl, self_=0, key_=1):
        self.fl = fl
        me = atom(('arg', self_))
        self.rows = fld(P, me, 'HashStore.rows')
        self.count = fld(P, me, 'HashStore.count')
        self.size = fl.load(fld(P, me, 'HashStore.size'))
        self.key = atom(('arg', key_))
        self.base = fl.load(self.rows)
        self.slots = []          # (n, index form, value form)
        # the value a slot had when it was first seen
        seen = set()
        for n, a, s, i in fl.loads:
            x = self.index(a)
            if x is not None and key(x) not in seen:
                seen.add(key(x))
                self.slots.append((n, x, atom(('init', key(a)))))
        self.writes = [(n, self.index(a), x, i) for n, a, s, x, i in fl.stores if self.index(a) is not None]
        self.asked = {}
        for e in fl.calls:
            if e.f == 'compare' and len(e.a) == 3:
                o = [a for a in e.a[1:] if not same(a, self.key)]
                if len(o) == 1:
                    self.asked[key(o[0])] = e
        k = key(self.count)
        now = fl.mem.get(k, atom(('init', k)))
        self.delta = const(add(now, atom(('init', k)), -1))

    def index(self, a):
        b = key(self.base)
        d = {k: c for k, c in add(a, self.base, -1).items()}
        if one(self.base) is None or a.get(one(self.base)) != 1:
            return None
        if any(c % 8 for c in d.values()):
            return None
        return {k: c // 8 for k, c in d.items()}

    def equal(self, w):
        """the row in a slot has the key: True, False, or None if not asked"""
        e = self.asked.get(key(w))
        if e is None:
            return None
        if says(self.fl, e.r, ('eq',)):
            return True
        if says(self.fl, e.r, ('ne', 'slt', 'sgt')):
            return False
        return None

    def kind(self, w):
        """what a path knows about what a slot holds: 'none', 'deleted', 'row' or None"""
        nz = dl = None
        for f in self.fl.facts:
            if same(f[2], w):
                nz = f[1] == 'ne' if f[1] in ('eq', 'ne') else nz
            d = add(f[2], w, -1)
            c = const(d)
            if c is not None and c == -DELETED and f[1] in ('eq', 'ne'):
                dl = f[1] == 'eq'
        if nz is False:
            return 'none'
        if dl is True:
            return 'deleted'
        if nz is True and dl is False:
            return 'row'
        return None

    def follows(self):
        """slots are visited from where the key belongs, one after the other"""
        fl = self.fl
        h = [e for e in fl.calls if e.f == 'row_hash']
        if not h or not self.slots:
            return False
        want = atom(('bin', 'urem', key(h[0].r), key(self.size)))
        if not same(self.slots[0][1], want):
            return False
        for (_, a, _), (_, b, _) in zip(self.slots, self.slots[1:]):
            n = add(a, num(1))
            if same(b, atom(('bin', 'urem', key(n), key(self.size)))):
                continue
            if same(b, n) and (says(fl, add(n, self.size, -1), ('ne', 'slt', 'ult'))):
                continue
            if not b and says(fl, add(n, self.size, -1), ('eq',)):
                continue
            return False
        return True

    def complete(self):
        """every place the key may be at was seen"""
        if not self.slots:
            return False
        if self.kind(self.slots[-1][2]) == 'none':
            return True
        first, last = self.slots[0][1], self.slots[-1][1]
        n = add(last, num(1))
        for x in (atom(('bin', 'urem', key(n), key(self.size))), n):
            d = add(first, x, -1)
            if says(self.fl, d, ('eq',)) or not key(d):
                return True
        return False


DELETED = 0xffffffff


def probing(ctx, P):
    """a search of a hash store visits the slots a key may be in, in order and all of them; a row is replaced or deleted only if it has the key; the row found is the one reported; a slot once used is never made empty"""
    for n in ('hash_store_set', 'hash_store_get', 'hash_store_delete'):
        v, fs = flows(P, n)
        for p, fl in fs:
            b = Probe(P, v, p, fl)
            at = p.insts[-1]
            r = ending(v, p, fl)
            if not b.slots:
                ctx.ob('probing.order', n, False, 'a search looks at no slot', at=at)
                continue
            ctx.ob('probing.order', n, b.follows(), 'slots are not visited one after the other, from the one the key belongs to', at=at)
            hit = [(k, x, w) for k, x, w in b.slots if b.equal(w) is True and b.kind(w) in ('row', None)]
            if r and any(same(r, w) for _, _, w in b.slots):
                ok = len(hit) == 1 and same(hit[0][2], r)
                ctx.ob('probing.found', n, ok, 'a row that does not have the key is reported', at=at)
                if not ok:
                    continue
                x = hit[0][1]
                if n == 'hash_store_set':
                    ok = len(b.writes) == 1 and same(b.writes[0][1], x) and same(b.writes[0][2], b.key) and b.delta == 0
                    ctx.ob('probing.replaced', n, ok, 'the row that has the key is not replaced (or the number of rows changes)', at=at)
                elif n == 'hash_store_delete':
                    ok = len(b.writes) == 1 and same(b.writes[0][1], x) and const(b.writes[0][2]) == DELETED and b.delta == -1
                    ctx.ob('probing.deleted', n, ok, 'the row that has the key is not deleted, or the slot is not kept for the rows after it', at=at)
                else:
                    pos = fl.mem.get(key(atom(('arg', 2))))
                    ctx.ob('probing.position', n, pos is not None and same(pos, x) and not b.writes and b.delta == 0, 'the position reported is not the one of the row found', at=at)
            elif const(r) == 0:
                ok = not hit and b.complete() and all(b.equal(w) is False for _, _, w in b.slots if b.kind(w) not in ('none', 'deleted'))
                ctx.ob('probing.absent', n, ok, 'a key is said not to exist though slots it may be in were not looked at', at=at)
                if n == 'hash_store_delete':
                    ctx.ob('probing.kept', n, not b.writes and b.delta == 0, 'a row that does not have the key is deleted', at=at)
                    continue
                free = [x for _, x, w in b.slots if b.kind(w) in ('none', 'deleted')]
                if n == 'hash_store_set':
                    ok = len(b.writes) == 1 and any(same(b.writes[0][1], x) for x in free) and same(b.writes[0][2], b.key) and b.delta == 1
                    ctx.ob('probing.added', n, ok, 'a row is not added to exactly one free slot (or not counted)', at=at)
                else:
                    pos = fl.mem.get(key(atom(('arg', 2))))
                    ctx.ob('probing.position', n, pos is not None and any(same(pos, x) for x in free) and not b.writes, 'the position reported for a key that does not exist is not free', at=at)
            else:
                ctx.ob('probing.found', n, False, 'something that is not a row of the store is reported', at=at)
    # a full walk with no free slot is an error only then
    for n in ('hash_store_set', 'hash_store_get'):
        v = core_load([n], ASKS, [], False).view(n)
        for p in paths(v, visits=3):
            if p.end() != 'unwind':
                continue
            fl = Flow(p, P, pure=READS)
            if fl.torn() or wrapped(fl) or not any(e.f == 'report_error' for e in fl.calls):
                continue
            b = Probe(P, v, p, fl)
            ok = all(b.kind(w) == 'row' for _, _, w in b.slots) and b.complete()
            ctx.ob('probing.full', n, ok, 'a store that has a free slot is said to be full', at=p.insts[-1])
    for f in P.fn.values():
        for i in f.insts():
            if i.op == 'store':
                t = strip_cast(f.term(i.args[1]))
                if t[0] == 'index' and leaf_field(t[1]) == 'HashStore.rows':
                    ctx.ob('probing.emptied', f.name, f.term(i.args[0]) != ('null',), 'a slot is made empty: rows that follow it can no longer be found', at=i)
    for x, k in (('order', 6), ('found', 3), ('replaced', 1), ('deleted', 1), ('position', 2), ('absent', 3), ('added', 1), ('full', 2), ('emptied', 4)):
        ctx.floor('probing.' + x, k)



# ---- iterators

class St:
    """an object before and after a path"""
    def __init__(self, P, fl, base, ty):
        self.P, self.fl, self.base, self.ty = P, fl, base, ty

    def addr(self, f):
        return fld(self.P, self.base, self.ty + '.' + f)

    def old(self, f):
        return atom(('init', key(self.addr(f))))

    def new(self, f):
        k = key(self.addr(f))
        return self.fl.mem.get(k, atom(('init', k)))

    def kept(self, *fs):
        return all(same(self.old(f), self.new(f)) for f in fs)


def zero(fl, x):
    """True / False / None: what a path knows about a value being 0"""
    c = const(x)
    if c is not None:
        return c == 0
    if says(fl, x, ('eq',)):
        return True
    if says(fl, x, ('ne',)) or fl.proves(add(x, num(1))) or fl.proves(add(num(1), x, -1)):
        return False
    return True if fl.proves(x) and fl.proves(scale(x, -1)) else None


def le(fl, x, y, k=0):
    """x + k <= y is known"""
    return fl.proves(add(add(x, y, -1), num(k)))


def asked(fl, n, *a):
    """the calls of a function with these arguments"""
    return [e for e in fl.calls if e.f == n and all(same(x, y) for x, y in zip(e.a, a))]


def kept_rows(P, page, pos):
    return add(add(page, num(offset_of(P, 'TreePage', 'rows')[0])), scale(pos, 8))


def got(fl, a):
    """what memory holds at an address at the end of a path"""
    return fl.mem.get(key(a), atom(('init', key(a))))


def after(P, fl, page):
    """the page after a page: (asked, form or None)"""
    node = fld(P, page, 'TreePage.node')
    for e in fl.calls:
        if e.f == 'rbtree_next' and same(e.a[1], node):
            z = zero(fl, e.r)
            if z is True:
                return True, {}
            if z is False:
                return True, add(e.r, num(offset_of(P, 'TreePage', 'node')[0]), -1)
    return False, None


def tree_walk(ctx, P):
    """a tree iterator yields the row that follows: in its page while there is one, then the first row of the next page, and no row only after the last page; a removed row leaves it at the row that took its place; an iterator put at a row is at that row, with nothing left from before"""
    it = atom(('arg', 0))
    v, fs = flows(P, 'tree_iterator_next')
    for p, fl in fs:
        s, at = St(P, fl, it, 'TreeIterator'), p.insts[-1]
        cur, pg, pos = s.new('current'), s.new('page'), s.new('page_pos')
        if zero(fl, s.old('current')) is True:
            ctx.ob('tree.end', 'tree_iterator_next', zero(fl, cur) is True or same(cur, s.old('current')), 'an iterator at its end moves', at=at)
            continue
        if zero(fl, s.old('repositioned')) is False:
            z = zero(fl, s.old('page'))
            ok = const(s.new('repositioned')) == 0 and (z is True and const(cur) == 0 or z is False and same(cur, got(fl, kept_rows(P, pg, pos))) and s.kept('page', 'page_pos'))
            ctx.ob('tree.removed', 'tree_iterator_next', ok, 'after a removal the row that took the place is skipped or taken twice', at=at)
            continue
        opos, opg = s.old('page_pos'), s.old('page')
        n = atom(('init', key(fld(P, opg, 'TreePage.keys_count'))))
        a, nx = after(P, fl, opg)
        if const(cur) == 0:
            ok = a and nx == {} and le(fl, n, opos, -1)
            ctx.ob('tree.end', 'tree_iterator_next', ok, 'the iterator ends though rows follow', at=at)
        elif same(pg, opg):
            ok = same(pos, add(opos, num(1))) and le(fl, pos, n, 1) and same(cur, got(fl, kept_rows(P, pg, pos)))
            ctx.ob('tree.step', 'tree_iterator_next', ok, 'the next row of the page is not the one that follows, or is not in the page', at=at)
        else:
            ok = a and nx and same(pg, nx) and not pos and same(cur, got(fl, kept_rows(P, pg, pos))) and le(fl, n, opos, -1)
            ctx.ob('tree.page', 'tree_iterator_next', ok, 'the iterator leaves a page before its end, or does not continue with the first row of the next page', at=at)
    v, fs = flows(P, 'tree_iterator_open', keep=['tree_get'])
    for p, fl in fs:
        s, at = St(P, fl, it, 'TreeIterator'), p.insts[-1]
        cur, pg, pos, r = s.new('current'), s.new('page'), s.new('page_pos'), ending(v, p, fl)
        ctx.ob('tree.fresh', 'tree_iterator_open', const(s.new('repositioned')) == 0, 'an iterator opened again is still taken to stand at a removed row', at=at)
        g = [e for e in fl.calls if e.f == 'tree_get']
        if not g:
            count = atom(('init', key(fld(P, s.old('tree'), 'Tree.count'))))
            pages = atom(('init', key(fld(P, s.old('tree'), 'Tree.count_pages'))))
            ok = const(cur) == 0 and const(r) == 0 and (zero(fl, count) is True or zero(fl, pages) is True)
            ctx.ob('tree.open', 'tree_iterator_open', ok, 'a tree that has rows is not searched', at=at)
            continue
        g = g[-1]
        gp, go = got(fl, fld(P, g.a[1], 'TreePos.page')), got(fl, fld(P, g.a[1], 'TreePos.page_pos'))
        n = fl.load(fld(P, gp, 'TreePage.keys_count'))
        a, nx = after(P, fl, gp)
        if const(cur) == 0:
            ok = const(r) == 0 and a and nx == {} and le(fl, n, go)
        elif same(pg, gp):
            ok = same(pos, go) and le(fl, go, n, 1) and same(cur, got(fl, kept_rows(P, pg, pos))) and (same(r, g.r) or zero(fl, g.r) is False and const(r) == 1 or zero(fl, g.r) is True and const(r) == 0)
        else:
            ok = a and nx and same(pg, nx) and not pos and same(cur, got(fl, kept_rows(P, pg, pos))) and le(fl, n, go)
        ctx.ob('tree.open', 'tree_iterator_open', ok, 'the iterator does not start at the first row that is not less than the key', at=at)
    v, fs = flows(P, 'tree_iterator_open_at')
    for p, fl in fs:
        s, w, at = St(P, fl, it, 'TreeIterator'), St(P, fl, atom(('arg', 1)), 'TreePos'), p.insts[-1]
        ok = const(s.new('repositioned')) == 0 and same(s.new('page'), w.old('page')) and same(s.new('page_pos'), w.old('page_pos')) and same(s.new('current'), got(fl, kept_rows(P, w.old('page'), w.old('page_pos'))))
        ctx.ob('tree.at', 'tree_iterator_open_at', ok, 'the iterator is not at the position it is put at, or is still taken to stand at a removed row', at=at)
    v, fs = flows(P, 'tree_iterator_delete', keep=['tree_delete'])
    for p, fl in fs:
        s, at = St(P, fl, it, 'TreeIterator'), p.insts[-1]
        d = [e for e in fl.calls if e.f == 'tree_delete']
        ok = len(d) == 1 and const(s.new('repositioned')) == 1
        if ok:
            a = d[0].a[1]
            row = atom(('init', key(kept_rows(P, s.old('page'), s.old('page_pos')))))
            was = {k: x for n, ad, sz, x, i in fl.stores if n < d[0].n for k in [key(ad)]}
            ok = same(was.get(key(fld(P, a, 'TreePos.page')), {}), s.old('page')) and same(was.get(key(fld(P, a, 'TreePos.page_pos')), {}), s.old('page_pos'))
            ok = ok and same(ending(v, p, fl), row) and same(s.new('current'), row) and same(s.new('page'), got(fl, fld(P, a, 'TreePos.page'))) and same(s.new('page_pos'), got(fl, fld(P, a, 'TreePos.page_pos')))
        ctx.ob('tree.remove', 'tree_iterator_delete', ok, 'the row removed is not the one the iterator is at, is not the one reported, or the iterator does not stand where it was', at=at)
    v, fs = flows(P, 'tree_iterator_replace')
    for p, fl in fs:
        s, at = St(P, fl, it, 'TreeIterator'), p.insts[-1]
        a = kept_rows(P, s.old('page'), s.old('page_pos'))
        ok = same(got(fl, a), atom(('arg', 1))) and same(ending(v, p, fl), atom(('init', key(a)))) and same(s.new('current'), atom(('arg', 1))) and s.kept('page', 'page_pos')
        ctx.ob('tree.replace', 'tree_iterator_replace', ok, 'the row replaced is not the one the iterator is at, or is not the one reported', at=at)
    for x, k in (('end', 2), ('removed', 2), ('step', 1), ('page', 1), ('fresh', 3), ('open', 3), ('at', 1), ('remove', 1), ('replace', 1)):
        ctx.floor('tree.' + x, k)



def store_next(ctx, P):
    """the next row of a store is the first slot from the position on that holds one; none is reported only when the store ends"""
    n = 'hash_store_next'
    v, fs = flows(P, n, visits=4)
    for p, fl in fs:
        b = Probe(P, v, p, fl, key_=9)
        r, at = ending(v, p, fl), p.insts[-1]
        start = atom(('init', key(atom(('arg', 1)))))
        end = got(fl, atom(('arg', 1)))
        xs = [x for _, x, _ in b.slots]
        ok = all(same(x, add(start, num(k))) for k, x in enumerate(xs)) and all(le(fl, x, b.size, 1) for x in xs)
        ctx.ob('slots.order', n, ok, 'slots are skipped, or looked at outside of the store', at=at)
        kinds = [b.kind(w) for _, _, w in b.slots]
        if const(r) == 0:
            ok = all(k in ('none', 'deleted') for k in kinds) and le(fl, b.size, add(start, num(len(xs))))
            ctx.ob('slots.end', n, ok, 'the end is reported though slots follow', at=at)
        else:
            ok = bool(xs) and all(k in ('none', 'deleted') for k in kinds[:-1]) and same(r, b.slots[-1][2]) and kinds[-1] == 'row' and same(end, xs[-1])
            ctx.ob('slots.row', n, ok, 'the row reported is not the one at the position reported', at=at)
    for x, k in (('order', 3), ('end', 2), ('row', 2)):
        ctx.floor('slots.' + x, k)


def hash_walk(ctx, P):
    """a hash iterator goes through the store in use and, while rows are being moved, through the other one too"""
    it = atom(('arg', 0))

    def last(fl, s, st, h):
        """no row is reported only after the last store"""
        prev = atom(('init', key(fld(P, h, 'Hash.prev'))))
        moving = atom(('init', key(fld(P, h, 'Hash.rehashing'))))
        return zero(fl, moving) is True or same(st, prev) or says(fl, add(st, prev, -1), ('eq',))
    n = 'hash_iterator_next'
    v, fs = flows(P, n, keep=['hash_store_next'])
    for p, fl in fs:
        s, at = St(P, fl, it, 'HashIterator'), p.insts[-1]
        c = asked(fl, 'hash_store_next')
        cur, st, h = s.new('current'), s.new('current_store'), s.old('hash')
        if zero(fl, s.old('current')) is True:
            ctx.ob('hash.end', n, not c and s.kept('current'), 'an iterator at its end moves', at=at)
            continue
        wrote = {}
        first = [x for nn, a, sz, x, i in fl.stores if c and nn < c[0].n and same(a, s.addr('pos'))]
        ok = bool(c) and same(c[0].a[0], s.old('current_store')) and same(c[0].a[1], s.addr('pos')) and bool(first) and same(first[-1], add(s.old('pos'), num(1)))
        ctx.ob('hash.next', n, ok, 'the iterator does not continue behind the row it is at', at=at)
        if not ok:
            continue
        if len(c) == 1:
            ok = same(st, s.old('current_store')) and (same(cur, c[0].r) or const(cur) == 0 and zero(fl, c[0].r) is True)
            ok = ok and (zero(fl, c[0].r) is False or last(fl, s, st, h))
        else:
            prev = atom(('init', key(fld(P, h, 'Hash.prev'))))
            z = [x for nn, a, sz, x, i in fl.stores if c[0].n < nn < c[1].n and same(a, s.addr('pos'))]
            ok = len(c) == 2 and zero(fl, c[0].r) is True and same(c[1].a[0], prev) and same(st, prev) and same(cur, c[1].r) and bool(z) and const(z[-1]) == 0 and not last(fl, s, s.old('current_store'), h)
        ctx.ob('hash.stores', n, ok, 'rows that were not moved yet are not visited, or visited twice', at=at)
    n = 'hash_iterator_open'
    v, fs = flows(P, n, keep=['hash_store_next', 'hash_store_get'])
    for p, fl in fs:
        s, at = St(P, fl, it, 'HashIterator'), p.insts[-1]
        h = s.old('hash')
        k, cur, st, r = atom(('arg', 1)), s.new('current'), s.new('current_store'), ending(v, p, fl)
        now, prev = [atom(('init', key(fld(P, h, 'Hash.' + f)))) for f in ('current', 'prev')]
        moving = atom(('init', key(fld(P, h, 'Hash.rehashing'))))
        f = 'hash_store_get' if zero(fl, k) is False else 'hash_store_next'
        c = [e for e in fl.calls if e.f in ('hash_store_get', 'hash_store_next')]
        ok = all(e.f == f and same(e.a[-1], s.addr('pos')) for e in c) and [key(e.a[0]) for e in c] == [key(now), key(prev)][:len(c)]
        if f == 'hash_store_get':
            ok = ok and all(same(e.a[1], k) for e in c)
        else:
            for e, lo in zip(c, [-1] + [e.n for e in c]):
                z = [x for nn, a, sz, x, i in fl.stores if lo < nn < e.n and same(a, s.addr('pos'))]
                ok = ok and bool(z) and const(z[-1]) == 0
        if not c:
            ok = ok and f == 'hash_store_next' and const(cur) == 0 and zero(fl, moving) is True and zero(fl, atom(('init', key(fld(P, now, 'HashStore.count'))))) is True
        else:
            e = c[-1]
            ok = ok and (same(cur, e.r) or const(cur) == 0 and zero(fl, e.r) is True) and (zero(fl, cur) is True or same(st, e.a[0]))
            ok = ok and all(zero(fl, x.r) is True for x in c[:-1])
            ok = ok and (len(c) == 2 or zero(fl, e.r) is False or zero(fl, moving) is True)
            ok = ok and (len(c) == 1 or zero(fl, moving) is False)
            if f == 'hash_store_get':
                ok = ok and (const(r) == (0 if zero(fl, e.r) else 1) or zero(fl, e.r) is None and one(r) == ('cmp', 'ne', key(e.r), ()))
            else:
                ok = ok and const(r) == 0
        ctx.ob('hash.open', n, ok, 'the iterator does not start at the row with the key, or at the first row of both stores', at=at)
    n = 'hash_iterator_open_at'
    v, fs = flows(P, n)
    for p, fl in fs:
        s, at = St(P, fl, it, 'HashIterator'), p.insts[-1]
        now = atom(('init', key(fld(P, s.old('hash'), 'Hash.current'))))
        rows = atom(('init', key(fld(P, now, 'HashStore.rows'))))
        pos = atom(('arg', 1))
        ok = same(s.new('current_store'), now) and same(s.new('pos'), pos) and same(s.new('current'), got(fl, add(rows, scale(pos, 8))))
        ctx.ob('hash.at', n, ok, 'the iterator is not at the position it is put at', at=at)
    for n in ('hash_iterator_replace', 'hash_iterator_delete'):
        v, fs = flows(P, n)
        for p, fl in fs:
            s, at = St(P, fl, it, 'HashIterator'), p.insts[-1]
            st = s.old('current_store')
            a = add(atom(('init', key(fld(P, st, 'HashStore.rows')))), scale(s.old('pos'), 8))
            was = atom(('init', key(a)))
            c = fld(P, st, 'HashStore.count')
            d = const(add(got(fl, c), atom(('init', key(c))), -1))
            ok = same(ending(v, p, fl), was) and s.kept('pos', 'current_store')
            if n.endswith('replace'):
                ok = ok and same(got(fl, a), atom(('arg', 1))) and same(s.new('current'), atom(('arg', 1))) and d == 0
            else:
                ok = ok and const(got(fl, a)) == DELETED and same(s.new('current'), was) and d == -1
            ctx.ob('hash.write', n, ok, 'the row changed is not the one the iterator is at, is not the one reported, or rows are counted wrong', at=at)
    for x, k in (('end', 1), ('next', 3), ('stores', 3), ('open', 5), ('at', 1), ('write', 2)):
        ctx.floor('hash.' + x, k)


def array_walk(ctx, P):
    """iterators over an array (rows of a region, regions of a branch, sorted rows) step by one, report the element at their position, never one behind the last, and no element only at the end"""
    it = atom(('arg', 0))

    def element(fl, call, arr, pos, x):
        e = [e for e in asked(fl, call) if same(e.a[0], arr) and same(e.a[-1], pos) and same(e.r, x)]
        return bool(e)
    # rows of a region
    for n in ('region_iterator_next', 'region_iterator_open'):
        v, fs = flows(P, n, keep=['region_row', 'region_iterator_search'], model={'region_iterator_search': lambda fl, e: fl.forget(e.a[2])})
        for p, fl in fs:
            s, at = St(P, fl, it, 'RegionIterator'), p.insts[-1]
            cur, pos = s.new('current'), s.new('pos')
            reg = s.new('region')
            rows = fl.load(fld(P, reg, 'Region.rows'))
            r = ending(v, p, fl)
            if n.endswith('next'):
                if zero(fl, s.old('current')) is True:
                    ctx.ob('array.end', n, s.kept('current'), 'an iterator at its end moves', at=at)
                    continue
                want = add(s.old('pos'), num(1))
                ok = s.kept('region', 'keys')
            else:
                k = atom(('arg', 3))
                g = asked(fl, 'region_iterator_search')
                ok = same(reg, atom(('arg', 1))) and same(s.new('keys'), atom(('arg', 2)))
                if zero(fl, rows) is True:
                    ctx.ob('array.end', n, ok and const(cur) == 0 and const(r) == 0, 'an empty region has rows', at=at)
                    continue
                if g:
                    ok = ok and len(g) == 1 and same(g[0].a[0], it) and same(g[0].a[1], k)
                    want = g[0].r
                    m = got(fl, g[0].a[2])
                    ok = ok and (same(r, m) or zero(fl, m) is not None and const(r) == 1 - zero(fl, m))
                else:
                    ok = ok and zero(fl, k) is True and const(r) == 0
                    want = {}
            if const(cur) == 0:
                ok = ok and (le(fl, rows, want) or le(fl, want, {}, 1))
                ctx.ob('array.end', n, ok, 'the end is reported though elements follow', at=at)
            else:
                ok = ok and same(pos, want) and element(fl, 'region_row', reg, want, cur) and (le(fl, want, rows, 1) or not want and zero(fl, rows) is False)
                ctx.ob('array.step', n, ok, 'the element reported is not the next one, or lies behind the last', at=at)
    # regions of a branch
    for n in ('meta_iterator_next', 'meta_iterator_open'):
        v, fs = flows(P, n, keep=['meta_region', 'meta_iterator_search'])
        for p, fl in fs:
            s, at = St(P, fl, it, 'MetaIterator'), p.insts[-1]
            cur, pos, meta = s.new('current'), s.new('pos'), s.new('meta')
            regions = fl.load(fld(P, meta, 'Meta.regions'))
            if n.endswith('next'):
                want, ok = add(s.old('pos'), num(1)), s.kept('meta', 'meta_data', 'keys')
            else:
                ok = same(meta, atom(('arg', 1))) and same(s.new('meta_data'), atom(('arg', 2))) and same(s.new('keys'), atom(('arg', 3)))
                k = atom(('arg', 4))
                g = asked(fl, 'meta_iterator_search')
                want = {}
                if zero(fl, meta) is True or zero(fl, regions) is True:
                    ctx.ob('array.end', n, ok and const(cur) == 0, 'an empty branch has regions', at=at)
                    continue
                if g:
                    # the one found, or the one after it if all its rows are less
                    x = g[0].r
                    c = [e for e in fl.calls if e.f == 'compare' and same(e.a[2], k)]
                    ok = ok and len(g) == 1 and same(g[0].a[0], it) and same(g[0].a[1], k) and len(c) == 1
                    ok = ok and maximum(P, fl, c[0].a[1], [e.r for e in asked(fl, 'meta_region', meta) if same(e.a[2], x)])
                    if ok:
                        less = says(fl, c[0].r, ('slt',)) or le(fl, c[0].r, {}, 1)
                        ok = less or le(fl, {}, c[0].r)
                        want = add(x, num(1)) if less else x
                else:
                    ok = ok and zero(fl, k) is True
            if const(cur) == 0:
                ok = ok and le(fl, regions, want)
                ctx.ob('array.end', n, ok, 'the end is reported though elements follow', at=at)
            else:
                ok = ok and same(pos, want) and element(fl, 'meta_region', meta, want, cur) and (le(fl, want, regions, 1) or not want and zero(fl, regions) is False)
                ctx.ob('array.step', n, ok, 'the element reported is not the next one, or lies behind the last', at=at)
    # sorted rows
    for n in ('heap_index_iterator_next', 'heap_index_iterator_open'):
        v, fs = flows(P, n)
        for p, fl in fs:
            s, at = St(P, fl, it, 'HeapIndexIterator'), p.insts[-1]
            cur = s.new('current')
            if n.endswith('next'):
                if zero(fl, s.old('current')) is True:
                    ctx.ob('array.end', n, s.kept('current'), 'an iterator at its end moves', at=at)
                    continue
                want, end = add(s.old('current'), num(8)), s.old('end')
                ok = s.kept('end')
                if const(cur) == 0:
                    ctx.ob('array.end', n, ok and le(fl, end, want), 'the end is reported though elements follow', at=at)
                else:
                    ctx.ob('array.step', n, ok and same(cur, want) and le(fl, want, end, 1), 'the element reported is not the next one, or lies behind the last', at=at)
                continue
            b, e = [atom(('init', key(fld(P, atom(('arg', 1)), 'Buf.' + f)))) for f in ('start', 'position')]
            if s.kept('current'):
                ctx.ob('array.end', n, same(b, e) or says(fl, add(b, e, -1), ('eq',)) or says(fl, add(e, b, -1), ('eq',)), 'the end is reported though elements follow', at=at)
            else:
                ctx.ob('array.step', n, same(cur, b) and same(s.new('end'), e), 'the iterator does not start with the first element, or ends elsewhere', at=at)
    for x, k in (('end', 9), ('step', 7)):
        ctx.floor('array.' + x, k)


def maximum(P, fl, x, regions):
    """x is the greatest key of one of these regions"""
    o = offset_of(P, 'MetaRegion', 'data')[0]
    for r in regions:
        if same(x, add(add(r, num(o)), fl.load(fld(P, r, 'MetaRegion.size_min')))):
            return True
    return False


def search(ctx, P):
    """a search of sorted rows drops the half the row cannot be in, and reports the first row that is not less than the key"""
    for n, call in (('tree_search', None), ('region_iterator_search', 'region_row'), ('meta_iterator_search', 'meta_region')):
        v = core_load([n], ASKS + ['region_row', 'meta_region'], [], False).view(n)
        drops = {}
        for p in seg.segments(v, noexc):
            fl = Flow(p, P, pure=READS)
            c = [e for e in fl.calls if e.f == 'compare']
            if not c or fl.torn():
                continue
            at = p.insts[-1]
            mid = middle(P, fl, c[0], call)
            rc = c[0].r
            less, more, eq = le(fl, rc, {}, 1), le(fl, {}, rc, 1), zero(fl, rc) is True
            nless = le(fl, {}, rc)
            ok = len(c) == 1 and mid is not None
            if ok and p.cut is None:
                # the row itself
                ok = eq and same(ending(v, p, fl), mid)
                ctx.ob('search.found', n, ok, 'a row that is not the one searched is reported', at=at)
                continue
            if ok:
                a = seg.arrive(fl, p)
                hi = {k: x for k, x in a.items() if k in ends(v, p.cut)}
                up = [k for k, x in hi.items() if same(x, add(mid, num(1)))]
                dn = [k for k, x in hi.items() if same(x, add(mid, num(-1)))]
                dm = [k for k, x in hi.items() if same(x, mid)]
                if less:
                    ok = len(up) == 1 and not dn and not dm
                    drops.setdefault('up', set()).update(up)
                elif more or nless:
                    ok = not up and (len(dn) == 1 and not dm and more or len(dm) == 1 and not dn)
                    drops.setdefault('down', set()).update(dn + dm)
                else:
                    ok = False
            ctx.ob('search.half', n, ok, 'the half the row may be in is dropped, or nothing is', at=at)
        u, d = drops.get('up', set()), drops.get('down', set())
        ctx.ob('search.ends', n, len(u) == 1 and len(d) == 1 and u != d, 'both ends of the range are not moved each in its own direction', at=v.blocks[0][0])
        for p in seg.segments(v, noexc):
            fl = Flow(p, P, pure=READS)
            if p.cut is None and not any(e.f == 'compare' for e in fl.calls) and not fl.torn() and p.end() == 'ret':
                r = ending(v, p, fl)
                low = [atom(('phi', k)) for k in u]
                hi = [atom(('phi', k)) for k in d]
                # clamped to the last element: greater than that is known
                ok = bool(low) and (same(r, low[0]) or says(fl, add(low[0], hi[0], -1), ('eq',)) and same(r, hi[0]) or call == 'meta_region' and any(le(fl, add(r, num(1)), x) for x in low + hi))
                ctx.ob('search.place', n, ok, 'the place reported is not the first row that is not less', at=p.insts[-1])
    for x, k in (('found', 2), ('half', 6), ('ends', 3), ('place', 3)):
        ctx.floor('search.' + x, k)


def ends(v, cut):
    return [i.id for i in v.blocks[cut] if i.op == 'phi']


def middle(P, fl, c, call):
    """the index of the row that is compared"""
    x = c.a[1]
    if call == 'region_row':
        e = [e for e in fl.calls if e.f == call and same(e.r, x)]
        return e[0].a[1] if e else None
    if call == 'meta_region':
        for e in fl.calls:
            if e.f == call and maximum(P, fl, x, [e.r]):
                return e.a[2]
        return None
    for n, a, s, i in fl.loads:
        if same(fl.load(a), x):
            d = add(a, add(atom(('arg', 1)), num(offset_of(P, 'TreePage', 'rows')[0])), -1)
            if all(k % 8 == 0 for k in d.values()):
                return {k: q // 8 for k, q in d.items()}
    return None


# ---- results of comparisons

RAW = ('memcmp', 'strcmp', 'strncmp', 'strcasecmp', 'strncasecmp', 'bcmp')
ROOTS = ['tree_upsert', 'tree_get', 'tree_delete_by', 'tree_replace', 'index_tree_merge_step', 'merge_iterator_next', 'region_iterator_open', 'meta_iterator_open']


def carried(f, names):
    """the values of a function that are the result of a comparison"""
    t, grow = set(), True
    while grow:
        grow = False
        for i in f.insts():
            if i.id is None or i.id in t:
                continue
            v = lambda o: o[0] == 'v' and o[1] in t
            if i.op == 'call' and i.callee in names:
                t.add(i.id)
            elif i.op == 'phi' and any(v(x) for x, _ in i.d['in']):
                t.add(i.id)
            elif i.op == 'select' and any(v(x) for x in i.args[1:]):
                t.add(i.id)
            elif i.op in ('sext', 'trunc', 'freeze') and v(i.args[0]):
                t.add(i.id)
            elif i.op == 'sub' and i.args[0] == ['c', 0] and v(i.args[1]):
                t.add(i.id)
            else:
                continue
            grow = True
    return t


def sign(ctx, P):
    """the result of a comparison says less, equal or greater by its sign only: it is never compared with 1 or -1 and never switched over (text is compared by memcmp, which reports any number)"""
    names = set(RAW)
    while True:
        new = set()
        for f in P.fn.values():
            if f.name in names or f.ret not in ('i32', 'i64'):
                continue
            t = carried(f, names)
            if any(i.op == 'ret' and i.args and i.args[0][0] == 'v' and i.args[0][1] in t for i in f.insts()):
                new.add(f.name)
        if not new:
            break
        names |= new
    ctx.ob('sign.compare', 'compare', 'compare' in names, 'compare no longer reports what memcmp reports')
    vs = []
    for n in ROOTS:
        vs.append(core_load([n], ASKS, [], False).view(n))
    for f in list(P.fn.values()) + vs:
        t = carried(f, names)
        if not t:
            continue
        v = lambda o: o[0] == 'v' and o[1] in t
        for i in f.insts():
            if i.op == 'switch' and v(i.d['c']):
                ctx.ob('sign.switch', f.name, all(k == 0 for k, b in i.d['cs']), 'what a comparison reports is switched over', at=i)
            elif i.op == 'icmp' and any(v(x) for x in i.args):
                o = [x for x in i.args if not v(x)]
                ok, p = True, i.d['p']
                if o:
                    k = o[0][1] if o[0][0] == 'c' else 0 if o[0][0] == 'n' else None
                    if k is not None and k >= 1 << 31:
                        k -= 1 << 32
                    if v(i.args[1]):
                        p = {'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle'}.get(p, p)
                    ok = k == 0 and p in ('eq', 'ne', 'slt', 'sgt', 'sle', 'sge') or (p, k) in (('slt', 1), ('sgt', -1), ('sge', 1), ('sle', -1))
                ctx.ob('sign.used', f.name, ok, 'what a comparison reports is used for more than its sign', at=i)
    ctx.floor('sign.used', 60)


# ---- merging

def merge(ctx, P):
    """a merge reports the least row of all its sources, steps every source that holds an equal row, asks each source that remains and none behind the last"""
    me = atom(('arg', 0))
    # tree index
    n = 'index_tree_merge_step'
    v, fs = flows(P, n, keep=['tree_iterator_next'])
    for p, fl in fs:
        s, at = St(P, fl, me, 'IndexTreeMerge'), p.insts[-1]
        cur = s.old('current_it')
        step = [e for e in fl.calls if e.f == 'tree_iterator_next']
        z = zero(fl, cur)
        ok = len(step) == (z is False) and all(same(e.a[0], cur) for e in step)
        ctx.ob('merge.step', n, ok, 'the source of the last row is not stepped, or another one is', at=at)
        base = got(fl, fld(P, s.addr('list'), 'Buf.start'))
        count = got(fl, s.addr('list_count'))
        its = []
        for nn, a, sz, i in fl.loads:
            x = add(a, base, -1)
            c = const(add(x, num(offset_of(P, 'TreeIterator', 'current')[0]), -1))
            if c is not None and c % stride(P, 'TreeIterator') == 0 and c // stride(P, 'TreeIterator') not in [k for k, _ in its]:
                its.append((c // stride(P, 'TreeIterator'), fl.load(a)))
        least(ctx, P, fl, n, at, base, stride(P, 'TreeIterator'), count, its, s.new('current_it'), None)
    # any iterators
    n = 'merge_iterator_next'
    v, fs = flows(P, n)
    st, oi, oa = stride(P, 'MergeIteratorRef'), offset_of(P, 'MergeIteratorRef', 'it')[0], offset_of(P, 'MergeIteratorRef', 'advance')[0]
    for p, fl in fs:
        s, at = St(P, fl, me, 'MergeIterator'), p.insts[-1]
        base = atom(('init', key(fld(P, s.addr('list'), 'Buf.start'))))
        count = s.old('list_count')
        ref = lambda k: add(base, num(k * st))
        its = [atom(('init', key(add(ref(k), num(oi))))) for k in range(4)]
        stepped, asks, ok = [], [], True
        for e in fl.calls:
            w = slot(v, e.i)
            if w in ('Iterator.next', 'Iterator.at'):
                k = [k for k in range(4) if same(its[k], e.a[0])]
                ok = ok and len(k) == 1
                if not k:
                    continue
                if w.endswith('at'):
                    asks.append((k[0], e.r, e.n))
                else:
                    stepped.append((k[0], e.n))
        ctx.ob('merge.own', n, ok, 'something that is not a source of the merge is asked', at=at)
        m = len(asks)
        flag = [atom(('init', key(add(ref(k), num(oa))))) for k in range(4)]
        ok = sorted(k for k, _ in stepped) == [k for k in range(m) if cutzero(fl, flag[k]) is False]
        ok = ok and all(cutzero(fl, flag[k]) is not None for k in range(m)) and (not stepped or not asks or max(x for _, x in stepped) < min(x for _, _, x in asks))
        ctx.ob('merge.step', n, ok, 'a source of the last row is not stepped, or another one is', at=at)
        now = fl.mem.get(key(s.addr('current')), {})
        least(ctx, P, fl, n, at, its, None, count, [(k, r) for k, r, _ in asks], now, None)
        # sources marked to be stepped: those whose row is equal to the one reported
        pick = [k for k, r, _ in asks if same(its[k], now)]
        rel = relation(fl, [(k, r) for k, r, _ in asks])
        ok = True
        for k, r, _ in asks:
            f = fl.mem.get(key(add(ref(k), num(oa))), flag[k])
            f = const(f) if const(f) is not None else 0 if cutzero(fl, f) is True else 1
            want = k in pick
            if pick and not want and zero(fl, r) is False:
                x = rel.get((pick[0], k))
                want = x is not None and zero(fl, x) is True
                if x is None:
                    # compared through the row that was the least before
                    want = any(zero(fl, rel.get((j, k), num(1))) is True and zero(fl, rel.get((pick[0], j), num(1))) is True for j, _, _ in asks)
            ok = ok and f == (1 if want else 0)
        ctx.ob('merge.equal', n, ok, 'a source is stepped whose row was not reported, or is not stepped though it was', at=at)
    # hash index
    n = 'index_hash_merge_next'
    v, fs = flows(P, n, keep=['hash_iterator_next'], visits=4)
    st, oc = stride(P, 'HashIterator'), offset_of(P, 'HashIterator', 'current')[0]
    for p, fl in fs:
        s, at = St(P, fl, me, 'IndexHashMerge'), p.insts[-1]
        base = atom(('init', key(fld(P, s.addr('list'), 'Buf.start'))))
        count, order, cur = s.old('list_count'), s.old('current_it_order'), s.old('current_it')
        step = [e for e in fl.calls if e.f == 'hash_iterator_next']
        if zero(fl, cur) is True:
            ctx.ob('merge.step', n, not step and s.kept('current_it'), 'a merge at its end moves', at=at)
            continue
        ctx.ob('merge.step', n, len(step) == 1 and same(step[0].a[0], cur), 'the source of the last row is not stepped, or another one is', at=at)
        seen = []
        for nn, a, sz, i in fl.loads:
            x = add(a, add(base, num(oc)), -1)
            if x.get(one(order)) == st and same(add(x, scale(order, st), -1), num(const(add(x, scale(order, st), -1)) or 0)):
                c = const(add(x, scale(order, st), -1))
                if c % st == 0 and c // st not in [k for k, _ in seen]:
                    seen.append((c // st, fl.load(a)))
        mine = fl.load(add(cur, num(oc)))
        if zero(fl, mine) is False:
            ctx.ob('merge.all', n, not seen and s.kept('current_it', 'current_it_order'), 'a source that has rows is left', at=at)
            continue
        ok = zero(fl, mine) is True and [k for k, _ in seen] == list(range(1, len(seen) + 1)) and all(le(fl, add(order, num(k)), count, 1) for k, _ in seen)
        new = s.new('current_it')
        if const(new) == 0:
            ok = ok and all(zero(fl, r) is True for _, r in seen) and le(fl, count, add(order, num(len(seen) + 1)))
        else:
            k = len(seen)
            ok = ok and k and all(zero(fl, r) is True for _, r in seen[:-1]) and zero(fl, seen[-1][1]) is False and same(new, add(base, scale(add(order, num(k)), st))) and same(s.new('current_it_order'), add(order, num(k)))
        ctx.ob('merge.all', n, ok, 'a source is left out, or one behind the last is asked', at=at)
    for n, ty, sub, f in (('index_hash_merge_open', 'IndexHashMerge', 'HashIterator', 'hash_iterator_open'), ('index_tree_merge_open', 'IndexTreeMerge', 'TreeIterator', 'tree_iterator_open')):
        v, fs = flows(P, n, keep=[f, 'index_tree_merge_step'])
        st = stride(P, sub)
        for p, fl in fs:
            s, at = St(P, fl, me, ty), p.insts[-1]
            base = atom(('init', key(fld(P, s.addr('list'), 'Buf.start'))))
            if zero(fl, base) is True:
                continue
            o = [e for e in fl.calls if e.f == f]
            k = len(o)
            ok = all(same(e.a[0], add(base, num(j * st))) and same(e.a[1], atom(('arg', 1))) for j, e in enumerate(o)) and le(fl, s.old('list_count'), num(k)) and (not k or le(fl, num(k), s.old('list_count')))
            ctx.ob('merge.open', n, ok, 'a source is not opened with the key, or one behind the last is', at=at)
            r = ending(v, p, fl)
            if ty == 'IndexTreeMerge':
                g = asked(fl, 'index_tree_merge_step', me)
                ok = len(g) == 1 and all(e.n < g[0].n for e in o) and const(r) == int(any(zero(fl, e.r) is False for e in o))
                ctx.ob('merge.begin', n, ok, 'the merge does not begin at its first row, or reports a match no source has', at=at)
            else:
                cur = s.new('current_it')
                have = [zero(fl, got(fl, add(base, num(j * st + oc)))) for j in range(k)]
                was = zero(fl, s.old('current_it'))
                if was is not False:
                    first = next((j for j in range(k) if have[j] is False), None)
                    ok = have[:first] == [True] * len(have[:first]) if first is not None else all(x is True for x in have)
                    ok = ok and (same(cur, add(base, num(first * st))) and const(s.new('current_it_order')) == first if first is not None else s.kept('current_it'))
                    ctx.ob('merge.begin', n, ok, 'the merge does not begin at the first row of its first source that has one', at=at)
    for x, k in (('step', 10), ('all', 10), ('least', 10), ('own', 10), ('equal', 10), ('open', 4), ('begin', 4)):
        ctx.floor('merge.' + x, k)


def cutzero(fl, x):
    """a flag known to be set or not, in any width"""
    z = zero(fl, x)
    if z is not None:
        return z
    for f in fl.facts:
        if f[1] in ('eq', 'ne'):
            a = one(f[2])
            if a and a[0] == 'cut' and a[2] == key(x) or a and a[0] == 'bin' and a[1] == 'and' and a[2] == key(x):
                return f[1] == 'eq'
    return None


def slot(v, i):
    """the field a function is called through"""
    f = i.d.get('f')
    return leaf_field(v.term(f)) if isinstance(f, list) and not i.callee else None


def relation(fl, rows):
    rel = {}
    for e in fl.calls:
        if e.f == 'compare':
            for a, ra in rows:
                for b, rb in rows:
                    if a != b and same(e.a[1], ra) and same(e.a[2], rb):
                        rel[a, b] = e.r
                        rel[b, a] = scale(e.r, -1)
    return rel


def stride(P, ty):
    s = P.structs[ty]
    return s.get('size') or s['s']


def least(ctx, P, fl, n, at, base, st, count, its, chosen, adv):
    """its: [(place in the list, row)]"""
    ok = [k for k, _ in its] == list(range(len(its))) and le(fl, count, num(len(its))) and all(le(fl, num(k), count, 1) for k, _ in its)
    ctx.ob('merge.all', n, ok, 'a source is left out, or one behind the last is asked', at=at)
    rows = [(k, r) for k, r in its if zero(fl, r) is False]
    if any(zero(fl, r) is None for _, r in its):
        ctx.ob('merge.least', n, False, 'a source is not asked whether it has a row', at=at)
        return
    if not rows:
        ctx.ob('merge.least', n, const(chosen) == 0, 'a row is reported though no source has one', at=at)
        return
    place = (lambda k: base[k]) if st is None else lambda k: add(base, num(k * st))
    pick = [(k, r) for k, r in rows if same(place(k), chosen)]
    rel = relation(fl, rows)
    ok = len(pick) == 1
    if ok:
        k, r = pick[0]
        # by one comparison, or through a row in between
        less = lambda a, b: a == b or (a, b) in rel and le(fl, rel[a, b], {})
        ok = all(any(less(k, j) and less(j, b) for j, _ in rows) for b, _ in rows)
    ctx.ob('merge.least', n, ok, 'the row reported is not the least one', at=at)


# ---- both tables of a hash index

def started(P):
    def h(fl, e):
        me = e.a[0]
        now = fl.load(fld(P, me, 'Hash.current'))
        fl.store(fld(P, me, 'Hash.prev'), now)
        fl.store(fld(P, me, 'Hash.current'), fl.new('store'))
        fl.store(fld(P, me, 'Hash.rehashing'), num(1))
        fl.store(fld(P, me, 'Hash.rehashing_pos'), {})
    return h


def moved(P):
    def h(fl, e):
        for f in ('prev', 'rehashing', 'rehashing_pos'):
            fl.store(fld(P, e.a[0], 'Hash.' + f), fl.new('moved'))
    return h


def lookedup(fl, e):
    if not hasattr(fl, 'places'):
        fl.places = {}
    fl.places[e.n] = fl.new('place')
    fl.store(e.a[2], fl.places[e.n])


def tables(ctx, P):
    """while rows are being moved a key is looked for in both tables and is in one of them only; the position reported is one of the table in use; a table that is full is moved to a larger one; each step moves one row and the old table goes only when all of it was moved"""
    me, k = atom(('arg', 0)), atom(('arg', 1))
    KEEP = ['hash_store_set', 'hash_store_get', 'hash_store_delete', 'hash_rehash', 'hash_rehash_start']
    MODEL = {'hash_rehash_start': started(P), 'hash_rehash': moved(P), 'hash_store_get': lookedup, 'hash_store_set': lambda fl, e: fl.forget(e.a[0]), 'hash_store_delete': lambda fl, e: fl.forget(e.a[0])}
    for n in ('hash_set', 'hash_delete', 'hash_get_or_set'):
        v, fs = flows(P, n, keep=KEEP, model=MODEL)
        for p, fl in fs:
            s, at = St(P, fl, me, 'Hash'), p.insts[-1]
            c = [e for e in fl.calls if e.f in KEEP]
            moving = zero(fl, s.old('rehashing')) is False
            start = [e for e in c if e.f == 'hash_rehash_start']
            ok = len(start) <= 1 and not (start and zero(fl, s.old('rehashing')) is not True)
            ctx.ob('tables.start', n, ok, 'moving rows is started while rows are being moved', at=at)
            asks = [e for e in c if e.f.startswith('hash_store_')]
            both = moving or bool(start and asks and start[0].n < asks[0].n)
            if both and start and any(e.f == 'hash_rehash' for e in c if asks and start[0].n < e.n < asks[0].n):
                both = zero(fl, s.new('rehashing')) is not True
            cur = s.old('current') if not (start and asks and start[0].n < asks[0].n) else s.new('current')
            prev = s.old('prev') if moving else s.old('current')
            w = {'hash_set': ('hash_store_set', 'hash_store_delete'), 'hash_delete': ('hash_store_delete', 'hash_store_delete'), 'hash_get_or_set': ('hash_store_get', 'hash_store_get')}[n]
            r = ending(v, p, fl)
            ok = 1 <= len(asks) <= 2 and all(e.f == f and same(e.a[0], t) and same(e.a[1], k) for e, f, t in zip(asks, w, (cur, prev)))
            if ok:
                first = zero(fl, asks[0].r)
                ok = len(asks) == (2 if both and first is not False else 1)
            ctx.ob('tables.both', n, ok, 'a key is not looked for in both tables, or in another one', at=at)
            if not ok:
                continue
            hit = asks[0] if first is False else asks[-1]
            if n != 'hash_get_or_set':
                ctx.ob('tables.found', n, same(r, hit.r) or len(asks) == 1 and first is True and const(r) == 0, 'the row found is not the one reported', at=at)
            else:
                place = [got_at(fl, e) for e in asks]
                ctx.ob('tables.place', n, same(fl.mem.get(key(atom(('arg', 2))), {}), place[0]) and not [e for e in start if e.n > asks[0].n], 'the position reported is not one of the table in use', at=at)
                wr = slots_written(P, fl)
                z = zero(fl, hit.r)
                cc, pc = [counted(P, fl, t) for t in (cur, prev)]
                if first is False:
                    ok = not wr and cc == 0 and const(r) == 1
                elif len(asks) == 2 and z is False:
                    ok = len(wr) == 2 and written(P, fl, wr, cur, place[0], hit.r) and written(P, fl, wr, prev, place[1], num(DELETED)) and cc == 1 and pc == -1 and const(r) == 1
                else:
                    ok = z is True and len(wr) == 1 and written(P, fl, wr, cur, place[0], k) and cc == 1 and const(r) == 0
                ctx.ob('tables.moved', n, ok, 'the row is not at the position reported, is in both tables, or rows are counted wrong', at=at)
            if n != 'hash_delete' and not both and zero(fl, hit.r) is True and not start:
                ok = any(f[1] in ('ule', 'ult') and full(P, fl, cur, f[2]) or f[1] in ('uge', 'ugt') and full(P, fl, cur, scale(f[2], -1)) for f in fl.facts)
                ctx.ob('tables.full', n, ok, 'a table is filled without being moved to a larger one', at=at)
    n = 'hash_rehash_start'
    v, fs = flows(P, n, keep=['hash_store_create'])
    for p, fl in fs:
        s, at = St(P, fl, me, 'Hash'), p.insts[-1]
        c = asked(fl, 'hash_store_create')
        a, b = fld(P, me, 'Hash.a'), fld(P, me, 'Hash.b')
        size = fl.load(fld(P, s.old('current'), 'HashStore.size'))
        ok = len(c) == 1 and same(s.new('prev'), s.old('current')) and const(s.new('rehashing')) == 1 and const(s.new('rehashing_pos')) == 0 and same(s.new('current'), c[0].a[0]) if c else False
        if ok:
            x = one(c[0].a[0])
            if x and x[0] == 'sel':
                cond = one(unkey(x[1]))
                t, f = unkey(x[2]), unkey(x[3])
                is_a = cond and cond[0] == 'cmp' and {cond[2], cond[3]} == {key(s.old('current')), key(a)}
                ok = bool(is_a) and (same(t, b) and same(f, a) if cond[1] == 'eq' else same(t, a) and same(f, b))
            else:
                ia = says(fl, add(s.old('current'), a, -1), ('eq',))
                na = says(fl, add(s.old('current'), a, -1), ('ne',))
                ok = same(c[0].a[0], b) and ia or same(c[0].a[0], a) and na
            ok = ok and grows(c[0].a[2], size)
        ctx.ob('tables.begin', n, ok, 'rows are not moved to the other table, larger than the one in use', at=at)
    n = 'hash_rehash'
    v, fs = flows(P, n, keep=['hash_store_set', 'hash_store_free'], visits=4, model={'hash_store_set': lambda fl, e: fl.forget(e.a[0])})
    for p, fl in fs:
        s, at = St(P, fl, me, 'Hash'), p.insts[-1]
        b = Probe2(P, fl, s.old('prev'))
        pos, r = s.old('rehashing_pos'), ending(v, p, fl)
        xs = [x for x, _ in b.slots]
        ok = all(same(x, add(pos, num(j))) for j, x in enumerate(xs)) and all(le(fl, x, b.size, 1) or True for x in xs)
        kinds = [b.kind(w) for _, w in b.slots]
        sets = asked(fl, 'hash_store_set')
        gone = asked(fl, 'hash_store_free')
        if gone:
            ok = ok and not sets and all(x in ('none', 'deleted') for x in kinds) and unsigned_le(fl, b.size, add(pos, num(len(xs)))) and same(gone[0].a[0], s.old('prev')) and const(s.new('rehashing')) == 0 and const(r) == 0
            ctx.ob('tables.done', n, ok, 'the old table goes before all of its rows were moved, or is still asked afterwards', at=at)
        else:
            w = b.slots[-1][1] if xs else {}
            wr = slots_written(P, fl)
            ok = ok and bool(xs) and kinds[-1] == 'row' and all(x in ('none', 'deleted') for x in kinds[:-1])
            ok = ok and len(sets) == 1 and same(sets[0].a[0], s.old('current')) and same(sets[0].a[1], w)
            ok = ok and written(P, fl, wr, s.old('prev'), xs[-1], num(DELETED)) and counted(P, fl, s.old('prev')) == -1 and same(s.new('rehashing_pos'), add(xs[-1], num(1))) and s.kept('rehashing', 'current', 'prev')
            ctx.ob('tables.row', n, ok, 'a step does not move exactly the next row', at=at)
    for x, j in (('start', 8), ('both', 8), ('found', 5), ('place', 3), ('moved', 3), ('full', 1), ('begin', 1), ('row', 1), ('done', 1)):
        ctx.floor('tables.' + x, j)


def full(P, fl, store, x):
    """rows of a store minus a part of its slots"""
    size = one(atom(('init', key(fld(P, store, 'HashStore.size')))))
    part = [c for a, c in x.items() if a and (a == size or a[0] == 'bin' and a[1] in ('udiv', 'lshr') and a[2] == key(atom(size)) and (const(unkey(a[3])) or 0) >= 1)]
    return part == [-1] and any(c == 1 for a, c in x.items() if a is not None)


class Probe2(Probe):
    """the slots of a store that a path looks at, in order"""
    def __init__(self, P, fl, store):
        self.fl = fl
        self.base = fl.load(fld(P, store, 'HashStore.rows'))
        self.size = fl.load(fld(P, store, 'HashStore.size'))
        self.slots = []
        seen = set()
        for n, a, s, i in fl.loads:
            x = self.index(a)
            if x is not None and key(x) not in seen:
                seen.add(key(x))
                self.slots.append((x, atom(('init', key(a)))))


def unsigned_le(fl, x, y):
    return le(fl, x, y) or any(f[1] in ('uge', 'ugt') and same(f[2], add(y, x, -1)) or f[1] in ('ule', 'ult') and same(f[2], add(x, y, -1)) for f in fl.facts)


def grows(x, size):
    """more slots than before: twice as many at least"""
    k = one(size)
    return k is not None and x.get(k, 0) >= 2 and all(q is None or q == k for q in x) and x.get(None, 0) >= 0


def got_at(fl, e):
    """the position a lookup reported"""
    return fl.places.get(e.n) if hasattr(fl, 'places') else None


def slots_written(P, fl):
    out = []
    for n, a, s, x, i in fl.stores:
        t = strip_cast(fl.v.term(i.args[1])) if i.op == 'store' else ('',)
        if t[0] == 'index' and leaf_field(t[1]) == 'HashStore.rows':
            out.append((a, x))
    return out


def written(P, fl, wr, store, place, row):
    rows = [fl.load(fld(P, store, 'HashStore.rows'))] + [atom(('init', key(fld(P, store, 'HashStore.rows'))))]
    return place is not None and any(same(a, add(b, scale(place, 8))) and same(x, row) for a, x in wr for b in rows)


def counted(P, fl, store):
    """by how much the number of rows of a store is changed"""
    c = fld(P, store, 'HashStore.count')
    d = 0
    for n, a, s, x, i in fl.stores:
        if same(a, c):
            r = {k: q for k, q in x.items() if k is not None}
            if len(r) != 1 or list(r.values()) != [1]:
                return None
            d = x.get(None, 0) if d == 0 else d + 99
    return d


# ---- tree

class Pages(Flow):
    """moving rows of a page leaves its other fields"""
    def forget(self, a, size=256):
        o = offset_of(self.P, 'TreePage', 'rows')[0]
        if any(s[1] is not None and key(s[1]) == key(a) for s in self.stores[-1:]) and a.get(None, 0) % 8 == 0 and (len([k for k in a if k is not None]) > 1 or a.get(None, 0) >= o):
            for k in [k for k in self.mem if self.row(unkey(k))]:
                del self.mem[k]
            return
        Flow.forget(self, a, size)

    def row(self, a):
        return any(c == 8 for k, c in a.items() if k is not None)


def pflows(P, n, keep=(), model=None, visits=2):
    v = core_load([n], ASKS + list(keep), [], False).view(n)
    r = []
    for p in paths(v, edge=noexc, visits=visits):
        if p.end() == 'ret':
            fl = Pages(p, P, model=model, pure=READS + ('tree_allocate', 'am_free', 'rbtree_set', 'rbtree_remove'))
            if not fl.torn() and not wrapped(fl):
                r.append((p, fl))
    return v, r


def matched(fl, e):
    """tree_search reports a place, and sets the flag if the row is there"""
    fl.store(e.a[3], fl.new('match'))
    fl.match = fl.load(e.a[3])


def pages(ctx, P):
    """a row is added to the page and the place the search names, the rows behind it moved up; a full page is split so that no row is lost; a row is removed from where it was found, the rows behind it moved down, and a page goes when its last row does"""
    me, key_ = atom(('arg', 0)), None
    M = {'tree_search': matched}
    kc = lambda fl, pg: fl.load(fld(P, pg, 'TreePage.keys_count'))
    rows = lambda pg, x: kept_rows(P, pg, x)
    # tree_upsert
    n = 'tree_upsert'
    v, fs = pflows(P, n, keep=['tree_search', 'tree_allocate'], model=M)
    po, k = atom(('arg', 1)), atom(('arg', 2))
    for p, fl in fs:
        s, w, at = St(P, fl, me, 'Tree'), St(P, fl, po, 'TreePos'), p.insts[-1]
        g = [e for e in fl.calls if e.f == 'tree_search']
        alloc = [e for e in fl.calls if e.f == 'tree_allocate']
        if any(zero(fl, e.r) is True for e in alloc):
            continue
        r = ending(v, p, fl)
        count = const(add(s.new('count'), s.old('count'), -1))
        cpages = const(add(s.new('count_pages'), s.old('count_pages'), -1))
        pg, pos = w.new('page'), w.new('page_pos')
        moves = [(a, q, sz) for (nn, a, sz, x, i), q in ((t, src(fl, t)) for t in fl.stores) if x is None and (i.callee or '').startswith('llvm.mem')]
        if not g:
            ok = zero(fl, s.old('count_pages')) is True and len(alloc) == 1 and same(pg, alloc[0].r) and not pos and same(got(fl, rows(pg, {})), k) and const(r) == 0 and count == 1 and cpages == 1
            ok = ok and any(e.f == 'rbtree_set' and same(e.a[-1], fld(P, alloc[0].r, 'TreePage.node')) for e in fl.calls)
            ctx.ob('pages.first', n, ok, 'the first row of a tree is lost', at=at)
            continue
        e = g[0]
        z = zero(fl, fl.match)
        ok = len(g) == 1 and same(e.a[0], me) and same(e.a[2], k)
        if z is False:
            ok = ok and const(r) == 1 and count == 0 and not moves and not alloc and same(pg, e.a[1]) and same(pos, e.r)
            ctx.ob('pages.exists', n, ok, 'a row that exists is added again, or another place is reported', at=at)
            continue
        x = e.r
        if le(fl, x, {}, 1):
            x = {}
        ok = ok and z is True and const(r) == 0 and count == 1 and same(got(fl, rows(pg, pos)), k)
        l = e.a[1]
        was = atom(('init', key(fld(P, l, 'TreePage.keys_count'))))
        size, half = s.old('size_page'), s.old('size_split')
        if not alloc:
            ok = ok and same(pg, l) and same(pos, x) and cpages == 0 and says(fl, add(was, size, -1), ('ne', 'slt')) and same(kc(fl, l), add(was, num(1)))
            n0 = was
        else:
            rr = alloc[0].r
            ok = ok and len(alloc) == 1 and cpages == 1 and says(fl, add(was, size, -1), ('eq', 'sge'))
            cut = [(a, q, sz) for a, q, sz in moves if same(a, rows(rr, {}))]
            ok = ok and len(cut) == 1 and same(cut[0][1], rows(l, half)) and (same(cut[0][2], scale(add(size, half, -1), 8)) or same(cut[0][2], scale(add(was, half, -1), 8)))
            moves = [m for m in moves if m not in cut]
            ok = ok and any(c.f == 'rbtree_set' and same(c.a[-1], fld(P, rr, 'TreePage.node')) for c in fl.calls)
            if same(pg, rr):
                ok = ok and same(pos, add(x, half, -1)) and le(fl, half, x) and same(kc(fl, l), half) and (same(kc(fl, rr), add(add(size, half, -1), num(1))))
                n0 = add(size, half, -1)
            else:
                ok = ok and same(pg, l) and same(pos, x) and le(fl, x, half) and same(kc(fl, l), add(half, num(1))) and same(kc(fl, rr), add(size, half, -1))
                n0 = half
        ctx.ob('pages.add', n, ok, 'a row is not added at the place found for it, or rows are lost when a page is split', at=at)
        sh = add(n0, pos, -1)
        if moves:
            ok = len(moves) == 1 and same(moves[0][0], rows(pg, add(pos, num(1)))) and same(moves[0][1], rows(pg, pos)) and same(moves[0][2], scale(sh, 8))
        else:
            ok = le(fl, sh, {})
        ctx.ob('pages.shift', n, ok, 'the rows behind the one added are not moved up', at=at)
    # tree_delete
    n = 'tree_delete'
    v, fs = pflows(P, n)
    for p, fl in fs:
        s, w, at = St(P, fl, me, 'Tree'), St(P, fl, po, 'TreePos'), p.insts[-1]
        pg, pos = w.old('page'), w.old('page_pos')
        was = atom(('init', key(fld(P, pg, 'TreePage.keys_count'))))
        left = add(was, num(-1))
        count = const(add(s.new('count'), s.old('count'), -1))
        cpages = const(add(s.new('count_pages'), s.old('count_pages'), -1))
        moves = [(a, src(fl, t), sz) for t in fl.stores for nn, a, sz, x, i in [t] if x is None and (i.callee or '').startswith('llvm.mem')]
        gone = [e for e in fl.calls if e.f == 'rbtree_remove']
        a, nx = after(P, fl, pg)
        ok = count == -1 and same(fl.mem.get(key(fld(P, pg, 'TreePage.keys_count')), {}), left)
        if gone:
            ok = ok and zero(fl, left) is True and cpages == -1 and same(gone[0].a[-1], fld(P, pg, 'TreePage.node')) and not moves
        else:
            ok = ok and zero(fl, left) is False and cpages == 0
            sh = add(left, pos, -1)
            if moves:
                ok = ok and len(moves) == 1 and same(moves[0][0], rows(pg, pos)) and same(moves[0][1], rows(pg, add(pos, num(1)))) and same(moves[0][2], scale(sh, 8))
            else:
                ok = ok and le(fl, sh, {})
        ctx.ob('pages.remove', n, ok, 'a removed row stays, or another one is lost', at=at)
        if moves:
            ok = w.kept('page', 'page_pos')
        else:
            ok = a and const(w.new('page_pos')) == 0 and same(w.new('page'), nx if nx is not None else {'?': 1})
        ctx.ob('pages.follow', n, ok, 'the position is not that of the row that follows', at=at)
    # removal and replacement by key
    for n, keep in (('tree_delete_by', 'tree_delete'), ('tree_replace', 'tree_upsert')):
        def ups(fl, e):
            for f in ('page', 'page_pos'):
                fl.store(fld(P, e.a[1], 'TreePos.' + f), fl.new('at'))
        v, fs = pflows(P, n, keep=['tree_search', keep], model={'tree_search': matched, 'tree_upsert': ups})
        k = atom(('arg', 1))
        for p, fl in fs:
            at, r = p.insts[-1], ending(v, p, fl)
            if n == 'tree_replace':
                c = asked(fl, 'tree_upsert', me)
                ok = len(c) == 1 and same(c[0].a[2], k)
                if ok and zero(fl, c[0].r) is True:
                    ok = const(r) == 0
                elif ok:
                    pg, pos = [fl.load(fld(P, c[0].a[1], 'TreePos.' + f)) for f in ('page', 'page_pos')]
                    ok = same(r, atom(('init', key(rows(pg, pos))))) and same(got(fl, rows(pg, pos)), k) and zero(fl, c[0].r) is False
                ctx.ob('pages.replace', n, ok, 'the row with the key is not replaced, or not the one reported', at=at)
                continue
            g, d = [e for e in fl.calls if e.f == 'tree_search'], [e for e in fl.calls if e.f == 'tree_delete']
            if not g:
                ok = const(r) == 0 and not d and zero(fl, atom(('init', key(fld(P, me, 'Tree.count_pages'))))) is True
            elif zero(fl, fl.match) is True:
                ok = const(r) == 0 and not d
            else:
                e = g[0]
                ok = zero(fl, fl.match) is False and len(d) == 1 and same(e.a[2], k) and same(r, atom(('init', key(rows(e.a[1], e.r)))))
                was = {key(ad): x for nn, ad, sz, x, i in fl.stores if nn < d[0].n and x is not None} if d else {}
                ok = ok and same(was.get(key(fld(P, d[0].a[1], 'TreePos.page')), {}), e.a[1]) and same(was.get(key(fld(P, d[0].a[1], 'TreePos.page_pos')), {}), e.r)
            ctx.ob('pages.drop', n, ok, 'the row with the key is not the one removed, or not the one reported', at=at)
    # the page a key belongs to
    for n in ('tree_get', 'tree_upsert', 'tree_delete_by'):
        v = core_load([n], ASKS + ['tree_search', 'tree_allocate', 'tree_delete'], [], False).view(n)
        k = atom(('arg', 1 if n == 'tree_delete_by' else 2))
        node = offset_of(P, 'TreePage', 'node')[0]
        root = None
        for p in seg.segments(v, noexc):
            fl = Flow(p, P, pure=READS, model={'tree_search': matched})
            if fl.torn() or wrapped(fl):
                continue
            at = p.insts[-1]
            c = [e for e in fl.calls if e.f == 'compare' and same(e.a[2], k)]
            g = [e for e in fl.calls if e.f == 'tree_search']
            if c and p.blocks[0] != 0:
                # one step down
                pg = page_of(P, fl, c[0])
                ok = pg is not None and len(c) == 1
                if ok and p.cut is not None and p.cut == p.blocks[0]:
                    a = seg.arrive(fl, p)
                    nd = add(pg, num(node))
                    R, L = [fl.load(fld(P, nd, 'RbtreeNode.' + x)) for x in ('r', 'l')]
                    rc = c[0].r
                    less, more = le(fl, rc, {}, 1), le(fl, {}, rc, 1)
                    to = R if less else L if more else None
                    ok = to is not None and any(same(x, to) for x in a.values()) and not any(same(x, L if less else R) for x in a.values())
                    ctx.ob('pages.down', n, ok, 'the page is looked for on the wrong side', at=at)
                elif g:
                    ok = ok and zero(fl, c[0].r) is True and same(g[0].a[1], pg)
                    ctx.ob('pages.found', n, ok, 'a row is looked for in a page it does not belong to', at=at)
            elif g and p.blocks[0] != 0:
                # leaving the tree: the page before if the last one begins above the key
                ph = [i for i in v.blocks[p.blocks[0]] if i.op == 'phi']
                rel = [i for i in ph if any(says(fl, atom(('phi', i.id)), (x,)) for x in ('sgt', 'sle', 'slt', 'sge'))]
                pv = [e for e in fl.calls if e.f == 'rbtree_prev']
                ok = bool(rel)
                if ok:
                    rc = atom(('phi', rel[0].id))
                    pg = g[0].a[1]
                    if pv and zero(fl, pv[0].r) is False:
                        ok = le(fl, {}, rc, 1) and same(pg, add(pv[0].r, num(node), -1))
                    elif pv:
                        ok = le(fl, {}, rc, 1) and same(pg, add(pv[0].a[1], num(node), -1))
                    else:
                        ok = le(fl, rc, {}) and any(same(pg, add(atom(('phi', i.id)), num(node), -1)) for i in ph)
                ctx.ob('pages.found', n, ok, 'a row is looked for in a page it does not belong to', at=at)
    for x, j in (('first', 1), ('exists', 1), ('add', 3), ('shift', 5), ('remove', 3), ('follow', 3), ('replace', 2), ('drop', 3), ('down', 6), ('found', 9)):
        ctx.floor('pages.' + x, j)


def page_of(P, fl, c):
    """the page whose first row is compared"""
    for n, a, s, i in fl.loads:
        if same(fl.load(a), c.a[1]) or same(atom(('init', key(a))), c.a[1]):
            return add(a, num(offset_of(P, 'TreePage', 'rows')[0]), -1)
    return None


def src(fl, t):
    """where a move takes its rows from"""
    n, a, sz, x, i = t
    return fl.opd(i.args[1]) if i.op == 'call' else None


# ---- tables of functions

PARTS = {'IndexIf': None, 'Iterator': ('has', 'at', 'next', 'close')}


def interfaces(ctx, P):
    """every kind of index provides every operation and every kind of iterator has a test, a row and a step; a kind is made of functions of its own; an iterator that is asked through the interface at its end (merges do) reports no row there"""
    want = [f[0] for f in P.structs['IndexIf']['f']]
    kinds = {}
    for f in P.fn.values():
        for i in f.insts():
            if i.op != 'store':
                continue
            lf = leaf_field(f.term(i.args[1])) or ''
            st, _, m = lf.partition('.')
            if st in PARTS:
                x = strip_cast(f.term(i.args[0]))
                kinds.setdefault((f.name, st), {})[m] = (x[1] if x[0] == 'fn' else None, i)
    used = {}
    for (n, st), ms in sorted(kinds.items()):
        need = want if st == 'IndexIf' else PARTS[st]
        miss = [m for m in need if m not in ms or ms[m][0] is None and m != 'close']
        ctx.ob('interfaces.complete', n, not miss, 'a kind has no ' + ', '.join(miss), at=next(iter(ms.values()))[1])
        for m, (g, i) in ms.items():
            if g is None:
                continue
            sig = signature(P, g)
            used.setdefault((st, m), []).append((n, g, i, sig))
    for (st, m), us in used.items():
        # a function that serves one operation does not serve another
        for n, g, i, sig in us:
            other = [(a, b) for (a, b), vs in used.items() if a == st and b != m and any(v[1] == g for v in vs)]
            ctx.ob('interfaces.own', n + ':' + m, not other, '%s also serves %s' % (g, ', '.join(b for _, b in other)), at=i)
            twice = [v for v in us if v[1] == g and v[0] != n]
            ctx.ob('interfaces.kind', n + ':' + m, not twice, '%s is of another kind (%s)' % (g, ', '.join(v[0] for v in twice)), at=i)
            sigs = [v[3] for v in us]
            ctx.ob('interfaces.reports', n + ':' + m, sigs.count(sig) == len(sigs), '%s does not report what the same operation of the other kinds does' % g, at=i)
    ctx.floor('interfaces.complete', 10)
    ctx.floor('interfaces.own', 50)


def signature(P, g):
    f = P.fn.get(g)
    return None if f is None else (f.ret if f.ret != 'i1' else 'i1', len(f.params))


# ---- operations of the kinds

def inner(P, n, keep):
    """[(path, flow, calls of the functions kept)]"""
    v, fs = flows(P, n, keep=keep)
    return [(v, p, fl, [e for e in fl.calls if e.f in keep]) for p, fl in fs]


def operations(ctx, P):
    """each operation of each kind of index is the one of its table or tree, with the key it is given, and reports what that reports; has says whether at has a row"""
    for kind, sub, tab in (('tree', 'IndexTree', 'tree'), ('hash', 'IndexHash', 'hash')):
        t = offset_of(P, sub, tab)[0]
        itn = 'Index%sIterator' % kind.title()
        io = offset_of(P, itn, 'iterator')[0]
        me, k = atom(('arg', 0)), atom(('arg', 1))
        obj = add(me, num(t))
        for op, f, args in (('replace_by', {'tree': 'tree_replace', 'hash': 'hash_set'}[kind], [obj, k]),
                            ('delete_by', {'tree': 'tree_delete_by', 'hash': 'hash_delete'}[kind], [obj, k]),
                            ('replace', kind + '_iterator_replace', [add(atom(('arg', 2)), num(io)), k]),
                            ('delete', kind + '_iterator_delete', [add(k, num(io))])):
            n = 'index_%s_%s' % (kind, op)
            for v, p, fl, c in inner(P, n, [f]):
                ok = len(c) == 1 and all(same(x, y) for x, y in zip(c[0].a, args)) and same(ending(v, p, fl), c[0].r)
                ctx.ob('operations.same', n, ok, 'another row is changed, or another one is reported', at=p.insts[-1])
        n = 'index_%s_upsert' % kind
        f, g = {'tree': 'tree_upsert', 'hash': 'hash_get_or_set'}[kind], kind + '_iterator_open_at'
        for v, p, fl, c in inner(P, n, [f, g]):
            it = add(atom(('arg', 2)), num(io))
            ok = [e.f for e in c] == [f, g] and same(c[0].a[0], obj) and same(c[1].a[0], it)
            if ok:
                place = c[0].a[1] if kind == 'tree' else c[0].a[2]
                key_ = c[0].a[2] if kind == 'tree' else c[0].a[1]
                at_ = c[1].a[1]
                ok = same(key_, k) and (same(at_, place) if kind == 'tree' else same(at_, got(fl, place))) and same(ending(v, p, fl), c[0].r) 
            ctx.ob('operations.place', n, ok, 'the iterator is not put at the row added or found', at=p.insts[-1])
        for op in ('open', 'has', 'at', 'next'):
            n, f = 'index_%s_iterator_%s' % (kind, op), '%s_iterator_%s' % (kind, op)
            for v, p, fl, c in inner(P, n, [f]):
                ok = len(c) == 1 and same(c[0].a[0], add(me, num(io))) and (op != 'open' or same(c[0].a[1], k)) and (op == 'next' or same(ending(v, p, fl), c[0].r))
                ctx.ob('operations.iterator', n, ok, 'the iterator of an index does not do what the iterator of its table does', at=p.insts[-1])
        n, f = 'index_%s_iterator_merge' % kind, 'index_%s_merge_add' % kind
        for v, p, fl, c in inner(P, n, [f, 'index_%s_merge_allocate' % kind]):
            a = [e for e in c if e.f == f]
            new = [e for e in c if e.f != f]
            to = new[0].r if new else k
            ok = len(a) == 1 and same(a[0].a[0], to) and same(a[0].a[1], me) and same(ending(v, p, fl), to) and bool(new) == (zero(fl, k) is True)
            ctx.ob('operations.merge', n, ok, 'an index is not added to the merge it is given', at=p.insts[-1])
    # has and at agree
    for ty in ('tree_iterator', 'hash_iterator', 'region_iterator', 'heap_index_iterator', 'heap_iterator', 'merge_iterator', 'index_tree_merge', 'index_hash_merge', 'branch_iterator'):
        h, a = flows(P, ty + '_has')[1], flows(P, ty + '_at')[1]
        cond = set()
        for p, fl in h:
            r = fl.opd(p.insts[-1].args[0])
            x = one(r)
            if x and x[0] == 'cmp' and x[1] == 'ne' and x[3] == ():
                cond.add(x[2])
            else:
                cond.add(None)
        ok = len(cond) == 1 and None not in cond
        if ok:
            what = unkey(next(iter(cond)))
            if what == {}:
                ok = False
            for p, fl in a:
                r = ending(None, p, fl)
                # the field itself, or something reached through it
                ok = ok and (same(r, what) or const(r) == 0 and zero(fl, what) is True or mentions(r, one(what)) or any(same(e.r, r) and mentions(e.a[0], one(what)) for e in fl.calls if e.a))
        ctx.ob('operations.agree', ty, ok, 'an iterator says it has a row it does not report, or the other way round', at=h[0][0].insts[-1])
    for x, j in (('same', 8), ('place', 2), ('iterator', 8), ('merge', 4), ('agree', 9)):
        ctx.floor('operations.' + x, j)


def mentions(l, a):
    """the atom is part of a form"""
    def deep(x):
        if x == a:
            return True
        return isinstance(x, tuple) and any(deep(y) for y in x)
    return any(k is not None and deep(k) for k in l)


def branches(ctx, P):
    """a branch iterator opens the region the key belongs to with the key, goes through its rows, then opens each next region from its beginning, and ends only when no region is left"""
    me = atom(('arg', 0))
    ri, mi = [fld(P, me, 'BranchIterator.' + f) for f in ('region_iterator', 'meta_iterator')]
    KEEP = ['region_iterator_next', 'region_iterator_has', 'region_iterator_open', 'meta_iterator_next', 'meta_iterator_at', 'meta_iterator_open', 'reader_execute', 'reader_open']
    quiet = lambda fl, e: atom(('call', e.f, e.n))
    M = {f: quiet for f in KEEP + ['region_iterator_init', 'meta_iterator_init', 'region_iterator_reset']}
    n = 'branch_iterator_next'
    v, fs = flows(P, n, keep=KEEP + ['region_iterator_reset'], visits=3, model=M)
    for p, fl in fs:
        s, at = St(P, fl, me, 'BranchIterator'), p.insts[-1]
        c = [e for e in fl.calls if e.f in KEEP]
        if zero(fl, s.old('current')) is True:
            ctx.ob('branches.end', n, not c and s.kept('current'), 'an iterator at its end moves', at=at)
            continue
        ok = bool(c) and c[0].f == 'region_iterator_next' and same(c[0].a[0], ri)
        state, cur = 'rows', s.old('current')
        for e in c[1:]:
            if not ok:
                break
            if e.f == 'region_iterator_has' and state == 'rows':
                z = zero(fl, e.r)
                ok = z is not None and same(e.a[0], ri)
                state = 'done' if z is False else 'empty'
            elif e.f == 'meta_iterator_next' and state == 'empty':
                ok, state = same(e.a[0], mi), 'next'
            elif e.f == 'meta_iterator_at' and state == 'next':
                cur = e.r
                z = zero(fl, e.r)
                ok = same(e.a[0], mi) and z is not None
                state = 'end' if z else 'region'
            elif e.f == 'reader_execute' and state == 'region':
                ok, state, reg = same(e.a[1], cur), 'read', e.r
            elif e.f == 'region_iterator_open' and state == 'read':
                ok = same(e.a[0], ri) and same(e.a[1], reg) and same(e.a[2], s.new('keys')) and const(e.a[3]) == 0
                state = 'rows'
            else:
                ok = False
        ok = ok and state in ('done', 'end') and (same(s.new('current'), cur) or state == 'end' and const(s.new('current')) == 0)
        ctx.ob('branches.next', n, ok, 'a region is left out, read from its middle, or the branch ends before its last region', at=at)
    n = 'branch_iterator_open'
    v, fs = flows(P, n, keep=KEEP + ['region_iterator_reset', 'region_iterator_init', 'meta_iterator_init'], model=M)
    keys, br, row = [atom(('arg', k)) for k in (1, 2, 3)]
    for p, fl in fs:
        s, at = St(P, fl, me, 'BranchIterator'), p.insts[-1]
        c = [e for e in fl.calls if e.f in KEEP]
        want = ['meta_iterator_open', 'meta_iterator_at']
        r = ending(v, p, fl)
        ok = [e.f for e in c][:2] == want and same(c[0].a[0], mi) and same(c[0].a[1], fld(P, br, 'Branch.meta')) and same(c[0].a[2], fld(P, br, 'Branch.meta_data')) and same(c[0].a[3], keys) and same(c[0].a[4], row)
        ok = ok and same(s.new('keys'), keys) and same(s.new('branch'), br)
        if ok:
            z = zero(fl, c[1].r)
            if z is True:
                ok = len(c) == 2 and const(r) == 0 and (const(s.new('current')) == 0 or same(s.new('current'), c[1].r))
            else:
                ok = z is False and [e.f for e in c][2:] == ['reader_open', 'reader_execute', 'region_iterator_open'] and same(c[2].a[1], br) and same(c[3].a[1], c[1].r) and same(s.new('current'), c[1].r)
                ok = ok and same(c[4].a[0], ri) and same(c[4].a[1], c[3].r) and same(c[4].a[2], keys) and same(c[4].a[3], row) and same(r, c[4].r)
        ctx.ob('branches.open', n, ok, 'a branch is not opened at the region and the row of the key', at=at)
    ctx.floor('branches.end', 1)
    ctx.floor('branches.next', 3)
    ctx.floor('branches.open', 2)


def cursors(ctx, P):
    """a cursor asks every partition or the one the key belongs to, and every branch of every tier; it answers from the heap alone only if there are no tiers"""
    KEEP = ['part_index_find', 'merge_iterator_add', 'merge_iterator_allocate', 'mapping_map', 'branch_iterator_allocate', 'branch_iterator_open', 'merge_iterator_open', 'branch_iterator_reset', 'branch_iterator_free', 'tier_mgr_created']
    # what tells whether there are tiers
    v, fs = flows(P, 'tier_mgr_created')
    lc = atom(('init', key(fld(P, atom(('arg', 0)), 'TierMgr.list_count'))))
    for p, fl in fs:
        r = fl.opd(p.insts[-1].args[0])
        a = one(r)
        ok = a is not None and a[0] == 'cmp' and (a[1] in ('ne', 'sgt', 'ugt') and a[2] == key(lc) and a[3] == () or a[1] in ('sge', 'uge') and a[2] == key(lc) and a[3] == key(num(1)) or a[1] in ('slt', 'ult') and a[2] == () and a[3] == key(lc))
        ok = ok or const(r) == 1 and zero(fl, lc) is False or const(r) == 0 and zero(fl, lc) is True
        ctx.ob('cursors.tiers', 'tier_mgr_created', ok, 'tiers are not read when there are some', at=p.insts[-1], why='list_count')
    for n in ('cursor_lookup', 'cursor_scan', 'cursor_scan_cross'):
        v = core_load([n], ASKS + KEEP, [], False).view(n)
        me, row = atom(('arg', 0)), atom(('arg', {'cursor_scan_cross': 2}.get(n, 3)))
        tm = None
        asked_, steps = [], 0
        for p in seg.segments(v, noexc):
            fl = Flow(p, P, pure=READS)
            if fl.torn() or wrapped(fl) or p.end() == 'unwind':
                continue
            at = p.insts[-1]
            h = p.blocks[0]
            back = p.cut is not None and p.cut == h
            add_ = [e for e in fl.calls if e.f == 'merge_iterator_add']
            op = [e for e in fl.calls if e.f == 'branch_iterator_open']
            mp = [e for e in fl.calls if e.f == 'mapping_map']
            im = [e for e in fl.calls if slot(v, e.i) == 'IndexIf.iterator_merge']
            for e in op:
                # a branch is opened with the key, and the loop goes on to the branch after it
                br = e.a[2]
                ok = same(e.a[3], row)
                if back or p.cut is not None:
                    a = seg.arrive(fl, p)
                    nx = fl.load(fld(P, br, 'Branch.next'))
                    ok = ok and (any(same(x, nx) or same(x, atom(('init', key(fld(P, br, 'Branch.next'))))) or branchnext(P, x, br) for x in a.values()))
                    if n != 'cursor_lookup':
                        ok = ok and len(add_) == 1 and len([x for x in fl.calls if x.f == 'branch_iterator_allocate']) == 1
                ctx.ob('cursors.branch', n, ok, 'a branch is not opened with the key, not part of the result, or the one after it is left out', at=e.i)
            for e in mp:
                ctx.ob('cursors.object', n, same(e.a[1], row), 'the object of another key is read', at=e.i)
            for e in im:
                a = seg.arrive(fl, p) if p.cut is not None else {}
                f = asked(fl, 'part_index_find')
                ok = back and len(im) == 1 and len(f) == 1 and same(e.a[0], f[0].r) and any(same(x, e.r) for x in a.values())
                ctx.ob('cursors.parts', n, ok, 'a partition is left out of a scan over all of them', at=e.i)
            if n == 'cursor_scan_cross' and back and not im and h == min(seg.heads(v)):
                ctx.ob('cursors.parts', n, False, 'a partition is left out of a scan over all of them', at=at)
    for x, j in (('tiers', 1), ('branch', 3), ('object', 3), ('parts', 1)):
        ctx.floor('cursors.' + x, j)


def branchnext(P, x, br):
    """the form is what the next field of a branch holds, after calls that may change it"""
    a = one(x)
    return a is not None and a[0] in ('after', 'init')


from .h01 import iterator as heap_walk

RULES = [probing, tree_walk, store_next, hash_walk, array_walk, search, sign, merge, tables, pages, interfaces, operations, branches, cursors, heap_walk]
