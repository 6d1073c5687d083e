"""H01: heap rows never overlap or leave their page."""
from ..q import *
from ..core import load as core_load, Broken
from ..flow import key, unkey, atom, num, add, scale, const, one, entails
from ..bits import Bits, Ival, Walk, show, norm
from .s01 import noexc, A

ENTRIES, KEEP, PLAIN = [], [], True
INT_MAX = (1 << 31) - 1


def arg(k):
    return atom(('arg', k))


def atoms_in(form, seen=None):
    """every atom of a form, nested ones included"""
    out = set()

    def go(x):
        if isinstance(x, tuple):
            if x and isinstance(x[0], str):
                if x in out:
                    return
                out.add(x)
            for y in x:
                go(y)
    for a in form:
        go(a)
    return out


class Table:
    """the size classes a new heap starts with and its page size"""

    def __init__(self, P):
        Q = core_load(['heap_allocate'], ['am_malloc'], [], False)
        w = Walk(Q.view('heap_allocate'), P, lambda w, l: l.d['s'][1])
        if w.done != 'ret':
            raise Broken('heap_allocate does not return')
        me = w.opd(w.v.blocks[-1][-1].args[0]) if False else next(w.opd(i.args[0]) for b in w.v.blocks for i in b if i.op == 'ret' and i.args and i.id is not None or i.op == 'ret' and i.args)
        self.w, self.me = w, me
        self.page = const(w.load(add(me, num(w.pos('Heap.page_mgr.page_size')[0] // 8)), 32))
        b = w.load(add(me, num(w.pos('Heap.buckets')[0] // 8)))
        self.base = b
        self.size, self.id, self.empty = [], [], True
        n = P.structs['HeapBucket']['size']
        self.n = n
        while True:
            f = lambda x, k: w.unwrap(w.now(add(b, num(n * k)), 'HeapBucket.' + x))
            k = len(self.size)
            s, i = const(f('size', k)), const(f('id', k))
            if s is None or i is None or k > 4096:
                break
            self.size.append(s)
            self.id.append(i)
            self.empty = self.empty and all(const(f(x, k)) == 0 for x in ('list', 'list_offset', 'list_count'))
        self.room = [const(c.a[0]) for c in w.calls if c.f == 'am_malloc' and c.r == {k: 1 for k in b if k is not None}]


def bucket_tables(tb, P, H):
    """answers reads of the size class table and the page size of heaps"""
    hk = [(h, one(h)) for h in H]

    def read(iv, a):
        base = unkey(a[1])
        for h in H:
            k, p = key({x: c for x, c in h.items() if x is not None}), h.get(None, 0) * 8
            o, w = iv.pos('Heap.page_mgr.page_size')
            if a[1] == k and a[2] == p + o and a[3] == w:
                return tb.page, tb.page
            bo, bw = iv.pos('Heap.buckets')
            ba = ('bits', k, p + bo, bw)
            if base.get(ba) == 1:
                off = iv.form({x: c for x, c in base.items() if x != ba})
                if off is None:
                    return None
                n = tb.n * 8
                lo, hi = off[0] * 8 + a[2], off[1] * 8 + a[2]
                f = next((f for f, (fo, fw) in P.structs['HeapBucket']['b'].items() if lo % n == fo and hi % n == fo and fw == a[3]), None)
                xs = {'size': tb.size, 'id': tb.id}.get(f)
                if xs and 0 <= lo // n <= hi // n < len(xs):
                    return min(xs[lo // n:hi // n + 1]), max(xs[lo // n:hi // n + 1])
                if f and not 0 <= lo // n <= hi // n < len(tb.size):
                    iv.out = True
        return None
    return read


def classes(ctx, P):
    """the size classes of a new heap are numbered in order, strictly grow and start empty, and the table has room for them"""
    tb = Table(P)
    n = 'heap_allocate'
    ctx.ob('classes.page', n, tb.page is not None and tb.page > 0, 'the page size is not fixed')
    for k, s in enumerate(tb.size):
        ctx.ob('classes.id', '%s:%d' % (n, k), tb.id[k] == k, 'a size class has the number of another one')
        ctx.ob('classes.grows', '%s:%d' % (n, k), k == 0 or tb.size[k - 1] < s or k + 1 == len(tb.size) and tb.size[k - 1] == s, 'a size class is not larger than the one before it')
        w = P.structs['HeapBucket']['b']['size'][1]
        ctx.ob('classes.width', '%s:%d' % (n, k), s < 1 << w, 'the size of a class is cut off')
    ctx.ob('classes.empty', n, tb.empty, 'a new heap has free rows')
    hdr = P.structs['HeapHeader']['size']
    ctx.ob('classes.room', n, len(tb.room) == 1 and tb.room[0] == hdr + tb.n * len(tb.size), 'the table has no room for its classes (or classes are left out)')
    w = P.structs['HeapChunk']['b']['bucket'][1]
    ctx.ob('classes.numbered', n, len(tb.size) <= 1 << w, 'the number of a class does not fit into a row')
    w = P.structs['HeapChunk']['b']['offset'][1]
    ctx.ob('classes.offset', n, tb.page is not None and tb.page <= 1 << w, 'the place of a row in its page is cut off')
    for f in P.fn.values():
        for i in f.insts():
            if i.op == 'store' and leaf_field(strip_cast(f.term(i.args[1]))) in ('PageMgr.page_size',):
                ctx.ob('classes.fixed', f.name, const_of(strip_cast(f.term(i.args[0]))) == tb.page, 'the page size changes', at=i)
    ctx.floor('classes.id', 100)
    ctx.floor('classes.fixed', 1)
    return tb


def halves(lo, hi, f, limit=20000):
    """split an interval until f answers"""
    todo, n = [(lo, hi)], 0
    while todo:
        a, b = todo.pop()
        n += 1
        if n > limit:
            raise Broken('the size classes are not understood')
        r = f(a, b)
        if r is None and a < b:
            m = (a + b) // 2
            todo += [(m + 1, b), (a, m)]
        else:
            yield a, b, r


def heap_add(ctx, P):
    """a row is placed in a free slot of its class, or behind the last row of a page with room for it; the class is at least as large as the row and fits a page; larger rows are refused before anything is taken"""
    tb = Table(P)
    n = 'heap_add'
    Q = core_load([n], ['buf_emplace', 'heap_push', 'heap_unlink', 'report_error'], [], False)
    v = Q.view(n)
    chunk_size, page_hdr = P.structs['HeapChunk']['b']['data'][0] // 8, P.structs['PageHeader']['size']
    me = arg(0)
    data = []
    keep = lambda f, e: atom(('call', e.f, e.n))
    for p in paths(v, limit=100000):
        fl = Bits(p, P, model={'buf_emplace': keep, 'heap_push': keep, 'heap_unlink': keep, 'mmap': keep})
        data.append((p, fl))
    sh = fl.init(me, 'Heap.shadow')
    H = {'self': me, 'shadow': sh}
    read = bucket_tables(tb, P, [me, sh])

    def ival(lo, hi):
        iv = Ival(P, {('arg', 1): (lo, hi)}, [read])
        iv.pos = fl.pos
        iv.out = False
        return iv

    # which heap, which class
    todo = []
    for p, fl in data:
        if fl.torn():
            continue
        z = one(sh)
        isnull = [f for f in fl.facts if f[2] == sh and f[1] in ('eq', 'ne')]
        home = None
        if isnull:
            home = 'self' if isnull[0][1] == 'eq' else 'shadow'
        todo.append((p, fl, home))
    ok = 0
    bad = 0
    for lo, hi, r in halves(0, INT_MAX, lambda a, b: decide(ctx, P, tb, todo, ival, a, b, chunk_size, page_hdr, H)):
        ok += 1
        if r is None:
            ctx.ob('size.decided', '%s:%d' % (n, lo), False, 'the class of a size is not understood')
            continue
        if any(not x[1] for x in r):
            bad += 1
            if bad > 20:
                return
        for what, good, msg, at in r:
            ctx.ob('size.' + what, '%s:%d..%d' % (n, lo, hi), good, msg, at=at)
    ctx.floor('size.fits', 100)
    ctx.floor('size.refused', 1)

    # placement
    for p, fl, home in todo:
        if p.end() != 'ret':
            continue
        at = p.insts[-1]
        ctx.ob('home.known', n, home is not None, 'a row is placed without looking for a snapshot', at=at)
        if home is None:
            continue
        h = H[home]
        r = fl.opd(at.args[0])
        c = add(r, num(-chunk_size))
        place(ctx, P, fl, n, h, c, at, home, tb, page_hdr)
    ctx.floor('reuse.slot', 2)
    ctx.floor('append.behind', 2)
    ctx.floor('page.listed', 2)


def accepts(P, size):
    """a row of a size is never refused"""
    n = 'heap_add'
    tb = Table(P)
    v = core_load([n], ['buf_emplace', 'heap_push', 'heap_unlink', 'report_error'], [], False).view(n)
    keep = lambda f, e: atom(('call', e.f, e.n))
    todo = []
    for p in paths(v, limit=100000):
        fl = Bits(p, P, model={'buf_emplace': keep, 'heap_push': keep, 'heap_unlink': keep, 'mmap': keep})
        if not fl.torn():
            todo.append((p, fl, None))
    H = {'self': arg(0), 'shadow': todo[0][1].init(arg(0), 'Heap.shadow')}
    read = bucket_tables(tb, P, list(H.values()))
    for p, fl, _ in todo:
        iv = Ival(P, {('arg', 1): (size, size)}, [read])
        iv.pos, iv.out = fl.pos, False
        if any((exists(fl, H, f) if iv.fact(f) is None else iv.fact(f)) is False for f in fl.facts):
            continue
        if p.end() == 'unwind' and any(c.f == 'report_error' for c in fl.calls) and not any(c.f in ('mmap', 'vfs_mmap', 'buf_emplace') for c in fl.calls):
            return False
    return True


def decide(ctx, P, tb, todo, ival, lo, hi, chunk_size, page_hdr, H):
    """for sizes lo..hi: [(what, holds, message, at)], or None when the paths they take differ"""
    out = []
    any_ret = any_refuse = False
    for p, fl, home in todo:
        iv = ival(lo, hi)
        fs = [exists(fl, H, f) if iv.fact(f) is None else iv.fact(f) for f in fl.facts]
        if any(x is False for x in fs):
            continue
        # undecided although it depends on the size
        for f, x in zip(fl.facts, fs):
            if x is None and lo < hi and ('arg', 1) in atoms_in(f[2]):
                ys = [k for k in atoms_in(f[2]) if k[0] == 'bits']
                iv2 = [iv.atom(k) for k in f[2] if k is not None]
                if all(y is not None for y in iv2):
                    return None
        if p.end() == 'ret':
            b = chosen(fl, H.get(home), iv, tb) if home else None
            if b is None:
                if lo < hi:
                    return None
                out.append(('fits', False, 'the class of a size is not known or beyond the table', p.insts[-1]))
                continue
            any_ret = True
            out.append(('fits', tb.size[b] >= hi + chunk_size, 'a row is larger than its size class', p.insts[-1]))
            out.append(('page', tb.size[b] + page_hdr <= tb.page, 'a size class does not fit a page', p.insts[-1]))
        elif p.end() == 'unwind' and any(c.f == 'report_error' for c in fl.calls) and not any(c.f in ('mmap', 'vfs_mmap', 'buf_emplace') for c in fl.calls):
            any_refuse = True
            out.append(('refused', not fl.wr or not [w for w in fl.wr if not local(w)], 'a refused row leaves something behind', p.insts[-1]))
    if any_ret and any_refuse:
        if lo < hi:
            return None
        out.append(('one', False, 'a size is both taken and refused', None))
    if not any_ret and not any_refuse:
        out.append(('one', False, 'a size is neither taken nor refused', None))
    if any_refuse and not any_ret:
        k = next((k for k, s in enumerate(tb.size) if s >= lo + chunk_size), None)
        out.append(('early', k is None or k + 1 >= len(tb.size) or tb.size[min(k + 1, len(tb.size) - 1)] + page_hdr > tb.page, 'a size that fits a page is refused', None))
    seen = {}
    for x in out:
        a = seen.setdefault(x[0], x)
        if a[1] and not x[1]:
            seen[x[0]] = x
    return list(seen.values())


def exists(fl, H, f):
    """the address of a class is not NULL"""
    if f[1] in ('eq', 'ne') and any(f[2].get(one(buckets_of(fl, h))) == 1 for h in H.values()):
        return f[1] == 'ne'
    return None


def local(w):
    b = unkey(w[1])
    return any(k[0] == 'alloca' for k in b if k)


def buckets_of(fl, h):
    return fl.init(h, 'Heap.buckets')


def bucket_bases(fl, h):
    """keys of the addresses inside the class table that the path reads or writes"""
    ba = one(buckets_of(fl, h))
    out = []
    for x in [l[1] for l in fl.loads] + [s[1] for s in fl.stores]:
        if x.get(ba) == 1:
            k = fl.split(x)[0]
            out.append((k, x))
    return out


def chosen(fl, h, iv, tb):
    """the number of the class a path works with"""
    ba = one(buckets_of(fl, h))
    got = set()
    for k, x in bucket_bases(fl, h):
        o = iv.form({a: c for a, c in x.items() if a != ba})
        if o is None or o[0] // tb.n != o[1] // tb.n:
            return None
        got.add(o[0] // tb.n)
    got = {g for g in got}
    if len(got) != 1:
        return None
    b = got.pop()
    return b if 0 <= b < len(tb.size) else None


def bucket_of(fl, h, n):
    """form of the address of the class the path works with"""
    ba = one(buckets_of(fl, h))
    ks = {}
    for k, x in bucket_bases(fl, h):
        o = {a: c for a, c in x.items()}
        c = o.pop(None, 0)
        ks.setdefault(key(o), []).append(c)
    if len(ks) != 1:
        return None
    k, cs = next(iter(ks.items()))
    lo = min(cs) // n * n
    return add(unkey(k), num(lo))


def place(ctx, P, fl, n, h, c, at, home, tb, page_hdr):
    B = bucket_of(fl, h, tb.n)
    ctx.ob('home.class', n, B is not None, 'the size class is not one of the heap the row is placed in', at=at)
    if B is None:
        return
    I = lambda a, f: fl.init(a, f)
    pages = I(h, 'Heap.page_mgr.list.start')
    page_of = lambda idx: atom(('bits', key(add(pages, scale(idx, 8))), 0, 64))
    o, w = fl.pos('Page.pointer')
    slot = add(page_of(I(B, 'HeapBucket.list')), I(B, 'HeapBucket.list_offset'))
    cur = I(h, 'Heap.page_header')
    maps = [e for e in fl.calls if e.f in ('mmap', 'vfs_mmap')]
    is_ = fl.is_now
    shadow = 1 if home == 'shadow' else 0
    flag = fl.now(c, 'HeapChunk.is_shadow')
    iv = Ival(P, {one(I(arg(0), 'Heap.shadow')): (0, 0) if not shadow else (1, 1 << 47)})
    x = iv.form(fl.unwrap(flag))
    ctx.ob('home.marked', n, x == (shadow, shadow), 'a row is not marked with the heap it is in', at=at)
    for f in ('is_free', 'is_shadow_free'):
        ctx.ob('home.used', n, is_(c, 'HeapChunk.' + f, {}), 'a row in use is marked as free', at=at)
    if c == slot:
        cnt = I(B, 'HeapBucket.list_count')
        le, ne = fl.known()
        ctx.ob('reuse.slot', n, fl.proves(add(num(1), cnt, -1)) or any(f[1] == 'ne' and f[2] == cnt for f in fl.facts), 'a free row is taken from an empty list', at=at)
        ok = is_(B, 'HeapBucket.list', I(c, 'HeapChunk.prev')) and is_(B, 'HeapBucket.list_offset', I(c, 'HeapChunk.prev_offset'))
        ctx.ob('reuse.taken', n, ok, 'a free row that was taken stays in the list', at=at)
        ctx.ob('reuse.count', n, is_(B, 'HeapBucket.list_count', add(cnt, num(-1))), 'the number of free rows is wrong', at=at)
        ok = all(fl.same(c, 'HeapChunk.' + f) for f in ('offset', 'bucket', 'bucket_left', 'is_last'))
        ctx.ob('reuse.place', n, ok, 'a reused row forgets its place', at=at)
        ok = fl.same(h, 'Heap.last') and fl.same(h, 'Heap.page_header') and not maps
        ctx.ob('reuse.pages', n, ok, 'reusing a row changes the pages', at=at)
        return
    # behind the last row of a page
    fresh = bool(maps)
    X = maps[0].r if fresh else cur
    old = num(page_hdr) if fresh else I(X, 'PageHeader.size')
    size = I(B, 'HeapBucket.size')
    ctx.ob('append.behind', n, c == add(X, old), 'a row is not placed behind the last one of a page', at=at)
    if c != add(X, old):
        return
    ctx.ob('append.reserved', n, is_(X, 'PageHeader.size', add(old, size)), 'the space of a row is not reserved', at=at)
    ctx.ob('append.last', n, is_(X, 'PageHeader.last', old) and is_(h, 'Heap.last', c), 'the last row of a page is another one', at=at)
    ctx.ob('append.offset', n, is_(c, 'HeapChunk.offset', old), 'a row does not know its place', at=at)
    ids = fl.unwrap(fl.now(c, 'HeapChunk.bucket'))
    idx = add(B, buckets_of(fl, h), -1)
    ok = ids == I(B, 'HeapBucket.id') or scale(ids, tb.n) == idx
    ctx.ob('append.class', n, ok, 'a row does not know its size class', at=at)
    ctx.ob('append.end', n, is_(c, 'HeapChunk.is_last', num(1)), 'the last row is not marked', at=at)
    ok = all(fl.same(B, 'HeapBucket.' + f) for f in ('list', 'list_offset', 'list_count'))
    ctx.ob('append.free', n, ok, 'the list of free rows changes', at=at)
    page = I(h, 'Heap.page_mgr.page_size')
    if fresh:
        m = maps[0]
        ctx.ob('page.size', n, any(x == page for x in m.a) and len(maps) == 1, 'a page is not as large as the page size', at=m.i)
        em = [e for e in fl.calls if e.f == 'buf_emplace']
        ok = len(em) == 1 and const(em[0].a[1]) == P.structs['Page']['size'] and em[0].a[0] == add(h, num(fl.pos('Heap.page_mgr.list')[0] // 8)) and fl.is_now(em[0].r, 'Page.pointer', X)
        count = I(h, 'Heap.page_mgr.list_count')
        ctx.ob('page.listed', n, ok and is_(h, 'Heap.page_mgr.list_count', add(count, num(1))), 'a new page is not listed', at=at)
        ctx.ob('page.order', n, is_(X, 'PageHeader.order', count), 'a page does not know its place', at=at)
        hd = I(h, 'Heap.header')
        ctx.ob('page.count', n, is_(hd, 'HeapHeader.count', add(I(hd, 'HeapHeader.count'), num(1))), 'the number of pages written to the file is wrong', at=at)
        ctx.ob('page.current', n, is_(h, 'Heap.page_header', X), 'a new page is not the current one', at=at)
        last = I(h, 'Heap.last')
        ctx.ob('page.first', n, is_(c, 'HeapChunk.bucket_left', {}), 'the first row of a page has a row to its left', at=at)
        if any(f[1] == 'ne' and f[2] == last for f in fl.facts):
            ctx.ob('page.closed', n, fl.same(last, 'HeapChunk.is_last'), 'the last row of the page before is no longer marked', at=at)
    else:
        room = add(add(size, old), page, -1)
        ctx.ob('append.room', n, fl.proves(room), 'a row is placed where the page has no room for it', at=at)
        last = I(h, 'Heap.last')
        ctx.ob('append.page', n, any(f[1] == 'ne' and f[2] == last for f in fl.facts), 'a row is placed in a page that may not exist', at=at)
        ctx.ob('append.follows', n, is_(last, 'HeapChunk.is_last', {}), 'two rows of a page are marked as the last', at=at)
        ctx.ob('append.left', n, is_(c, 'HeapChunk.bucket_left', I(last, 'HeapChunk.bucket')), 'a row has another one to its left', at=at)
        ok = fl.same(h, 'Heap.page_mgr.list_count') and fl.same(h, 'Heap.page_header')
        ctx.ob('append.pages', n, ok, 'the pages change although there is room', at=at)


def heap_remove(ctx, P):
    """a row is put once into the free list of its own size class of the heap it is in; while a snapshot reads the heap it is only remembered"""
    tb = Table(P)
    n = 'heap_remove'
    Q = core_load([n], ['heap_add', 'heap_push', 'heap_unlink', 'report_error'], [], False)
    v = Q.view(n)
    me, ptr = arg(0), arg(1)
    c = add(ptr, num(-(P.structs['HeapChunk']['b']['data'][0] // 8)))
    keep = lambda f, e: atom(('call', e.f, e.n))
    for p in paths(v, edge=noexc):
        fl = Bits(p, P, model={'heap_add': keep, 'heap_unlink': keep})
        if p.end() != 'ret' or fl.torn():
            continue
        at = p.insts[-1]
        I = lambda a, f: fl.init(a, f)
        sh, fr, mark = I(me, 'Heap.shadow'), I(me, 'Heap.shadow_free'), I(c, 'HeapChunk.is_shadow')
        says = lambda x: next((f[1] == 'ne' for f in fl.facts if f[2] == x and f[1] in ('eq', 'ne')), None)
        inshadow = says(mark)
        ctx.ob('free.home', n, inshadow is not None, 'a row is freed without knowing the heap it is in', at=at)
        adds = [e for e in fl.calls if e.f == 'heap_add']
        touched = [w for w in fl.wr if w[1] == fl.split(c)[0]]
        if adds:
            ctx.ob('delay.asked', n, says(fr) is True and inshadow is False, 'freeing is put off although no snapshot reads the heap', at=at)
            e = adds[0]
            ctx.ob('delay.remembered', n, len(adds) == 1 and e.a[0] == sh and const(e.a[1]) == 8 and fl.load(e.r) == ptr, 'the row to be freed is not remembered', at=e.i)
            d = add(e.r, num(-(P.structs['HeapChunk']['b']['data'][0] // 8)))
            ok = fl.is_now(d, 'HeapChunk.is_shadow', num(1)) and fl.is_now(d, 'HeapChunk.is_shadow_free', num(1))
            ctx.ob('delay.marked', n, ok, 'what is remembered is taken for a row', at=e.i)
            ctx.ob('delay.kept', n, not touched, 'a row that a snapshot reads is freed', at=at)
            continue
        ctx.ob('free.snapshot', n, inshadow is True or says(fr) is False, 'a row that a snapshot may read is freed', at=at)
        h = sh if inshadow else me
        B = add(I(h, 'Heap.buckets'), scale(I(c, 'HeapChunk.bucket'), tb.n))
        is_ = fl.is_now
        page = add(c, I(c, 'HeapChunk.offset'), -1)
        ok = is_(B, 'HeapBucket.list', I(page, 'PageHeader.order')) and is_(B, 'HeapBucket.list_offset', I(c, 'HeapChunk.offset'))
        ctx.ob('free.listed', n, ok, 'a freed row is not the first of the list of its class', at=at)
        ok = is_(c, 'HeapChunk.prev', I(B, 'HeapBucket.list')) and is_(c, 'HeapChunk.prev_offset', I(B, 'HeapBucket.list_offset'))
        ctx.ob('free.linked', n, ok, 'the rows freed before are lost', at=at)
        ctx.ob('free.count', n, is_(B, 'HeapBucket.list_count', add(I(B, 'HeapBucket.list_count'), num(1))), 'the number of free rows is wrong', at=at)
        ctx.ob('free.marked', n, is_(c, 'HeapChunk.is_free', num(1)), 'a freed row is still found', at=at)
        ok = all(fl.same(c, 'HeapChunk.' + f) for f in ('offset', 'bucket', 'bucket_left', 'is_last'))
        ctx.ob('free.place', n, ok, 'a freed row forgets its place', at=at)
    ctx.floor('free.listed', 2)
    ctx.floor('delay.remembered', 1)


def row_sizes(ctx, P):
    """what is written into a new row is no longer than what was asked for"""
    k = 0
    for f in sorted(P.fn.values(), key=lambda f: f.name):
        if not f.calls('heap_add'):
            continue
        Q = core_load([f.name], ['heap_add', 'report_error', 'row_measure', 'row_init'] + (['row_size'] if 'row_size' not in f.name else []), [], False)
        v = Q.view(f.name)
        keep = lambda fl, e: atom(('call', e.f, e.n))
        for p in paths(v, edge=noexc):
            fl = Flow_sizes(p, P, model={x: keep for x in ('heap_add', 'row_measure')}, pure=('row_size',))
            for e in [e for e in fl.calls if e.f == 'heap_add']:
                for s in fl.stores:
                    d = add(s[1], e.r, -1)
                    if set(d) - {None}:
                        continue
                    if one(e.r) not in s[1] or s[2] is None:
                        continue
                    k += 1
                    over = add(add(s[2], d), fl.same_size(e.a[1]), -1)
                    ctx.ob('written.size', f.name, d.get(None, 0) < 0 or fl.proves(fl.canon(over)), 'more is written into a row than was reserved', at=s[-1])
                for x in fl.calls:
                    if x.f == 'row_init' and x.a and x.a[0] == e.r:
                        k += 1
                        m = [y for y in fl.calls if y.f == 'row_measure' and y.n < e.n]
                        ok = x.a[3] == e.a[1] and m and fl.canon(x.a[3]) == m[-1].r and m[-1].a[0] == x.a[1]
                        ctx.ob('written.header', f.name, bool(ok), 'a row is set up for another size than was reserved', at=x.i)
    ctx.floor('written.size', 2)
    ctx.floor('written.header', 1)


from ..flow import Flow


class Flow_sizes(Flow):
    def canon(self, l):
        """calls without effects on equal arguments have equal results"""
        r = {}
        by = {one(c.r): c for c in self.calls if c.r and one(c.r)}
        for a, k in l.items():
            c = by.get(a)
            if c is not None and c.f in ('row_size',):
                a = ('pure', c.f, key(c.a[0]))
            r[a] = r.get(a, 0) + k
        return {a: k for a, k in r.items() if k}

    def same_size(self, l):
        return l


def iterator(ctx, P):
    """iterating a heap visits every row in use of every page: the next row begins where the class of the current one ends, the next page begins behind its header, free rows are skipped"""
    tb = Table(P)
    page_hdr = P.structs['PageHeader']['size']
    keep = lambda f, e: atom(('call', e.f, e.n))
    from .. import seg
    for n in ('heap_iterator_open', 'heap_iterator_next'):
        Q = core_load([n], [], [], False)
        v = Q.view(n)
        me = arg(0)
        segs = seg.segments(v, noexc)
        # a loop may carry the current row in a register
        probe = Bits(segs[0], P)
        cur = probe.init(me, 'HeapIterator.current')
        same = {i.id: cur for h in seg.heads(v) for i in seg.phis(v, h)}
        while True:
            fls = [(p, Bits(p, P, phis=same)) for p in segs]
            drop = {k for p, fl in fls if p.cut is not None and not fl.torn() for k, x in seg.arrive(fl, p).items() if k in same and x != fl.unwrap(fl.now(me, 'HeapIterator.current'))}
            if not drop:
                break
            same = {k: x for k, x in same.items() if k not in drop}
        for p, fl in fls:
            if fl.torn():
                continue
            at = p.insts[-1]
            I = lambda a, f: fl.init(a, f)
            cur0 = I(me, 'HeapIterator.current')
            pages = lambda h: None
            if n == 'heap_iterator_open' and p.blocks[0] == 0:
                heap = arg(1)
                last = I(heap, 'Heap.last')
                if any(f[1] == 'eq' and f[2] == last for f in fl.facts):
                    r = const(fl.opd(at.args[0])) if at.op == 'ret' and at.args else None
                    ctx.ob('visit.empty', n, r == 0, 'an empty heap has rows', at=at)
                    continue
                first = add(atom(('bits', key(I(heap, 'Heap.page_mgr.list.start')), 0, 64)), num(page_hdr))
                ok = fl.is_now(me, 'HeapIterator.page_order', {}) and fl.is_now(me, 'HeapIterator.heap', heap) and fl.is_now(me, 'HeapIterator.page_mgr', add(heap, num(fl.pos('Heap.page_mgr')[0] // 8)))
                ctx.ob('visit.begin', n, ok, 'iterating does not begin with the first page', at=at)
                step = fl.unwrap(fl.now(me, 'HeapIterator.current')) == first
                ctx.ob('visit.first', n, step, 'the first row is skipped', at=at)
                continue
            now = fl.unwrap(fl.now(me, 'HeapIterator.current'))
            lst = I(cur0, 'HeapChunk.is_last')
            says = lambda x: next((f[1] == 'ne' for f in fl.facts if f[2] == x and f[1] in ('eq', 'ne')), None)
            moved = bool([w for w in fl.wr if w[1] == fl.split(me)[0] and w[2] <= fl.pos('HeapIterator.current')[0] < w[2] + w[3]])
            if says(cur0) is False:
                ctx.ob('visit.end', n, not moved, 'iterating goes on after the end', at=at)
                continue
            if not moved:
                # stays: only where the row is in use (or the step comes later)
                free = says(I(cur0, 'HeapChunk.is_free'))
                ctx.ob('visit.stay', n, p.cut is not None or free is False, 'a free row is visited', at=at)
                continue
            if p.blocks[0] != 0:
                ctx.ob('visit.skip', n, says(I(cur0, 'HeapChunk.is_free')) is True, 'a row in use is skipped', at=at)
            if says(lst) is False:
                hp = I(me, 'HeapIterator.heap')
                B = add(I(hp, 'Heap.buckets'), scale(I(cur0, 'HeapChunk.bucket'), tb.n))
                ctx.ob('visit.next', n, now == add(cur0, I(B, 'HeapBucket.size')), 'the next row begins elsewhere', at=at)
                continue
            ctx.ob('visit.last', n, says(lst) is True, 'iterating leaves a page early', at=at)
            pm = I(me, 'HeapIterator.page_mgr')
            o = add(I(me, 'HeapIterator.page_order'), num(1))
            ctx.ob('visit.order', n, fl.is_now(me, 'HeapIterator.page_order', o), 'a page is skipped', at=at)
            cnt = fl.init(pm, 'PageMgr.list_count')
            if now == {}:
                ctx.ob('visit.done', n, fl.proves(add(cnt, o, -1)), 'iterating ends before the last page', at=at)
            else:
                start = fl.init(pm, 'PageMgr.list.start')
                first = add(atom(('bits',) + fl.split(add(start, scale(o, 8))) + (64,)), num(page_hdr))
                ctx.ob('visit.page', n, now == first and fl.proves(add(add(o, num(1)), cnt, -1)), 'the first row of the next page is another one', at=at)
    ctx.floor('visit.next', 1)
    ctx.floor('visit.page', 1)
    ctx.floor('visit.skip', 1)


RULES = [classes, heap_add, heap_remove, iterator, row_sizes]
