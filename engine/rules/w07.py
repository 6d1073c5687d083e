"""W07: a reader of the log misses no record."""
from ..q import *
from ..core import load as core_load
from ..flow import Flow, key, add, num, atom, const, one, unkey, scale
from .. import seg
from .s01 import noexc
from .i01 import St, zero, says, same, fld, wrapped, truth

ENTRIES, KEEP, PLAIN = [], [], True
A = lambda k: atom(('arg', k))
CALLS = ['wal_file_pread', 'file_update_size', 'id_mgr_next', 'id_mgr_find', 'id_mgr_min', 'id_mgr_add', 'wal_file_open', 'wal_file_create', 'wal_file_allocate', 'wal_file_close', 'wal_file_free', 'record_validate',
         'wal_cursor_read', 'file_pread_buf', 'buf_free', 'buf_init', 'opt_int_of']
PURE = ('id_mgr_', 'wal_file_', 'record_validate', 'report_error', 'error', 'opt_int_of', 'info')
UNKEPT = ['buf_reset', 'buf_truncate', 'buf_size', 'buf_empty']
NONE = (-1, (1 << 64) - 1)


class Read:
    """models of the calls that fill the buffer of a cursor"""
    def __init__(self, P):
        self.P = P

    def buf(self, fl, b):
        return fld(self.P, b, 'Buf.start'), fld(self.P, b, 'Buf.position')

    def pread(self, fl, e):
        s, p = self.buf(fl, e.a[2])
        size = add(fl.load(p), fl.load(s), -1)
        n = atom(('buf', e.n))
        fl.store(s, n)
        fl.store(p, atom(('buf end', e.n)))
        e.at = add(n, size)
        return atom(('call', e.f, e.n))

    def read(self, fl, e):
        """the record is behind what the buffer held; the position is after it"""
        b = fld(self.P, e.a[0], 'WalCursor.buf')
        s, p = self.buf(fl, b)
        size = add(fl.load(p), fl.load(s), -1)
        r = atom(('call', e.f, e.n))
        e.before = (size, fl.load(fld(self.P, e.a[0], 'WalCursor.file_offset')))
        fl.store(s, add(r, size, -1))
        fl.store(p, atom(('buf end', e.n)))
        fl.store(fld(self.P, e.a[0], 'WalCursor.file_offset'), atom(('offset', e.n)))
        fl.store(fld(self.P, e.a[0], 'WalCursor.file'), atom(('file', e.n)))
        return r

    def grown(self, fl, e):
        fl.store(fld(self.P, e.a[0], 'File.size'), atom(('size', e.n)))
        return atom(('call', e.f, e.n))

    def model(self):
        return {'wal_file_pread': self.pread, 'wal_cursor_read': self.read, 'file_update_size': self.grown}


class Ev:
    __slots__ = ('f', 'a', 'i', 'n', 'r', 'at', 'before')


def parts(P, n, keep=()):
    """the paths between loop heads of a function"""
    v = core_load([n], [c for c in CALLS if c != n] + list(keep), UNKEPT, False).view(n)
    rd = Read(P)
    extra = {}

    def wrap(h):
        def g(fl, e):
            x = Ev()
            x.f, x.a, x.i, x.n = e.f, e.a, e.i, e.n
            x.at = x.before = None
            r = h(fl, x)
            extra[id(fl), e.n] = (x.at, x.before)
            return r
        return g
    r = []
    for p in seg.segments(v, noexc):
        fl = Flow(p, P, model={k: wrap(h) for k, h in rd.model().items()}, pure=PURE)
        if fl.torn() or wrapped(fl):
            continue
        if p.insts and p.insts[-1].op == 'unreachable':
            continue
        fl.extra = {e.n: extra.get((id(fl), e.n), (None, None)) for e in fl.calls}
        fl.at = {k: x[0] for k, x in fl.extra.items()}
        fl.pre = {k: x[1] for k, x in fl.extra.items()}
        r.append((p, fl))
    return v, r


def true(fl, x):
    z = zero(fl, truth(x))
    return None if z is None else not z


def returned(p, fl):
    """what a path returns; None: it does not"""
    i = p.insts[-1] if p.insts else None
    if i is None or i.op != 'ret' or p.cut is not None:
        return None
    return fl.opd(i.args[0]) if i.args else {}


def none(fl, r):
    """a lookup of the file list found nothing / something / unknown"""
    for k in NONE:
        d = add(r, num(-k))
        if says(fl, d, ('eq',)):
            return True
        if says(fl, d, ('ne', 'ult', 'slt')):
            return False
    return None


def size_of(P, fl, r):
    return fl.load(fld(P, r, 'Record.size'))


def reading(ctx, P):
    """a record is returned together with the position behind it; the end is reported only when the end of the file was seen, the file did not grow and there is no later file that may be read; a file is left only for the next one, which is read from its start, and only when the file was seen not to have grown after the next one was found"""
    v, fs = parts(P, 'wal_cursor_read')
    for p, fl in fs:
        S = St(P, fl, A(0), 'WalCursor')
        at = p.insts[-1]
        reads = [e for e in fl.calls if e.f == 'wal_file_pread']
        for e in reads:
            ctx.ob('reading.place', 'wal_cursor_read', same(e.a[0], S.old('file')) and same(e.a[1], S.old('file_offset')), 'another place is read than the one that follows the last record', at=e.i)
        hits = [e for e in reads if true(fl, e.r) is True]
        ends = [e for e in reads if true(fl, e.r) is False]
        ups = [e for e in fl.calls if e.f == 'file_update_size' and same(e.a[0], fld(P, S.old('file'), 'WalFile.file'))]
        still = [e for e in ups if true(fl, e.r) is False]
        nexts = [e for e in fl.calls if e.f == 'id_mgr_next' and same(e.a[1], fl.load(fld(P, S.old('file'), 'WalFile.id')))]
        r = returned(p, fl)
        moved = not same(S.old('file'), S.new('file'))
        if r is not None and true(fl, r) is not False and key(r):
            ok = len(hits) == 1 and hits[0] is reads[-1] and same(r, fl.at[hits[0].n])
            ctx.ob('reading.returned', 'wal_cursor_read', ok, 'something else is returned than the record read', at=at)
            if ok:
                ok = same(S.new('file_offset'), add(S.old('file_offset'), size_of(P, fl, r))) and not moved
                ctx.ob('reading.advanced', 'wal_cursor_read', ok, 'the position is not moved behind the record returned', at=at)
            continue
        ctx.ob('reading.kept', 'wal_cursor_read', not hits, 'a record that was read is not returned', at=hits[0].i if hits else at)
        if moved:
            g = next((e for e in nexts if none(fl, e.r) is False), None)
            al = next((e for e in fl.calls if e.f == 'wal_file_allocate' and g and same(e.a[0], g.r)), None)
            op = [e for e in fl.calls if e.f == 'wal_file_open' and al and same(e.a[0], al.r)]
            ok = al is not None and same(S.new('file'), al.r) and len(op) == 1
            ctx.ob('reading.next', 'wal_cursor_read', ok, 'the file read next is not the one that follows', at=at)
            ctx.ob('reading.start', 'wal_cursor_read', same(S.new('file_offset'), num(0)), 'the next file is not read from its start', at=at)
            last = max([e.n for e in ends], default=None)
            ok = g is not None and last is not None and last < g.n and any(e.n > g.n for e in still)
            ctx.ob('reading.left', 'wal_cursor_read', ok, 'a file is left though records may have been written to it after its end was seen', at=at)
            ctx.ob('reading.allowed', 'wal_cursor_read', zero(fl, S.old('file_next')) is False, 'the next file is read though only one was asked for', at=at)
            continue
        ctx.ob('reading.stays', 'wal_cursor_read', same(S.old('file_offset'), S.new('file_offset')), 'the position is moved though no record is returned', at=at)
        if r is not None:
            ok = zero(fl, S.old('file')) is True or bool(ends) and any(e.n > ends[-1].n for e in still) and (zero(fl, S.old('file_next')) is True or any(none(fl, e.r) is True for e in nexts))
            ctx.ob('reading.end', 'wal_cursor_read', ok, 'the end is reported though there may be a record', at=at)
    for x, k in (('place', 1), ('returned', 1), ('advanced', 1), ('next', 1), ('start', 1), ('left', 1), ('end', 3)):
        ctx.floor('reading.' + x, k)


def stepping(ctx, P):
    """a step forgets the record before and is successful exactly when a record was read, which is the one shown"""
    v, fs = parts(P, 'wal_cursor_next')
    for p, fl in fs:
        r = returned(p, fl)
        es = [e for e in fl.calls if e.f == 'wal_cursor_read']
        if r is None:
            continue
        ok = len(es) == 1 and not key(fl.pre[es[0].n][0])
        ctx.ob('stepping.fresh', 'wal_cursor_next', ok, 'a step keeps the record before', at=p.insts[-1])
        if len(es) == 1:
            t, g = true(fl, r), true(fl, es[0].r)
            a = one(r)
            direct = a and a[0] == 'cmp' and a[1] == 'ne' and {a[2], a[3]} == {key(es[0].r), ()}
            ctx.ob('stepping.told', 'wal_cursor_next', bool(direct) or t is not None and t == g, 'success is not told from failure', at=p.insts[-1])
    v, fs = parts(P, 'wal_cursor_at')
    for p, fl in fs:
        r = returned(p, fl)
        if r is not None:
            ctx.ob('stepping.shown', 'wal_cursor_at', same(r, fl.load(add(fld(P, A(0), 'WalCursor.buf'), fld(P, {}, 'Buf.start')))), 'another place than the record read is shown', at=p.insts[-1])
    for x in ('fresh', 'told', 'shown'):
        ctx.floor('stepping.' + x, 1)


def number(P, fl, r):
    return fl.load(fld(P, r, 'Record.lsn'))


def opening(ctx, P):
    """a reader begins at the file that holds the LSN it asked for, passes only records below it, and returns to the first that is not"""
    v, fs = parts(P, 'wal_cursor_open')
    lsn = A(2)
    for p, fl in fs:
        S = St(P, fl, A(0), 'WalCursor')
        at = p.insts[-1]
        al = [e for e in fl.calls if e.f == 'wal_file_allocate']
        for e in al:
            src = [g for g in fl.calls if g.f in ('id_mgr_find', 'id_mgr_min') and same(g.r, e.a[0])]
            ok = len(src) == 1 and (src[0].f == 'id_mgr_min' or same(src[0].a[1], lsn) and zero(fl, lsn) is False)
            ctx.ob('opening.file', 'wal_cursor_open', ok and none(fl, e.a[0]) is False, 'reading begins with a file that does not hold the LSN', at=e.i)
            op = [g for g in fl.calls if g.f == 'wal_file_open' and same(g.a[0], e.r)]
            f = [x for n, a, w, x, i in fl.stores if same(a, S.addr('file')) and same(x, e.r)]
            o = [x for n, a, w, x, i in fl.stores if same(a, S.addr('file_offset')) and same(x, num(0))]
            ctx.ob('opening.start', 'wal_cursor_open', len(op) == 1 and bool(f) and bool(o), 'the file is not read from its start', at=e.i)
        reads = [e for e in fl.calls if e.f == 'wal_cursor_read']
        hit = [e for e in reads if true(fl, e.r) is True]
        ret = returned(p, fl)
        if not reads:
            if ret is not None:
                fd = [g for g in fl.calls if g.f in ('id_mgr_find', 'id_mgr_min')]
                ctx.ob('opening.none', 'wal_cursor_open', any(none(fl, g.r) is True for g in fd), 'a reader is not placed though there are files', at=at)
            continue
        e = reads[-1]
        ctx.ob('opening.once', 'wal_cursor_open', len(reads) == 1 and not key(fl.pre[e.n][0]), 'records are passed unseen', at=e.i)
        if not hit:
            continue
        d = add(number(P, fl, e.r), lsn, -1)
        off = atom(('offset', e.n))
        if ret is None:
            ok = says(fl, d, ('ult', 'slt')) and same(S.new('file_offset'), off)
            ctx.ob('opening.passed', 'wal_cursor_open', ok, 'a record that was asked for is passed', at=at)
        else:
            ok = says(fl, d, ('uge', 'sge', 'ugt', 'sgt', 'eq')) and same(S.new('file_offset'), add(off, size_of(P, fl, e.r), -1))
            ctx.ob('opening.placed', 'wal_cursor_open', ok, 'a reader is not placed at the first record that was asked for', at=at)
    for x, k in (('file', 2), ('start', 2), ('none', 1), ('passed', 1), ('placed', 1)):
        ctx.floor('opening.' + x, k)


def ahead(ctx, P):
    """records collected at once are counted whole, kept one behind the other, and the LSN told is the one of the last"""
    v, fs = parts(P, 'wal_cursor_readahead')
    hs = seg.heads(v)
    acc = set()
    for p, fl in fs:
        r = returned(p, fl)
        if r is not None:
            acc |= {a for a in r if a and a[0] == 'phi'}
    acc = [a for a in acc if any(i.id == a[1] for h in hs for i in seg.phis(v, h))]
    if len(acc) != 1:
        ctx.ob('ahead.counted', 'wal_cursor_readahead', False, 'what was collected is not counted', at=v.ret[0] if getattr(v, 'ret', None) else None)
        return
    sum_ = atom(acc[0])
    for p, fl in fs:
        reads = [e for e in fl.calls if e.f == 'wal_cursor_read']
        r = returned(p, fl)
        at = p.insts[-1]
        first = p.blocks[0] == 0
        end = r if r is not None else seg.arrive(fl, p).get(acc[0][1]) if p.cut is not None else None
        if end is None:
            continue
        hit = [e for e in reads if true(fl, e.r) is True]
        want = num(0) if first else sum_
        for e in hit:
            want = add(want, size_of(P, fl, e.r))
        ctx.ob('ahead.counted', 'wal_cursor_readahead', same(end, want), 'what was collected is not what is told', at=at)
        for e in reads:
            if not first:
                s, q = Read(P).buf(fl, fld(P, A(0), 'WalCursor.buf'))
                ctx.ob('ahead.kept', 'wal_cursor_readahead', same(fl.pre[e.n][0], add(atom(('init', key(q))), atom(('init', key(s))), -1)), 'records collected before are dropped', at=e.i)
        if hit:
            x = fl.mem.get(key(A(2)))
            ctx.ob('ahead.told', 'wal_cursor_readahead', x is not None and same(x, number(P, fl, hit[-1].r)), 'another LSN than the one of the last record is told', at=at)
        elif not first:
            ctx.ob('ahead.untold', 'wal_cursor_readahead', fl.mem.get(key(A(2))) is None, 'an LSN is told though no record was collected', at=at)
    for x, k in (('counted', 3), ('kept', 1), ('told', 1)):
        ctx.floor('ahead.' + x, k)


def record(ctx, P):
    """no record is reported missing that is whole in the file, and a buffer is left as it was when one is"""
    v = core_load(['wal_file_pread'], ['file_pread_buf'], UNKEPT, False).view('wal_file_pread')

    def pread(fl, e):
        s, q = Read(P).buf(fl, e.a[1])
        size = add(fl.load(q), fl.load(s), -1)
        n = atom(('buf', e.n))
        fl.store(s, n)
        fl.store(q, add(add(n, size), e.a[2]))
        return {}
    end = fld(P, add(A(0), fld(P, {}, 'WalFile.file')), 'File.size')
    fls = [(p, Flow(p, P, model={'file_pread_buf': pread}, pure=PURE)) for p in seg.segments(v, noexc)]
    fls = [(p, fl) for p, fl in fls if not fl.torn() and not wrapped(fl)]
    heads = {const(e.a[2]) for p, fl in fls for e in fl.calls if e.f == 'file_pread_buf'} - {None}
    for p, fl in fls:
        r = returned(p, fl)
        if r is None:
            continue
        t = true(fl, r)
        es = [e for e in fl.calls if e.f == 'file_pread_buf']
        at = p.insts[-1]
        s, q = Read(P).buf(fl, A(2))
        was = add(atom(('init', key(q))), atom(('init', key(s))), -1)
        now = add(fl.load(q), fl.load(s), -1)
        if t is None:
            ctx.ob('record.told', 'wal_file_pread', False, 'a record is told from none by something else than what was read', at=at)
            continue
        size = atom(('init', key(end)))
        if t:
            ok = len(es) == 2 and same(es[0].a[3], A(1)) and same(es[1].a[3], add(A(1), es[0].a[2])) and same(es[0].a[0], fld(P, A(0), 'WalFile.file')) and same(es[1].a[0], es[0].a[0])
            ctx.ob('record.whole', 'wal_file_pread', ok, 'a record is not read header first, then the rest', at=at)
            if ok:
                rs = add(es[0].a[2], es[1].a[2])
                a = one(rs)
                ok = a is not None and a[0] in ('init', 'load', 'mem', 'call') and same(now, add(was, rs))
                ok = ok and any(a2 == a for n, ad, w, i in fl.loads for a2 in [one(fl.load(ad))] if same(ad, fld(P, add(add(atom(('buf', es[0].n)), was), {}), 'Record.size')))
                ctx.ob('record.size', 'wal_file_pread', ok, 'another amount is read than the record says', at=at)
        else:
            need = [A(1)]
            hd = es[0].a[2] if es else None
            over = []
            for f in fl.facts:
                d = f[2]
                # offset + something > size
                for g, ops in ((d, ('ugt', 'sgt')), (scale(d, -1), ('ult', 'slt'))):
                    if f[1] in ops:
                        x = add(add(g, size), A(1), -1)
                        over.append(x)
            loaded = [fl.load(ad) for n, ad, w, i in fl.loads if same(ad, fld(P, add(atom(('buf', es[0].n)), was), 'Record.size'))] if es else []
            ok = any(const(x) in heads and not es for x in over) or any(same(x, y) for x in over for y in loaded)
            ctx.ob('record.missing', 'wal_file_pread', ok, 'a record is reported missing though the file has it', at=at)
            ctx.ob('record.restored', 'wal_file_pread', same(now, was), 'part of a record is left in the buffer', at=at)
    for x, k in (('whole', 1), ('size', 1), ('missing', 2), ('restored', 2)):
        ctx.floor('record.' + x, k)


def listing(ctx, P):
    """a new log file is listed and made current at once for those who write: what is written before goes to the file before, and nothing after the listing does"""
    v = core_load(['wal_create'], CALLS, [], False).view('wal_create')
    n = 0
    for p in paths(v, edge=noexc, visits=2):
        if p.end() != 'ret':
            continue
        held, lock, ad, cu = 0, 0, [], []
        for i in p.insts:
            if i.op == 'call' and i.callee in ('mutex_lock', 'pthread_mutex_lock') and 'Wal.lock' in str(v.term(i.args[0])):
                held += 1
                lock += 1
            elif i.op == 'call' and i.callee in ('mutex_unlock', 'pthread_mutex_unlock') and 'Wal.lock' in str(v.term(i.args[0])):
                held -= 1
            elif i.op == 'call' and i.callee == 'id_mgr_add':
                ad.append((held, lock, i))
            elif i.op == 'store' and leaf_field(v.term(i.args[1])) == 'Wal.current':
                cu.append((held, lock, i))
        n += 1
        ok = len(ad) == 1 and len(cu) == 1 and ad[0][0] == 1 and cu[0][0] == 1 and ad[0][1] == cu[0][1]
        ctx.ob('listing.together', 'wal_create', ok, 'a file is listed while records are still written to the one before it', at=(ad or cu or [(0, 0, p.insts[-1])])[0][2])
    # who writes does it under the lock
    v = core_load(['wal_write'], ['wal_file_write'], [], False).view('wal_write')
    for w in v.calls('wal_file_write'):
        lk = [c for c in v.calls('mutex_lock', 'pthread_mutex_lock') if 'Wal.lock' in str(v.term(c.args[0]))]
        un = [c for c in v.calls('mutex_unlock', 'pthread_mutex_unlock') if 'Wal.lock' in str(v.term(c.args[0]))]
        ok = v.dominated(w, lk) and not any(v.can_reach(u, [w], avoid=lk) for u in un)
        ctx.ob('listing.locked', 'wal_write', ok, 'records are written while the current file may be changed', at=w)
    ctx.floor('listing.together', 1)
    ctx.floor('listing.locked', 1)


RULES = [reading, stepping, opening, ahead, record, listing]
