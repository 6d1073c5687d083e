"""F03: stored data is verified before it is used."""
from ..q import *
from ..core import load as core_load
from .fsops import option

ENTRIES, KEEP, PLAIN = [], [], True
IO = ['file_read', 'file_pread', 'file_read_buf', 'file_pread_buf', 'file_write', 'file_pwrite', 'file_writev', 'file_truncate', 'file_sync', 'file_open_as', 'file_close', 'id_open', 'id_create']
ENC = ['encoder_init', 'encoder_free', 'encoder_open', 'encoder_set_compression', 'encoder_decode', 'encoder_encode', 'encoder_add', 'encoder_add_buf', 'encoder_iov', 'encoder_iov_size', 'encoder_iov_count', 'encoder_iov_crc', 'encoder_compression', 'encoder_reset', 'encoder_active']
OTHER = ['page_mgr_allocate', 'page_mgr_at', 'page_mgr_pointer_of', 'branch_allocate', 'branch_free', 'object_add', 'region_writer_crc', 'row_size', 'buf_size', 'region_writer_header', 'region_writer_min', 'region_writer_max', 'region_writer_started', 'region_writer_reset', 'region_writer_start']
FKEEP = IO + ENC + OTHER
READ = ('file_read', 'file_pread', 'file_read_buf', 'file_pread_buf')
noexc = lambda b, s, l: l != ('exc',)


def crcs(v):
    return {i.id: i for i in v.insts() if i.op == 'call' and any(t in ('crc32', 'crc32_sse') for t in i.targets())}


def pl(t):
    return {k: c for k, c in plin(strip_cast(t)).items() if c}


def addr(P, t):
    """(base, offset) of an address: fields are resolved to their offset"""
    off = 0
    while True:
        t = strip_cast(t)
        if t[0] == 'field':
            st, fl = t[2].split('.', 1)
            o = (int(fl[4:]), 0) if fl[:4] == 'anon' and fl[4:].isdigit() else offset_of(P, st, fl)
            off += o[0]
            t = t[1]
        elif t[0] == 'index' and const_of(t[2]) is not None:
            off += const_of(t[2]) * t[3]
            t = t[1]
        else:
            return t, off


class R:
    """one read: where to, how much; for a buffer the whole content"""


def reads(P, evs):
    r = []
    for e in evs:
        if e.k == 'call' and e.f in READ:
            x = R()
            x.e, x.n = e, e.n
            x.buf = e.f.endswith('_buf')
            x.dst, x.size = e.a[1], e.a[2]
            r.append(x)
    return r


def covers(P, v, e, x, skip=0):
    """a checksum call covers exactly what was read, from byte `skip` on"""
    if const_of(e.a[0]) != 0:
        return False
    if x.buf:
        s, q = ('load', ('field', x.dst, 'Buf.start')), ('load', ('field', x.dst, 'Buf.position'))
        n = strip_cast(e.a[2])
        whole = n[:2] == ('call', 'buf_size') and n[2] == (x.dst,) or pl(n) == {q: 1, s: -1} or n == strip_cast(x.size)
        return strip_cast(e.a[1]) == s and whole and not skip
    b, o = addr(P, e.a[1])
    c, d = addr(P, x.dst)
    if b != c or o - d != skip:
        return False
    n, m = pl(e.a[2]), pl(x.size)
    return {k: w for k, w in list(n.items())} == {k: w for k, w in {**m, None: m.get(None, 0) - skip}.items() if w}


def checked(p, v, at, upto, P, x, field, skip=0):
    """between the read and `upto` the checksum of what was read was found equal to `field`"""
    cs = crcs(v)
    for f, m in zip(p.facts, p.at):
        if not (at < m <= upto) or f[1] != 'eq':
            continue
        for a, b in ((f[2], f[3]), (f[3], f[2])):
            a, b = strip_cast(a), strip_cast(b)
            if a[0] == 'call' and a[2] in cs and leaf_field(b) == field:
                e = next((e for e in reversed(trace_of(p)) if e.i.id == a[2] and e.n <= m), None)
                if e is not None and covers(P, v, e, x, skip):
                    return True
    return False


def trace_of(p):
    if not hasattr(p, '_tr'):
        p._tr = trace(p, loads=True)
    return p._tr


def said(p, field, upto):
    """facts about a field compared with a constant, before a point"""
    r = []
    for f, m in zip(p.facts, p.at):
        if m <= upto:
            for a, b, pr in ((f[2], f[3], f[1]), (f[3], f[2], SWAP.get(f[1], f[1]))):
                if leaf_field(a) == field and strip_cast(a)[0] == 'load' and const_of(b) is not None:
                    r.append((pr, const_of(b)))
    return r


SWAP = {'slt': 'sgt', 'sgt': 'slt', 'ult': 'ugt', 'ugt': 'ult', 'sle': 'sge', 'sge': 'sle', 'ule': 'uge', 'uge': 'ule'}


def stored_const(P, field):
    """constants the program stores into a field"""
    r = set()
    for f in P.fn.values():
        for s in stores(f, field):
            c = const_of(f.term(s.args[0]))
            if c is not None:
                r.add(c)
    return r


def header(ctx, P, name, v, st, rule, hdr_of, exempt):
    """a header is used only after magic, checksum and version were found right"""
    magic, vers = stored_const(P, st + '.magic'), stored_const(P, st + '.version')
    magic -= {0} if len(magic) > 1 else set()
    size = find_struct(P, st)['size']
    k = 0
    for p in paths(v, edge=noexc):
        evs = trace_of(p)
        rd = [x for x in reads(P, evs) if hdr_of(x)]
        if not rd:
            continue
        x = rd[0]
        c0, _ = addr(P, x.dst)
        uses = [e for e in evs if e.n > x.n and (e.k == 'load' and (e.f or '').startswith(st + '.') and e.f not in exempt or e.k == 'call' and e.f in ('object_add', 'page_mgr_allocate', 'encoder_decode', 'encoder_set_compression') + READ)]
        if p.end() == 'ret':
            uses.append(Last(p))
        if not uses:
            continue
        u = uses[0]
        k += 1
        crc_off, crc_sz = offset_of(P, st, 'crc')
        m = said(p, st + '.magic', u.n)
        ctx.ob(rule + '.magic', name, any(pr == 'eq' and c in magic for pr, c in m), 'the header is used although its magic number may be wrong', at=u.i)
        w = said(p, st + '.version', u.n)
        ok = all(all(holds(pr, y, c) for pr, c in w) for y in vers) and bool(w) and not all(holds(pr, max(vers) + 1, c) for pr, c in w)
        ctx.ob(rule + '.version', name, ok, 'the header is used although its version may be another one', at=u.i)
        ctx.ob(rule + '.crc', name, crc_off == 0 and checked(p, v, x.n, u.n, P, x, st + '.crc', crc_sz), 'the header is used although its checksum may be wrong', at=u.i)
        n = pl(x.size)
        ctx.ob(rule + '.whole', name, set(n) == {None} and n[None] >= size, 'the header is not read completely', at=x.e.i)
    ctx.floor(rule + '.crc', 1)
    ctx.floor(rule + '.magic', 1)
    ctx.floor(rule + '.version', 1)


class Last:
    def __init__(self, p):
        self.i, self.n, self.k = p.insts[-1], len(p.insts), 'ret'


def view(n, extra=(), unkeep=()):
    Q = core_load([n], FKEEP + list(extra), list(unkeep), False)
    return Q.view(n)


def heap_read(ctx, P):
    """a heap file is used only after magic number, version and checksum of its header were found right, and each page only after its checksum was (when verification is on); every page is read"""
    name = 'heap_open'
    v = view(name)
    header(ctx, P, name, v, 'HeapHeader', 'heap.header', lambda x: leaf_field(x.dst) == 'Heap.header', ('HeapHeader.magic', 'HeapHeader.crc', 'HeapHeader.version'))
    ph = find_struct(P, 'PageHeader')['size']
    full = None
    for p in paths(v, edge=noexc):
        evs = trace_of(p)
        rd = reads(P, evs)
        if not rd:
            continue
        full = rd[0].size
        for e in [e for e in evs if e.k == 'call' and e.f == 'encoder_set_compression']:
            ctx.ob('heap.page.codec', name, leaf_field(e.a[1]) == 'HeapHeader.compression', 'pages are decoded another way than they were encoded', at=e.i)
        al = [e for e in evs if e.k == 'call' and e.f == 'page_mgr_allocate']
        for a in al[:1]:
            ctx.ob('heap.page.codec', name, any(e.k == 'call' and e.f == 'encoder_set_compression' and e.n < a.n for e in evs), 'pages are decoded another way than they were encoded', at=a.i)
        for j, a in enumerate(al):
            nx = al[j + 1].n if j + 1 < len(al) else len(p.insts) + 1
            mine = [x for x in rd if a.n < x.n < nx]
            done = j + 1 < len(al) or p.end() == 'ret'
            page = ('call', 'page_mgr_allocate', tuple(a.a))
            ptr = ('load', ('field', page, 'Page.pointer'))
            if not mine:
                ctx.ob('heap.page.read', name, not done, 'a page is not read', at=a.i)
                continue
            h = mine[0]
            ctx.ob('heap.page.header', name, strip_cast(h.dst) == ptr and const_of(h.size) == ph, 'the page header is not read as it was written', at=h.e.i)
            if len(mine) < 2:
                ctx.ob('heap.page.read', name, not done, 'the rows of a page are not read', at=a.i)
                continue
            d = mine[1]
            dec = [e for e in evs if e.k == 'call' and e.f == 'encoder_decode' and d.n < e.n < nx]
            on = option(between(p, d.n, nx), 'Config.storage_crc')
            use = dec[0].n if dec else nx
            if dec or done:
                ok = on is False or checked(p, v, d.n, use, P, d, 'PageHeader.crc')
                ctx.ob('heap.page.crc', name, ok, 'a page is used although its checksum may be wrong', at=d.e.i)
            usize = {('load', ('field', ptr, 'PageHeader.size')): 1, None: -ph}
            act = active(p, a.n, nx)
            if d.buf:
                ctx.ob('heap.page.size', name, strip_cast(d.size) == ('load', ('field', ptr, 'PageHeader.size_compressed')), 'a compressed page is not read as it was written', at=d.e.i)
                ctx.ob('heap.page.mode', name, act is not False, 'a plain page is read as a compressed one', at=d.e.i)
                if done:
                    ctx.ob('heap.page.decoded', name, len(dec) == 1, 'a compressed page is not decoded', at=d.e.i)
                for e in dec:
                    b, o = addr(P, e.a[1])
                    s, q = ('load', ('field', d.dst, 'Buf.start')), ('load', ('field', d.dst, 'Buf.position'))
                    n4 = strip_cast(e.a[4])
                    ok = b == ptr and o == ph and pl(e.a[2]) == usize and strip_cast(e.a[3]) == s and (pl(n4) == {q: 1, s: -1} or n4 == ('call', 'buf_size', (d.dst,)))
                    ctx.ob('heap.page.into', name, ok, 'a page is not decoded into its place', at=e.i)
            else:
                b, o = addr(P, d.dst)
                ctx.ob('heap.page.size', name, b == ptr and o == ph and pl(d.size) == usize, 'a page is not read into its place', at=d.e.i)
                ctx.ob('heap.page.mode', name, act is not True, 'a compressed page is read as a plain one', at=d.e.i)
        if p.end() == 'ret':
            ctx.ob('heap.page.all', name, covered(p, len(al), 'HeapHeader.count'), 'pages are left out', at=p.insts[-1])
    # what the writer made
    name = 'heap_create'
    v = view(name)
    for p in paths(v, edge=noexc, visits=3):
        evs = trace_of(p)
        wr = [e for e in evs if e.k == 'call' and e.f == 'file_write']
        if not wr:
            continue
        h = wr[0]
        cr = [e for e in evs if e.k == 'call' and e.i.id in crcs(v) and e.n < h.n]
        st = [e for e in evs if e.k == 'store' and e.f == 'HeapHeader.crc' and e.n < h.n]
        co, cs = offset_of(P, 'HeapHeader', 'crc')
        ok = len(cr) == 1 and len(st) == 1 and strip_cast(st[0].i.fn_term(v) if False else v.term(st[0].i.args[0]))[:1] == ('call',) and strip_cast(v.term(st[0].i.args[0]))[2] == cr[0].i.id
        if ok:
            b, o = addr(P, cr[0].a[1])
            c, d = addr(P, h.a[1])
            n, m = pl(cr[0].a[2]), pl(h.a[2])
            ok = b == c and d == 0 and o == co + cs and n.get(None, 0) == m.get(None, 0) - o and const_of(cr[0].a[0]) == 0
        ctx.ob('heap.write.header', name, ok, 'the checksum of the header does not cover what is written', at=h.i)
        ctx.ob('heap.write.size', name, full is not None and pl(h.a[2]) == pl(full) and leaf_field(h.a[1]) == 'Heap.header', 'the header is written in another size than it is read', at=h.i)
        late = [e for e in evs if e.k == 'store' and (e.f or '').startswith('HeapHeader.') and e.f != 'HeapHeader.crc' and cr and cr[0].n < e.n]
        ctx.ob('heap.write.final', name, not late, 'the header is changed after its checksum was computed', at=late[0].i if late else h.i)
        cm = [e for e in evs if e.k == 'store' and e.f == 'HeapHeader.compression']
        ctx.ob('heap.write.codec', name, len(cm) == 1 and strip_cast(cm[0].v)[:2] == ('call', 'encoder_compression'), 'the way of encoding is not recorded', at=h.i)
        # pages
        pg = [e for e in evs if e.k == 'call' and e.f == 'page_mgr_at']
        if p.end() == 'ret':
            ctx.ob('heap.write.all', name, [const_of(e.a[1]) for e in pg] == list(range(len(pg))) and len(wr) == 1 + 2 * len(pg) and ended(p, len(pg)), 'pages are left out or written twice', at=p.insts[-1])
        for j, g in enumerate(pg):
            nx = pg[j + 1].n if j + 1 < len(pg) else len(p.insts) + 1
            w = [e for e in wr if g.n < e.n < nx]
            if len(w) < 2:
                continue
            ptr = strip_cast(w[0].a[1])
            if not (ptr[0] == 'load' and leaf_field(ptr) == 'Page.pointer' and ptr[1][1][:2] == ('call', 'page_mgr_at') and ptr[1][1][2][:1] == tuple(g.a[:1])):
                ptr = None
            seg = [e for e in evs if g.n < e.n < nx]
            iov = lambda f: lambda t: strip_cast(t)[0] == 'load' and leaf_field(strip_cast(t)) == f and strip_cast(t)[1][1][:2] == ('call', 'encoder_iov')
            ctx.ob('heap.write.pages', name, strip_cast(w[0].a[1]) == ptr and const_of(w[0].a[2]) == ph and iov('iovec.iov_base')(w[1].a[1]) and iov('iovec.iov_len')(w[1].a[2]), 'a page is not written as it is read', at=w[1].i)
            ad = [e for e in seg if e.k == 'call' and e.f in ('encoder_add', 'encoder_add_buf')]
            rs = [e for e in seg if e.k == 'call' and e.f == 'encoder_reset']
            en = [e for e in seg if e.k == 'call' and e.f == 'encoder_encode']
            usize = {('load', ('field', ptr, 'PageHeader.size')): 1, None: -ph}
            ok = len(ad) == 1 and len(en) == 1 and bool(rs) and rs[-1].n < ad[0].n < en[0].n < w[0].n and addr(P, ad[0].a[1]) == (ptr, ph) and pl(ad[0].a[2]) == usize
            ctx.ob('heap.write.encoded', name, ok, 'what is encoded is not the content of the page', at=w[1].i)
            s = [e for e in seg if e.k == 'store' and e.f == 'PageHeader.size_compressed' and e.n < w[0].n]
            ctx.ob('heap.write.length', name, len(s) == 1 and (iov('iovec.iov_len')(s[0].v) or strip_cast(s[0].v)[:2] == ('call', 'encoder_iov_size') and en and s[0].n > en[0].n) and s[0].a[1] == ptr, 'the encoded size is not recorded', at=w[0].i)
            s = [e for e in seg if e.k == 'store' and e.f == 'PageHeader.crc']
            on = option(between(p, g.n, nx), 'Config.storage_crc')
            ok = on is False or len(s) == 1 and s[0].n < w[0].n and strip_cast(s[0].v)[:2] == ('call', 'encoder_iov_crc') and en and s[0].n > en[0].n and s[0].a[1] == ptr
            ctx.ob('heap.write.crc', name, ok, 'the checksum of a page is not recorded', at=w[0].i)
    for x in ('heap.page.crc', 'heap.page.into', 'heap.page.all', 'heap.page.size', 'heap.write.header', 'heap.write.pages', 'heap.write.crc', 'heap.write.encoded', 'heap.write.all'):
        ctx.floor(x, 2)


def bounds(p, field):
    """what the path says about a count: [(relation, constant)]"""
    r = []
    for f in p.facts:
        if f[0] != 'cmp':
            continue
        t = pl(f[2])
        for k, c in pl(f[3]).items():
            t[k] = t.get(k, 0) - c
        c = t.pop(None, 0)
        t = {k: n for k, n in t.items() if n}
        if len(t) != 1:
            continue
        (k, n), = t.items()
        if not (k[0] == 'load' and (leaf_field(k) or '').endswith(field)) or c % n:
            continue
        r.append((f[1] if n > 0 else SWAP.get(f[1], f[1]), -c // n))
    return r


def covered(p, n, field):
    """the count was found to be no more than n"""
    return any(pr in ('sle', 'ule', 'eq') and c <= n or pr in ('slt', 'ult') and c - 1 <= n for pr, c in bounds(p, field))


def ended(p, n):
    """the loop was left because n pages are all"""
    return covered(p, n, '.list_count')


def between(p, a, b):
    return before(p, b, a)


def active(p, a, b):
    """what the path says about compression being on"""
    r = None
    for f, m in zip(p.facts, p.at):
        t = strip_cast(f[2])
        if m <= b and (leaf_field(t) == 'Encoder.compression' and f[3] == ('null',) or t[:2] == ('call', 'encoder_active') and const_of(f[3]) == 0):
            r = f[1] == 'ne'
    return r


def object_read(ctx, P):
    """a branch of an object file is used only after magic number, version, checksum and sizes of its header and the checksum of its index were found right"""
    name = 'object_open'
    v = view(name, extra=['info'])
    header(ctx, P, name, v, 'Meta', 'object.header', lambda x: leaf_field(x.dst) == 'Branch.meta', ('Meta.magic', 'Meta.crc', 'Meta.version'))
    size = find_struct(P, 'Meta')['size']
    for p in paths(v, edge=noexc):
        evs = trace_of(p)
        rd = reads(P, evs)
        al = [e for e in evs if e.k == 'call' and e.f == 'branch_allocate']
        for j, a in enumerate(al):
            nx = al[j + 1].n if j + 1 < len(al) else len(p.insts) + 1
            mine = [x for x in rd if a.n < x.n < nx]
            done = [e for e in evs if e.k == 'call' and e.f == 'object_add' and a.n < e.n < nx]
            if not mine:
                ctx.ob('object.header.read', name, not done, 'a branch is used without its header', at=a.i)
                continue
            h = mine[0]
            br = ('call', 'branch_allocate', tuple(a.a))
            ctx.ob('object.header.dst', name, strip_cast(h.dst) == ('field', br, 'Branch.meta') and const_of(h.size) == size, 'the header is not read as it was written', at=h.e.i)
            # room for the header, and for the branch
            fs = [f for f, m in zip(p.facts, p.at) if m <= h.n and mentions(v, f[2], 'File.size') and const_of(f[3]) is not None]
            ctx.ob('object.header.room', name, any(f[1] in ('uge', 'sge', 'ugt') and const_of(f[3]) >= size - (f[1] == 'ugt') for f in fs), 'a header is read behind the end of the file', at=h.e.i)
            idx = mine[1] if len(mine) > 1 else None
            dec = [e for e in evs if e.k == 'call' and e.f == 'encoder_decode' and a.n < e.n < nx]
            if idx or done:
                end = idx.n if idx else done[0].n
                fs = [f for f, m in zip(p.facts, p.at) if h.n < m <= end and (leaf_field(f[2]) == 'File.size' or leaf_field(f[3]) == 'File.size')]
                ok = any(f[1] in ('ule', 'sle') and leaf_field(f[3]) == 'File.size' or f[1] in ('uge', 'sge') and leaf_field(f[2]) == 'File.size' for f in fs)
                ctx.ob('object.header.bounded', name, ok, 'a branch that ends behind the end of the file is used', at=(idx.e if idx else done[0]).i)
            # the index
            if idx:
                meta = ('field', br, 'Branch.meta')
                ctx.ob('object.index.size', name, strip_cast(idx.size) == ('load', ('field', meta, 'Meta.size')), 'the index is not read as it was written', at=idx.e.i)
                off = pl(idx.e.a[3])
                ok = off.get(('load', ('field', meta, 'Meta.size'))) == -1 and off.get(('load', ('field', meta, 'Meta.size_total')), 1) >= 1 and not off.get(None)
                ctx.ob('object.index.where', name, ok, 'the index is not read from the end of the branch', at=idx.e.i)
            use = dec[0] if dec else (done[0] if done else None)
            if use:
                empty = not idx and any(leaf_field(f[2]) == 'Meta.size' and const_of(f[3]) == 0 and f[1] in ('eq', 'ule') for f in p.facts)
                ok = idx is not None and checked(p, v, idx.n, use.n, P, idx, 'Meta.crc_data') or empty
                ctx.ob('object.index.crc', name, ok, 'the index is used although its checksum may be wrong', at=use.i)
            act = active(p, a.n, nx)
            if done:
                ctx.ob('object.index.decoded', name, (len(dec) == 1) == (act is True), 'the index is not decoded', at=done[0].i)
            for e in dec:
                em = [x for x in evs if x.k == 'call' and x.f == 'buf_emplace' and a.n < x.n < e.n]
                md = ('field', br, 'Branch.meta_data')
                ok = len(em) == 1 and em[0].a[0] == md and strip_cast(em[0].a[1]) == ('load', ('field', ('field', br, 'Branch.meta'), 'Meta.size_origin')) and intobuf(e, md, idx)
                ctx.ob('object.index.into', name, ok, 'the index is not decoded into its place', at=e.i)
            cm = [e for e in evs if e.k == 'call' and e.f == 'encoder_set_compression' and a.n < e.n < nx]
            if done:
                ctx.ob('object.index.codec', name, len(cm) == 1 and leaf_field(cm[0].a[1]) == 'Meta.compression', 'the index is decoded another way than it was encoded', at=done[0].i)
    for x in ('object.index.crc', 'object.index.into', 'object.index.size', 'object.header.bounded', 'object.header.room', 'object.header.dst'):
        ctx.floor(x, 1)
    # writer
    name = 'meta_writer_stop'
    v = view(name, unkeep=[])
    for p in paths(v, edge=noexc):
        evs = trace_of(p)
        if p.end() != 'ret':
            continue
        st = {}
        for e in evs:
            if e.k == 'store' and (e.f or '').startswith('Meta.'):
                st.setdefault(e.f, []).append(e)
        en = [e for e in evs if e.k == 'call' and e.f == 'encoder_encode']
        ad = [e for e in evs if e.k == 'call' and e.f == 'encoder_add_buf']
        at = p.insts[-1]
        ctx.ob('object.write.index', name, [leaf_field(e.a[1]) for e in ad] == ['MetaWriter.offsets', 'MetaWriter.data'] and len(en) == 1 and en[0].n > ad[-1].n, 'the index is not encoded as it is read', at=at)
        last = lambda f: st[f][-1] if f in st else None
        for f, call in (('Meta.size', 'encoder_iov_size'), ('Meta.crc_data', 'encoder_iov_crc'), ('Meta.compression', 'encoder_compression')):
            x = last(f)
            ok = x is not None and strip_cast(x.v)[:2] == ('call', call) and en and strip_cast(x.v)[2] == tuple(en[0].a[:1]) and x.n > en[0].n
            if ok and call != 'encoder_compression':
                c = [e for e in evs if e.k == 'call' and e.f == call and e.n < x.n]
                ok = bool(c) and c[-1].n > en[0].n
            ctx.ob('object.write.' + f.split('.')[1], name, ok, '%s of the encoded index is not recorded' % f, at=x.i if x else at)
        m = effects(p)
        x = [(a, c) for a, c in m.items() if a[0] == 'field' and a[2] == 'Meta.size_origin']
        ok = len(x) == 1 and x[0][1] == {('load', ('field', x[0][0][1], 'Meta.size')): 1}
        ctx.ob('object.write.origin', name, ok, 'the plain size of the index is not recorded', at=at)
        x = [(a, c) for a, c in m.items() if a[0] == 'field' and a[2] == 'Meta.size_total']
        ok = False
        if len(x) == 1:
            w = {leaf_field(k) if k and k[0] == 'load' else k and k[1] if k else None: n for k, n in x[0][1].items()}
            ok = w == {'Meta.size_regions': 1, 'encoder_iov_size': 1, None: size}
        ctx.ob('object.write.total', name, ok, 'the size of the branch is not recorded', at=at)
        cr = [e for e in evs if e.k == 'call' and e.i.id in crcs(v)]
        cs = last('Meta.crc')
        ok = len(cr) == 1 and cs is not None and strip_cast(v.term(cs.i.args[0])) [0] == 'call' and strip_cast(v.term(cs.i.args[0]))[2] == cr[0].i.id
        if ok:
            b, o = addr(P, cr[0].a[1])
            b2, o2 = addr(P, cs.a)
            zero = any(const_of(e.v) == 0 and e.n < cr[0].n for e in st['Meta.crc'])
            ok = b == b2 and const_of(cr[0].a[0]) == 0 and (o - o2 == 0 and const_of(cr[0].a[2]) == size and zero or o - o2 == 4 and const_of(cr[0].a[2]) == size - 4)
        ctx.ob('object.write.crc', name, ok, 'the checksum of the header does not cover the header', at=at)
        late = [e for f in st for e in st[f] if f != 'Meta.crc' and cr and e.n > cr[0].n]
        ctx.ob('object.write.final', name, not late, 'the header is changed after its checksum was computed', at=late[0].i if late else at)
        ctx.ob('object.write.magic', name, last('Meta.magic') is not None and last('Meta.version') is not None, 'magic number or version is not recorded', at=at)
    for x in ('object.write.crc', 'object.write.size', 'object.write.crc_data', 'object.write.total', 'object.write.origin'):
        ctx.floor(x, 1)


def intobuf(e, md, src):
    """decode arguments: the whole buffer md from the whole of what was read"""
    def whole(ptr, n, b):
        s, q = ('load', ('field', b, 'Buf.start')), ('load', ('field', b, 'Buf.position'))
        return strip_cast(ptr) == s and (pl(n) == {q: 1, s: -1} or strip_cast(n) == ('call', 'buf_size', (b,)))
    return src is not None and whole(e.a[1], e.a[2], md) and whole(e.a[3], e.a[4], src.dst)


def region(ctx, P):
    """a region is used only after its checksum was found right (when verification is on), and is what its index entry describes"""
    name = 'reader_execute'
    v = view(name)
    mr = ('arg', 1, v.params[1])
    for p in paths(v, edge=noexc):
        evs = trace_of(p)
        rd = reads(P, evs)
        if p.end() == 'ret':
            ctx.ob('region.read', name, len(rd) == 1, 'a region is not read once', at=p.insts[-1])
        if not rd:
            continue
        x = rd[0]
        F = lambda f: ('load', ('field', mr, 'MetaRegion.' + f))
        ctx.ob('region.where', name, strip_cast(x.size) == F('size') and strip_cast(x.e.a[3]) == F('offset'), 'another region is read', at=x.e.i)
        pre = [e for e in evs if e.k == 'call' and e.f == 'buf_reset' and e.a[0] == x.dst and e.n < x.n] or (x.dst[0] in ('alloca', 'call'))
        ctx.ob('region.fresh', name, not x.buf or bool(pre), 'a region is appended to the one read before', at=x.e.i)
        dec = [e for e in evs if e.k == 'call' and e.f == 'encoder_decode']
        use = [e for e in evs if e.n > x.n and (e.k == 'load' and (e.f or '').startswith('Region.') or e in dec)]
        if use:
            on = option(p, 'Config.storage_crc')
            ok = on is False or checked(p, v, x.n, use[0].n, P, x, 'MetaRegion.crc')
            ctx.ob('region.crc', name, ok, 'a region is used although its checksum may be wrong', at=use[0].i)
        act = active(p, 0, len(p.insts))
        if p.end() == 'ret':
            ctx.ob('region.decoded', name, (len(dec) == 1) == (act is True), 'a compressed region is not decoded', at=p.insts[-1])
            rt = v.norm(p.arg(p.insts[-1], 0))
            src = dec[0].a[1] if dec else ('load', ('field', x.dst, 'Buf.start'))
            ctx.ob('region.returned', name, strip_cast(rt) == strip_cast(src), 'something else than the region is returned', at=p.insts[-1])
            for f, g in (('Region.size', 'size_origin'), ('Region.rows', 'rows')):
                ok = any(fa[1] == 'eq' and {leaf_field(fa[2]), leaf_field(fa[3])} == {f, 'MetaRegion.' + g} for fa in p.facts)
                ctx.ob('region.consistent', name, ok, 'a region is returned that is not the one of its index entry', at=p.insts[-1])
        for e in dec:
            em = [y for y in evs if y.k == 'call' and y.f == 'buf_emplace' and y.n < e.n]
            rs = [y for y in evs if y.k == 'call' and y.f == 'buf_reset' and em and y.a[0] == em[0].a[0] and y.n < em[0].n]
            ok = len(em) == 1 and bool(rs) and strip_cast(em[0].a[1]) == F('size_origin') and intobuf(e, em[0].a[0], x)
            ctx.ob('region.into', name, ok, 'a region is not decoded into its place', at=e.i)
    for x in ('region.crc', 'region.into', 'region.consistent', 'region.fresh'):
        ctx.floor(x, 1)
    # the index entry
    name = 'meta_writer_add'
    v = view(name)
    rw = ('arg', 1, v.params[1])
    enc = ('field', rw, 'RegionWriter.encoder')
    sz = find_struct(P, 'MetaRegion')['size']
    for p in paths(v, edge=noexc):
        if p.end() != 'ret':
            continue
        evs = trace_of(p)
        at = p.insts[-1]
        em = [e for e in evs if e.k == 'call' and e.f == 'buf_emplace']
        ok = len(em) == 1 and leaf_field(em[0].a[0]) == 'MetaWriter.data' and const_of(em[0].a[1]) == sz
        ctx.ob('entry.made', name, ok, 'a region is not entered into the index once', at=at)
        if not ok:
            continue
        ref = ('call', 'buf_emplace', tuple(em[0].a))
        st = {e.f: strip_cast(e.v) for e in evs if e.k == 'store' and e.a[0] == 'field' and e.a[1] == ref}
        reg = lambda f: lambda t: t[0] == 'load' and leaf_field(t) == f and (mentions_term(t, rw))
        want = {'MetaRegion.offset': lambda t: t == ('arg', 2, v.params[2]), 'MetaRegion.size': lambda t: t == ('call', 'encoder_iov_size', (enc,)), 'MetaRegion.size_origin': reg('Region.size'), 'MetaRegion.rows': reg('Region.rows'),
                'MetaRegion.size_min': iscall('row_size'), 'MetaRegion.size_max': iscall('row_size')}
        for f, ok in want.items():
            ctx.ob('entry.' + f.split('.')[1], name, f in st and ok(st[f]), 'the index entry of a region has another %s' % f, at=at)
        on = [f[1] == 'ne' for f in p.facts if leaf_field(f[2]) == 'MetaWriter.crc' and const_of(f[3]) == 0]
        c = st.get('MetaRegion.crc')
        iscrc = c is not None and (c[:2] == ('call', 'encoder_iov_crc') and c[2] == (enc,) or c[:2] == ('call', 'region_writer_crc') and c[2] == (rw,))
        ctx.ob('entry.crc', name, iscrc or bool(on) and on[-1] is False, 'the checksum of a region is not recorded', at=at)
        # the order in which it is read back
        wr = [e for e in evs if e.k == 'call' and e.f in ('buf_write', 'buf_emplace')]
        d = [e for e in wr if leaf_field(e.a[0]) == 'MetaWriter.data']
        o = [e for e in wr if leaf_field(e.a[0]) == 'MetaWriter.offsets']
        off = [e for e in evs if e.k == 'store' and o and e.a == o[0].a[1] and e.n < o[0].n]
        f = {'s': ('load', ('field', ('field', ('arg', 0, v.params[0]), 'MetaWriter.data'), 'Buf.start')), 'p': ('load', ('field', ('field', ('arg', 0, v.params[0]), 'MetaWriter.data'), 'Buf.position'))}
        isoff = bool(off) and (strip_cast(off[-1].v) == ('call', 'buf_size', (('field', ('arg', 0, v.params[0]), 'MetaWriter.data'),)) or pl(off[-1].v) == {f['p']: 1, f['s']: -1}) and d and off[-1].n < d[0].n
        ctx.ob('entry.position', name, len(o) == 1 and const_of(o[0].a[2]) == 4 and isoff, 'the position of the index entry is not recorded', at=at)
        ok = len(d) == 3 and d[0] is em[0] and all(strip_cast(e.a[2])[:2] == ('call', 'row_size') and strip_cast(e.a[2])[2] == (e.a[1],) for e in d[1:])
        if ok:
            ok = st.get('MetaRegion.size_min') == strip_cast(d[1].a[2]) and st.get('MetaRegion.size_max') == strip_cast(d[2].a[2])
        ctx.ob('entry.bounds', name, ok, 'the first and last row of the region are not recorded behind its entry', at=at)
        m = effects(p)
        for f in ('Meta.regions', 'Meta.rows', 'Meta.size', 'Meta.size_regions', 'Meta.size_regions_origin'):
            x = [(a, c) for a, c in m.items() if a[0] == 'field' and a[2] == f]
            ok = len(x) == 1
            if ok:
                a, c = x[0]
                self_ = c.pop(('load', a), 0) if isinstance(c, dict) else 0
                w = {}
                for k, n in c.items():
                    key = None if k is None else leaf_field(k) if k[0] == 'load' else k[1]
                    w[key] = w.get(key, 0) + n
                want = {'Meta.regions': {None: 1}, 'Meta.rows': {'Region.rows': 1}, 'Meta.size': {None: 4 + sz, 'row_size': 2}, 'Meta.size_regions': {'encoder_iov_size': 1}, 'Meta.size_regions_origin': {'Region.size': 1}}[f]
                ok = self_ == 1 and {k: n for k, n in w.items() if n} == want
            ctx.ob('entry.sum', f, ok, 'the header does not count the region', at=at)
    for x in ('entry.crc', 'entry.size', 'entry.position', 'entry.bounds', 'entry.sum'):
        ctx.floor(x, 1)
    # the file
    for name in ('writer_stop', 'writer_add'):
        v = view(name, extra=['region_writer_stop', 'meta_writer_add', 'meta_writer_stop', 'region_writer_add'])
        for p in paths(v, edge=noexc):
            evs = trace_of(p)
            cs = [e for e in evs if e.k == 'call']
            for e in [e for e in cs if e.f == 'meta_writer_add']:
                st = [x for x in cs if x.f == 'region_writer_stop' and x.n < e.n and x.a[0] == e.a[1]]
                wr = [x for x in cs if x.f == 'file_writev']
                aft = [x for x in wr if x.n > e.n]
                ctx.ob('region.write.encoded', name, bool(st), 'a region is entered into the index before it is encoded', at=e.i)
                ctx.ob('region.write.offset', name, leaf_field(e.a[2]) == 'File.size' and not [x for x in wr if st and st[-1].n < x.n < e.n], 'the position of a region is not the end of the file', at=e.i)
                ok = bool(aft) and iovof(aft[0], ('field', e.a[1], 'RegionWriter.encoder'))
                if p.end() == 'ret':
                    ctx.ob('region.write.data', name, ok, 'a region that is in the index is not written', at=e.i)
            if p.end() == 'ret' and name == 'writer_stop':
                ms = [e for e in cs if e.f == 'meta_writer_stop']
                if not ms:
                    ok = any((leaf_field(f[2]) == 'MetaWriter.active') and truth(v, [f], lambda t: leaf_field(t) == 'MetaWriter.active') is False for f in p.facts)
                    ctx.ob('index.write.always', name, ok, 'a branch is left without its index', at=p.insts[-1])
                    continue
                started = [truth(v, [f], iscall('region_writer_started')) for f in p.facts]
                if not [s for s in started if s is False]:
                    ctx.ob('region.write.last', name, any(e.f == 'meta_writer_add' and e.n < ms[0].n for e in cs), 'the last region is left out', at=ms[0].i)
                w = [e for e in cs if e.f == 'file_writev' and e.n > ms[0].n]
                pw = [e for e in cs if e.f == 'file_pwrite' and e.n > ms[0].n]
                ok = len(w) == 1 and iovof(w[0], ('field', ms[0].a[0], 'MetaWriter.encoder')) and len(pw) == 1 and pw[0].n > w[0].n
                ctx.ob('index.write.data', name, ok, 'the index or header is not written', at=p.insts[-1])
                for e in pw:
                    md = ('field', ms[0].a[0], 'MetaWriter.meta')
                    n = pl(e.a[3])
                    ks = {leaf_field(k): c for k, c in n.items() if k is not None}
                    ctx.ob('index.write.header', name, e.a[1] == md and const_of(e.a[2]) == find_struct(P, 'Meta')['size'] and ks == {'File.size': 1, 'Meta.size_total': -1} and None not in n, 'the header is not written at the start of its branch', at=e.i)
    v = view('writer_start', extra=['meta_writer_open', 'region_writer_open', 'meta_writer_reset', 'meta_writer_start'])
    for p in paths(v, edge=noexc):
        if p.end() == 'ret':
            evs = trace_of(p)
            w = [e for e in evs if e.k == 'call' and e.f == 'file_write']
            ctx.ob('index.write.reserved', 'writer_start', len(w) == 1 and const_of(w[0].a[2]) == find_struct(P, 'Meta')['size'], 'no room is kept for the header', at=p.insts[-1])
            s = [e for e in evs if e.k == 'call' and e.f == 'meta_writer_start']
            on = option(p, 'Config.storage_crc')
            ok = len(s) == 1 and (s[0].a[1] == ('const', 1) and on is not False or calls_opt(s[0].a[1]) or on is False)
            ctx.ob('index.write.mode', 'writer_start', ok, 'checksums are not made although they are verified', at=p.insts[-1])
    for x in ('region.write.encoded', 'region.write.data', 'index.write.data', 'index.write.header', 'index.write.reserved'):
        ctx.floor(x, 1)


def calls_opt(t):
    t = strip_cast(t)
    if t[0] == 'cmp' and t[1] == 'ne':
        t = strip_cast(t[2])
    return t[:2] == ('call', 'opt_int_of') and leaf_field(t[2][0]) == 'Config.storage_crc'


def mentions_term(t, x):
    if t == x:
        return True
    return isinstance(t, tuple) and any(mentions_term(y, x) for y in t if isinstance(y, tuple))


def iovof(e, enc):
    return strip_cast(e.a[1]) == ('call', 'encoder_iov', (enc,)) and strip_cast(e.a[2]) == ('call', 'encoder_iov_count', (enc,))


def part(t, field):
    """the number of the part a term is the address or length of"""
    t = strip_cast(t)
    if t[0] != 'load' or leaf_field(t) != field:
        return None
    t = strip_cast(t[1][1])
    if t[0] != 'index':
        return 0 if t[0] in ('load', 'call') else None
    return const_of(t[2]) if t[3] == 16 else None


def encoder(ctx, P):
    """the checksum and size of encoded data are those of all its parts in order, which are replaced by the compressed data when it is compressed; decoding uses the same codec"""
    n = 'encoder_iov_crc'
    v = view(n, unkeep=['encoder_iov_crc'])
    Q = core_load([n], [k for k in FKEEP if k != n], [], True)
    v = Q.view(n)
    for p in paths(v, visits=3):
        if p.end() != 'ret':
            continue
        evs = trace_of(p)
        cs = [e for e in evs if e.k == 'call' and e.i.id in crcs(v)]
        prev = ('const', 0)
        for j, e in enumerate(cs):
            ctx.ob('encoder.crc.part', n, part(e.a[1], 'iovec.iov_base') == part(e.a[2], 'iovec.iov_len') == j, 'a part is left out of the checksum', at=e.i)
            seed = strip_cast(e.a[0])
            ctx.ob('encoder.crc.chain', n, const_of(seed) == 0 if j == 0 else seed[0] == 'call', 'the checksum is not chained', at=e.i)
        ctx.ob('encoder.crc.all', n, covered(p, len(cs), 'Iov.iov_count'), 'parts are left out of the checksum', at=p.insts[-1])
        rt = strip_cast(p.arg(p.insts[-1], 0))
        ctx.ob('encoder.crc.result', n, const_of(rt) == 0 if not cs else rt[0] == 'call' and rt[2] == cs[-1].i.id, 'another checksum is returned', at=p.insts[-1])
    ctx.floor('encoder.crc.chain', 2)
    n = 'encoder_encode'
    Q = core_load([n], [k for k in FKEEP if k not in (n, 'encoder_iov')] + ['codec_encode_begin', 'codec_encode', 'codec_encode_end', 'iov_reset', 'iov_add_buf', 'codec_encode_buf'], [], True)
    v = Q.view(n)
    for p in paths(v, visits=3, edge=noexc):
        if p.end() != 'ret':
            continue
        evs = trace_of(p)
        cs = [e for e in evs if e.k == 'call']
        on = [f[1] == 'ne' for f in p.facts if leaf_field(f[2]) == 'Encoder.compression' and f[3] == ('null',)]
        names = [e.f for e in cs]
        if on and not on[0]:
            ctx.ob('encoder.plain', n, 'iov_reset' not in names and 'codec_encode' not in names, 'plain data is changed', at=p.insts[-1])
            continue
        k = names.count('codec_encode')
        want = ['codec_encode_begin'] + ['codec_encode'] * k + ['codec_encode_end', 'iov_reset', 'iov_add_buf']
        got = [x for x in names if x in want]
        ctx.ob('encoder.order', n, got == want, 'compressed data is not made in order', at=p.insts[-1])
        if got != want:
            continue
        c = {e.f: e for e in cs}
        ctx.ob('encoder.buffer', n, leaf_field(c['iov_add_buf'].a[1]) == 'Encoder.compression_buf' and all(e.a[1] == c['iov_add_buf'].a[1] for e in cs if e.f.startswith('codec_')), 'what is written is not the compressed data', at=c['iov_add_buf'].i)
        for j, e in enumerate([e for e in cs if e.f == 'codec_encode']):
            ctx.ob('encoder.part', n, part(e.a[2], 'iovec.iov_base') == part(e.a[3], 'iovec.iov_len') == j, 'a part is not compressed', at=e.i)
        ctx.ob('encoder.all', n, covered(p, k, 'Iov.iov_count'), 'parts are not compressed', at=p.insts[-1])
    ctx.floor('encoder.order', 2)
    # sizes
    Q = core_load(['iov_add', 'iov_reset', 'iov_init', 'iov_add_buf', 'encoder_iov_size'], ['buf_reserve'], [], True)
    v = Q.view('iov_add')
    for p in paths(v, edge=noexc):
        if p.end() == 'ret':
            m = effects(p)
            w = {a[2] if a[0] == 'field' else None: c for a, c in m.items()}
            A = lambda k: ('arg', k, v.params[k])
            ok = w.get('Iov.size') == {('load', ('field', A(0), 'Iov.size')): 1, A(2): 1} and w.get('Iov.iov_count') == {('load', ('field', A(0), 'Iov.iov_count')): 1, None: 1}
            ctx.ob('encoder.size.add', 'iov_add', ok, 'a part is not counted', at=p.insts[-1])
            ok = w.get('iovec.iov_base') == {A(1): 1} and w.get('iovec.iov_len') == {A(2): 1}
            ctx.ob('encoder.size.part', 'iov_add', ok, 'another part is added', at=p.insts[-1])
    for f in ('iov_reset', 'iov_init'):
        v = Q.view(f)
        for p in paths(v, edge=noexc):
            if p.end() == 'ret':
                m = effects(p)
                w = {a[2] if a[0] == 'field' else None: c for a, c in m.items()}
                ctx.ob('encoder.size.zero', f, w.get('Iov.size', 1) == {} and w.get('Iov.iov_count', 1) == {}, 'parts are not forgotten', at=p.insts[-1])
    v = Q.view('encoder_iov_size')
    for p in paths(v):
        if p.end() == 'ret':
            t = strip_cast(p.arg(p.insts[-1], 0))
            ctx.ob('encoder.size.sum', 'encoder_iov_size', leaf_field(t) == 'Iov.size', 'the size is not the one of all parts', at=p.insts[-1])
    ctx.floor('encoder.size.add', 1)
    ctx.floor('encoder.size.sum', 1)


def layout(ctx, P):
    """rows and index entries are read where the writer put them: behind all offsets, at the offset recorded for their position"""
    R, MR = find_struct(P, 'Region')['size'], find_struct(P, 'MetaRegion')['size']

    def one(name, extra=()):
        v = view(name, extra=list(extra))
        return v, [p for p in paths(v, edge=noexc) if p.end() == 'ret']

    # what is added
    for name, data, offs, sized in (('region_writer_add', 'RegionWriter.data', 'RegionWriter.meta', 'row_size'),):
        v, ps = one(name)
        for p in ps:
            evs = trace_of(p)
            at = p.insts[-1]
            wr = [e for e in evs if e.k == 'call' and e.f in ('buf_write', 'buf_emplace')]
            d = [e for e in wr if leaf_field(e.a[0]) == data]
            o = [e for e in wr if leaf_field(e.a[0]) == offs]
            ok = len(d) == 1 and len(o) == 1
            ctx.ob('layout.row.once', name, ok, 'a row or its offset is not added once', at=at)
            if not ok:
                continue
            off = [e for e in evs if e.k == 'store' and e.a == o[0].a[1] and e.n < o[0].n]
            buf = ('field', ('arg', 0, v.params[0]), data)
            ok = bool(off) and const_of(o[0].a[2]) == 4 and issize(off[-1].v, buf) and off[-1].n < d[0].n
            ctx.ob('layout.row.offset', name, ok, 'the offset recorded is not the one of the row', at=o[0].i)
            n = strip_cast(d[0].a[2])
            ctx.ob('layout.row.size', name, n[:2] == ('call', sized) and n[2] == (d[0].a[1],) and d[0].a[1][0] == 'arg', 'the row is not copied completely', at=d[0].i)
            m = [c for a, c in effects(p).items() if leaf_field(a) == 'Region.rows']
            ok = len(m) == 1 and m[0].get(None) == 1 and len(m[0]) == 2
            ctx.ob('layout.row.counted', name, ok, 'the row is not counted', at=at)
    v, ps = one('region_writer_stop')
    for p in ps:
        evs = trace_of(p)
        ad = [e for e in evs if e.k == 'call' and e.f in ('encoder_add_buf', 'encoder_add', 'encoder_encode')]
        ok = [e.f for e in ad] == ['encoder_add_buf', 'encoder_add_buf', 'encoder_encode'] and [leaf_field(e.a[1]) for e in ad[:2]] == ['RegionWriter.meta', 'RegionWriter.data']
        ctx.ob('layout.region.order', 'region_writer_stop', ok, 'a region is not written as it is read', at=p.insts[-1])
        st = [e for e in evs if e.k == 'store' and e.f == 'Region.size']
        ok = len(st) == 1 and bool(ad) and st[0].n < ad[0].n
        if ok:
            t, c = pl(st[0].v), {}
            for k, n in t.items():
                key = None if k is None else leaf_field(k[2][0]) if k[:2] == ('call', 'buf_size') else leaf_field(k) + '@' + (leaf_field(k[1][1]) or '?')
                c[key] = c.get(key, 0) + n
            want = {'RegionWriter.meta': 1, 'RegionWriter.data': 1}
            want2 = {'Buf.position@' + k: 1 for k in want} | {'Buf.start@' + k: -1 for k in want}
            ok = c == want or c == want2
        ctx.ob('layout.region.size', 'region_writer_stop', ok, 'the size of a region is not recorded before it is encoded', at=p.insts[-1])
    # what is read
    def key(k):
        """leaf name of a value, with the name of what it is part of for a buffer"""
        if k is None:
            return None
        if k[0] == 'load' and (leaf_field(k) or '').startswith('Buf.') and k[1][0] == 'field':
            return leaf_field(k) + '@' + (leaf_field(k[1][1]) or str(k[1][1][:2]))
        return leaf_field(k) or k[:2]

    def sums(t):
        w, inner = {}, None
        for k, c in pl(t).items():
            if k is not None and c == 1 and k[0] == 'load' and strip_cast(k[1])[0] == 'index':
                inner = sums(k[1])[0]
                continue
            if k is not None and k[0] == 'field':
                k, o = addr(P, k)
                w[None] = w.get(None, 0) + c * o
            w[key(k)] = w.get(key(k), 0) + c
        return {k: c for k, c in w.items() if c}, inner

    self_, data, meta = ('arg', 0), 'Buf.start@RegionWriter.data', 'Buf.start@RegionWriter.meta'
    mdata = "Buf.start@('arg', 1)"
    for name, want in (('region_row', ({self_: 1, None: R, 'Region.rows': 4}, {self_: 1, None: R, ('arg', 1): 4})),
                       ('region_writer_max', ({data: 1}, {meta: 1, None: R - 4, 'Region.rows': 4})),
                       ('region_writer_min', ({data: 1}, None)),
                       ('meta_region', ({mdata: 1, 'Meta.regions': 4}, {mdata: 1, ('arg', 2): 4}))):
        v, ps = one(name)
        for p in ps:
            rt = v.norm(p.arg(p.insts[-1], 0))
            if strip_cast(rt) != ('null',):
                ctx.ob('layout.place', name, sums(rt) == want, 'another place is read than was written', at=p.insts[-1])
    for name, want in (('meta_min', {}), ('meta_max', {'Meta.regions': 1, None: -1})):
        v, ps = one(name, ['meta_region'])
        for p in ps:
            t = strip_cast(v.norm(p.arg(p.insts[-1], 0)))
            w = {k and leaf_field(k): c for k, c in pl(t[2][2]).items()} if t[:2] == ('call', 'meta_region') else None
            ctx.ob('layout.ends', name, w == want, 'it is not the region asked for', at=p.insts[-1])
    for name, want in (('meta_region_min', {}), ('meta_region_max', {'MetaRegion.size_min': 1})):
        v, ps = one(name)
        for p in ps:
            w, inner = sums(v.norm(p.arg(p.insts[-1], 0)))
            ctx.ob('layout.bounds', name, inner is None and w == {**want, self_: 1, None: MR}, 'it is not the row asked for', at=p.insts[-1])
    for name, want in (('branch_min', ('meta_region_min', 'meta_min')), ('branch_max', ('meta_region_max', 'meta_max'))):
        v, ps = one(name, ['meta_region', 'meta_region_min', 'meta_region_max', 'meta_min', 'meta_max'])
        for p in ps:
            t = strip_cast(v.norm(p.arg(p.insts[-1], 0)))
            ok = t == ('null',) or t[:2] == ('call', want[0]) and t[2][0][:2] == ('call', want[1])
            ctx.ob('layout.branch', name, ok, 'it is not the row asked for', at=p.insts[-1])
    for x, n in (('layout.row.offset', 1), ('layout.region.order', 1), ('layout.region.size', 1), ('layout.place', 4), ('layout.ends', 2), ('layout.bounds', 2), ('layout.branch', 2)):
        ctx.floor(x, n)


def issize(t, buf):
    t = strip_cast(t)
    s, q = ('load', ('field', buf, 'Buf.start')), ('load', ('field', buf, 'Buf.position'))
    return t == ('call', 'buf_size', (buf,)) or pl(t) == {q: 1, s: -1}


RULES = [heap_read, object_read, region, encoder, layout]
