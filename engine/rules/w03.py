"""W03: log records are verified before use; the checksum ranges of writer and reader agree."""
from ..q import *

ENTRIES = ['wal_cursor_next', 'wal_cursor_readahead', 'wal_open', 'wal_file_pread', 'record_validate', 'record_validate_cmd', 'write_end', 'write_add',
           'write_begin', 'write_log_add', 'write_log_add_op', 'record_cmd', 'record_data', 'file_pread_buf', 'wal_cursor_open', 'record_cmd_skip']
KEEP = ['vfs_pread', 'row_size', 'json_sizeof', 'iov_add', 'iov_add_buf', 'wal_create', 'wal_close', 'wal_sync', 'id_mgr_find', 'id_mgr_next', 'id_mgr_min', 'id_mgr_max',
        'id_mgr_add', 'wal_file_free', 'file_close', 'vfs_size', 'file_seek_to_end', 'wal_file_pread', 'file_open']
UNKEEP = ['crc32']


def crc_calls(v):
    return [i for i in v.insts() if i.op == 'call' and any(t in ('crc32', 'crc32_sse') for t in i.targets())]


def is_crc(v, t):
    t = strip_cast(t)
    return t[0] == 'call' and t[2] in set(c.id for c in crc_calls(v))


def match_fact(v, f):
    """does the fact say the computed checksum equals / differs from the stored one -> True/False/None"""
    _, p, a, b = f
    for x, y in ((a, b), (b, a)):
        if is_crc(v, x) and leaf_field(y) in ('Record.crc', 'RecordCmd.crc'):
            return True if p == 'eq' else False if p == 'ne' else None
    return None


def only_checked(v, i):
    """the loaded value is only compared with the record's own command count (part of validating it)"""
    wl, seen = [i], set()
    while wl:
        x = wl.pop()
        for u in v.users(x):
            if u.id in seen:
                continue
            seen.add(u.id)
            if u.op in ('zext', 'sext', 'trunc', 'sub', 'add'):
                wl.append(u)
            elif u.op == 'icmp':
                if not any(mentions(v, v.term(a), 'Record.count') for a in u.args):
                    return False
            else:
                return False
    return True


def verified_before_use(ctx, P):
    """with verification on, no record is returned, counted or used to move the read position unless its checksum matched, and a mismatch is an error"""
    for name, flag in (('wal_cursor_next', 'WalCursor.crc'), ('wal_cursor_readahead', 'WalCursor.crc'), ('wal_open', 'Config.wal_crc')):
        v = P.view(name)
        rd = v.calls('wal_file_pread')
        ctx.ob('record-read', name, bool(rd), 'records are not read through the bounded reader')
        # without verification or after a match
        good = cut_when(v, lambda fs: any(match_fact(v, f) is True for f in fs) or
                        truth(v, fs, lambda t: leaf_field(t) == flag or is_opt(v, t, flag)) is False)
        uses = stores(v, 'WalCursor.file_offset') + v.calls('vfs_truncate')
        for i in v.insts():
            if i.op == 'load' and leaf_field(v.term(i.args[0])) in ('Record.lsn', 'Record.size') and name == 'wal_open' and not only_checked(v, i):
                uses.append(i)
        k = 0
        for r in rd:
            # only the branch where a record was read
            got = cut_when(v, lambda fs: truth(v, fs, lambda t: t[0] == 'call' and t[1] == 'wal_file_pread') is False)
            use = [u for u in uses if v.can_reach(r, [u])]
            u2 = [u for u in use if not (u.op == 'store' and v.term(u.args[0]) == ('const', 0))]
            for u in u2:
                if u.op == 'call':      # truncate happens after the scan
                    continue
                m = v.can_reach(r, [u], avoid=[x for x in rd], edge=allof(good, got))
                k += 1
                ctx.ob('verified-before-use', name, m is None, 'a record is used without its checksum having matched', at=u)
        mism = False
        for bi in range(len(v.blocks)):
            for s, l in v.succ[bi]:
                if l and l[0] == 'br' and any(match_fact(v, f) is False for f in cond_facts(v, l)):
                    mism = True
                    first = v.blocks[s][0]
                    m = v.can_reach(first, v.exits() + rd, avoid=[]) if v.blocks[s] else None
                    thr = [c for c in v.blocks[s] if c.op == 'call' and c.callee == 'report_error']
                    ctx.ob('mismatch-is-error', name, m is None, 'reading continues or ends normally after a checksum mismatch', at=first)
        ctx.ob('checksum-compared', name, mism, 'the checksum of a record is not compared')
        ctx.ob('verified-uses', name, k > 0, 'no use of a record found') if name != 'wal_open' else None


def ranges(v):
    """[(kind, detail)] of the checksum computations of a function in path order"""
    out = []
    for c in crc_calls(v):
        seed, ptr, size = (v.term(a) for a in c.args[:3])
        lf = leaf_field(ptr)
        out.append((c, seed, ptr, lf, strip_cast(size)))
    return out


def ranges_agree(ctx, P):
    """the header checksum covers every header byte after the checksum field, and all commands, in writer and reader alike, commands first"""
    rec = find_struct(P, 'Record')
    crc_end = offset_of(P, 'Record', 'crc')[0] + offset_of(P, 'Record', 'crc')[1]
    hdr = rec['size'] - crc_end
    cmdsz = find_struct(P, 'RecordCmd')['size']
    first = [n for n, ty, off, sz in rec['f'] if off == crc_end]
    for name in ('record_validate', 'write_end'):
        v = P.view(name)
        h = [r for r in ranges(v) if r[3] and r[3].startswith('Record.') and const_of(r[4]) is not None]
        ctx.ob('header-range', name, bool(h), 'the header is not covered by the checksum')
        for c, seed, ptr, lf, size in h:
            ctx.ob('header-range', name, lf == 'Record.' + first[0] and const_of(size) == hdr, 'the checksum does not cover the whole header', at=c)
    # reader: commands first, seeded with 0, then header seeded with the commands' checksum
    v = P.view('record_validate')
    rs = ranges(v)
    cmd = [r for r in rs if const_of(r[4]) is None]
    ctx.ob('command-range', 'record_validate', len(cmd) == 1, 'the commands are not covered by the checksum')
    for c, seed, ptr, lf, size in cmd:
        e = lin(size)
        ok = list(e.values()) == [cmdsz] and leaf_field(next(iter(e))) == 'Record.count'
        ctx.ob('command-range', 'record_validate', ok, 'the checksum does not cover all commands', at=c)
        off = ptr_off(v, ptr)
        ctx.ob('command-range', 'record_validate', off == rec['size'], 'the checked commands do not start behind the header', at=c)
        ctx.ob('checksum-chain', 'record_validate', const_of(seed) == 0, 'the checksum is seeded differently than when written', at=c)
    for c, seed, ptr, lf, size in rs:
        if const_of(size) is not None:
            ctx.ob('checksum-chain', 'record_validate', is_crc(v, seed), 'the header checksum is not chained to the commands', at=c)
    # bounded by the record size
    for c, seed, ptr, lf, size in cmd:
        ok = False
        for e in bounds(v, c):
            n = normal(v, e)
            at = {leaf_field(k): x for k, x in n.items() if k is not None}
            if at.get('Record.count') == cmdsz and at.get('Record.size') == -1 and n.get(None, 0) >= rec['size']:
                ok = True
        ctx.ob('command-bounds', 'record_validate', ok, 'the commands are read beyond the record', at=c)
    for r in v.exits():
        ts = resolve(v, v.term(r.args[0]))
        cmpok = any(t[0] == 'cmp' and t[1] == 'eq' and ((is_crc(v, t[2]) and leaf_field(t[3]) == 'Record.crc') or (is_crc(v, t[3]) and leaf_field(t[2]) == 'Record.crc')) for t in ts)
        rest = [t for t in ts if t[0] != 'cmp']
        ctx.ob('validate-result', 'record_validate', cmpok and all(const_of(t) == 0 for t in rest), 'validity is not decided by the checksum', at=r)
    # writer: chained on the header's running checksum
    for name in ('write_end', 'write_add'):
        v = P.view(name)
        rs = ranges(v)
        ctx.ob('checksum-written', name, bool(rs), 'no checksum is computed')
        for c, seed, ptr, lf, size in rs:
            ctx.ob('checksum-chain', name, leaf_field(seed) == 'Record.crc', 'the checksum is not chained', at=c)
            st = [s for s in stores(v, 'Record.crc') if strip_cast(v.term(s.args[0])) == ('call', c.callee or '?', c.id)]
            ctx.ob('checksum-stored', name, bool(st), 'the computed checksum is not stored', at=c)
            on = opt_off(v, 'Config.wal_crc')
            ctx.ob('checksum-when-on', name, missing(v, None, v.exits(), [c], edge=on) is None, 'no checksum although verification is on', at=c)
    v = P.view('write_add')
    for c, seed, ptr, lf, size in ranges(v):
        ctx.ob('command-range', 'write_add', meta_ptr(v, ptr) and meta_size(v, size), 'the written checksum does not cover all commands of the log', at=c)
    # lsn is set before the header checksum
    v = P.view('write_end')
    ls = stores(v, 'Record.lsn')
    for c in crc_calls(v):
        ctx.ob('lsn-covered', 'write_end', v.dominated(c, ls), 'the checksum is computed before the LSN is set', at=c)
    # the checksum restarts with each record
    v = P.view('write_begin')
    z = [s for s in stores(v, 'Record.crc') if const_of(v.term(s.args[0])) == 0]
    ctx.ob('checksum-restart', 'write_begin', missing(v, None, v.exits(), z) is None, 'the checksum of the previous record is continued')
    sz = [s for s in stores(v, 'Record.size') if const_of(v.term(s.args[0])) == rec['size']]
    ctx.ob('record-size-start', 'write_begin', missing(v, None, v.exits(), sz) is None, 'the record size does not start with the header size')
    io = v.calls('iov_add')
    ctx.ob('header-in-record', 'write_begin', any(const_of(v.term(c.args[2])) == rec['size'] for c in io), 'the header is not the first part of the record')


def ptr_off(v, t):
    off = 0
    while t[0] == 'index':
        k = const_of(t[2])
        if k is None:
            return None
        off += k * t[3]
        t = t[1]
    return off if t[0] in ('arg', 'load') else None


def meta_ptr(v, t):
    return leaf_field(t) == 'Buf.start' and mentions(v, t, 'WriteLog.meta')


def meta_size(v, t):
    t = strip_cast(t)
    if t[0] == 'call' and t[1] == 'buf_size':
        return mentions(v, v.term(v.inst[t[2]].args[0]), 'WriteLog.meta')
    return mentions(v, t, 'WriteLog.meta') and mentions(v, t, 'Buf.position') and mentions(v, t, 'Buf.start')


def command_checksum(ctx, P):
    """every byte added to the log is covered by its command's checksum and size"""
    for name, szf in (('write_log_add', 'row_size'), ('write_log_add_op', 'json_sizeof')):
        v = P.view(name)
        add = v.calls('iov_add')
        ctx.ob('data-added', name, bool(add), 'the data is not added to the log')
        for a in add:
            ptr, size = v.norm(v.term(a.args[1])), strip_cast(v.term(a.args[2]))
            ctx.ob('data-size', name, size_is(v, size, szf, v.term(a.args[1])), 'the data is not added whole', at=a)
            cs = ranges(v)
            for c, seed, p, lf, sz in cs:
                ctx.ob('command-crc', name, v.norm(p) == ptr and size_is(v, sz, szf, v.term(a.args[1])), 'the command checksum covers other bytes than were added', at=c)
                on = opt_off(v, 'Config.wal_crc')
                ctx.ob('command-crc', name, missing(v, None, v.exits(), [c], edge=on) is None, 'no command checksum although verification is on', at=c)
                chained = leaf_field(seed) == 'RecordCmd.crc' or const_of(seed) == 0
                ctx.ob('command-crc', name, chained if name == 'write_log_add_op' else leaf_field(seed) == 'RecordCmd.crc', 'the command checksum is not chained', at=c)
            ctx.ob('command-crc', name, bool(cs) and bool(stores(v, 'RecordCmd.crc')), 'no command checksum is stored', at=a)
        st = [s for s in stores(v, 'RecordCmd.size') if const_of(v.term(s.args[0])) != 0]
        ctx.ob('command-size', name, missing(v, None, v.exits(), st) is None, 'the command size is not advanced')
        for s in st:
            t = strip_cast(v.term(s.args[0]))
            e = lin(t)
            ok = any(k is not None and k[0] == 'call' and k[1] == szf and c == 1 for k, c in e.items()) and \
                (name == 'write_log_add_op' or any(k is not None and leaf_field(k) == 'RecordCmd.size' and c == 1 for k, c in e.items()))
            ctx.ob('command-size', name, ok, 'the command size is not the size of its data', at=s)
    # a command header is continued only for the same kind and table
    v = P.view('write_log_add')
    em = v.calls('buf_emplace')
    ctx.ob('command-new', 'write_log_add', bool(em), 'no command header is created')
    for f, lab in (('RecordCmd.cmd', 'kind'), ('RecordCmd.id', 'object')):
        ctx.ob('command-init', 'write_log_add', bool([s for s in v.insts() if s.op in ('store', 'call') and s.args and any(mentions(v, v.term(a), f) for a in s.args if a[0] == 'v')]),
               'a new command does not record its ' + lab)
    # reader
    v = P.view('record_validate_cmd')
    for c, seed, p, lf, sz in ranges(v):
        ctx.ob('command-verify', 'record_validate_cmd', const_of(seed) == 0 and v.term(c.args[1])[:2] == ('arg', 1) and leaf_field(sz) == 'RecordCmd.size',
               'a command is not verified over all of its data', at=c)
    for r in v.exits():
        t = strip_cast(v.term(r.args[0]))
        ctx.ob('command-verify', 'record_validate_cmd', t[0] == 'cmp' and t[1] == 'eq' and (match_fact(v, t) is True), 'validity is not decided by the checksum', at=r)
    # layout
    v = P.view('record_cmd')
    for r in v.exits():
        ctx.ob('layout', 'record_cmd', ptr_off(v, v.term(r.args[0])) == find_struct(P, 'Record')['size'], 'the commands are looked for at the wrong place', at=r)
    v = P.view('record_data')
    for r in v.exits():
        t = v.term(r.args[0])
        e = {}
        while t[0] == 'index':
            lin(t[2], t[3], e)
            t = t[1]
        e = {k: c for k, c in e.items() if c}
        ok = e.get(None) == find_struct(P, 'Record')['size'] and [c for k, c in e.items() if k is not None and leaf_field(k) == 'Record.count'] == [find_struct(P, 'RecordCmd')['size']]
        ctx.ob('layout', 'record_data', ok and len(e) == 2, 'the data is looked for at the wrong place', at=r)
    v = P.view('record_cmd_skip')
    ok = any(s.op == 'store' and deep(v, v.term(s.args[0]), lambda t: t[0] == 'field' and t[2] == 'RecordCmd.size') for s in v.insts())
    ctx.ob('skip-by-size', 'record_cmd_skip', ok, 'a skipped command is not skipped by its size')


def size_is(v, t, szf, ptr):
    t = strip_cast(t)
    if t[0] == 'call' and t[1] == szf:
        return v.norm(v.term(v.inst[t[2]].args[0])) == v.norm(ptr)
    if t[0] == 'load' and leaf_field(t) == 'RecordCmd.size':
        # previously set to the size of the data
        return any(strip_cast(v.term(s.args[0]))[:2] == ('call', szf) for s in stores(v, 'RecordCmd.size'))
    return False


def bounded_read(ctx, P):
    """header and body are read only if the file holds all of their bytes, computed without truncation; short results are reported as end of file"""
    ctx.rule('bounded-read', bounded_read.__doc__)
    import engine.core as core
    P2 = core.load(['wal_file_pread'], set(KEEP) - {'wal_file_pread'}, UNKEEP, False)
    v = P2.view('wal_file_pread')
    rec = find_struct(P, 'Record')['size']
    rd = v.calls('vfs_pread')
    ctx.ob('bounded-read', 'wal_file_pread', len(rd) >= 2, 'header and body are not read separately')
    body = 0
    for c in rd:
        off, size = v.term(c.args[1]), v.term(c.args[3])
        need = lin(size, 1, lin(off))     # off + size
        ok = False
        for f in v.conds(c):
            e = le0(f)
            if e is None:
                continue
            if any(x[0] == 'cast' and x[1] == 'trunc' and deep(v, x, lambda y: y[0] == 'arg' and y[1] == 1) for x in casts(f)):
                continue
            n = normal(v, e)
            fs = [k for k in n if k is not None and leaf_field(k) == 'File.size' and n[k] == -1]
            if not fs:
                continue
            # n = X - File.size + c <= 0 ; need X + c >= off+size
            x = {k: c2 for k, c2 in n.items() if k not in fs}
            d = normal(v, {k: c2 for k, c2 in need.items()})
            diff = dict(x)
            for k, c2 in d.items():
                diff[k] = diff.get(k, 0) - c2
            diff = {k: c2 for k, c2 in diff.items() if c2}
            if not diff or (set(diff) == {None} and diff[None] >= 0):
                ok = True
        ctx.ob('bounded-read', 'wal_file_pread', ok, 'bytes are read without checking that the file holds them', at=c)
        if const_of(size) is None:
            body += 1
            # record size at least a header
            low = False
            for e in bounds(v, c):
                n = normal(v, e)
                if [k for k in n if k is not None and leaf_field(k) == 'Record.size' and n[k] == -1] and n.get(None, 0) >= rec and len(n) == 2:
                    low = True
            ctx.ob('record-size-checked', 'wal_file_pread', low, 'a record size smaller than its header is accepted', at=c)
        else:
            ctx.ob('header-size', 'wal_file_pread', const_of(size) == rec, 'the header is not read whole', at=c)
    ctx.ob('bounded-read', 'wal_file_pread', body >= 1, 'the body of a record is not read')
    for r in v.exits():
        for t, pb in [(v.term(r.args[0]), None)]:
            pass
    for p in paths(v):
        if p.end() != 'ret':
            continue
        res = const_of(p.arg(p.insts[-1], 0))
        n = len(p.calls('vfs_pread'))
        ctx.ob('read-result', 'wal_file_pread', (res != 1) if n < 2 else (res != 0), 'an incompletely read record is reported as read (or the reverse)', at=p.insts[-1])


def casts(t, acc=None):
    if acc is None:
        acc = []
    if isinstance(t, tuple):
        if t and t[0] == 'cast':
            acc.append(t)
        for x in t:
            if isinstance(x, tuple):
                casts(x, acc)
    return acc


RULES = [verified_before_use, ranges_agree, command_checksum, bounded_read]
