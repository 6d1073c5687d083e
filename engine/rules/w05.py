"""W05: opening the log resumes at its true end; truncation removes only later records."""
from ..q import *
from .. import core

ENTRIES = ['wal_open', 'wal_close', 'wal_cursor_open', 'wal_cursor_next', 'wal_cursor_close', 'id_mgr_add', 'id_mgr_find', 'id_mgr_next', 'id_mgr_min', 'id_mgr_max',
           'id_mgr_reset', 'id_mgr_stats', 'wal_file_id_of', 'file_seek_to_end', 'wal_file_truncate', 'file_truncate', 'wal_file_open', 'file_update_size', 'wal_in_range']
LIST = ['id_mgr_find', 'id_mgr_next', 'id_mgr_min', 'id_mgr_max', 'id_mgr_add', 'id_mgr_reset']
KEEP = LIST + ['wal_create', 'wal_close', 'wal_sync', 'wal_file_free', 'wal_file_pread', 'fs_unlink', 'record_validate', 'fs_mkdir', 'fs_exists', 'readdir', 'opendir', 'file_seek_to_end',
               'wal_file_truncate', 'wal_file_open', 'wal_file_allocate', 'wal_file_close', 'wal_file_id_of', 'file_update_size']
UNKEEP = []


def opening(ctx, P):
    """every log file of the directory is registered under its number; with none, a first file is created; otherwise the newest becomes current and writing resumes at its end"""
    v = P.view('wal_open')
    rd, ad, cr = v.calls('readdir'), v.calls('id_mgr_add'), v.calls('wal_create')
    ido = v.calls('wal_file_id_of')
    ctx.ob('registers-files', 'wal_open', bool(rd) and bool(ad) and bool(ido), 'the files of the directory are not registered')
    for c in ido:
        # from a valid number the file is always registered
        ids = {c.id}
        bad = error_edges(v, [c], lambda p, k: is_fail(p, k) or (p == 'eq' and k == -1))
        good = lambda b, s, l, bad=bad: bad(b, s, l)
        m = v.can_reach(c, rd + v.exits() + cr + stores(v, 'Wal.current'), avoid=ad, edge=good)
        ctx.ob('registers-files', 'wal_open', m is None, 'a log file is not registered', at=c)
        for a in ad:
            if v.can_reach(c, [a]):
                ctx.ob('registers-number', 'wal_open', strip_cast(v.term(a.args[1])) == ('call', 'wal_file_id_of', c.id), 'a file is registered under another number', at=a)
    for r in rd:
        # an entry is skipped only by its name
        for f in [f for a in ido for f in v.conds(a)]:
            pass
    # first file only if there is none
    for c in cr:
        t = any(none_listed(v, f) is True for f in v.conds(c))
        ctx.ob('first-only-if-none', 'wal_open', t, 'a first file is created although there are files', at=c)
        ctx.ob('first-number', 'wal_open', const_of(v.term(c.args[1])) == 1, 'the first file is not numbered by the first LSN', at=c)
    cur = [s for s in stores(v, 'Wal.current') if v.term(s.args[0]) != ('null',)]
    seek, op, mx = v.calls('file_seek_to_end'), v.calls('wal_file_open'), v.calls('id_mgr_max')
    ctx.ob('newest-current', 'wal_open', bool(cur), 'no existing file becomes current')
    for s in cur:
        al = [c for c in v.calls('wal_file_allocate') if deep(v, v.term(s.args[0]), lambda t: t[0] == 'call' and t[2] == c.id)]
        ctx.ob('newest-current', 'wal_open', bool(al) and all(strip_cast(v.term(c.args[0]))[:2] == ('call', 'id_mgr_max') for c in al), 'the current file is not the newest one', at=s)
        ctx.ob('newest-current', 'wal_open', any(none_listed(v, f) is False for f in v.conds(s)), 'an existing file is expected although there is none', at=s)
        for e in v.exits():
            for l, w in ((seek, 'writing does not resume at its end'), (op, 'it is not opened')):
                ctx.ob('resume-at-end', 'wal_open', v.can_reach(s, [e], avoid=l) is None, 'the newest file becomes current but ' + w, at=s)
    for k in seek:
        ctx.ob('resume-at-end', 'wal_open', mentions(v, v.term(k.args[0]), 'Wal.current') or any(calls_in(v, v.term(k.args[0]), 'wal_file_allocate') for _ in [0]), 'another file is positioned', at=k)
        for o in op:
            if v.can_reach(o, [k]) and not v.can_reach(k, [o]):
                ctx.ob('resume-at-end', 'wal_open', True, at=k)
    # the end of the file may be a partly written record
    for k in seek:
        ctx.ob('torn-tail', 'wal_open', any(v.can_reach(o, [r], avoid=[k]) and v.can_reach(r, [k]) for o in op for r in v.calls('wal_file_pread') if v.can_reach(mx[0] if mx else o, [r])),
               'writing resumes behind a partly written last record', at=k)
    # every normal end has a current file
    lst = cur + cr
    m = missing(v, None, v.exits(), lst)
    ctx.ob('has-current', 'wal_open', m is None, 'ends without a current file', at=m)


def none_listed(v, f):
    _, p, a, b = f
    a, b = strip_cast(a), strip_cast(b)
    if leaf_field(a) != 'IdMgr.list_count' or b[0] != 'const':
        return None
    if (p, b[1]) in (('eq', 0), ('sle', 0), ('slt', 1), ('ule', 0), ('ult', 1)):
        return True
    if (p, b[1]) in (('ne', 0), ('sgt', 0), ('sge', 1), ('ugt', 0), ('uge', 1)):
        return False


def truncating(ctx, P):
    """truncation keeps exactly the records up to the given LSN of the file that holds it, removes all later files, runs before the log is used, and is not repeated"""
    v = P.view('wal_open')
    tr = v.calls('wal_file_truncate')
    pr = v.calls('wal_file_pread')
    fi, mn, nx = v.calls('id_mgr_find'), v.calls('id_mgr_min'), v.calls('id_mgr_next')
    ctx.ob('truncates', 'wal_open', bool(tr) and bool(pr) and bool(fi) and bool(nx), 'the log is not truncated')
    arg = lambda t: is_opt(v, strip_cast(t), 'Config.wal_truncate')
    for c in fi:
        ctx.ob('truncate-file', 'wal_open', arg(v.term(c.args[1])), 'the file is not the one holding the LSN', at=c)
    for c in pr + tr:
        al = [a for a in v.calls('wal_file_allocate') if v.dominated(c, [a])]
        ok = any(all(t[0] == 'call' and t[1] in ('id_mgr_find', 'id_mgr_min') for t in resolve(v, v.term(a.args[0]))) and
                 any(t[0] == 'call' and t[1] == 'id_mgr_find' for t in resolve(v, v.term(a.args[0]))) for a in al)
        ctx.ob('truncate-file', 'wal_open', ok, 'another file than the one holding the LSN is cut', at=c)
    # the oldest file only when no file starts at or below the LSN
    for c in mn:
        none = any(f[1] == 'eq' and strip_cast(f[2])[:2] == ('call', 'id_mgr_find') and const_of(f[3]) in (-1, (1 << 64) - 1) for f in v.conds(c))
        ctx.ob('truncate-file', 'wal_open', none, 'the oldest file is cut although another one holds the LSN', at=c)
    # offset: starts at 0 and advances by a whole record, only for lsn <= target
    for c in tr:
        offs(ctx, v, c, arg)
    for c in pr:
        # reading position is the same offset
        ctx.ob('truncate-scan', 'wal_open', any(v.term(c.args[1]) == v.term(x.args[1]) or reaches_phi(v, v.term(x.args[1]), v.term(c.args[1])) for x in tr), 'the scan position is not the position that is kept', at=c)
    # always cut unless the offset is already the end
    end = nx
    for c in pr:
        def pred(fs):
            for _, p, a, b in fs:
                if p == 'eq' and 'File.size' in (leaf_field(a), leaf_field(b)):
                    return True
            return False
        fails = error_edges(v, pr, lambda p, k: False)
        m = v.can_reach(c, nx, avoid=tr + pr, edge=cut_when(v, pred))
        ctx.ob('truncate-applied', 'wal_open', m is None, 'later records are left in the file', at=c)
    # later files: walk by next, unlink each
    un = v.calls('fs_unlink', 'vfs_unlink')
    for c in nx:
        dead = error_edges(v, [c], lambda p, k: p == 'eq' and k in (-1, (1 << 64) - 1))
        m = v.can_reach(c, v.exits() + v.calls('wal_close') + [x for x in nx], avoid=un, edge=dead)
        ctx.ob('later-files-removed', 'wal_open', m is None, 'a later file is kept', at=c)
        ts = resolve(v, v.term(c.args[1]))
        ctx.ob('later-files-only', 'wal_open', all(t[0] == 'call' and t[1] in ('id_mgr_find', 'id_mgr_min', 'id_mgr_next') for t in ts), 'files are walked from another start', at=c)
    for u in un:
        ctx.ob('later-files-only', 'wal_open', v.dominated(u, nx), 'a file that is not later is removed', at=u)
        d = [strip_cast(v.term(a)) for a in u.args]
    # the name that is removed is the next file's
    for s in v.calls('sfmt', 'snprintf'):
        for u in un:
            if v.can_reach(s, [u], avoid=nx):
                ok = any(t[0] == 'call' and t[1] == 'id_mgr_next' for a in s.args[2:] for t in [strip_cast(v.term(a))])
                ctx.ob('later-files-only', 'wal_open', ok, 'the name of another file is removed', at=s)
    # cleared and reread
    clr = [c for c in call_on(v, 'opt_int_set', 'Config.wal_truncate') if const_of(v.term(c.args[1])) == 0]
    for c in tr + nx:
        m = v.can_reach(c, v.exits(), avoid=clr)
        ctx.ob('truncate-once', 'wal_open', m is None, 'the option is not cleared, so the next start truncates again', at=c)
        cl = v.calls('wal_close')
        m = v.can_reach(c, stores(v, 'Wal.current') + v.calls('wal_create'), avoid=cl)
        ctx.ob('reread-after', 'wal_open', m is None, 'removed files stay registered', at=c)
    for c in clr:
        ctx.ob('truncate-once', 'wal_open', v.dominated(c, pr), 'the option is cleared before truncation', at=c)
    # truncation is not skipped
    cur = [s for s in stores(v, 'Wal.current') if v.term(s.args[0]) != ('null',)]
    def zero(fs):
        return any(arg(a) and ((p == 'eq' and const_of(b) == 0) or (p in ('ule', 'sle') and const_of(b) == 0)) for _, p, a, b in fs)
    m = missing(v, None, cur, pr, edge=cut_when(v, zero))
    ctx.ob('truncate-not-skipped', 'wal_open', m is None, 'an LSN was given but the log is used untruncated', at=m)


def reaches_phi(v, a, b):
    """b flows into a through phis"""
    seen = set()

    def go(t):
        t = strip_cast(t)
        if t == b:
            return True
        if t[0] == 'phi' and t[1] not in seen:
            seen.add(t[1])
            return any(go(v.term(x)) for x, _ in v.inst[t[1]].d['in'])
        return False
    return go(a)


def offs(ctx, v, c, arg):
    """all values the cut offset can take"""
    seen, adds, other = set(), [], []

    def go(t):
        t = strip_cast(t)
        if t[0] == 'phi':
            if t[1] in seen:
                return
            seen.add(t[1])
            for x, _ in v.inst[t[1]].d['in']:
                go(v.term(x))
        elif t[0] == 'select':
            go(t[2]); go(t[3])
        elif t[0] == 'bin' and t[1] == 'add':
            adds.append(t)
            for x in t[2:]:
                if strip_cast(x)[0] in ('phi',):
                    go(x)
        elif t != ('const', 0):
            other.append(t)
    go(v.term(c.args[1]))
    ctx.ob('truncate-offset', 'wal_open', not other and bool(adds), 'the cut position is not the end of the kept records', at=c)
    for t in adds:
        ctx.ob('truncate-offset', 'wal_open', any(leaf_field(strip_cast(x)) == 'Record.size' for x in t[2:]), 'the position does not advance by whole records', at=c)
        for i in v.insts():
            if i.op == 'add' and v.term(['v', i.id]) == t:
                ok = False
                for _, p, a, b in v.conds(i):
                    if leaf_field(a) != 'Record.lsn':
                        a, b, p = b, a, core.SWAP[p]
                    if leaf_field(a) == 'Record.lsn' and arg(b) and p in ('ule', 'sle'):
                        ok = True
                ctx.ob('keeps-up-to-lsn', 'wal_open', ok, 'a record above the LSN is kept', at=i)
    # stops only at end of file or when the LSN is passed or reached
    for b, k in [(i, i.k) for i in v.insts() if i.op == 'call' and i.callee == 'wal_file_pread']:
        def stop(fs):
            for _, p, a, x in fs:
                if strip_cast(a)[:2] == ('call', 'wal_file_pread') and p == 'eq':
                    return True
                if leaf_field(a) != 'Record.lsn':
                    a, x, p = x, a, core.SWAP.get(p, p)
                if leaf_field(a) == 'Record.lsn' and arg(x) and p in ('ugt', 'uge', 'eq', 'sgt', 'sge'):
                    return True
            return False
        m = v.can_reach(b, v.calls('wal_file_truncate') + v.calls('id_mgr_next'), avoid=v.calls('wal_file_pread'), edge=cut_when(v, stop))
        ctx.ob('keeps-all-up-to', 'wal_open', m is None, 'scanning stops before the LSN is reached', at=b)


def file_list(ctx, P):
    """the file list stays sorted and complete; lookups return the nearest lower, the next higher, the first and the last file, or none"""
    P2 = core.load(LIST, set(KEEP) - set(LIST), UNKEEP, False)
    from .w04 import list_index
    NONE = (-1, (1 << 64) - 1)
    vis = 4

    def cmpfacts(v, p):
        """index -> set of relations of list[i] to arg1"""
        r = {}
        for _, q, a, b in p.facts:
            if strip_cast(b)[:2] != ('arg', 1):
                a, b, q = b, a, core.SWAP.get(q, q)
            if strip_cast(b)[:2] == ('arg', 1) and strip_cast(a)[0] == 'load':
                k = list_index(v, a)
                if k is not None:
                    r.setdefault(k, set()).add(q)
        return r

    def count(v, p):
        """(lo, hi) of list_count by the facts"""
        lo, hi = 0, None
        for f in p.facts:
            e = le0(f)
            if e is None:
                if f[1] == 'eq' and leaf_field(f[2]) == 'IdMgr.list_count' and f[3][0] == 'const':
                    lo = hi = f[3][1]
                if f[1] == 'ne' and leaf_field(f[2]) == 'IdMgr.list_count' and f[3] == ('const', 0):
                    lo = max(lo, 1)
                continue
            ks = [k for k in e if k is not None]
            if len(ks) == 1 and leaf_field(ks[0]) == 'IdMgr.list_count':
                if e[ks[0]] == -1:
                    lo = max(lo, e.get(None, 0))
                elif e[ks[0]] == 1:
                    hi = -e.get(None, 0) if hi is None else min(hi, -e.get(None, 0))
        return lo, hi

    n = 0
    for name in ('id_mgr_find', 'id_mgr_next'):
        v = P2.view(name)
        for p in paths(v, visits=vis):
            if p.end() != 'ret':
                continue
            n += 1
            r = strip_cast(p.arg(p.insts[-1], 0))
            k = list_index(v, r) if r[0] == 'load' else None
            cf = cmpfacts(v, p)
            lo, hi = count(v, p)
            up = lambda i: bool(cf.get(i, set()) & {'ugt'})
            le = lambda i: bool(cf.get(i, set()) & {'ule'})
            if name == 'id_mgr_find':
                if k is None:
                    ok = const_of(r) in NONE and (hi == 0 or up(0))
                else:
                    ok = le(k) and (hi == k + 1 or up(k + 1))
            else:
                if k is None:
                    ok = const_of(r) in NONE and hi is not None and (hi == 0 or le(hi - 1))
                else:
                    ok = up(k) and (k == 0 or le(k - 1))
            ctx.ob('list-lookup', name, ok, 'returns the wrong file', at=p.insts[-1])
    for name in ('id_mgr_min', 'id_mgr_max'):
        v = P2.view(name)
        for p in paths(v):
            if p.end() != 'ret':
                continue
            n += 1
            r = strip_cast(p.arg(p.insts[-1], 0))
            lo, hi = count(v, p)
            if r[0] == 'const':
                ok = r[1] in NONE and hi == 0
            else:
                ok = r[0] == 'load' and lo >= 1
                if name == 'id_mgr_min':
                    ok = ok and list_index(v, r) == 0
                else:
                    e = {}
                    t = r[1]
                    while t[0] == 'index':
                        lin(t[2], t[3], e)
                        t = t[1]
                    m = {leaf_field(x) if x is not None else None: c for x, c in e.items() if c}
                    ok = ok and m == {'IdMgr.list_count': 8, None: -8} and leaf_field(t) == 'Buf.start'
            ctx.ob('list-lookup', name, ok, 'returns the wrong file', at=p.insts[-1])
    v = P2.view('id_mgr_add')
    for p in paths(v, visits=vis):
        if p.end() != 'ret':
            continue
        n += 1
        st = [s for s in p.insts if s.op == 'store' and strip_cast(v.term(s.args[0]))[:2] == ('arg', 1)]
        ks = [list_index(v, ('load', p.arg(s, 1))) for s in st]
        ok = len(st) == 1 and ks[0] is not None
        if ok:
            k = ks[0]
            cf = cmpfacts(v, p)
            lo, hi = count(v, p)
            below = all(cf.get(i, set()) & {'ult', 'ule'} for i in range(k))
            above = bool(cf.get(k, set()) & {'uge', 'ugt'}) or hi == k
            mv = [c for c in p.insts if c.op == 'call' and 'memmove' in (c.callee or '')]
            shifted = hi == k or (len(mv) == 1 and list_index(v, ('load', p.arg(mv[0], 0))) == k + 1 and list_index(v, ('load', p.arg(mv[0], 1))) == k and
                                  moved(v, p.arg(mv[0], 2), k) and p.index(mv[0]) < p.index(st[0]))
            ok = below and above and shifted
        ctx.ob('list-sorted', 'id_mgr_add', ok, 'a file is not inserted in order', at=p.insts[-1])
        c = [s for s in p.insts if s.op == 'store' and leaf_field(v.term(s.args[1])) == 'IdMgr.list_count']
        ctx.ob('list-counted', 'id_mgr_add', len(c) == 1 and lin(subst(v.term(c[0].args[0]), p.env)).get(None) == 1, 'a file is not counted', at=p.insts[-1])
    v = P2.view('id_mgr_reset')
    z = [s for s in stores(v, 'IdMgr.list_count') if const_of(v.term(s.args[0])) == 0]
    ctx.ob('list-counted', 'id_mgr_reset', missing(v, None, v.exits(), z) is None, 'the list is not emptied')
    ctx.floor('list-lookup', 8)


def moved(v, t, k):
    e = lin(t)
    m = {leaf_field(x) if x is not None else None: c for x, c in e.items() if c}
    return m == ({'IdMgr.list_count': 8, None: -8 * k} if k else {'IdMgr.list_count': 8})


def reading(ctx, P):
    """a cursor starts at the first record at or above the given LSN in the file that holds it and continues with the next file only after the current one did not grow"""
    v = P.view('wal_cursor_open')
    fi, mn, pr = v.calls('id_mgr_find'), v.calls('id_mgr_min'), v.calls('wal_file_pread')
    a2 = lambda t: strip_cast(t)[:2] == ('arg', 2)
    for c in fi:
        ctx.ob('cursor-start-file', 'wal_cursor_open', a2(v.term(c.args[1])), 'the start file is looked up by another LSN', at=c)
    for c in mn:
        z = any(a2(f[2]) and f[1] in ('eq', 'ule', 'sle') and const_of(f[3]) == 0 for f in v.conds(c)) or \
            any(strip_cast(f[2])[:2] == ('call', 'id_mgr_find') and f[1] == 'eq' for f in v.conds(c))
        ctx.ob('cursor-start-file', 'wal_cursor_open', z, 'the oldest file is used although an LSN is given', at=c)
    ctx.ob('cursor-start-file', 'wal_cursor_open', bool(fi), 'the start file is not looked up')
    # rewind
    back = [s for s in stores(v, 'WalCursor.file_offset') if any(leaf_field(k) == 'Record.size' and c == -1 for k, c in lin(v.term(s.args[0])).items() if k is not None)]
    ctx.ob('cursor-rewind', 'wal_cursor_open', bool(back), 'the cursor does not step back before the first record that is wanted')
    for s in back:
        ok = False
        for _, p, a, b in v.conds(s):
            if leaf_field(a) != 'Record.lsn':
                a, b, p = b, a, core.SWAP[p]
            if leaf_field(a) == 'Record.lsn' and a2(b):
                ok = p in ('uge', 'sge')
        ctx.ob('cursor-rewind', 'wal_cursor_open', ok, 'the cursor starts at another record than the first one at or above the LSN', at=s)
        ctx.ob('cursor-rewind', 'wal_cursor_open', v.can_reach(s, pr) is None, 'the cursor skips on after it found its start', at=s)
    # it never stops below the LSN while there are records
    v = P.view('wal_cursor_next')
    pr, up, nx = v.calls('wal_file_pread'), v.calls('file_update_size'), v.calls('id_mgr_next')
    ctx.ob('cursor-next-file', 'wal_cursor_next', bool(nx) and bool(up), 'the cursor does not continue with the next file')
    for c in nx:
        ctx.ob('cursor-next-file', 'wal_cursor_next', v.dominated(c, up), 'the next file is opened although the current one grew', at=c)
        g = any(strip_cast(f[2])[:2] == ('call', 'file_update_size') and f[1] == 'eq' and const_of(f[3]) == 0 for f in v.conds(c))
        ctx.ob('cursor-next-file', 'wal_cursor_next', g, 'the next file is opened although the current one grew', at=c)
        ctx.ob('cursor-next-file', 'wal_cursor_next', leaf_field(v.term(c.args[1])) == 'WalFile.id', 'the next file is not the one after the current', at=c)
        ok = any(truth(v, [f], lambda t: leaf_field(t) == 'WalCursor.file_next') is True for f in v.conds(c))
        ctx.ob('cursor-next-file', 'wal_cursor_next', ok, 'the cursor leaves its file although it was told not to', at=c)
    for c in pr:
        ctx.ob('cursor-offset', 'wal_cursor_next', leaf_field(v.term(c.args[1])) == 'WalCursor.file_offset', 'reads from another position', at=c)
    al = v.calls('wal_file_allocate')
    z = [s for s in stores(v, 'WalCursor.file_offset') if const_of(v.term(s.args[0])) == 0]
    adv = [s for s in stores(v, 'WalCursor.file_offset') if const_of(v.term(s.args[0])) is None]
    for c in al:
        ctx.ob('cursor-new-file', 'wal_cursor_next', strip_cast(v.term(c.args[0]))[:2] == ('call', 'id_mgr_next'), 'another file is opened', at=c)
        # between leaving the old file and reading the new one the offset restarts
        m = v.can_reach(nx[0], [c], avoid=z) if nx else None
        m = v.can_reach(c, pr, avoid=z) if m is not None else None
        ctx.ob('cursor-new-file', 'wal_cursor_next', m is None, 'the position of the previous file is kept', at=c)
    for s in adv:
        e = {leaf_field(k) if k is not None else None: c for k, c in lin(v.term(s.args[0])).items()}
        ctx.ob('cursor-advance', 'wal_cursor_next', {k: c for k, c in e.items() if c} == {'WalCursor.file_offset': 1, 'Record.size': 1}, 'the position does not advance by whole records', at=s)
    # a record that was read advances the cursor
    for c in pr:
        no = error_edges(v, [c], lambda p, k: p == 'eq' and k == 0)
        m = v.can_reach(c, v.exits(), avoid=adv + [x for x in pr], edge=no)
        ctx.ob('cursor-advance', 'wal_cursor_next', m is None, 'a record is returned twice', at=c)


def closing(ctx, P):
    """closing releases the current file and forgets the registered files, so that reopening reads the directory anew"""
    v = P.view('wal_close')
    rs = v.calls('id_mgr_reset')
    m = missing(v, None, v.exits(), rs)
    ctx.ob('close-forgets', 'wal_close', m is None, 'the registered files are kept', at=m)
    nul = [s for s in stores(v, 'Wal.current') if v.term(s.args[0]) == ('null',)]
    fr = v.calls('wal_file_free')
    for c in fr:
        ctx.ob('close-forgets', 'wal_close', v.can_reach(c, v.exits(), avoid=nul) is None or any(v.dominated(c, [x]) for x in nul), 'the freed file stays current', at=c)


def positions(ctx, P):
    """positioning at the end and cutting a file update the recorded size"""
    v = core.load(['file_seek_to_end', 'wal_file_truncate', 'file_truncate', 'file_update_size'], set(KEEP) - {'file_seek_to_end', 'wal_file_truncate', 'file_update_size'}, UNKEEP, False)
    f = v.view('file_seek_to_end')
    sk = f.calls('vfs_seek', 'vfs_lseek', 'lseek')
    ctx.ob('seek-end', 'file_seek_to_end', bool(sk), 'does not position the file')
    for c in sk:
        pos = [const_of(f.term(a)) for a in c.args[1:]]
        siz = leaf_field(f.term(c.args[1])) == 'File.size'
        ctx.ob('seek-end', 'file_seek_to_end', (siz and pos[-1] in (0, None)) or (pos[0] == 0 and pos[-1] == 2) or siz, 'does not position at the end', at=c)
    f = v.view('wal_file_truncate')
    ft = f.calls('vfs_truncate', 'vfs_ftruncate', 'ftruncate')
    ctx.ob('truncate-size', 'wal_file_truncate', bool(ft), 'does not cut the file')
    for c in ft:
        ctx.ob('truncate-size', 'wal_file_truncate', strip_cast(f.term(c.args[1]))[:2] == ('arg', 1), 'cuts at another position', at=c)
    st = [s for s in stores(f, 'File.size') if strip_cast(f.term(s.args[0]))[:2] == ('arg', 1)]
    ctx.ob('truncate-size', 'wal_file_truncate', missing(f, None, f.exits(), st) is None, 'the recorded size is not updated')


RULES = [opening, truncating, file_list, reading, closing, positions]
