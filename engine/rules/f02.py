"""F02: data files become visible only when complete and flushed."""
from ..q import *
from ..core import load as core_load
from .fsops import *
from .f01 import cached

ENTRIES, KEEP, PLAIN = [], [], True
MAXUP = 3
IDKEEP = FSKEEP + ['id_of', 'state_psn_follow', 'state_psn_next', 'part_allocate', 'object_allocate', 'heap_allocate', 'part_free', 'object_free', 'heap_free', 'volume_mkdir', 'volume_mgr_next', 'encoder_iov_crc',
                   'encoder_encode', 'encoder_open', 'encoder_free', 'encoder_iov', 'encoder_iov_count', 'part_add', 'part_mgr_add', 'tier_add', 'mapping_add', 'writer_free', 'writer_allocate', 'region_writer_stop', 'meta_writer_add', 'meta_writer_stop',
                   'branch_free', 'fs_closedir_defer', 'uuid_get', 'opendir', 'info']


def states(P):
    return {k: P.enum(k)[k] for k in ('STATE_COMPLETE', 'STATE_INCOMPLETE', 'STATE_SNAPSHOT')}


def raw(P, f, c, n):
    return P.fn[f].term(c.args[n])


def users(P, create):
    """functions in which a file of an id is created (opened) in a state they decide themselves: {function: [(call, state term)]}, walking up as long as the state is passed in"""
    work, out, done = [], {}, set()
    for f in P.fn.values():
        if f.name == 'id_path' or not f.calls('id_path') or not f.calls('file_open_as', 'file_open', 'file_create', 'file_open_rdonly'):
            continue
        v = core_load([f.name], FSKEEP, [], True).view(f.name)
        fl = [const_of(v.term(c.args[2])) for c in v.calls('file_open_as')]
        if any(x is None or bool(x & O_CREAT) == create for x in fl):
            work += [(f.name, 2, c) for c in f.calls('id_path')]
    while work:
        fn, n, c = work.pop()
        t = P.fn[fn].term(c.args[n])
        if t[0] == 'arg':
            if (fn, t[1]) not in done:
                done.add((fn, t[1]))
                work += [(g.name, t[1], d) for g in P.fn.values() for d in g.calls(fn)]
        else:
            out.setdefault(fn, []).append((c, t))
    return out


def is_id(n):
    return isinstance(n, tuple) and n and n[0] == 'id'


def st(t):
    return const_of(t)


def step(P, fn, S):
    """[(rule, ok, message, instruction)] the file made by a function becomes visible properly; None: it makes none"""
    Q = core_load([fn], IDKEEP, [], True)
    v = Q.view(fn)
    r, made = [], False
    for p in paths(v):
        evs = trace(p)
        ops = [o for o in fsops(p, evs) if is_id(o.name)]
        cr = [o for o in ops if o.k == 'open' and const_of(o.e.a[2]) is not None and const_of(o.e.a[2]) & O_CREAT]
        if not cr:
            continue
        made = True
        at = p.insts[-1]
        for j, o in enumerate(cr):
            nx = cr[j + 1].n if j + 1 < len(cr) else len(p.insts) + 1
            mine = [x for x in ops if o.n < x.n < nx]
            fl = const_of(o.e.a[2])
            r.append(('hidden', st(o.name[2]) == S['STATE_INCOMPLETE'], 'a file is created under its final name', o.e.i))
            r.append(('fresh', bool(fl & (O_EXCL | O_TRUNC)), 'old content of a leftover file stays', o.e.i))
            r.append(('absolute', all(const_of(x[3]) == 0 for y in mine + [o] for x in (y.name, y.to) if is_id(x)), 'a relative name is used', o.e.i))
            wr = [x for x in mine if x.k in ('write', 'truncate') and x.name == o.name]
            sy = [x for x in mine if x.k == 'sync' and x.name == o.name]
            rn = [x for x in mine if x.k == 'rename']
            opt = option(before(p, nx), 'Config.storage_sync') if True else None
            for x in rn:
                good = x.name == o.name and is_id(x.to) and x.to[1] == o.name[1] and st(x.to[2]) == S['STATE_COMPLETE'] and x.to[3] == o.name[3]
                r.append(('renamed', good, 'another file is renamed, or to another name', x.e.i))
                r.append(('written', bool(wr) and all(w.n < x.n for w in wr), 'the file is renamed before it is written', x.e.i))
                so = option(between(p, o.n, x.n), 'Config.storage_sync')
                r.append(('flushed', so is False or any(wr and wr[-1].n < s.n < x.n for s in sy), 'the file is renamed before it is flushed', x.e.i))
            if p.end() == 'ret' or (p.end() == 'ret' and j + 1 < len(cr)):
                gone = [x for x in mine if x.k == 'exists' and x.name == o.name and x.yes is False]
                r.append(('visible', len(rn) == 1 or bool(gone), 'a file that is complete does not get its final name', at))
    return r if made else None


def between(p, a, b):
    return before(p, b, a)


def produced(ctx, P):
    """a data file is created under its incomplete name, freshly, written, flushed (when configured) and only then renamed to its final name"""
    S = states(P)
    us = users(P, True)
    roots = {}
    for fn in us:
        r = step(P, fn, S)
        if r is None:
            continue
        roots[fn] = r
    ctx.ob('produced.roots', 'all', len(roots) >= 2, 'producers of data files not found')
    for fn, r in sorted(roots.items()):
        # a helper that only makes the file is judged with its callers
        level, cand = 0, [(fn, r)]
        while level < MAXUP:
            nxt = []
            for f, rr in cand:
                short = [x for x in rr if x[0] == 'visible' and not x[1]]
                up = sorted({g.name for g in P.fn.values() if g.calls(f)}) if short else []
                rs = [(g, step(P, g, S)) for g in up] if up and not [x for x in rr if x[0] == 'renamed'] else []
                rs = [x for x in rs if x[1]]
                nxt += rs if rs else [(f, rr)]
            if nxt == cand:
                break
            cand, level = nxt, level + 1
        for f, rr in cand:
            for rule, ok, msg, at in rr:
                ctx.ob('produced.' + rule, f, ok, msg, at=at)
    for x in ('hidden', 'fresh', 'renamed', 'written', 'flushed', 'visible'):
        ctx.floor('produced.' + x, 2)


def loaded(ctx, P):
    """only complete files are opened for reading"""
    S = states(P)
    for fn, cs in sorted(users(P, False).items()):
        for c, t in cs:
            ctx.ob('loaded.complete', fn, st(t) == S['STATE_COMPLETE'], 'a file that may be incomplete is opened', at=c)
    ctx.floor('loaded.complete', 2)


def scanners(P):
    return [f.name for f in P.fn.values() if f.calls('id_of') and f.calls('readdir')] or [f.name for f in P.fn.values() if f.calls('id_of')]


def lookups(P):
    """the functions that scan a directory: the lowest that both read entries and interpret the name"""
    base = {f.name for f in P.fn.values() if f.calls('id_of')}
    out, seen = set(), set()
    work = list(base)
    while work:
        n = work.pop()
        if n in seen:
            continue
        seen.add(n)
        if P.fn[n].calls('readdir'):
            out.add(n)
        else:
            work += [g.name for g in P.fn.values() if g.calls(n)]
    return sorted(out)


def recovery(ctx, P):
    """at start an incomplete or snapshot file is removed and never loaded, a complete one is loaded and never removed, anything else is left alone; new ids start after every id seen"""
    S = states(P)
    kinds = set()
    for fn in lookups(P):
        Q = core_load([fn], IDKEEP + ['branch_allocate', 'object_read', 'object_add', 'fs_closedir', 'closedir'], [], True)
        v = Q.view(fn)
        ctx.ob('recovery.scan', fn, len(v.calls('id_of')) == 1, 'names are interpreted in several places')
        c = v.calls('id_of')[0]
        seen = set()
        for p in paths(v, start=c.b):
            evs = [e for e in trace(p)]
            ido = [e for e in evs if e.k == 'call' and e.f == 'id_of']
            if not ido:
                continue
            a = ido[0]
            nxt = [e for e in evs if e.k == 'call' and e.f in ('readdir', 'id_of') and e.n > a.n]
            end = nxt[0].n if nxt else len(p.insts)
            if p.end() == 'panic':
                continue
            fs = [(f[1], const_of(f[3])) for f, at in zip(p.facts, p.at) if strip_cast(f[2])[:2] == ('call', 'id_of') and a.n <= at <= end]
            vals = [s for s in list(S.values()) + [-1] if all(x[1] is not None and holds(x[0], s, x[1]) for x in fs)]
            # what the version must be
            ver = [x for x, m in zip(p.facts, p.at) if a.n <= m <= end and isver(v, x[2], a) and const_of(x[3]) == 0]
            wv = {k for k in (0, 1) if all(holds(x[1], k, 0) for x in ver)}
            ops = [o for o in fsops(p, evs) if a.n < o.n < end]
            un = [o for o in ops if o.k == 'unlink']
            ld = [e for e in evs if e.k == 'call' and e.f in ('part_allocate', 'object_allocate') and a.n < e.n < end]
            fo = [e for e in evs if e.k == 'call' and e.f == 'state_psn_follow' and a.n < e.n < end]
            at = a.i
            if not vals:
                continue
            for o in un:
                ctx.ob('recovery.absolute', fn, is_id(o.name) and const_of(o.name[3]) == 0, 'a relative name is removed', at=o.e.i)
                k = const_of(o.name[2]) if is_id(o.name) else None
                if is_id(o.name) and k is None and strip_cast(o.name[2])[:2] == ('call', 'id_of'):
                    k = vals[0] if len(vals) == 1 else None
                    ok = set(vals) <= {S['STATE_INCOMPLETE'], S['STATE_SNAPSHOT']}
                else:
                    ok = vals == [k] and k in (S['STATE_INCOMPLETE'], S['STATE_SNAPSHOT'])
                ctx.ob('recovery.removed', fn, ok, 'a file that is no leftover is removed, or another one', at=o.e.i)
                if is_id(o.name):
                    ctx.ob('recovery.which', fn, idfrom(evs, o.name[1], a, o.n), 'another file is removed', at=o.e.i)
            if ld:
                ctx.ob('recovery.loads', fn, vals == [S['STATE_COMPLETE']] and len(ld) == 1, 'a file that is not complete is loaded', at=ld[0].i)
                ctx.ob('recovery.id', fn, idfrom(evs, ld[0].a[0], a, ld[0].n), 'a file is loaded under another id', at=ld[0].i)
                kinds.add((ld[0].f, tuple(sorted(wv))))
                ctx.ob('recovery.kind', fn, wv == ({0} if ld[0].f == 'part_allocate' else {1}), 'a file of another kind is loaded', at=ld[0].i)
                seen.add('load')
                if nxt or p.end() == 'ret':
                    ad = [e for e in evs if e.k == 'call' and e.f in ('part_mgr_add', 'tier_add') and ld[0].n < e.n < end and e.a[1] == ('call', ld[0].f, tuple(ld[0].a))]
                    ctx.ob('recovery.added', fn, len(ad) == 1, 'a complete file is loaded but not used', at=ld[0].i)
                    if ld[0].f == 'object_allocate':
                        op = [o for o in ops if o.k == 'open']
                        ctx.ob('recovery.opened', fn, bool(op) and bool(ad) and op[0].n < ad[0].n, 'an object is used before its file is read', at=ld[0].i)
            went = bool(nxt) or p.end() == 'ret'
            if went and not ld and not un:
                # left alone: unknown, or of the other kind
                exists = [o for o in ops if o.k == 'exists' and o.yes is False]
                other = -1 in vals
                ctx.ob('recovery.every', fn, other or bool(exists) or foreign(fn, kinds_of(v), wv), 'a leftover stays, or a complete file is not loaded', at=at)
            if went and (ld or un):
                seen.add('un' if un else '')
                ctx.ob('recovery.follow', fn, len(fo) >= 1 and value_of(fo[0].a[0], a.a[1]), 'an id that is in use may be given out again', at=at)
        ctx.ob('recovery.seen', fn, {'load', 'un'} <= seen, 'the scan does not both load and clean up')
    ctx.floor('recovery.scan', 2)
    ctx.floor('recovery.removed', 2)
    ctx.floor('recovery.kind', 2)
    ctx.floor('recovery.every', 2)


def kinds_of(v):
    return {c.callee for c in v.calls('part_allocate', 'object_allocate')}


def foreign(fn, kinds, wv):
    """the file belongs to the other scan"""
    return (kinds == {'part_allocate'} and wv == {1}) or (kinds == {'object_allocate'} and wv == {0})


def isver(v, t, a):
    t = strip_cast(t)
    return t[0] == 'load' and v.norm(t)[1] == a.a[2]


def value_of(t, addr):
    t = strip_cast(t)
    return t[0] == 'load' and t[1] == addr


def idfrom(evs, idt, a, n):
    """the id consists of the number and the version read from the name"""
    s = {}
    for e in evs:
        if e.k == 'store' and e.n < n and e.a[0] == 'field' and e.a[1] == idt:
            s[e.f] = e.v
    ok = 'Id.id' in s and value_of(s['Id.id'], a.a[1])
    v = s.get('Id.version')
    ok2 = v is not None and (value_of(v, a.a[2]) or const_of(v) == 0)
    return ok and ok2


def names(ctx, P):
    """the name of a file is read back as the number, version and state it was made from"""
    S = states(P)
    # state -> suffix
    Q = core_load(['id_state', 'id_path', 'id_of', 'id_of_next', 'id_state_of'], ['sfmt', 'uuid_get', 'opt_string_of', 'id_of_next', 'id_state', 'id_state_of', 'strcmp'], [], True)
    suf = {}
    v = Q.view('id_state')
    for p in paths(v):
        if p.end() != 'ret':
            continue
        rt = [i for i in p.insts if i.op == 'ret'][-1]
        t = flat(p.arg(rt, 0))
        val = [s for s in S.values() if all(holds(f[1], s, const_of(f[3])) for f in p.facts if strip_cast(f[2]) == ('arg', 0, v.params[0]))]
        if t[0] == 'str' and len(val) == 1:
            suf[val[0]] = t[1]
    if not suf:
        # a table
        suf = {}
    ctx.ob('names.suffixes', 'id_state', set(suf) == set(S.values()) and len(set(suf.values())) == 3, 'the states do not have different suffixes')
    back = {}
    v = Q.view('id_state_of')
    for p in paths(v):
        if p.end() != 'ret':
            continue
        rt = [i for i in p.insts if i.op == 'ret'][-1]
        r = const_of(p.arg(rt, 0))
        lit = None
        for f in p.facts:
            t = strip_cast(f[2])
            if t[0] == 'call' and t[1] == 'strcmp':
                cargs = [flat(v.term(x)) for x in v.inst[t[2]].args]
                if f[1] == 'eq' and const_of(f[3]) == 0:
                    lit = [x[1] for x in cargs if x[0] == 'str'][0]
                    ctx.ob('names.compared', 'id_state_of', ('arg', 0, v.params[0]) in cargs, 'something else than the suffix is compared', at=v.inst[t[2]])
            elif t[0] == 'load' and strip_cast(t[1])[:1] == ('arg',) and f[1] == 'eq' and const_of(f[3]) == 0:
                lit = ''
        if lit is not None:
            back[lit] = r
        else:
            ctx.ob('names.unknown', 'id_state_of', r is not None and r < 0, 'an unknown suffix is taken for a state', at=rt)
    ctx.ob('names.states', 'id_state_of', back == {s: k for k, s in suf.items()}, 'a state is not read back: %s / %s' % (suf, back))
    # formats
    v = Q.view('id_path')
    k = 0
    for p in paths(v):
        if p.end() != 'ret':
            continue
        sf = [e for e in trace(p) if e.k == 'call' and e.f == 'sfmt']
        ctx.ob('names.path', 'id_path', len(sf) == 1, 'a name is not made once')
        for e in sf:
            k += 1
            nm = expand(e.a[2], e.a[3:], {})
            # after the last slash
            j = max([n for n, x in enumerate(nm) if isinstance(x, str) and '/' in x], default=-1)
            ctx.ob('names.dir', 'id_path', j >= 0 and nm[j].endswith('/'), 'the name is not directly below the directory of the volume', at=e.i)
            x = list(nm[j + 1:])
            rel = [f for f in p.facts if mentions_arg(f[2], 3) and const_of(f[3]) == 0]
            base = bool(nm) and not isinstance(nm[0], str)
            ctx.ob('names.base', 'id_path', bool(rel) and (rel[-1][1] == 'eq') == base, 'the name is not relative to the directory of the database as asked for', at=e.i)
            vs = [f for f in p.facts if leaf_field(f[2]) == 'Id.version' and const_of(f[3]) == 0]
            has = not all(holds(f[1], 0, 0) for f in vs) and bool(vs)
            shape = [y if isinstance(y, str) else leaf_field(y) or y[1] for y in x]
            want = ['Id.id', '.', 'Id.version', 'id_state'] if has else ['Id.id', 'id_state']
            ctx.ob('names.format', 'id_path', shape == want, 'the name is %s instead of %s' % (shape, want), at=e.i)
            ctx.ob('names.suffix', 'id_path', bool(x) and x[-1] == ('call', 'id_state', (('arg', 2, v.params[2]),)), 'the name does not end with the state', at=e.i)
            if not has:
                ctx.ob('names.noversion', 'id_path', bool(vs) and not any(holds(f[1], 1, 0) for f in vs[-1:]), 'a version is left out', at=e.i)
    # parsing
    v = Q.view('id_of')
    for p in paths(v):
        if p.end() != 'ret':
            continue
        evs = trace(p)
        nx = [e for e in evs if e.k == 'call' and e.f == 'id_of_next']
        so = [e for e in evs if e.k == 'call' and e.f == 'id_state_of']
        rt = [i for i in p.insts if i.op == 'ret'][-1]
        r = p.arg(rt, 0)
        at = rt
        ctx.ob('names.number', 'id_of', bool(nx) and nx[0].a[0] == ('arg', 0, v.params[0]) and nx[0].a[1] == ('arg', 1, v.params[1]), 'the number is not read from the start of the name', at=at)
        bad = [e for e in nx if any(strip_cast(f[2]) == ('call', 'id_of_next', e.i.id) and f[1] == 'eq' and f[3] == ('null',) for f in p.facts)]
        if bad:
            ctx.ob('names.invalid', 'id_of', const_of(r) is not None and const_of(r) < 0, 'an invalid name is taken for a file', at=at)
            continue
        if len(nx) == 2:
            b = nx[1]
            first = ('call', 'id_of_next', tuple(nx[0].a))
            d = {k: c for k, c in lin(strip_cast(b.a[0])).items() if c} if b.a[0][0] != 'index' else None
            step1 = b.a[0][0] == 'index' and b.a[0][1] == first and const_of(b.a[0][2]) == 1
            ctx.ob('names.version', 'id_of', step1 and b.a[1] == ('arg', 2, v.params[2]), 'the version is not read behind the dot', at=b.i)
        last = ('call', 'id_of_next', tuple(nx[-1].a)) if nx else None
        if so:
            ctx.ob('names.rest', 'id_of', so[-1].a[0] == last, 'the suffix is not what is left of the name', at=so[-1].i)
            t = strip_cast(v.norm(r))
            ctx.ob('names.result', 'id_of', t[:2] == ('call', 'id_state_of'), 'the state is not the one of the suffix', at=at)
        else:
            end = [f for f in p.facts if strip_cast(f[2])[0] == 'load' and f[1] == 'eq' and const_of(f[3]) == 0 and v.norm(strip_cast(f[2]))[1] == last]
            ctx.ob('names.bare', 'id_of', const_of(r) == S['STATE_COMPLETE'] and bool(end), 'a name with a suffix is taken for a complete file', at=at)
        zero = [e for e in evs if e.k == 'store' and e.a in (('arg', 1, v.params[1]), ('arg', 2, v.params[2])) and const_of(e.v) == 0 and e.n < nx[0].n]
        ctx.ob('names.cleared', 'id_of', len(zero) == 2, 'the number or version is not reset', at=at)
    ctx.floor('names.path', 4)
    ctx.floor('names.rest', 2)
    ctx.floor('names.version', 1)


def truncated(ctx, P):
    """an object file is cut only behind the branches its version says it has, all of which were read, and only when something is left there"""
    fs = [f.name for f in P.fn.values() if f.calls('file_truncate') and f.calls('id_open', 'file_open') and not f.file.startswith('amelie/db/wal')]
    for fn in fs:
        Q = core_load([fn], FSKEEP + ['object_read', 'object_add', 'branch_free', 'branch_allocate', 'info'], ['id_open', 'object_read'] and [], True)
        v = Q.view(fn)
        for p in paths(v):
            evs = trace(p)
            tr = [e for e in evs if e.k == 'call' and e.f == 'file_truncate']
            rd = [e for e in evs if e.k == 'call' and e.f == 'object_read']
            for e in tr:
                off = strip_cast(e.a[1])
                loc = [r.a[1] for r in rd]
                ctx.ob('truncated.where', fn, off[0] == 'load' and (all(x == off[1] for x in loc)), 'the file is not cut behind the last branch', at=e.i)
                # a difference was seen
                d = [f for f in p.facts if {f[2][0], f[3][0]} == {'load'} and (leaf_field(f[2]) == 'File.size' or leaf_field(f[3]) == 'File.size')]
                ctx.ob('truncated.when', fn, bool(d) and all(f[1] in ('ne', 'ult', 'ugt', 'slt', 'sgt') for f in d[-1:]), 'an intact file is cut', at=e.i)
                lim = [f for f in p.facts if any(mentions(v, x, 'Id.version') for x in (f[2], f[3]))]
                ctx.ob('truncated.all', fn, bool(lim) and finished(v, lim[-1]), 'the file is cut before all branches of its version were read', at=e.i)
                if p.end() == 'ret':
                    sy = [x for x in evs if x.k == 'call' and x.f == 'file_sync' and x.n > e.n]
                    ctx.ob('truncated.synced', fn, bool(sy) or option(p, 'Config.storage_sync') is False, 'the cut is not flushed', at=e.i)
            if p.end() == 'ret':
                d = [f for f in p.facts if {f[2][0], f[3][0]} == {'load'} and (leaf_field(f[2]) == 'File.size' or leaf_field(f[3]) == 'File.size')]
                ctx.ob('truncated.asked', fn, bool(d), 'left over branches stay', at=p.insts[-1])
                if d and d[-1][1] in ('ne', 'ult', 'ugt'):
                    ctx.ob('truncated.done', fn, bool(tr) or d[-1][1] != 'ne', 'left over branches stay', at=p.insts[-1])
                for r in rd:
                    ad = [x for x in evs if x.k == 'call' and x.f == 'object_add' and x.n > r.n and x.a[1] == ('call', 'object_read', tuple(r.a))]
                    ctx.ob('truncated.added', fn, bool(ad), 'a branch that was read is dropped', at=r.i)
    ctx.floor('truncated.where', 1)
    ctx.floor('truncated.done', 1)


def mentions_arg(t, n):
    t = strip_cast(t)
    while t[0] == 'bin' or t[0] == 'cast':
        t = strip_cast(t[2] if t[0] == 'bin' else t[4])
    return t[0] == 'arg' and t[1] == n


def finished(v, f):
    """branches_count >= version"""
    a, b = f[2], f[3]
    la = mentions(v, a, 'Id.version')
    p = f[1]
    if la:
        return p in ('ule', 'sle', 'eq')
    return p in ('uge', 'sge', 'eq')


def initial(ctx, P):
    """initial files are made only when there are none"""
    S = states(P)
    prod = list(users(P, True))
    def empty(g, c):
        for f in g.conds(c):
            t = strip_cast(f[2])
            if f[1] == 'eq' and const_of(f[3]) == 0 and ((leaf_field(t) or '').endswith('.list_count') or t[:2] == ('call', 'fs_exists')):
                return True
        return False

    def guarded(fn, up):
        cs = [(g, c) for g in P.fn.values() for c in g.calls(fn)]
        return bool(cs) and all(empty(g, c) or up > 0 and guarded(g.name, up - 1) for g, c in cs)
    for fn in prod:
        for g in P.fn.values():
            for c in g.calls(fn):
                ctx.ob('initial.empty', g.name, empty(g, c) or guarded(g.name, 3), 'initial files are made although there may be some', at=c)
    ctx.floor('initial.empty', 2)


RULES = [produced, loaded, recovery, names, truncated, initial]
