"""F01: the catalog file is replaced atomically and restored completely."""
from ..q import *
from ..core import load as core_load
from .enc import *
from .fsops import *
from . import d02

ENTRIES, KEEP, PLAIN = [], [], True
DEPENDS = [('storage_mgr', 'table_mgr'), ('db_mgr', 'table_mgr'), ('db_mgr', 'udf_mgr'), ('table_mgr', 'udf_mgr')]


def creators(P):
    return [n for n in P.fn if n.endswith('_mgr_create') and 'tr' in P.fn[n].params]


def readers(P):
    return [n + '_read' for n in d02.defs(P)]


_views = {}


def cached(fn):
    def g(P):
        if (fn, id(P)) not in _views:
            _views[(fn, id(P))] = (fn(P), P)
        return _views[(fn, id(P))][0]
    return g


@cached
def saved(P):
    Q = core_load(['catalog_write'], FSKEEP + ['catalog_write_prepare', 'json_export_pretty', 'json_export', 'buf_free', 'state_catalog_pending'], [], True)
    return Q.view('catalog_write')


@cached
def loaded(P):
    Q = core_load(['catalog_read'], FSKEEP + ['catalog_restore', 'json_parse', 'json_free', 'buf_free'], [], True)
    return Q.view('catalog_read')


@cached
def names(P):
    """(final, temporary) names the start reads"""
    v = loaded(P)
    fin = {o.name for p in paths(v) for o in fsops(p) if o.k == 'import'}
    return fin


def replaced(ctx, P):
    """the new catalog is written completely and flushed under the temporary name before the old one is removed; then it takes its name, and only then it counts as saved"""
    v = saved(P)
    k = 0
    for p in paths(v):
        evs = trace(p)
        ops = fsops(p, evs)
        at = p.insts[-1]
        op = [o for o in ops if o.k == 'open']
        wr = [o for o in ops if o.k == 'write']
        sy = [o for o in ops if o.k == 'sync']
        rn = [o for o in ops if o.k == 'rename']
        done = p.end() == 'ret'
        if done:
            k += 1
            ctx.ob('replaced.steps', 'catalog_write', len(op) == 1 and len(wr) >= 1 and len(rn) == 1, 'the catalog is not created, written and renamed once', at=at)
        if not op:
            # nothing but a leftover goes before
            for o in ops:
                ctx.ob('replaced.before', 'catalog_write', o.k != 'rename' and not (o.k == 'unlink' and tail(o.name) in {tail(x) for x in names(P)}), 'the catalog is removed before a new one exists', at=o.e.i)
            continue
        T = op[0].name
        fin = names(P)
        ctx.ob('replaced.name', 'catalog_write', T not in fin, 'the catalog is written in place', at=op[0].e.i)
        fl = const_of(op[0].e.a[2])
        gone = any(o.n < op[0].n and (o.k == 'unlink' or o.k == 'exists' and o.yes is False) and o.name == T for o in ops)
        ctx.ob('replaced.fresh', 'catalog_write', gone or bool(fl & (O_TRUNC | O_EXCL)), 'old content of the temporary file stays', at=op[0].e.i)
        ctx.ob('replaced.created', 'catalog_write', bool(fl & O_CREAT), 'the temporary file is not created', at=op[0].e.i)
        last = max([o.n for o in wr if o.name == T], default=None)
        sync = option(p, 'Config.catalog_sync')
        for o in ops:
            if o.n < op[0].n:
                if o.k == 'unlink':
                    ctx.ob('replaced.before', 'catalog_write', o.name == T, 'the catalog is removed before a new one exists', at=o.e.i)
                continue
            if o.k in ('unlink', 'rename'):
                ok = last is not None and o.n > last
                ctx.ob('replaced.written', 'catalog_write', ok, 'the old catalog is replaced before the new one is written', at=o.e.i)
                ctx.ob('replaced.flushed', 'catalog_write', sync is False or any(last is not None and last < x.n < o.n and x.name == T for x in sy), 'the old catalog is replaced before the new one is flushed', at=o.e.i)
            if o.k == 'unlink':
                ctx.ob('replaced.kept', 'catalog_write', o.name != T, 'the new catalog is removed', at=o.e.i)
            if o.k == 'rename':
                ctx.ob('replaced.renamed', 'catalog_write', o.name == T and {o.to} == fin, 'the new catalog does not take the name it is read by', at=o.e.i)
        # what is written
        for o in wr:
            b = [e for e in evs if e.k == 'call' and e.f in ('json_export_pretty', 'json_export') and e.n < o.n]
            ok = len(b) == 1 and whole(o.e, b[0].a[0]) and o.name == T
            if ok:
                src = [e for e in evs if e.k == 'call' and e.f == 'catalog_write_prepare' and e.n < b[0].n]
                pos = [e for e in evs if e.k == 'store' and e.a == b[0].a[2] and e.n < b[0].n]
                ok = len(src) == 1 and bool(pos) and pos[-1].v[0] == 'load' and leaf_field(pos[-1].v) == 'Buf.start' and pos[-1].v[1][1][:2] == ('call', 'catalog_write_prepare')
            ctx.ob('replaced.content', 'catalog_write', ok, 'the file is not the whole catalog', at=o.e.i)
        # the saved position
        st = [e for e in evs if e.k == 'call' and e.f == 'opt_int_set' and leaf_field(e.a[0]) == 'State.catalog']
        pre = [e for e in evs if e.k == 'call' and e.f == 'catalog_write_prepare']
        for s in st:
            ctx.ob('replaced.lsn', 'catalog_write', bool(rn) and s.n > rn[-1].n and len(pre) == 1 and s.a[1] == pre[0].a[1] and one(p, s, pre[0]), 'another position than that of the saved catalog is recorded, or before it is saved', at=s.i)
        if done:
            ctx.ob('replaced.recorded', 'catalog_write', len(st) == 1, 'the position of the saved catalog is not recorded', at=at)
    ctx.floor('replaced.steps', 1)


def one(p, a, b):
    """both calls get the same value, computed once"""
    v = p.v
    return subst(v.term(a.i.args[1]), p.envs[a.n]) == subst(v.term(b.i.args[1]), p.envs[b.n])


def whole(e, buf):
    """a write of all the content of a buffer"""
    if e.f != 'file_write':
        return False
    d = strip_cast(e.a[1])
    n = lin(strip_cast(e.a[2]))
    n = {k: c for k, c in n.items() if c}
    s, q = ('load', ('field', buf, 'Buf.start')), ('load', ('field', buf, 'Buf.position'))
    return d == s and n == {q: 1, s: -1}


def text_of(evs, n, text, src):
    """a string was set to the whole content of the buffer returned by src"""
    got = False
    for e in evs:
        if e.n >= n:
            break
        if e.k == 'call' and e.f == 'str_set' and e.a[0] == text:
            s = strip_cast(e.a[1])
            m = {k: c for k, c in lin(strip_cast(e.a[2])).items() if c}
            got = leaf_field(s) == 'Buf.start' and s[0] == 'load' and s[1][1][:2] == ('call', src) and m == {s: -1, ('load', ('field', s[1][1], 'Buf.position')): 1}
        elif e.k == 'call' and text in e.a:
            got = False
        elif e.k == 'store' and e.a[0] == 'field' and e.a[1] == text:
            got = False
    if got:
        return True
    st = {e.f: e.v for e in evs if e.k == 'store' and e.n < n and e.a[0] == 'field' and e.a[1] == text}
    ok = all(st.get(f, ('x',))[0] == 'load' and st[f][1][0] == 'field' and st[f][1][1][:2] == ('call', src) for f in ('Str.pos', 'Str.end'))
    return ok and leaf_field(st['Str.pos']) == 'Buf.start' and leaf_field(st['Str.end']) == 'Buf.position'


def recovered(ctx, P):
    """a leftover temporary catalog takes the place of a missing one and is removed otherwise; without both the start fails"""
    v = loaded(P)
    w = {o.name for p in paths(saved(P)) for o in fsops(p) if o.k == 'open'}
    T = list(w)[0] if len(w) == 1 else None
    ctx.ob('recovered.names', 'catalog_read', len(w) == 1 and len(names(P)) == 1, 'several names')
    k = 0
    F = list(names(P))[0]
    for p in paths(v):
        ops = fsops(p)
        at = p.insts[-1]
        ex = {o.name: o.yes for o in reversed(ops) if o.k == 'exists'}
        imp = [o for o in ops if o.k == 'import']
        rn = [o for o in ops if o.k == 'rename']
        un = [o for o in ops if o.k == 'unlink']
        for o in un:
            ctx.ob('recovered.removed', 'catalog_read', o.name == T and ex.get(F) is True, 'a catalog that may be the only one is removed', at=o.e.i)
        for o in rn:
            ctx.ob('recovered.renamed', 'catalog_read', (o.name, o.to) == (T, F) and ex.get(F) is False and ex.get(T) is True, 'the temporary catalog replaces one that is there', at=o.e.i)
        if imp:
            k += 1
            ctx.ob('recovered.present', 'catalog_read', ex.get(F) is True or ex.get(F) is False and bool(rn) and rn[0].n < imp[0].n, 'a missing catalog is not restored', at=imp[0].e.i)
            ctx.ob('recovered.cleaned', 'catalog_read', not (ex.get(F) is True and not un and ex.get(T) is not False), 'a leftover temporary catalog stays', at=imp[0].e.i)
        if p.end() == 'ret':
            evs = trace(p)
            pr = [e for e in evs if e.k == 'call' and e.f == 'json_parse']
            re = [e for e in evs if e.k == 'call' and e.f == 'catalog_restore']
            ok = len(imp) == 1 and len(pr) == 1 and len(re) == 1 and imp[0].n < pr[0].n < re[0].n
            ctx.ob('recovered.restored', 'catalog_read', ok, 'the catalog is not read, parsed and restored once', at=at)
            if ok:
                text = pr[0].a[1]
                good = text_of(evs, pr[0].n, text, 'file_import')
                ctx.ob('recovered.text', 'catalog_read', good, 'what is parsed is not the file', at=pr[0].i)
                pos = [e for e in evs if e.k == 'store' and e.a == re[0].a[1] and e.n < re[0].n]
                src = ('load', ('field', ('load', ('field', pr[0].a[0], 'Json.buf')), 'Buf.start'))
                ctx.ob('recovered.from', 'catalog_read', bool(pos) and pos[-1].v == src, 'what is restored is not what was parsed', at=re[0].i)
    ctx.floor('recovered.present', 2)
    ctx.floor('recovered.renamed', 1)
    ctx.floor('recovered.removed', 1)


def prepared(P):
    """[(key, manager, dump function)] the catalog is written as, in order, per path"""
    dumps = [n for n in P.fn if n.endswith('_mgr_dump')]
    Q = core_load(['catalog_write_prepare'], CODEC + dumps + ['buf_create'], [], True)
    v = Q.view('catalog_write_prepare')
    r = []
    for p in paths(v):
        if p.end() != 'ret':
            continue
        evs = trace(p)
        buf = ('call', 'buf_create', ())
        t = tree(writes_of(evs, buf, {d: d for d in dumps}))
        ok = bool(t) and len(t) == 1 and t[0][0] == 'obj'
        row = []
        if ok:
            x = t[0][1]
            ok = len(x) % 2 == 0
            for k, w in zip(x[::2], x[1::2]):
                key = k[2][1] if k[0] == 'string' and k[2] and k[2][0] == 'str' else None
                row.append((key, w))
        rt = [i for i in p.insts if i.op == 'ret'][-1]
        ok = ok and v.norm(v.term(rt.args[0])) == buf
        r.append((ok, row))
    return v, r


def sections(ctx, P):
    """every section that is saved is restored by its own manager from what that manager wrote, in the order of their dependencies, each element in a transaction of its own; the position that was saved is restored"""
    v, rows = prepared(P)
    ctx.ob('sections.object', 'catalog_write_prepare', bool(rows) and all(o for o, _ in rows), 'the catalog is not one object')
    want = {}
    for ok, row in rows:
        for key, w in row:
            if w[0] == 'nested':
                want.setdefault(key, set()).add(('mgr', leaf_field(w[2][0]), w[1]))
            else:
                want.setdefault(key, set()).add((w[0], w[2], None))
    n = len(rows)
    cr = creators(P)
    rd = readers(P)
    Q = core_load(['catalog_restore'], CODEC + cr + rd + ['tr_init', 'tr_free', 'tr_begin', 'tr_commit', 'tr_abort', 'opt_int_set', 'state_lsn_follow', 'udf_mgr_find', 'opt_follow'] + [n for n in P.fn if n.endswith('_config_free')], [], True)
    v = Q.view('catalog_restore')
    seen = set()
    # an element that fails is undone, and the start fails with it
    for c in v.calls(*cr):
        for end, es in (('fails', v.unwinds()), ('goes on', v.exits())):
            u = v.can_reach(c, es, avoid=v.calls('tr_abort', 'tr_commit'))
            ctx.ob('sections.undone', c.callee, u is None, 'an element that could not be created is left in its transaction, restore %s' % end, at=c)
    for c in v.calls('tr_abort'):
        u = v.can_reach(c, v.exits(), avoid=[])
        ctx.ob('sections.fails', 'catalog_restore', u is None, 'the start goes on without an element', at=c)
    for p in paths(v, edge=lambda b, s, l: l != ('exc',)):
        evs = trace(p)
        calls = [e for e in evs if e.k == 'call']
        at = p.insts[-1]
        dec = [e for e in calls if e.f == 'decode_obj']
        if not dec:
            continue
        tab, bad, ended = table(P, evs, dec[0])
        ctx.ob('sections.table', 'catalog_restore', len(dec) == 1 and not bad and dec[0].a[2] == ('arg', 1, v.params[1]), 'the catalog is not read as one object', at=dec[0].i)
        ctx.ob('sections.keys', 'catalog_restore', set(tab) == set(want), 'saved and restored sections differ: %s' % ', '.join(sorted(str(x) for x in set(tab) ^ set(want))), at=dec[0].i)
        slotof = {val: key for key, (kind, val) in tab.items()}
        # elements: a reader at a position, then its creator
        order = []
        openk = {}
        for i, e in enumerate(calls):
            if e.f == 'json_read_array' and e.a[0] in slotof:
                key = slotof[e.a[0]]
                ctx.ob('sections.once', key, key not in order, 'a section is read twice', at=e.i)
                order.append(key)
            elif e.f in rd:
                key = slotof.get(e.a[0])
                ctx.ob('sections.entered', 'catalog_restore', key is not None and bool(order) and order[-1] == key, 'an element is read from another section', at=e.i)
                if key is None:
                    continue
                # asked for the end right before
                en = [x for x in calls[:i] if x.f == 'json_read_array_end']
                ctx.ob('sections.bounded', key, bool(en) and en[-1].a[0] == e.a[0], 'the end of the section is not looked for before an element', at=e.i)
                nxt = [x for x in calls[i + 1:] if x.f in cr or x.f in rd or x.f == 'json_read_array_end']
                if not nxt or nxt[0].f not in cr:
                    ctx.ob('sections.created', key, p.end() != 'ret', 'an element is read but not created', at=e.i)
                    continue
                c = nxt[0]
                w = list(want.get(key, [(None, None, None)]))[0]
                ctx.ob('sections.manager', key, w[0] == 'mgr' and leaf_field(c.a[0]) == w[1], 'the section is restored by another manager', at=c.i)
                ctx.ob('sections.config', key, c.a[2][:2] == ('call', e.f), 'another definition is created', at=c.i)
                ctx.ob('sections.strict', key, const_of(c.a[3]) == 0, 'an element that is there already is passed over', at=c.i)
                dumpw = dumped_with(P, w[2]) if w[2] else None
                ctx.ob('sections.reader', key, dumpw == e.f[:-5], 'the section is read as %s, written as %s' % (e.f[:-5], dumpw), at=e.i)
                seen.add(key)
                # transaction
                tr = c.a[1]
                ctl = [x for x in calls if x.f in ('tr_begin', 'tr_commit', 'tr_abort') and x.a[0] == tr]
                b = [x for x in ctl if x.n < c.n and x.f == 'tr_begin']
                a = [x for x in ctl if x.n > c.n and x.f in ('tr_commit', 'tr_abort')]
                ctx.ob('sections.begun', key, bool(b), 'an element is created outside of a transaction', at=c.i)
                if p.end() == 'ret':
                    ctx.ob('sections.committed', key, bool(a) and a[0].f == 'tr_commit', 'an element that was created is not committed', at=c.i)
            elif e.f == 'json_read_array_end' and e.a[0] in slotof:
                openk[slotof[e.a[0]]] = e
        if p.end() != 'ret':
            continue
        mk = [k for k in want if list(want[k])[0][0] == 'mgr']
        ctx.ob('sections.all', 'catalog_restore', set(order) >= set(mk), 'a section is not restored', at=at)
        pos = {list(want[k])[0][1].split('.')[-1]: order.index(k) for k in mk if k in order}
        for a, b in DEPENDS:
            ctx.ob('sections.order', b, not (a in pos and b in pos) or pos[a] < pos[b], '%s is restored before %s' % (b, a), at=at)
        for key in mk:
            # left only at its end
            en = [x for x in p.facts if strip_cast(x[2])[:2] == ('call', 'json_read_array_end')]
            if key in openk:
                e = openk[key]
                f = [x for x, at2 in zip(p.facts, p.at) if strip_cast(x[2]) == ('call', 'json_read_array_end', e.i.id) and at2 >= e.n]
                ctx.ob('sections.finished', key, bool(f) and f[-1][1] == 'ne' and const_of(f[-1][3]) == 0, 'a section is left before its end', at=e.i)
            else:
                ctx.ob('sections.finished', key, False, 'a section is left before its end', at=at)
        for fld in ('State.catalog', 'State.catalog_pending'):
            s = [e for e in calls if e.f == 'opt_int_set' and leaf_field(e.a[0]) == fld]
            ok = len(s) == 1 and s[0].a[1][0] == 'load' and slotof.get(s[0].a[1][1]) in [k for k in want if list(want[k])[0][0] == 'integer']
            ctx.ob('sections.lsn', fld, ok, 'the saved position is not restored', at=at)
        s = [e for e in calls if e.f in ('state_lsn_follow', 'opt_follow') and any(a[0] == 'load' and a[1] in slotof for a in e.a)]
        ctx.ob('sections.follow', 'catalog_restore', len(s) == 1, 'new positions do not start after the saved one', at=at)
    ctx.ob('sections.seen', 'catalog_restore', seen == {k for k in want if list(want[k])[0][0] == 'mgr'}, 'sections without elements')
    ctx.floor('sections.manager', 4)
    ctx.floor('sections.order', 4)


_dw = {}


def dump_views(P):
    if id(P) not in _dw:
        ns = [n for n in P.fn if n.endswith('_mgr_dump')]
        _dw[id(P)] = core_load(ns, CODEC + [d + '_write' for d in d02.defs(P)], [], True)
    return _dw[id(P)]


def dumped_with(P, d):
    wr = [x + '_write' for x in d02.defs(P)]
    c = dump_views(P).view(d).calls(*wr)
    return c[0].callee[:-6] if len(c) == 1 else None


def dumped(ctx, P):
    """the dump of a manager contains every element of its list in full, except for the built-in ones, which the start creates itself"""
    _, rows = prepared(P)
    mg = {(leaf_field(w[2][0]), w[1]) for ok, row in rows for k, w in row if w[0] == 'nested'}
    skips = set()
    for fld, d in sorted(mg):
        v = dump_views(P).view(d)
        wr = v.calls(*[x + '_write' for x in d02.defs(P)])
        ctx.ob('dumped.write', d, len(wr) == 1, 'elements are not written in one place')
        for c in wr:
            t = v.norm(v.term(c.args[0]))
            ctx.ob('dumped.element', d, t[0] == 'load' and t[1][0] == 'field' and t[1][2].endswith('.config') and 'phi' in str(t) and const_of(v.term(c.args[2])) == 0, 'what is written is not the full definition of the element', at=c)
            # conditions between two elements
            hd = list_loop_head(v, c)
            ctx.ob('dumped.list', d, 'RelationMgr.list' in hd, 'the loop is not over the list of the manager', at=c)
            ok = True
            for f in v.conds(c):
                if any(leaf_field(x) in ('List.next', 'RelationMgr.list') for x in (f[2], f[3])) or f[2][0] == 'phi':
                    continue
                lf = leaf_field(f[2])
                if lf and lf.endswith('.system') and f[1] == 'eq' and const_of(f[3]) == 0 and d02.relpath(f[2][1])[:0] == d02.relpath(f[2][1])[:0]:
                    skips.add(fld)
                    continue
                ok = False
                ctx.ob('dumped.every', d, False, 'an element is written only under a condition', at=c)
            # an iteration without a write
            edge = cut_when(v, lambda fs: any((leaf_field(f[2]) or '').endswith('.system') and f[1] == 'ne' for f in fs))
            heads = [v.blocks[b][-1] for b in range(len(v.blocks)) if v.blocks[b] and in_loop(v, v.blocks[b][-1]) and any(not in_loop(v, v.blocks[s][0]) for s, l in v.succ[b])]
            for h in heads:
                body = [s for s, l in v.succ[h.b] if in_loop(v, v.blocks[s][0])]
                for s in body:
                    m = v.can_reach(v.blocks[s][0], [h], avoid=[c], edge=edge) if v.blocks[s][0] is not c else None
                    ctx.ob('dumped.all', d, m is None, 'an element is passed over', at=c)
        for p in paths(v):
            if p.end() == 'ret':
                t = tree(writes_of(trace(p), ('arg', 1, v.params[1]), {x + '_write': x for x in d02.defs(P)}))
                ctx.ob('dumped.array', d, bool(t) and len(t) == 1 and t[0][0] == 'array', 'the elements are not written as one array')
    # what is left out is created by the start
    cr = creators(P)
    Q = core_load(['catalog_open'], cr + ['tr_init', 'tr_free', 'tr_begin', 'tr_commit', 'tr_abort', 'catalog_write', 'catalog_read', 'str_copy', 'str_free'], [], True)
    v = Q.view('catalog_open')
    for p in paths(v):
        if p.end() != 'ret':
            continue
        evs = trace(p)
        cs = [e for e in evs if e.k == 'call' and e.f in cr]
        end = [e for e in evs if e.k == 'call' and e.f in ('catalog_write', 'catalog_read')]
        ctx.ob('dumped.opened', 'catalog_open', len(end) == 1, 'the catalog is neither read nor written at start', at=p.insts[-1])
        for fld in sorted(skips):
            c = [e for e in cs if leaf_field(e.a[0]) == fld]
            ok = len(c) == 1 and any(e.k == 'store' and e.n < c[0].n and e.f.endswith('.system') and e.a[1] == c[0].a[2] and const_of(e.v) == 1 for e in evs) and bool(end) and c[0].n < end[0].n
            ctx.ob('dumped.builtin', fld, ok, 'what the dump leaves out is not created at start', at=p.insts[-1])
            cm = [e for e in evs if e.k == 'call' and e.f == 'tr_commit' and c and e.n > c[0].n]
            ctx.ob('dumped.builtin', fld, bool(cm), 'the built-in objects are not committed', at=p.insts[-1])
        boot = [f for f in p.facts if strip_cast(f[2])[:1] == ('arg',) and strip_cast(f[2])[1] == 1 and const_of(f[3]) == 0]
        if boot and end:
            ctx.ob('dumped.mode', 'catalog_open', (boot[-1][1] == 'ne') == (end[0].f == 'catalog_write'), 'an existing catalog is overwritten at start', at=end[0].i)
    ctx.floor('dumped.all', 4)
    ctx.floor('dumped.builtin', 4)
    ctx.floor('dumped.mode', 2)


RULES = [replaced, recovered, sections, dumped]
