"""T03: every schema change can be undone and is undone exactly."""
from ..q import *
from ..core import base_of, fields_in, load as core_load
from . import t04
from .t05 import callers_of

ENTRIES, PLAIN = [], True
KEEP = ['log_relation']
REG = '''database_mgr_rename table_index_add table_index_drop table_index_rename table_mgr_truncate table_mgr_rename table_mgr_set_identity
table_mgr_set_unlogged table_mgr_column_rename table_mgr_column_add table_mgr_column_drop table_mgr_column_set table_tier_create table_tier_drop
table_tier_rename table_tier_storage_add table_tier_storage_drop table_tier_storage_pause table_tier_set udf_mgr_replace udf_mgr_rename
storage_mgr_rename relation_mgr_create relation_mgr_drop'''.split()
FIND = ['tier_mgr_find', 'volume_mgr_find', 'table_mgr_find', 'udf_mgr_find', 'storage_mgr_find', 'columns_find', 'database_mgr_find', 'table_index_find']
NEW = ['column_copy', 'tier_config_copy', 'volume_copy', 'tier_allocate', 'udf_allocate_as']
FREE = ['relation_free', 'relation_drop', 'tier_free', 'volume_free', 'column_free', 'index_config_free', 'tier_config_free', 'udf_free']
# written to and read from the log as a whole
WHOLE = {'constraints_write': 'constraints_read', 'tier_config_write': 'tier_config_read'}
SAVE = {'encode_string': 'json_read_string', 'encode_integer': 'json_read_integer', 'encode_bool': 'json_read_bool', 'encode_real': 'json_read_real'}
READ = {r: w for w, r in list(SAVE.items()) + list(WHOLE.items())}
GET = {'sequence_get': 'sequence_set'}
ACTION = ['volume_rmdir', 'volume_mkdir', 'tier_open', 'tier_drop', 'volume_mgr_mkdir', 'part_mgr_index_remove', 'tier_mgr_truncate', 'part_mgr_truncate']
CHANGE = {'str_free': 'clear', 'str_copy': 'set', 'buf_reset': 'clear', 'buf_write_str': 'set', 'buf_write_buf': 'set', 'sequence_set': 'set', 'constraints_free': 'clear', 'constraints_init': 'clear', 'constraints_read': 'set',
          'list_append': 'link', 'list_unlink': 'unlink', 'list_push': 'link'}
VKEEP = ['log_relation', 'log_last', 'columns_sync'] + FIND + NEW + FREE + ACTION + list(WHOLE) + list(WHOLE.values()) + list(SAVE) + list(SAVE.values()) + list(GET) + list(CHANGE) + ['buf_write']
RECOUNT = ('Columns.count_stored', 'Columns.count_resolved', 'Columns.identity')
# finding a column finds one that is not dropped
AXIOM = {('columns_find', 'Column.dropped'): 0}


class X:
    def __repr__(self):
        return '<%s %s>' % (self.k, {k: v for k, v in self.__dict__.items() if k not in ('k', 'i', 'e')})


def fresh(a):
    b = base_of(a)
    return b[0] == 'alloca' or b[0] == 'call' and b[1] in NEW


def events(v, p):
    r = []
    for e in trace(p):
        x = X()
        x.i, x.n, x.e, x.k = e.i, e.n, e, None
        if e.k == 'call':
            if e.f == 'log_relation':
                x.k, x.log, x.iface, x.arg, x.rel = 'log', e.a[0], e.a[1], strip_cast(e.a[2]), strip_cast(e.a[3])
            elif e.f in SAVE and leaf_field(e.a[0]) == 'Log.data':
                x.k, x.how, x.v = 'save', e.f, strip_cast(e.a[1])
                if x.v[0] == 'call' and x.v[1] in GET:
                    x.v = x.v[2][0]
                elif x.v[0] == 'load':
                    x.v = x.v[1]
            elif e.f in WHOLE and any(leaf_field(a) == 'Log.data' for a in e.a[1:]):
                x.k, x.how, x.v = 'save', e.f, e.a[0]
            elif e.f == 'buf_write' and leaf_field(e.a[0]) == 'Log.data':
                x.k, x.how, x.v, x.size = 'save', 'raw', e.a[1], const_of(e.a[2])
            elif e.f == 'columns_sync':
                x.k, x.a = 'sync', e.a[0]
            elif e.f in FREE:
                x.k, x.a = 'free', strip_cast(e.a[0])
            elif e.f in ACTION:
                x.k, x.f, x.a = 'action', e.f, e.a[0]
            elif e.f in READ and e.f not in CHANGE:
                x.k, x.how = 'read', e.f
                x.to = e.a[1] if len(e.a) > 1 else None
            elif e.f in CHANGE and not fresh(e.a[1] if e.f.startswith('list_a') else e.a[0]) or e.f in ('list_append', 'list_push'):
                x.k, x.how = CHANGE[e.f], e.f
                if e.f == 'constraints_read':
                    y = X()
                    y.i, y.n, y.e, y.k, y.how, y.to = e.i, e.n, e, 'read', e.f, None
                    r.append(y)
                x.a = e.a[0]
                x.link = e.a[1] if len(e.a) > 1 else None
                x.v = e.a[1] if len(e.a) > 1 else None
        elif e.k == 'store' and e.f and not fresh(e.a) and not e.f.startswith(('Exception', 'Defer', 'LogOp', 'List.')):
            x.k, x.how, x.a, x.v = 'set', 'store', e.a, e.v
            if wrote(e, 1) or wrote(e, -1):
                x.k, x.d = 'count', 1 if wrote(e, 1) else -1
        if x.k:
            r.append(x)
    return r


def value(es, recount=True):
    """fields that are given a new value"""
    return [x for x in es if x.k in ('set', 'clear') and leaf_field(x.a) not in RECOUNT]


def rooted(t, A, R, saved):
    """a location of a handler in the terms of the function that registered it"""
    if not isinstance(t, tuple):
        return t
    if t[0] == 'load' and t[1][0] == 'field' and t[1][2] == 'LogOp.iface_arg':
        return A
    if t[0] == 'load' and t[1][0] == 'field' and t[1][2] == 'LogRelation.relation':
        return R[1] if R[0] == 'field' else R
    if t[0] == 'alloca' and t[1] in saved:
        return saved[t[1]]
    return tuple(rooted(x, A, R, saved) if isinstance(x, tuple) else x for x in t)


def structs_of(ts, root):
    """types a root is used as"""
    r = set()

    def go(t):
        if isinstance(t, tuple) and t:
            if t[0] == 'field' and t[1] == root and isinstance(t[2], str):
                r.add(t[2].split('.')[0])
            for x in t:
                go(x)
    for t in ts:
        go(t)
    return r


def terms(v):
    for i in v.insts():
        for a in i.args:
            yield v.norm(v.term(a))


class Change:
    """a function that registers a schema operation, and its handlers"""


def changes(P):
    reg = {}
    for _, n in callers_of(P, 'log_relation'):
        reg.setdefault(n, None)

    def under(n, seen=()):
        if n in REG:
            return True
        cs = [c for _, c in callers_of(P, n)]
        return bool(cs) and all(c not in seen and under(c, seen + (n,)) for c in cs)
    names = [n for n in REG if n in P.fn] + sorted(n for n in reg if not under(n))
    Q = core_load(names, VKEEP, [], True)
    out, hs = [], set()
    for n in names:
        v = Q.view(n)
        c = Change()
        c.name, c.v, c.paths = n, v, []
        c.iface = set()
        for p in paths(v, instances=False):
            es = events(v, p)
            l = [x for x in es if x.k == 'log']
            c.paths.append((p, es, l))
            c.iface |= {x.iface for x in l}
        if not c.iface:
            continue
        out.append(c)
    for c in out:
        c.pairs = set()
        for g in c.iface:
            d = P.globals.get(g[1]) if g[0] == 'global' else None
            if d:
                c.pairs.add((d['init']['f']['commit'][1], d['init']['f']['abort'][1]))
        hs |= {h for pr in c.pairs for h in pr}
    H = core_load(sorted(hs), VKEEP, [], True)
    for c in out:
        c.commit = [(H.view(h), [(p, events(H.view(h), p)) for p in paths(H.view(h)) if p.end() == 'ret']) for h, _ in c.pairs]
        c.abort = [(H.view(h), [(p, events(H.view(h), p)) for p in paths(H.view(h)) if p.end() == 'ret']) for _, h in c.pairs]
    return out


_cache = {}


def all_changes(P):
    if id(P) not in _cache:
        _cache[id(P)] = changes(P)
    return _cache[id(P)]


def registered(ctx, P):
    """a schema change that returns successfully after changing the schema has registered exactly one undo record with one pair of handlers; a path that changes nothing registers none"""
    n = 0
    for c in all_changes(P):
        ctx.ob('registered.pair', c.name, len(c.pairs) == 1 and len(c.iface) == 1, 'a change is registered with different handlers')
        deferred = not any(x.k in ('set', 'clear', 'link', 'unlink', 'count') for _, es, l in c.paths if l for x in es)
        c.deferred = deferred
        for p, es, l in c.paths:
            chg = [x for x in es if x.k in ('set', 'clear', 'link', 'unlink', 'count')]
            if p.end() == 'ret':
                ctx.ob('registered.once', c.name, len(l) == (1 if chg or l else 0) and (bool(l) or not chg), 'a change is registered %d times' % len(l), at=p.insts[-1])
                n += 1
            elif chg and not l:
                # an error left between a change and its registration
                last = p.insts[chg[-1].n + 1] if chg[-1].n + 1 < len(p.insts) else None
                src = [i for i in p.insts[chg[0].n:] if i.op == 'call']
                bad = None
                for i in src:
                    k = p.insts.index(i)
                    if k + 1 < len(p.insts) and p.insts[k + 1].callee == 'vp.throws':
                        bad = raises(P, i) or bad
                ctx.ob('registered.before', c.name, bad is None, 'an error can leave after the schema was changed and before that is registered: %s' % bad, at=chg[0].i)
    ctx.floor('registered.once', 60)


def raises(P, i):
    for t in i.targets() or ['?']:
        if t in t04.RAISE:
            return t
        if t == '?':
            return 'an unknown callback'
        out, tr, s = t04.escapes(P, [t])
        for ch, what, _ in out:
            return ' > '.join(ch)
    return None


def saved(ctx, P):
    """every value a schema change overwrites has been saved in its undo record before, and nothing can fail between registering the change and saving it"""
    n = 0
    for c in all_changes(P):
        for p, es, l in c.paths:
            if not l:
                continue
            sv = [x for x in es if x.k == 'save' and x.n > l[0].n]
            for x in value(es):
                f = leaf_field(x.a)
                if f in ('Relation.db', 'Relation.name', 'PartArg.unlogged'):
                    continue        # copies of the value in the configuration
                if c.v and base_nulled(x):
                    continue
                prev = [s for s in sv if s.n < x.n and covers(s.v, x.a)]
                ok = bool(prev)
                if not ok and x.how == 'store':
                    # the previous value is known
                    k = const_of(strip_cast(x.v))
                    b = base_of(x.a)
                    if b[0] == 'call' and (b[1], f) in AXIOM and k is not None:
                        ok = True
                    elif differs(p, x):
                        ok = True
                ctx.ob('saved.before', c.name, ok, '%s is overwritten without having been saved' % f, at=x.i)
                n += 1
            if not sv:
                continue
            for i in p.insts[l[0].n:sv[-1].n]:
                k = p.insts.index(i)
                if i.op == 'call' and p.insts[k + 1].callee == 'vp.throws':
                    w = raises(P, i)
                    ctx.ob('saved.safe', c.name, w is None, 'an error can leave before the previous value is saved: %s' % w, at=i)
        for p, es, l in c.paths:
            if l and p.end() == 'ret':
                need = reads_of(c)
                ctx.ob('saved.all', c.name, [READ.get(r, 'raw') for r in need] == [x.how for x in es if x.k == 'save'] or not need and not [x for x in es if x.k == 'save'],
                       'what is saved is not what the handlers read', at=p.insts[-1])
    ctx.floor('saved.before', 15)


def base_nulled(x):
    """a reference is moved out of a temporary object"""
    return x.how == 'store' and strip_cast(x.v) == ('null',)


def differs(p, x):
    """the path has found the new value to differ from the current one"""
    for f in p.facts:
        if f[1] == 'ne':
            a, b = p.v.norm(strip_cast(f[2])), p.v.norm(strip_cast(f[3]))
            if {a, b} == {('load', x.a), strip_cast(x.v)}:
                return True
    return False


def covers(s, a):
    """saving location s saves location a"""
    while True:
        if s == a:
            return True
        if s[0] == 'load' and s[1] == a:
            return True
        if a[0] != 'field':
            return s[0] == 'load' and s == a
        a = a[1]


def reads_of(c):
    """what the handlers read back, in order (the longest of commit and abort)"""
    best = []
    for v, ps in c.commit + c.abort:
        for p, es in ps:
            r = [x.how for x in es if x.k == 'read']
            if not r:
                r = ['raw'] * len({k for x in es for k in rawreads(x)})
            if len(r) > len(best):
                best = r
    return best


def rawreads(x):
    out = set()

    def go(t):
        if isinstance(t, tuple) and t:
            k = rawindex(t)
            if k is not None:
                out.add(k)
                return
            for y in t:
                go(y)
    for t in list(x.e.a) + [x.e.v] if x.e.k == 'call' else [x.e.v]:
        go(t)
    return out


def rawindex(t):
    """n when t is the n-th word of the saved data"""
    if t[0] != 'load':
        return None
    a, off = t[1], 0
    while a[0] == 'index':
        k = const_of(a[2])
        if k is None:
            return None
        off += k * a[3]
        a = a[1]
    return off // 8 if a[0] == 'field' and a[2] == 'LogRelation.data' else None


def restored(ctx, P):
    """aborting restores every value the change overwrote, to what was saved for it, in the same object, and changes nothing else; a change that was deferred to the commit has nothing to undo"""
    n = 0
    for c in all_changes(P):
        regs = [(p, es, l) for p, es, l in c.paths if l and p.end() == 'ret']
        if not regs:
            continue
        over = {}
        for p, es, l in regs:
            for x in value(es):
                if not base_nulled(x):
                    over.setdefault(leaf_field(x.a), []).append((x, p, es, l[0]))
        p0, es0, l0 = regs[0]
        A, R = l0[0].arg, l0[0].rel
        sv = [x for x in es0 if x.k == 'save']
        same = all([s.v for s in es if s.k == 'save'] == [s.v for s in sv] and l[0].arg == A and l[0].rel == R for _, es, l in regs)
        ctx.ob('restored.same', c.name, same, 'what is saved depends on the path')
        for v, ps in c.abort:
            # the objects have the registered types
            for nm, root, term in (('argument', 'LogOp.iface_arg', A), ('relation', 'LogRelation.relation', R)):
                used = set()
                for i in v.insts():
                    for a in i.args:
                        t = v.norm(v.term(a))
                        used |= roots_used(t, root)
                mine = structs_of([t for t in terms(c.v)] + [x for p in c.paths for e in p[1] for x in ([e.a] if hasattr(e, 'a') and e.a else [])], term if root == 'LogOp.iface_arg' else (term[1] if term[0] == 'field' else term))
                if term[0] == 'field' and root == 'LogRelation.relation':
                    mine.add(term[2].split('.')[0])
                if used and mine:
                    ctx.ob('restored.type', c.name, bool(used & (mine | {'Relation'})), 'the handler takes its %s for something else' % nm)
            for p, es in ps:
                at = p.insts[-1]
                rd = [x for x in es if x.k == 'read']
                smap = {}
                for k, r in enumerate(rd):
                    if r.to is not None and r.to[0] == 'alloca' and k < len(sv):
                        smap[r.to[1]] = sv[k].v
                got = {}
                for x in value(es):
                    got.setdefault(leaf_field(x.a), []).append(x)
                cov = set(got)
                for f in over:
                    ok = f in cov or unchanged(p, rd, over) or any(covers(x.a, y[0].a) or covers(rooted(x.a, A, R, smap), y[0].a) for y in over[f] for xs in got.values() for x in xs)
                    ctx.ob('restored.all', c.name, ok, '%s is not restored' % f, at=at)
                    n += 1
                for f, xs in got.items():
                    mine = over.get(f, []) or [y for ys in over.values() for y in ys if any(covers(rooted(x.a, A, R, smap), y[0].a) for x in xs)]
                    ctx.ob('restored.else', c.name, bool(mine) or all(base_nulled(x) for x in xs), '%s is changed although the operation did not change it' % f, at=xs[0].i)
                    if not mine:
                        continue
                    for x in xs:
                        loc = rooted(x.a, A, R, smap)
                        ok = any(loc == y[0].a or covers(loc, y[0].a) for y in mine)
                        ctx.ob('restored.object', c.name, ok, '%s of another object is restored' % f, at=x.i)
                    last = xs[-1]
                    ctx.ob('restored.value', c.name, restores(c, last, rd, sv, smap, A, R, mine, P), '%s is not restored to what was saved' % f, at=last.i)
        for v, ps in c.commit:
            for p, es in ps:
                bad = value(es)
                if not c.deferred:
                    bad = bad + [x for x in es if x.k in ('link', 'unlink', 'count')]
                bad = [x for x in bad if not (c.deferred and base_nulled(x))]
                ctx.ob('restored.commit', c.name, not bad, 'committing changes the schema again', at=bad[0].i if bad else p.insts[-1])
    ctx.floor('restored.all', 15)
    ctx.floor('restored.value', 15)


def unchanged(p, rd, over):
    """the path has found the current value to be the one that was saved"""
    for f in p.facts:
        if f[1] == 'eq':
            a, b = p.v.norm(strip_cast(f[2])), p.v.norm(strip_cast(f[3]))
            for a, b in ((a, b), (b, a)):
                if a[0] == 'load' and leaf_field(a) in over and b[0] == 'load' and any(r.to is not None and b[1] == r.to for r in rd):
                    return True
    return False


def roots_used(t, root):
    r = set()

    def go(t):
        if isinstance(t, tuple) and t:
            if t[0] == 'field' and isinstance(t[2], str) and t[1][0] == 'load' and t[1][1][0] == 'field' and t[1][1][2] == root:
                r.add(t[2].split('.')[0])
            for x in t:
                go(x)
    go(t)
    return r


def restores(c, x, rd, sv, smap, A, R, mine, P):
    """the value written by x is the one saved for this location"""
    if x.k == 'clear':
        return False
    if x.how == 'constraints_read':
        k = [r.n for r in rd].index(x.n)
        return k < len(sv) and sv[k].how == READ[x.how] and sv[k].v == rooted(x.a, A, R, smap)
    v = strip_cast(x.v)
    if v[0] == 'cast':
        v = strip_cast(v)
    loc = rooted(x.a, A, R, smap)
    f = leaf_field(x.a)
    # copies and inverses
    if f in ('Relation.db', 'Relation.name'):
        return any(leaf_field(y[0].v) == leaf_field(v) for y in mine)
    a = v[1] if v[0] == 'load' else v
    if a[0] == 'alloca':
        k = [i for i, r in enumerate(rd) if r.to is not None and r.to[:2] == a[:2]]
        if len(k) != 1 or k[0] >= len(sv) or rd[k[0]].how != SAVE.get(sv[k[0]].how):
            return False
        s = sv[k[0]].v
        return s == loc or f == 'PartArg.unlogged' and leaf_field(s) == 'TableConfig.unlogged'
    if v[0] == 'load' and rawindex(v) is not None:
        k = rawindex(v)
        return k < len(sv) and sv[k].how == 'raw' and sv[k].v == loc and sv[k].size == 8
    if v[0] == 'load' and base_of(v[1])[0] == 'call' and base_of(v[1])[1] in READ:
        k = [i for i, r in enumerate(rd) if r.how == base_of(v[1])[1]]
        if len(k) != 1 or k[0] >= len(sv) or sv[k[0]].how != READ[base_of(v[1])[1]]:
            return False
        return leaf_field(v) == f and covers(sv[k[0]].v, loc)
    # the opposite of a value that is known to have been changed
    for y, p, es, l in mine:
        b = base_of(y.a)
        k = const_of(strip_cast(y.v))
        if k is not None and b[0] == 'call' and (b[1], f) in AXIOM:
            if const_of(v) != AXIOM[(b[1], f)]:
                return False
        elif differs(p, y):
            if not (v[0] in ('bin', 'cmp', 'op') and flips(v, x.a)):
                return False
        else:
            return False
    return bool(mine)


def flips(v, a):
    """v is the negation of what is stored at a"""
    if v[0] == 'bin' and v[1] == 'xor' and const_of(v[3]) in (1, -1):
        return strip_cast(v[2]) == ('load', a)
    return v[0] == 'cmp' and v[1] == 'eq' and strip_cast(v[2]) == ('load', a) and const_of(v[3]) == 0


INV = {'link': 'unlink', 'unlink': 'link'}


def relinked(ctx, P):
    """what a change adds to a list is taken off it and released by the abort, what it takes off is put back, and counts follow; what a deferred change removes at commit is exactly the registered object"""
    n = 0
    for c in all_changes(P):
        regs = [(p, es, l) for p, es, l in c.paths if l and p.end() == 'ret']
        if not regs:
            continue
        p0, es0, l0 = regs[0]
        A, R = l0[0].arg, l0[0].rel
        sv = [x for x in es0 if x.k == 'save']
        lk = {(x.k, leaf_field(x.link if x.k == 'link' else x.a)) for _, es, l in regs for x in es if x.k in INV}
        must = [{(x.k, leaf_field(x.link if x.k == 'link' else x.a)) for x in es if x.k in INV} for _, es, l in regs]
        ctx.ob('relinked.same', c.name, all(m == lk for m in must), 'an object is linked on some paths only')
        cn = [{(leaf_field(x.a), x.d) for x in es if x.k == 'count' and leaf_field(x.a) not in RECOUNT} for _, es, l in regs]
        ctx.ob('relinked.count', c.name, all(m == cn[0] for m in cn), 'a count is changed on some paths only')
        where = {leaf_field(x.a): x.a for x in es0 if x.k == 'count'}
        lists = {leaf_field(x.link): x.a for x in es0 if x.k == 'link'}
        added = any(k == 'link' for k, _ in lk)
        removed = any(k == 'unlink' for k, _ in lk)
        for v, ps in c.abort:
            for p, es in ps:
                at = p.insts[-1]
                rd = [x for x in es if x.k == 'read']
                smap = {r.to[1]: sv[k].v for k, r in enumerate(rd) if r.to is not None and r.to[0] == 'alloca' and k < len(sv)}
                back = [(x.k, leaf_field(x.link if x.k == 'link' else x.a)) for x in es if x.k in INV]
                ctx.ob('relinked.undo', c.name, sorted(back) == sorted((INV[k], f) for k, f in lk), 'the abort does not link back what was unlinked, or the other way round', at=at)
                bc = {(leaf_field(x.a), x.d) for x in es if x.k == 'count' and leaf_field(x.a) not in RECOUNT and leaf_field(x.a) != 'Storage.refs'}
                ctx.ob('relinked.back', c.name, bc == {(f, -d) for f, d in cn[0] if f != 'Storage.refs'}, 'a count is not taken back', at=at)
                if any(f == 'Storage.refs' for f, d in cn[0]):
                    ctx.ob('relinked.ref', c.name, [x.d for x in es if x.k == 'count' and leaf_field(x.a) == 'Storage.refs'] == [-1], 'a reference is not given back', at=at)
                for x in es:
                    if x.k == 'count' and leaf_field(x.a) in where and leaf_field(x.a) != 'Storage.refs':
                        ctx.ob('relinked.owner', c.name, rooted(x.a, A, R, smap) == where[leaf_field(x.a)], 'the abort changes the list of another object', at=x.i)
                fr = [x for x in es if x.k == 'free']
                un = [x for x in es if x.k == 'unlink']
                if added:
                    for u in un:
                        o = base_obj(u.a)
                        ctx.ob('relinked.free', c.name, any(y.n > u.n and same(y.a, o) for y in fr), 'an object that is removed again is leaked', at=u.i)
                    # the object is not used after it was released
                else:
                    ctx.ob('relinked.keep', c.name, not fr or not removed, 'an object that is put back is released', at=at)
                n += 1
        for v, ps in c.commit:
            for p, es in ps:
                at = p.insts[-1]
                fr = [x for x in es if x.k == 'free']
                if c.deferred:
                    act = [x for x in es if x.k in INV or x.k == 'free' or x.k == 'action']
                    ctx.ob('relinked.deferred', c.name, bool(act), 'a deferred change is never made', at=at)
                    un = [x for x in es if x.k == 'unlink']
                    for u in un:
                        ctx.ob('relinked.drop', c.name, any(y.n > u.n and same(y.a, base_obj(u.a)) for y in fr), 'a dropped object is leaked', at=u.i)
                        cnt = [x for x in es if x.k == 'count' and x.d == -1]
                        ctx.ob('relinked.drop', c.name, bool(cnt), 'a dropped object is still counted', at=u.i)
                elif removed and not added:
                    ctx.ob('relinked.drop', c.name, len(fr) == 1, 'a dropped object is leaked', at=at)
                else:
                    raw = [x for x in es0 if x.k == 'save' and x.how == 'raw']
                    ctx.ob('relinked.commit', c.name, bool(fr) == bool(raw), 'committing releases an object that is in use' if fr else 'the replaced object is leaked', at=at)
        if c.deferred:
            for v, ps in c.abort:
                for p, es in ps:
                    ctx.ob('relinked.nothing', c.name, not [x for x in es if x.k not in ('read',)], 'a change that was not made is undone', at=p.insts[-1])
    ctx.floor('relinked.undo', 20)
    ctx.floor('relinked.free', 4)


def base_obj(a):
    """the object a link field belongs to"""
    return a[1] if a[0] == 'field' else a


def same(a, o):
    while o[0] == 'field':
        if a == o:
            return True
        o = o[1]
    return a == o or a[0] == 'field' and a[1] == o


def recounted(ctx, P):
    """after the columns of a table or their constraints change, or are restored, the table's view of its identity and generated columns is brought up to date"""
    n = 0
    for c in all_changes(P):
        for v, what, ps in [(c.v, 'change', [(p, es) for p, es, l in c.paths if l])] + [(v, 'abort', ps) for v, ps in c.abort]:
            for p, es in ps:
                if p.end() != 'ret':
                    continue
                chg = [x for x in es if x.k in ('set', 'clear') and ('Column.constraints' in fields_in(x.a) or leaf_field(x.a) in RECOUNT) or x.k in INV and leaf_field(x.link if x.k == 'link' else x.a) == 'Column.link']
                if not chg:
                    continue
                sy = [x for x in es if x.k == 'sync' and x.n > chg[-1].n]
                ctx.ob('recounted.sync', c.name, bool(sy), 'the identity and generated columns are not recounted after the %s' % what, at=chg[-1].i)
                n += 1
    ctx.floor('recounted.sync', 8)


# removing a definition also removes what was built from it
WITH = {'IndexConfig.link': 'part_mgr_index_remove'}
# undone and dropped by freeing an object made of the values that are not kept
SHELL = 'udf_allocate_as'


def released(ctx, P):
    """removing an object, by undoing its creation or by committing its drop, takes it off the same lists and with the same counts, with everything built from it; of a replaced value the commit releases the saved one and the abort the current one"""
    undo, drops = [], []
    for c in all_changes(P):
        for what, hs in (('abort', c.abort), ('commit', c.commit)):
            for v, ps in hs:
                for p, es in ps:
                    un = [x for x in es if x.k == 'unlink']
                    fs = {leaf_field(x.a) for x in un} | {(leaf_field(x.a), x.d) for x in es if x.k == 'count'}
                    if un:
                        (undo if what == 'abort' else drops).append((c, p, fs, un))
                    for x in un:
                        w = WITH.get(leaf_field(x.a))
                        if w:
                            ctx.ob('released.with', c.name, any(y.k == 'action' and y.f == w and y.n < x.n and base_obj(x.a) in [base_obj(z) for z in y.e.a] for y in es), 'a definition is removed by the %s without %s' % (what, w), at=x.i)
                    for e in trace(p):
                        if e.k != 'call' or e.f != SHELL:
                            continue
                        a = [strip_cast(z) for z in e.a[:2]]
                        if what == 'commit':
                            ok = [rawindex(z) for z in a] == [0, 1]
                        else:
                            ok = [leaf_field(z) for z in a] == ['Udf.config', 'Udf.data'] and not [x for x in es if x.n < e.n and x.k == 'set' and leaf_field(x.a) in ('Udf.config', 'Udf.data')]
                        ctx.ob('released.value', c.name, ok, 'the %s releases the wrong value' % what, at=e.i)
    for c, p, fs, un in drops:
        if any(f == 'Relation.link' for f in fs):
            continue
        ctx.ob('released.same', c.name, any(u[2] == fs for u in undo), 'the drop does not take the object off everything its creation put it on', at=un[0].i)
    ctx.floor('released.with', 2)
    ctx.floor('released.value', 2)
    ctx.floor('released.same', 3)


RULES = [registered, saved, restored, relinked, recounted, released]

