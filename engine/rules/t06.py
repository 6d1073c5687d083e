"""T06: a row is either in all indexes of its partition or in none."""
from ..q import *
from .partops import *

ENTRIES = list(OPS) + ['part_delete_by', 'part_apply', 'part_open', 'part_mgr_open', 'part_index_add', 'part_index_create', 'part_index_drop', 'part_truncate', 'part_mgr_truncate', 'part_mgr_index_create', 'part_mgr_index_remove']
KEEP = KEEP + ['part_apply', 'heap_open', 'heap_iterator_init', 'heap_iterator_open', 'heap_iterator_has', 'heap_iterator_at', 'heap_iterator_next', 'part_index_create', 'part_index_add', 'part_index_drop',
               'part_mgr_recover', 'part_mapping_add', 'state_lsn_follow', 'track_lsn_set', 'index_tree_allocate', 'index_hash_allocate', 'part_truncate', 'part_delete', 'index_free', 'index_truncate']
PLAIN = True
COVER = ['part_insert', 'part_update', 'part_delete', 'part_upsert', 'part_apply']


def walked(v, p, es, ctx, name):
    """the indexes changed on a completed path are the primary one and all the others of its list"""
    ks = [nth(v, x.idx) for x in es if x.k == 'change']
    at = p.insts[-1]
    ctx.ob('covered.known', name, None not in ks, 'another index is changed', at=at)
    if None in ks:
        return
    ctx.ob('covered.once', name, sorted(ks) == list(range(len(ks))), 'an index is skipped or changed twice', at=at)
    last = primary(v)
    for k in range(len(ks) - 1):
        last = ('load', ('field', last, 'Index.next'))
    end = ('load', ('field', last, 'Index.next'))
    ok = any(f[1] == 'eq' and {v.norm(strip_cast(f[2])), v.norm(strip_cast(f[3]))} == {end, ('null',)} for f in p.facts)
    ctx.ob('covered.all', name, ok, 'ends before every index was changed', at=at)


def covered(ctx, P):
    """every row operation that succeeds has changed the primary index and each further index of the partition exactly once, with the same row"""
    for name in COVER:
        v, ps = op_paths(P, name)
        n = 0
        for p, es in ps:
            if p.end() != 'ret':
                continue
            ch = [x for x in es if x.k == 'change']
            if name == 'part_upsert' and ch and truth(v, p.facts, lambda t: strip_cast(t)[0] == 'call' and strip_cast(t)[2] == ch[0].i.id):
                continue
            n = max(n, len(ch))
            walked(v, p, es, ctx, name)
            rows = {strip_cast(x.row) for x in ch if x.row is not None}
            ctx.ob('covered.row', name, len(rows) <= 1, 'indexes get different rows', at=p.insts[-1])
            if name == 'part_apply':
                d = fact_says(p, lambda t: t[0] == 'arg' and t[2] == 'delete') & {0, 1}
                for x in ch:
                    ctx.ob('covered.kind', name, len(d) == 1 and x.what == ('delete' if d == {1} else 'replace') and x.how in ('IndexIf.replace_by', 'IndexIf.delete_by'), 'an index is changed in another way than the others', at=x.i)
                    ctx.ob('covered.arg', name, strip_cast(x.row) == ('arg', 1, v.params[1]), 'another row is applied', at=x.i)
                rv = subst(v.term(p.insts[-1].args[0]), p.env)
                ctx.ob('covered.prev', name, rv == [x for x in ch if nth(v, x.idx) == 0][0].res, 'what the primary index superseded is not returned', at=p.insts[-1])
            if name == 'part_update':
                # rows are replaced where the index has them
                for x in ch:
                    if nth(v, x.idx) == 0:
                        ctx.ob('covered.place', name, strip_cast(x.it) == ('arg', v.params.index('it'), 'it'), 'another row than the one found is replaced', at=x.i)
                        continue
                    if x.how != 'IndexIf.replace':
                        continue
                    sk = [y for y in es if y.k == 'seek' and y.n < x.n and y.it == x.it]
                    ctx.ob('covered.place', name, bool(sk) and strip_cast(sk[-1].row) == ('arg', v.params.index('row'), 'row'), 'a row is replaced at a place that was not looked up', at=x.i)
        ctx.ob('covered.any', name, n >= 3, 'the indexes are not walked one by one')
    ctx.floor('covered.all', 20)


def unique(ctx, P):
    """an insert that finds its key in any index fails unless it is asked to replace, and only then"""
    for name in ('part_insert', 'part_upsert'):
        v, ps = op_paths(P, name)
        k = 0
        for p, es in ps:
            hit = []
            for x in [x for x in es if x.k == 'change' and x.what == 'replace']:
                vals = set()
                for f in p.facts:
                    if f[2] == x.res and f[3] == ('null',) or f[3] == x.res and f[2] == ('null',):
                        vals.add(f[1])
                hit.append((x, 'ne' in vals, 'eq' in vals))
            rep = fact_says(p, lambda t: t[0] == 'arg' and t[2] == 'replace') & {0, 1} if name == 'part_insert' else {0}
            raised = [x for x in es if x.k == 'raise']
            if p.end() == 'ret':
                for x, yes, no in hit:
                    ok = no or rep == {1}
                    ctx.ob('unique.error', name, ok, 'an existing key is overwritten without an error', at=x.i)
                    k += 1
            elif raised and hit:
                x, yes, no = hit[-1]
                ctx.ob('unique.only', name, yes and rep == {0}, 'a row whose key is new is refused', at=raised[-1].i)
        ctx.ob('unique.any', name, k > 2, 'no key is looked at')
    ctx.floor('unique.error', 8)


def rebuild(ctx, P):
    """opening a partition puts every row of its heap into the indexes, after the heap was read; every index the table defines is created on every partition before"""
    v = P.view('part_open')
    n = 0
    for p in paths(v, visits=4):
        if p.end() != 'ret':
            continue
        tr = [e for e in trace(p) if e.k == 'call']
        op, at, ap, nx, has = [sel(tr, 'call', 'heap_' + x) for x in ('open', 'iterator_at', '', 'iterator_next', 'iterator_has')]
        ap = sel(tr, 'call', 'part_apply')
        io = sel(tr, 'call', 'heap_iterator_open')
        me = ('arg', 0, v.params[0])
        heap = ('load', ('field', me, 'Part.heap'))
        ctx.ob('rebuild.read', 'part_open', len(op) == 1 and op[0].a[0] == heap and len(io) == 1 and op[0].n < io[0].n and io[0].a[1] == heap, 'the rows are walked before the heap was read', at=p.insts[-1])
        ans = [a for i, a in p.answers(lambda i: i.callee == 'heap_iterator_has')]
        ctx.ob('rebuild.all', 'part_open', len(ans) == len(ap) + 1 and all(ans[:-1]) and ans[-1] is False, 'a row of the heap is not put into the indexes', at=p.insts[-1])
        ctx.ob('rebuild.next', 'part_open', len(nx) == len(ap), 'the walk over the heap skips rows', at=p.insts[-1])
        for a, x in zip(at, ap):
            ctx.ob('rebuild.row', 'part_open', x.a[0] == me and strip_cast(x.a[1])[0] == 'call' and strip_cast(x.a[1])[1] == 'heap_iterator_at' and const_of(x.a[2]) == 0, 'another row is put into the indexes', at=x.i)
        n = max(n, len(ap))
    ctx.ob('rebuild.any', 'part_open', n >= 2, 'the rows of the heap are not walked')
    v = P.view('part_mgr_open')
    rec, cr = v.calls('part_mgr_recover'), v.calls('part_index_create')
    at = [i for i in v.allcalls() if not i.callee and isinstance(i.d['f'], list) and leaf_field(v.term(i.d['f'])) == 'PartMgrIf.attach']
    ctx.ob('rebuild.indexes', 'part_mgr_open', bool(cr) and bool(rec) and bool(at), 'the indexes of the partitions are not created')
    for a in at:
        ctx.ob('rebuild.before', 'part_mgr_open', not any(v.can_reach(a, [c]) for c in cr) and all(v.dominated(a, [r]) for r in rec), 'rows are loaded before the indexes exist', at=a)
    for c in cr:
        L = loop_lists(v, c)
        ctx.ob('rebuild.each', 'part_mgr_open', 'PartMgr.list' in L and len(L) >= 2, 'an index is not created on every partition', at=c)
    for name in ('part_mgr_index_create', 'part_mgr_index_remove'):
        v = P.view(name)
        cs = v.calls('part_index_create', 'part_index_drop')
        ctx.ob('rebuild.mgr', name, bool(cs) and all('PartMgr.list' in loop_lists(v, c) for c in cs), 'not every partition gets the change')
        for c in cs:
            ctx.ob('rebuild.mgrarg', name, strip_cast(v.term(c.args[1])) == ('arg', 1, v.params[1]), 'another index is changed', at=c)
    v = P.view('part_truncate')
    for p in paths(v, visits=4):
        if p.end() == 'ret':
            cs = [e for e in trace(p) if e.k == 'call' and (e.f == 'index_truncate' or e.i.callee is None)]
            ks = [nth(v, e.a[0]) for e in cs]
            ctx.ob('rebuild.truncate', 'part_truncate', ks == list(range(len(ks))), 'an index keeps its rows', at=p.insts[-1])
            last = primary(v)
            for k in range(len(ks)):
                last = ('load', ('field', last, 'Index.next'))
            ctx.ob('rebuild.truncall', 'part_truncate', any(f[1] == 'eq' and {v.norm(strip_cast(f[2])), v.norm(strip_cast(f[3]))} == {last, ('null',)} for f in p.facts), 'an index keeps its rows', at=p.insts[-1])
    ctx.floor('rebuild.all', 2)


def loop_lists(v, i):
    from .w01 import all_loop_lists
    return all_loop_lists(v, i)


def chain(ctx, P):
    """adding an index appends it to the partition's list; dropping removes exactly that index and keeps the others; the primary index stays the first"""
    v = P.view('part_index_add')
    me = ('arg', 0, v.params[0])
    new = ('arg', 1, v.params[1])
    for p in paths(v, visits=4):
        if p.end() != 'ret':
            continue
        st = [e for e in trace(p) if e.k == 'store' and e.f in ('Part.indexes', 'Index.next')]
        link = [e for e in st if strip_cast(e.v) == new]
        ctx.ob('chain.add', 'part_index_add', len(link) == 1, 'the index is not linked once', at=p.insts[-1])
        for e in link:
            k = nth(v, e.a[1]) if e.f == 'Index.next' else -1
            val = ('load', e.a)
            ok = any(f[1] == 'eq' and {v.norm(strip_cast(f[2])), v.norm(strip_cast(f[3]))} == {val, ('null',)} for f in p.facts)
            ctx.ob('chain.tail', 'part_index_add', k is not None and ok, 'the index is not added at the end of the list', at=e.i)
        ctx.ob('chain.count', 'part_index_add', any(e.f == 'Part.indexes_count' and wrote(e, 1) for e in trace(p) if e.k == 'store'), 'the number of indexes is wrong', at=p.insts[-1])
        ctx.ob('chain.cut', 'part_index_add', all(e in link or strip_cast(e.v) == ('null',) and e.a[1] == new for e in st), 'the list of indexes is cut', at=p.insts[-1])
    v = P.view('part_index_create')
    ty = P.enum('INDEX_TREE')
    for p in paths(v):
        if p.end() != 'ret':
            continue
        tr = trace(p)
        al, ad = sel(tr, 'call', 'index_tree_allocate', 'index_hash_allocate'), sel(tr, 'call', 'part_index_add')
        ctx.ob('chain.create', 'part_index_create', len(al) == 1 and len(ad) == 1 and strip_cast(ad[0].a[1]) == ('call', al[0].f, tuple(al[0].a)) or
               len(al) == 1 and len(ad) == 1 and strip_cast(ad[0].a[1])[0] == 'call' and strip_cast(ad[0].a[1])[1] == al[0].f, 'the created index is not added', at=p.insts[-1])
        for a in al:
            t = fact_says(p, lambda t: t[0] == 'load' and leaf_field(t) == 'IndexConfig.type')
            ctx.ob('chain.type', 'part_index_create', t == {ty['INDEX_TREE'] if a.f == 'index_tree_allocate' else ty['INDEX_HASH']}, 'an index of another type is created', at=a.i)
            ctx.ob('chain.owner', 'part_index_create', strip_cast(a.a[0]) == ('arg', 1, v.params[1]) and strip_cast(a.a[1]) == ('arg', 0, v.params[0]), 'the index belongs to another partition', at=a.i)
    v = P.view('part_index_drop')
    me = ('arg', 0, v.params[0])
    n = 0
    for p in paths(v, visits=4, instances=True):
        if p.end() != 'ret':
            continue
        tr = trace(p)
        fr = [e for e in tr if e.k == 'call' and (e.f == 'index_free' or e.i.callee is None and isinstance(e.i.d['f'], list) and leaf_field(v.term(e.i.d['f'])) == 'IndexIf.free')]
        st = [e for e in tr if e.k == 'store' and e.f in ('Part.indexes', 'Index.next')]
        ctx.ob('chain.free', 'part_index_drop', len(fr) == 1 and nth(v, fr[0].a[0]) is not None, 'the dropped index is not released once', at=p.insts[-1])
        ctx.ob('chain.count', 'part_index_drop', any(e.f == 'Part.indexes_count' and wrote(e, -1) for e in tr if e.k == 'store'), 'the number of indexes is wrong', at=p.insts[-1])
        if len(fr) != 1:
            continue
        x = fr[0].a[0]
        k = nth(v, x)
        ok = len(st) == 1 and st[0].n < fr[0].n and strip_cast(st[0].v) == ('load', ('field', x, 'Index.next')) and st[0].a == (x[1])
        ctx.ob('chain.unlink', 'part_index_drop', ok, 'the list of indexes loses or keeps another index', at=p.insts[-1])
        # it is the one that is named
        named = [f for f in p.facts if any(t[0] == 'call' and t[1] in ('str_compare_case', 'str_compare') for t in (strip_cast(f[2]), strip_cast(f[3])))]
        cmpc = [e for e in tr if e.k == 'call' and e.f in ('str_compare_case', 'str_compare')]
        ctx.ob('chain.named', 'part_index_drop', bool(cmpc) and len(cmpc) == (k or 0) + 1 and cmpc[-1].a[0] == ('field', ('load', ('field', x, 'Index.config')), 'IndexConfig.name') and
               cmpc[-1].a[1] == ('arg', 1, v.params[1]), 'another index is dropped', at=p.insts[-1])
        n += 1
    ctx.floor('chain.unlink', 3)


RULES = [covered, unique, rebuild, chain]
