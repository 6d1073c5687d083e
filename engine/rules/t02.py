"""T02: aborting a row operation restores the row and every index."""
from ..q import *
from .partops import *
from . import t04

UNDO = ['log_if_commit', 'log_if_abort', 'log_if_secondary_commit', 'log_if_secondary_abort']
ENTRIES = list(OPS) + ['part_delete_by', 'part_apply'] + UNDO
PLAIN = True

# what may raise between registering an operation and changing the index: only decoding keys of stored rows
TRUST = dict(t04.TRUST)
TRUST.update({'hash_store_get': 'the table always has a free slot (it is grown before it is full), so looking up ends'})


def registered(ctx, P):
    """every index a row operation changes is registered for undo with the row, the handlers of its kind (primary or secondary) and, right after the change, with what the change superseded; nothing that may fail lies in between"""
    D = P.enum('CMD_DELETE')
    kinds = {}
    for name, (kind, _) in OPS.items():
        v, ps = op_paths(P, name)
        tr_log = ('field', ('arg', 1, v.params[1]), 'Tr.log')
        row = ('arg', v.params.index('row'), 'row') if 'row' in v.params else None
        for p, es in ps:
            logs = [x for x in es if x.k == 'log']
            for l in logs:
                k = nth(v, l.idx)
                ctx.ob('registered.log', name, strip_cast(l.log) == tr_log, 'the operation is recorded in another log', at=l.i)
                ctx.ob('registered.index', name, k is not None, 'the operation is recorded for another index', at=l.i)
                hs = handlers_of(P, l.iface)
                ctx.ob('registered.handlers', name, hs is not None, 'the undo handlers are unknown', at=l.i)
                if hs and k is not None:
                    kinds.setdefault((k == 0), set()).add(hs)
                ctx.ob('registered.cmd', name, const_of(l.cmd) == (D['CMD_DELETE'] if kind == 'del' else D['CMD_REPLACE']), 'the operation is recorded as another one', at=l.i)
                want = row
                if want is None:
                    ok = strip_cast(l.row)[0] == 'call' and strip_cast(l.row)[1] == 'iterator_at'
                else:
                    ok = strip_cast(l.row) == want
                ctx.ob('registered.row', name, ok, 'another row is recorded', at=l.i)
            for c in [x for x in es if x.k == 'change']:
                k = nth(v, c.idx)
                ctx.ob('registered.change', name, k is not None and c.own, 'another index is changed', at=c.i)
                mine = [l for l in logs if l.idx == c.idx]
                up = c.what == 'upsert'
                if up:
                    found = truth(v, before(p, len(p.insts)).facts, lambda t: t[0] == 'call' and strip_cast(t)[:3] == c.res[:3])
                    if found or p.end() != 'ret' and not [x for x in es if x.n > c.n]:
                        continue            # nothing was inserted
                ctx.ob('registered.once', name, len(mine) == 1, 'a change of an index is registered %d times' % len(mine), at=c.i)
                if len(mine) != 1:
                    continue
                l = mine[0]
                if not up:
                    ctx.ob('registered.what', name, c.what == ('delete' if kind == 'del' else 'replace'), 'the index is changed in another way', at=c.i)
                if c.row is not None:
                    ctx.ob('registered.same', name, strip_cast(c.row) == strip_cast(l.row), 'the changed row is not the recorded one', at=c.i)
                # nothing that may fail between the two
                a, b = sorted((l.n, c.n))
                risky(ctx, P, v, p, name, a, b, c)
                if up:
                    ctx.ob('registered.prev', name, strip_cast(l.prev) == ('null',), 'an inserted row replaces something', at=l.i)
                    continue
                # what it superseded is recorded before anything else happens
                st = [x for x in es if x.k == 'prev' and x.ref == l.res]
                if l.n > c.n:
                    ok = strip_cast(l.prev) == v.norm(c.res)
                    ctx.ob('registered.prev', name, ok, 'what the change superseded is not recorded', at=l.i)
                    continue
                after_ = [x for x in es if x.n > c.n]
                good = [x for x in st if x.v == c.res and x.n > c.n]
                raised_by_change = p.end() != 'ret' and not any(x.k != 'change' for x in after_) and not good
                if raised_by_change:
                    # the change itself failed
                    nxt_ = p.insts[c.n + 1] if c.n + 1 < len(p.insts) else None
                    ctx.ob('registered.failed', name, nxt_ is not None and nxt_.callee == 'vp.throws', 'an error leaves before what the change superseded is recorded', at=c.i)
                    continue
                ctx.ob('registered.prev', name, bool(good), 'what the change superseded is not recorded', at=c.i)
                if good:
                    risky(ctx, P, v, p, name, c.n, good[0].n, c)
                    ctx.ob('registered.ref', name, not [x for x in es if x.k == 'log' and l.n < x.n < good[0].n], 'the record has moved when what the change superseded is written to it', at=good[0].i)
    for prim in (True, False):
        hs = kinds.get(prim, set())
        ctx.ob('registered.kind', 'primary' if prim else 'secondary', len(hs) == 1, 'row operations use different undo handlers')
    ctx.ob('registered.kind', 'differ', kinds.get(True) != kinds.get(False), 'a secondary index is undone like the primary one')
    ctx.floor('registered.prev', 40)


def risky(ctx, P, v, p, name, a, b, c):
    for n in range(a + 1, b):
        i = p.insts[n]
        nx = p.insts[n + 1] if n + 1 < len(p.insts) else None
        if i.op == 'call' and nx is not None and nx.callee == 'vp.throws' and i is not c.i:
            bad = None
            for t in i.targets() or ['?']:
                out, tr, s = t04.escapes(P, [t])
                out = [o for o in out if not any(x in TRUST for x in o[0])]
                for ch, what, _ in out:
                    bad = ' > '.join(ch)
            ctx.ob('registered.safe', name, bad is None, 'an error can be raised between registering and changing an index: %s' % bad, at=i)


def undoing(ctx, P):
    """undo puts back the superseded row, or removes the inserted row when nothing was superseded, in exactly the index of the operation; finish changes no index"""
    hs = {}
    for name, (kind, _) in OPS.items():
        v, ps = op_paths(P, name)
        for p, es in ps:
            for l in es:
                if l.k == 'log' and handlers_of(P, l.iface) and nth(v, l.idx) is not None:
                    hs[handlers_of(P, l.iface)] = nth(v, l.idx) == 0 or hs.get(handlers_of(P, l.iface), False)
    D = P.enum('CMD_DELETE')['CMD_DELETE']
    for (commit, abort), prim in hs.items():
        for name, undo in ((commit, False), (abort, True)):
            v = P.view(name)
            log, op = [('arg', k, v.params[k]) for k in range(2)]
            idx = ('load', ('field', op, 'LogOp.iface_arg'))
            isrow = lambda f: lambda t: t[0] == 'load' and leaf_field(t) == f and mentions(v, t, 'LogOp.pos') and mentions(v, t, 'Log.data')
            for p in paths(v):
                if p.end() != 'ret':
                    continue
                es = events(v, p)
                ch, fr = [x for x in es if x.k == 'change'], [x for x in es if x.k == 'free']
                if any(not fact_says(p, isrow(f)) for f in ('LogRow.row', 'LogRow.row_prev')):
                    continue        # the same field read twice cannot differ
                prev = 0 not in fact_says(p, isrow('LogRow.row_prev')), fact_says(p, isrow('LogRow.row_prev')) == {0}
                row = 0 not in fact_says(p, isrow('LogRow.row')), fact_says(p, isrow('LogRow.row')) == {0}
                cmds = fact_says(p, lambda t: t[0] == 'load' and leaf_field(t) == 'LogOp.cmd')
                at = p.insts[-1]
                for x in ch:
                    ctx.ob('undoing.index', name, x.idx == idx and x.own, 'another index is changed', at=x.i)
                if not undo:
                    ctx.ob('undoing.commit', name, not ch, 'finishing an operation changes an index', at=at)
                else:
                    ctx.ob('undoing.once', name, len(ch) <= 1, 'an index is changed twice', at=at)
                    if ch:
                        x = ch[0]
                        if x.what == 'replace':
                            ok = x.how == 'IndexIf.replace_by' and isrow('LogRow.row_prev')(strip_cast(x.row)) and prev[0]
                            ctx.ob('undoing.restore', name, ok, 'something else than the superseded row is put back', at=x.i)
                        else:
                            ok = x.how == 'IndexIf.delete_by' and isrow('LogRow.row')(strip_cast(x.row)) and row[0] and prev[1]
                            ctx.ob('undoing.remove', name, ok, 'a row other than the inserted one is removed', at=x.i)
                    else:
                        ctx.ob('undoing.nothing', name, prev[1] and row[1], 'an operation is not undone', at=at)
                for x in fr:
                    h = x.heap
                    ok = h == ('load', ('field', ('load', ('field', idx, 'Index.iface_arg')), 'Part.heap'))
                    ctx.ob('undoing.heap', name, ok, 'a row is released into another heap', at=x.i)
                    ctx.ob('undoing.order', name, not [y for y in ch if y.n > x.n], 'a row is released while an index still has it', at=x.i)
                if not prim:
                    ctx.ob('undoing.secondary', name, not fr, 'a row is released once per index', at=at)
                elif not undo:
                    want = prev[0]
                    ctx.ob('undoing.superseded', name, (len(fr) == 1 and isrow('LogRow.row_prev')(strip_cast(fr[0].row)) and prev[0]) if fr else prev[1],
                           'the superseded row is not released exactly when there is one', at=at)
                else:
                    if fr:
                        ok = len(fr) == 1 and isrow('LogRow.row')(strip_cast(fr[0].row)) and row[0] and D not in cmds
                        ctx.ob('undoing.unseen', name, ok, 'the wrong row is released', at=fr[0].i)
                    else:
                        ctx.ob('undoing.unseen', name, row[1] or cmds == {D}, 'the row that never became visible is not released', at=at)
        ctx.ob('undoing.any', commit, any(True for p in paths(P.view(abort)) for x in events(P.view(abort), p) if x.k == 'change' and x.what == 'replace') and
               any(True for p in paths(P.view(abort)) for x in events(P.view(abort), p) if x.k == 'change' and x.what == 'delete'), 'an operation cannot be undone')
    ctx.floor('undoing.any', 2)


def unused_row(ctx, P):
    """a row that is not inserted because its key exists already is released, and only then; the caller is told which of both happened"""
    v, ps = op_paths(P, 'part_upsert')
    row = ('arg', v.params.index('row'), 'row')
    n = 0
    for p, es in ps:
        if p.end() != 'ret':
            continue
        c = [x for x in es if x.k == 'change' and x.what == 'upsert']
        ctx.ob('unused.upsert', 'part_upsert', len(c) == 1 and nth(v, c[0].idx) == 0 and strip_cast(c[0].row) == row and strip_cast(c[0].it) == ('arg', v.params.index('it'), 'it'), 'the primary index is not looked up', at=p.insts[-1])
        if not c:
            continue
        found = truth(v, p.facts, lambda t: strip_cast(t)[0] == 'call' and strip_cast(t)[2] == c[0].i.id)
        fr = [x for x in es if x.k == 'free']
        rv = strip_cast(subst(v.term(p.insts[-1].args[0]), p.env))
        ctx.ob('unused.free', 'part_upsert', (len(fr) == 1 and strip_cast(fr[0].row) == row and fr[0].heap == ('load', ('field', ('arg', 0, v.params[0]), 'Part.heap'))) if found else not fr,
               'the row is %s' % ('leaked' if found else 'released although it was inserted'), at=p.insts[-1])
        ctx.ob('unused.told', 'part_upsert', const_of(rv) == (1 if found else 0) or rv[0] == 'call' and rv[2] == c[0].i.id, 'the caller is told the wrong outcome', at=p.insts[-1])
        ctx.ob('unused.rest', 'part_upsert', not found or len([x for x in es if x.k in ('change', 'log', 'persist')]) == 1, 'an existing row is changed', at=p.insts[-1])
        n += 1
    ctx.floor('unused.free', 3)


RULES = [registered, undoing, unused_row]
