"""T01: a transaction is applied in order or undone in reverse, completely."""
from ..q import *

ENTRIES = ['tr_begin', 'tr_commit', 'tr_abort', 'tr_commit_list', 'tr_abort_list', 'tr_reset', 'tr_list_reset', 'tr_list_add', 'tr_cache_push', 'tr_cache_pop', 'tr_create',
           'log_row', 'log_relation', 'log_truncate', 'log_reset', 'log_persist', 'log_persist_relation', 'log_last', 'track_sync', 'catalog_prepare', 'catalog_restore_object',
           'log_init', 'tr_init', 'tr_free', 'write_log_reset']
KEEP = ['tr_begin', 'tr_commit', 'tr_abort', 'tr_cache_push', 'tr_cache_pop', 'tr_allocate', 'tr_init', 'tr_commit_list', 'tr_abort_list', 'write_log_add', 'write_log_add_op', 'catalog_restore_relation',
        'storage_mgr_create', 'database_mgr_create', 'iov_reset', 'write_log_reset']
UNKEEP, PLAIN = ['list_pop'], True

SELF = lambda f: ('arg', 0, f)


def handler_calls(v, p, field):
    """(position, operation, log argument) of the handler calls of a path"""
    r = []
    for e in trace(p):
        if e.k == 'call' and e.i.callee is None and isinstance(e.i.d['f'], list):
            t = v.norm(subst(v.term(e.i.d['f']), p.envs[e.n]))
            if t[0] == 'load' and t[1][0] == 'field' and t[1][2] == field:
                r.append((e.n, e.a[1], e.a[0], t))
    return r


def nfacts(v, p):
    return [(f[0], f[1], v.norm(f[2]), v.norm(f[3])) for f in p.facts]


def says(fs, e):
    """some fact states E <= 0 for a linear form E at least as strong"""
    for f in fs:
        x = le0(f)
        if x is None:
            if f[1] == 'eq':
                x = lin(f[2], -1, lin(f[3]))
                xs = [x, lin(f[3], -1, lin(f[2]))]
            else:
                continue
        else:
            xs = [x]
        for x in xs:
            d = ladd((1, e), (-1, x))
            if set(d) <= {None} and d.get(None, 0) <= 0:
                return True
    return False


def entry_size(P):
    return P.structs['LogOp']['size'] if 'LogOp' in P.structs else 32


def order(ctx, P):
    """commit calls the commit handler of every operation from the first to the last, abort the abort handler of every one from the last to the first; each exactly once, with its own record"""
    for name, field, back in (('tr_commit', 'LogIf.commit', False), ('tr_abort', 'LogIf.abort', True)):
        v = P.view(name)
        me = ('arg', 0, v.params[0])
        log = ('field', me, 'Tr.log')
        count = ('load', ('field', log, 'Log.count'))
        start = ('load', ('field', ('field', log, 'Log.op'), 'Buf.start'))
        size = None
        done = set()
        for p in paths(v, visits=4):
            if p.end() != 'ret':
                continue
            hs = handler_calls(v, p, field)
            fs = nfacts(v, p)
            done.add(len(hs))
            for k, (n, op, lg, t) in enumerate(hs):
                e = ladd((1, plin(op)), (-1, {start: 1}))
                if size is None:
                    # the distance between operations
                    f = [op[3]] if op[0] == 'index' else []
                    size = f[0] if f else 32
                want = {count: size, None: -size * (k + 1)} if back else {None: size * k}
                want = {a: b for a, b in want.items() if b}
                ctx.ob('order.nth', name, e == want, 'the operations are not %s in %s order' % ('undone' if back else 'finished', 'reverse' if back else 'their'), at=p.insts[n])
                ctx.ob('order.log', name, lg == log, 'the handler gets another log', at=p.insts[n])
                ctx.ob('order.handler', name, t[1][1] == ('load', ('field', op, 'LogOp.iface')), 'the handler of another operation is called', at=p.insts[n])
            # it ends when as many handlers ran as there are operations
            ctx.ob('order.all', name, says(fs, {count: 1, None: -len(hs)}), 'ends before every operation was %s' % ('undone' if back else 'finished'), at=p.insts[-1])
            if hs:
                ctx.ob('order.bound', name, says(fs, {count: -1, None: len(hs)}), 'runs past the recorded operations', at=p.insts[hs[-1][0]])
        ctx.ob('order.any', name, {0, 1, 2} <= done, 'the operations are not walked one by one')
        # only handlers of its own kind
        other = 'LogIf.abort' if not back else 'LogIf.commit'
        for p in paths(v, visits=2):
            ctx.ob('order.kind', name, not handler_calls(v, p, other), 'the other handler is called', at=p.insts[-1])
    ctx.floor('order.nth', 6)


def ending(ctx, P):
    """a transaction is started only when none is active, ended only when one is; ending empties its log and marks it as finished after the last handler"""
    for name, want in (('tr_begin', 0), ('tr_commit', 1), ('tr_abort', 1)):
        v = P.view(name)
        for p in paths(v, visits=3):
            act = fact_says(p, lambda t: t[0] == 'load' and leaf_field(t) == 'Tr.active') & {0, 1}
            tr = trace(p)
            hs = handler_calls(v, p, 'LogIf.commit') + handler_calls(v, p, 'LogIf.abort')
            if p.end() == 'unwind':
                raised = sel(tr, 'call', 'report_error')
                if raised and not hs:
                    ctx.ob('ending.error', name, act == {1 - want} and not [e for e in tr if e.k == 'store'], 'an error changes or ends an active transaction', at=raised[0].i)
                continue
            if p.end() != 'ret':
                continue
            ctx.ob('ending.active', name, act == {want}, 'a transaction is %s' % ('ended that is not active' if want else 'begun twice'), at=p.insts[-1])
            fin = {e.f: e for e in tr if e.k == 'store' and e.f}
            a = fin.get('Tr.active')
            ctx.ob('ending.mark', name, a is not None and const_of(a.v) == 1 - want, 'the transaction is not marked %s' % ('inactive' if want else 'active'), at=p.insts[-1])
            ab = fin.get('Tr.aborted')
            ctx.ob('ending.aborted', name, ab is not None and const_of(ab.v) == (1 if name == 'tr_abort' else 0), 'the transaction has the wrong outcome', at=p.insts[-1])
            if not want:
                continue
            emptied(ctx, v, p, 'ending.emptied', name, ('field', ('arg', 0, v.params[0]), 'Tr.log'), after=max([n for n, *_ in hs] or [-1]))
    for name in ('tr_reset', 'log_reset'):
        v = P.view(name)
        for p in paths(v):
            if p.end() == 'ret':
                l = ('arg', 0, v.params[0])
                emptied(ctx, v, p, 'ending.emptied', name, ('field', l, 'Tr.log') if name == 'tr_reset' else l)
                if name == 'tr_reset':
                    for f in ('Tr.active', 'Tr.aborted', 'Tr.id', 'Tr.limit', 'Tr.arg'):
                        ctx.ob('ending.reset', f, any(e.f == f and wrote(e, const=0) for e in trace(p) if e.k == 'store'), 'a reused transaction keeps %s of the previous one' % f, at=p.insts[-1])
    v = P.view('write_log_reset')
    for p in paths(v):
        tr = trace(p)
        ctx.ob('ending.write', 'write_log_reset', any(e.f in ('buf_reset',) and leaf_field(e.a[0]) == 'WriteLog.meta' for e in tr if e.k == 'call') and
               any(e.f == 'iov_reset' and leaf_field(e.a[0]) == 'WriteLog.iov' for e in tr if e.k == 'call'), 'the records of the previous transaction stay in the write log', at=p.insts[-1])
    ctx.floor('ending.emptied', 4)


def emptied(ctx, v, p, rule, name, log, after=-1):
    tr = [e for e in trace(p) if e.n > after]
    for what, ok in (('count', any(e.k == 'store' and e.a == ('field', log, 'Log.count') and wrote(e, const=0) for e in tr)),
                     ('op', any(e.k == 'call' and e.f == 'buf_reset' and e.a[0] == ('field', log, 'Log.op') for e in tr)),
                     ('data', any(e.k == 'call' and e.f == 'buf_reset' and e.a[0] == ('field', log, 'Log.data') for e in tr)),
                     ('write_log', any(e.k == 'call' and e.f == 'write_log_reset' and e.a[0] == ('field', log, 'Log.write_log') for e in tr))):
        ctx.ob(rule, name + ':' + what, ok, 'the log of the transaction is not emptied', at=p.insts[-1])


def recording(ctx, P):
    """an operation is appended to the log with its handlers, its argument and the place of its data; the data it is given is what is recorded; persisting records the last operation"""
    for name in ('log_row', 'log_relation'):
        v = P.view(name)
        A = lambda n: ('arg', v.params.index(n), n)
        log = ('arg', 0, v.params[0])
        for p in paths(v):
            if p.end() != 'ret':
                continue
            tr = trace(p)
            em = sel(tr, 'call', 'buf_emplace', 'buf_reserve', 'buf_write')
            op = [e for e in em if e.a[0] == ('field', log, 'Log.op')]
            da = [e for e in em if e.a[0] == ('field', log, 'Log.data')]
            ctx.ob('recording.op', name, len(op) == 1, 'an operation is recorded %d times' % len(op), at=p.insts[-1])
            ctx.ob('recording.data', name, len(da) == 1, 'the data of an operation is recorded %d times' % len(da), at=p.insts[-1])
            cn = [e for e in tr if e.k == 'store' and e.f == 'Log.count']
            ctx.ob('recording.count', name, len(cn) == 1 and wrote(cn[0], 1), 'the number of operations is wrong', at=p.insts[-1])
            fin = {e.f: e for e in tr if e.k == 'store' and e.f}
            for f, w in (('LogOp.iface', A('iface')), ('LogOp.iface_arg', A('iface_arg'))) + ((('LogOp.cmd', A('cmd')), ('LogRow.row', A('row')), ('LogRow.row_prev', A('row_prev'))) if name == 'log_row' else (('LogRelation.relation', A('relation')),)):
                ctx.ob('recording.fields', name + ':' + f, f in fin and strip_cast(fin[f].v) == w, 'an operation is recorded with a wrong %s' % f, at=p.insts[-1])
            pos = fin.get('LogOp.pos')
            d = ('field', log, 'Log.data')
            want = {('load', ('field', d, 'Buf.position')): 1, ('load', ('field', d, 'Buf.start')): -1}
            ctx.ob('recording.pos', name, pos is not None and {k: c for k, c in lin(strip_cast(pos.v)).items() if c} == want and bool(da) and pos.n < da[0].n,
                   'the operation does not point at its data', at=p.insts[-1])
    for name, w in (('log_persist', 'write_log_add'), ('log_persist_relation', 'write_log_add_op')):
        v = P.view(name)
        log = ('arg', 0, v.params[0])
        last = {('load', ('field', ('field', log, 'Log.op'), 'Buf.start')): 1, ('load', ('field', log, 'Log.count')): 32, None: -32}
        for p in paths(v):
            if p.end() != 'ret':
                continue
            cs = sel(trace(p), 'call', w)
            ctx.ob('recording.persist', name, len(cs) == 1 and cs[0].a[0] == ('field', log, 'Log.write_log'), 'the operation is not added to what is written once', at=p.insts[-1])
            for c in cs:
                cmd = strip_cast(c.a[1])
                ok = cmd[0] == 'load' and cmd[1][0] == 'field' and cmd[1][2] == 'LogOp.cmd'
                if ok:
                    e = plin(cmd[1][1])
                    ok = e.get(None, 0) == -e.get(('load', ('field', log, 'Log.count')), 0) < 0
                ctx.ob('recording.last', name, ok, 'another operation than the last one is persisted', at=c.i)
                if name == 'log_persist':
                    r = strip_cast(c.a[3])
                    ctx.ob('recording.row', name, r[0] == 'load' and r[1][2] == 'LogRow.row' and strip_cast(c.a[2]) == ('arg', 1, v.params[1]), 'another row or table is persisted', at=c.i)
                else:
                    ctx.ob('recording.row', name, strip_cast(c.a[2]) == ('arg', 1, v.params[1]), 'another operation is persisted', at=c.i)
    ctx.floor('recording.fields', 8)


def lists(ctx, P):
    """finishing prepared transactions up to an id finishes exactly those, in order (undo in reverse), takes each off the list before and gives it back to the cache after"""
    for name, fin, back in (('tr_commit_list', 'tr_commit', False), ('tr_abort_list', 'tr_abort', True)):
        v = P.view(name)
        me, cache, ident = [('arg', k, v.params[k]) for k in range(3)]
        nodes = ('List.next', 'List.prev')
        seen = set()
        for p in paths(v, visits=4):
            if p.end() != 'ret':
                continue
            tr = trace(p)
            un, fc, pu = sel(tr, 'call', 'list_unlink'), sel(tr, 'call', fin), sel(tr, 'call', 'tr_cache_push')
            other = sel(tr, 'call', 'tr_abort' if fin == 'tr_commit' else 'tr_commit')
            ctx.ob('lists.kind', name, not other, 'a transaction is finished the other way', at=p.insts[-1])
            ctx.ob('lists.steps', name, len(un) == len(fc) == len(pu), 'a transaction is finished without being taken off the list or returned', at=p.insts[-1])
            dec = [e for e in tr if e.k == 'store' and e.f == 'TrList.list_count']
            ctx.ob('lists.count', name, len(dec) == len(fc) and all(wrote(e, -1) for e in dec) or bool(dec) and wrote(dec[-1], const=0), 'the number of prepared transactions is wrong', at=p.insts[-1])
            seen.add(len(fc))
            for u, c, q in zip(un, fc, pu):
                ctx.ob('lists.order', name, u.n < q.n and c.n < q.n and q.a[0] == cache, 'a transaction is returned before it is finished', at=c.i)
                t = c.a[0]
                ctx.ob('lists.same', name, q.a[1] == t and u.a[0][0] == 'field' and u.a[0][1] == t, 'another transaction is taken off the list or returned', at=c.i)
            # the transactions looked at, in list order; finished iff id <= bound
            fs = [(f, a) for f, a in zip(nfacts(v, p), p.at)]
            look = {}
            for f, a in fs:
                for x, y, pr in ((f[2], f[3], f[1]), (f[3], f[2], {'ult': 'ugt', 'ule': 'uge', 'ugt': 'ult', 'uge': 'ule'}.get(f[1], f[1]))):
                    x, y = strip_cast(x), strip_cast(y)
                    if x[0] == 'load' and x[1][0] == 'field' and x[1][2] == 'Tr.id' and y == ident:
                        look[x[1][1]] = (pr in ('ule', 'ult', 'eq'), pr in ('ule', 'ugt'), a)
            for t, (low, exact, a) in look.items():
                ctx.ob('lists.bound', name, exact, 'the id is compared with a wrong bound', at=p.insts[min(a, len(p.insts) - 1)])
                ctx.ob('lists.chosen', name, low == any(c.a[0] == t for c in fc), 'a transaction %s' % ('up to the id is left' if low else 'after the id is finished'), at=p.insts[-1])
            # direction
            want, wrong = ('List.prev', 'List.next') if back else ('List.next', 'List.prev')
            ctx.ob('lists.direction', name, not any(x.f == wrong and walks(v, x) for x in trace(p, loads=True) if x.k == 'load'), 'the transactions are finished in the wrong order', at=p.insts[-1])
        ctx.ob('lists.any', name, {0, 1, 2} <= seen, 'the prepared transactions are not walked one by one')
    v = P.view('track_sync')
    for call, f in (('tr_abort_list', 'Consensus.abort'), ('tr_commit_list', 'Consensus.commit')):
        for c in v.calls(call):
            t = v.norm(strip_cast(v.term(c.args[2])))
            ctx.ob('lists.sync', call, t == ('load', ('field', ('arg', 1, v.params[1]), f)), 'transactions are finished by another limit', at=c)
            st = [s for s in stores(v, f) if v.norm(v.term(s.args[0])) == t]
            m = missing(v, c, v.exits(), st)
            ctx.ob('lists.synced', call, m is None and bool(st), 'the finished limit is not remembered', at=m or c)
        ctx.ob('lists.both', call, bool(v.calls(call)), 'prepared transactions are never finished this way')
    ctx.floor('lists.same', 4)


def walks(v, x):
    """a load that the walk over the list goes on with (it reaches a phi that is compared with the list head)"""
    i = x.i
    for b in v.blocks:
        for ph in b:
            if ph.op == 'phi' and any(a == ['v', i.id] for a, _ in ph.d['in']):
                return True
    return False


def once(ctx, P):
    """whoever begins a transaction ends it exactly once on every path: commits it when all went well, aborts it and reports the error when not"""
    users = {c.fn.name for c in P.callers()['tr_begin']}
    for u in users:
        if u not in P.views:
            raise Broken('%s begins a transaction but is not analysed' % u)
        v = P.view(u)
        b, c, a = v.calls('tr_begin'), v.calls('tr_commit'), v.calls('tr_abort')
        for x in b:
            m = missing(v, x, v.exits(), c, exc=False)
            ctx.ob('once.commit', u, m is None, 'the transaction is not committed', at=m or x)
            m = missing(v, x, v.unwinds(), a)
            ctx.ob('once.abort', u, m is None, 'an error leaves without aborting the transaction', at=m or x)
        for x in a:
            ctx.ob('once.reported', u, v.can_reach(x, v.exits()) is None, 'an aborted transaction ends as a success', at=x)
            ctx.ob('once.twice', u, v.can_reach(x, a + c, exc=False) is None, 'a transaction is ended twice', at=x)
        for x in c:
            ctx.ob('once.twice', u, v.can_reach(x, a + c, exc=False) is None, 'a transaction is ended twice', at=x)
        fr = v.calls('tr_free', 'log_free', 'buf_free')
        ctx.ob('once.free', u, not fr or all(missing(v, x, v.exits() + v.unwinds(), fr) is None for x in b), 'the transaction is not released', at=b[0] if b else None)
    ctx.floor('once.commit', 2)


RULES = [order, ending, recording, lists, once]
