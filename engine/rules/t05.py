"""T05: every durable change is logged with what is needed to redo it."""
from ..q import *
from . import partops
from .partops import OPS, op_paths, nth
from .w03 import meta_size

REG = ['log_relation']
ENTRIES = list(OPS) + ['part_delete_by', 'catalog_execute', 'write_begin', 'write_add', 'write_end', 'write_reset', 'iov_add', 'iov_add_buf', 'write_log_reset', 'log_persist', 'log_persist_relation', 'write_log_add', 'write_log_add_op']
KEEP = sorted(set(partops.KEEP + ['log_relation', 'log_persist_relation', 'write_log_add', 'write_log_add_op', 'buf_emplace', 'iov_add', 'iov_add_buf', 'list_append', 'row_size', 'json_sizeof']))
PLAIN = True


def rows(ctx, P):
    """a row operation on a logged table adds its record to the log of the transaction exactly once, after it was registered, with its kind, its row and the id of the table's partitions; on an unlogged table it adds none; secondary indexes add none"""
    for name in OPS:
        v, ps = op_paths(P, name)
        me, tr = [('arg', k, v.params[k]) for k in range(2)]
        log = ('field', tr, 'Tr.log')
        n = 0
        for p, es in ps:
            if p.end() != 'ret':
                continue
            at = p.insts[-1]
            logs = [x for x in es if x.k == 'log']
            per = [x for x in es if x.k == 'persist']
            prim = [x for x in logs if nth(v, x.idx) == 0]
            unl = fact_says(p, lambda t: t[0] == 'load' and leaf_field(t) == 'PartArg.unlogged') & {0, 1}
            if not prim:
                ctx.ob('rows.none', name, not per, 'something is logged although no row was changed', at=at)
                continue
            ctx.ob('rows.decided', name, len(unl) == 1, 'whether the table is logged is not looked at', at=at)
            ctx.ob('rows.once', name, len(per) == (0 if unl == {1} else 1), 'a change is logged %d times' % len(per), at=at)
            for x in per:
                before_ = [y for y in logs if y.n < x.n]
                ctx.ob('rows.last', name, bool(before_) and (before_[-1].cmd, before_[-1].row) == (prim[0].cmd, prim[0].row), 'another operation than the one on the row is logged', at=x.i)
                ctx.ob('rows.log', name, strip_cast(x.log) == log, 'the change is added to another log', at=x.i)
                i = strip_cast(x.id)
                ctx.ob('rows.id', name, i == ('load', ('field', ('load', ('field', me, 'Part.arg')), 'PartArg.id_table')), 'the change is logged for another table', at=x.i)
            n += 1
        ctx.floor('rows.once', 4)
    # only the primary's operation is logged: nobody else adds rows
    for f, name in callers_of(P, 'log_persist'):
        ctx.ob('rows.callers', name, name in OPS or callers_in(P, name, set(OPS)), 'rows are logged outside of the row operations')
    for f, name in callers_of(P, 'write_log_add'):
        ctx.ob('rows.callers', name, name in ('log_persist',) or name in OPS or callers_in(P, name, set(OPS) | {'log_persist'}), 'rows are logged outside of the row operations')


def callers_of(P, name):
    return [(i, i.fn.name) for i in P.callers().get(name, [])]


def callers_in(P, name, ok, seen=()):
    cs = [n for _, n in callers_of(P, name)]
    return bool(cs) and all(n in ok or (n not in seen and callers_in(P, n, ok, seen + (n,))) for n in cs)


def registering(P):
    """functions that register schema operations, below catalog_execute"""
    up, wl = set(), ['log_relation']
    C = P.callers()
    while wl:
        for _, n in callers_of(P, wl.pop()):
            if n not in up:
                up.add(n)
                wl.append(n)
    return up


def told(ctx, P):
    """every function that registers schema operations tells its caller whether it did, and catalog_execute adds the encoded operation to the log exactly when one was registered"""
    reg = registering(P) - {'catalog_execute'}
    n = 0
    always = set()
    void = sorted(x for x in reg if not returns_bool(P, x))
    for _ in range(4):      # functions that register something whenever they return
        for name in void:
            if name not in always and all(any(i.op == 'call' and (i.callee == 'log_relation' or any(t in always for t in i.targets())) for i in p.insts)
                                          for p in paths(P.fn[name], visits=2, limit=30000) if p.end() == 'ret'):
                always.add(name)
    for name in sorted(set(reg) - set(void)) + ['catalog_execute']:
        v = P.fn[name]
        try:
            ps = paths(v, visits=2, limit=30000)
        except Broken:
            ps = []
            ctx.ob('told.paths', name, False, 'too many paths')
        for p in ps:
            if p.end() != 'ret':
                continue
            at = p.insts[-1]
            did = False
            asked = None
            for i in p.insts:
                if i.op != 'call':
                    continue
                if i.callee == 'log_relation':
                    did = True
                elif any(t in reg for t in i.targets()):
                    if not returns_bool(P, i.targets()[0]):
                        did = did or i.targets()[0] in always
                        continue
                    a = truth(v, p.facts, lambda t, i=i: strip_cast(t)[0] == 'call' and strip_cast(t)[2] == i.id)
                    if a is None:
                        asked = i
                    elif a:
                        did = True
            rv = strip_cast(subst(v.term(p.insts[-1].args[0]), p.env)) if p.insts[-1].args else None
            per = [i for i in p.insts if i.op == 'call' and i.callee == 'log_persist_relation']
            k = const_of(rv) if rv else None
            if name != 'catalog_execute':
                if not did and asked is not None:
                    ok = rv is not None and rv[0] == 'call' and rv[2] == asked.id
                    ctx.ob('told.result', name, ok or k == 1, 'does not say whether an operation was registered', at=at)
                else:
                    ctx.ob('told.result', name, k == (1 if did else 0), 'says %s although %s registered' % ('nothing was registered' if k == 0 else 'an operation was registered', 'one was' if did else 'none was'), at=at)
                n += 1
                continue
            ctx.ob('told.logged', name, len(per) == (1 if did or k == 1 else 0), 'a schema change is %s' % ('not logged' if not per else 'logged although nothing changed'), at=at)
            ctx.ob('told.known', name, asked is None or did, 'the outcome of a schema change is not looked at', at=asked or at)
            ctx.ob('told.result', name, k == (1 if did else 0), 'the caller is told the wrong outcome', at=at)
            for i in per:
                x = v.norm(subst(v.term(i.args[0]), p.env)), strip_cast(v.norm(v.term(i.args[1])))
                ctx.ob('told.op', name, x[0] == ('field', ('arg', 1, v.params[1]), 'Tr.log') and x[1] == ('arg', 2, v.params[2]), 'something else than the operation is logged', at=i)
            n += 1
    ctx.floor('told.result', 60)
    ctx.floor('told.logged', 60)


def returns_bool(P, name):
    return P.fn[name].ret == 'i1'


UNKEEP = ['buf_size', 'buf_reset', 'iov_reset', 'uuid_is', 'buf_advance']


def show(e):
    return {repr(k): c for k, c in e.items()}


def accounts(ctx, P):
    """the size, command and operation counts of a record are advanced by exactly what is added to it, a command continues the previous one only for the same kind and table, and every part that is accounted for is part of what is written"""
    A = lambda v, k: ('arg', k, v.params[k])
    F = lambda x, *fs: F(('field', x, fs[0]), *fs[1:]) if fs else x
    L = lambda x, *fs: ('load', F(x, *fs))
    rc = find_struct(P, 'RecordCmd')['size']
    cm = P.enum('CMD_REPLACE')

    def ends(name, keep=()):
        v = P.view(name) if name not in KEEP else P2.view(name)
        return v, [(p, effects(p)) for p in paths(v) if p.end() == 'ret']
    import engine.core as core
    mine = ['iov_add', 'iov_add_buf', 'write_log_add', 'write_log_add_op']
    P2 = core.load(mine, set(KEEP) - {'write_log_add', 'write_log_add_op', 'iov_add_buf'}, UNKEEP, True)
    P3 = core.load(['iov_add'], set(KEEP) - {'iov_add'}, UNKEEP, True)
    # record
    v, ps = ends('write_add')
    s, w = A(v, 0), A(v, 1)
    hdr = lambda f: F(s, 'Write.header', 'Record.' + f)
    meta = {L(w, 'WriteLog.meta', 'Buf.position'): 1, L(w, 'WriteLog.meta', 'Buf.start'): -1}
    for p, e in ps:
        at = p.insts[-1]
        want = dict(meta)
        want[L(w, 'WriteLog.iov', 'Iov.size')] = 1
        want[('load', hdr('size'))] = 1
        ctx.ob('accounts.size', 'write_add', e.get(hdr('size')) == want, 'the record size is not advanced by what is added', at=at)
        c = e.get(hdr('count'), {})
        d = [(k, n) for k, n in c.items() if k != ('load', hdr('count'))]
        ok = c.get(('load', hdr('count'))) == 1 and len(d) == 1 and d[0][1] == 1 and d[0][0] and d[0][0][0] == 'bin' and d[0][0][1] in ('udiv', 'sdiv') and const_of(d[0][0][3]) == rc and lin(d[0][0][2]) == meta
        ctx.ob('accounts.count', 'write_add', ok, 'the number of commands is not advanced by those added', at=at)
        ctx.ob('accounts.ops', 'write_add', e.get(hdr('ops')) == {('load', hdr('ops')): 1, L(w, 'WriteLog.iov', 'Iov.iov_count'): 1}, 'the number of operations is not advanced by those added', at=at)
        ctx.ob('accounts.lists', 'write_add', e.get(F(s, 'Write.list_count')) == {L(s, 'Write.list_count'): 1, None: 1}, 'the log is not counted', at=at)
        tr = trace(p)
        la, ia = sel(tr, 'call', 'list_append'), sel(tr, 'call', 'iov_add_buf')
        ctx.ob('accounts.part', 'write_add', len(la) == 1 and la[0].a == [F(s, 'Write.list'), F(w, 'WriteLog.link')], 'the log is not part of the record', at=at)
        ctx.ob('accounts.meta', 'write_add', len(ia) == 1 and ia[0].a == [F(s, 'Write.iov'), F(w, 'WriteLog.meta')], 'the commands are not part of the record', at=at)
    v, ps = ends('write_begin')
    s = A(v, 0)
    for p, e in ps:
        for f in ('count', 'ops'):
            ctx.ob('accounts.begin', 'write_begin', e.get(F(s, 'Write.header', 'Record.' + f)) == {}, 'a record starts with a wrong count', at=p.insts[-1])
    # vectors
    v = P3.view('iov_add')
    s, q, z = A(v, 0), A(v, 1), A(v, 2)
    for p in paths(v):
        if p.end() != 'ret':
            continue
        e = effects(p)
        at = p.insts[-1]
        pos = L(s, 'Iov.iov', 'Buf.position')
        ctx.ob('accounts.vec', 'iov_add', e.get(F(pos, 'iovec.iov_base')) == {q: 1} and e.get(F(pos, 'iovec.iov_len')) == {z: 1}, 'the data is not what is added to the vector', at=at)
        ctx.ob('accounts.vec', 'iov_add', e.get(F(s, 'Iov.size')) == {L(s, 'Iov.size'): 1, z: 1} and e.get(F(s, 'Iov.iov_count')) == {L(s, 'Iov.iov_count'): 1, None: 1}, 'the size of the vector is wrong', at=at)
        ctx.ob('accounts.vec', 'iov_add', e.get(F(s, 'Iov.iov', 'Buf.position')) == {pos: 1, None: 16}, 'the next data overwrites it', at=at)
        rs = [i for i in p.insts if i.op == 'call' and i.callee == 'buf_reserve']
        ctx.ob('accounts.vec', 'iov_add', len(rs) == 1 and (const_of(v.term(rs[0].args[1])) or 0) >= 16, 'the vector is not given room', at=at)
    v, ps = ends('iov_add_buf')
    s, b = A(v, 0), A(v, 1)
    for p, e in ps:
        ia = sel(trace(p), 'call', 'iov_add')
        ok = len(ia) == 1 and ia[0].a[0] == s and ia[0].a[1] == L(b, 'Buf.start') and lin(ia[0].a[2]) == {L(b, 'Buf.position'): 1, L(b, 'Buf.start'): -1}
        ctx.ob('accounts.vec', 'iov_add_buf', ok, 'the buffer is not added whole', at=p.insts[-1])
    # commands
    for name in ('write_log_add', 'write_log_add_op'):
        v, ps = ends(name)
        s, cmd = A(v, 0), A(v, 1)
        for p, e in ps:
            at = p.insts[-1]
            tr = trace(p)
            em, ia = sel(tr, 'call', 'buf_emplace'), sel(tr, 'call', 'iov_add')
            new = bool(em)
            data = A(v, len(v.params) - 1)
            ctx.ob('command.data', name, len(ia) == 1 and ia[0].a[0] == F(s, 'WriteLog.iov') and ia[0].a[1] == data, 'the change is not part of the log', at=at)
            if new:
                h = ('call', 'buf_emplace', (F(s, 'WriteLog.meta'), ('const', rc)))
                ctx.ob('command.new', name, len(em) == 1 and em[0].a == [F(s, 'WriteLog.meta'), ('const', rc)], 'the command is not part of the log', at=at)
                c = e.get(F(h, 'RecordCmd.cmd'))
                ctx.ob('command.kind', name, c == {cmd: 1}, 'the command has another kind', at=at)
                if name == 'write_log_add':
                    cp = [i for i in p.insts if i.op == 'call' and (i.callee or '').startswith('llvm.memcpy')]
                    ids = [i for i in cp if v.norm(subst(v.term(i.args[0]), p.env)) == F(h, 'RecordCmd.id') and strip_cast(v.term(i.args[1])) == A(v, 2) and const_of(v.term(i.args[2])) == find_struct(P, 'Uuid')['size']]
                    ab = all(e.get(F(h, 'RecordCmd.id', 'Uuid.' + x)) == {L(A(v, 2), 'Uuid.' + x): 1} for x in 'ab')
                    ctx.ob('command.table', name, bool(ids) or ab, 'the command does not say which table', at=at)
            else:
                pos = L(s, 'WriteLog.meta', 'Buf.position')
                h = ('index', pos, ('const', -rc), 1)
                facts = [(f[1], v.norm(strip_cast(f[2])), v.norm(strip_cast(f[3]))) for f in p.facts]
                eq = lambda a, b: any(o == 'eq' and {x, y} == {a, b} for o, x, y in facts)
                ctx.ob('command.same', name, eq(L(h, 'RecordCmd.cmd'), cmd) and name == 'write_log_add', 'a command of another kind is continued', at=at)
                ctx.ob('command.same', name, all(eq(L(h, 'RecordCmd.id', 'Uuid.' + x), L(A(v, 2), 'Uuid.' + x)) for x in 'ab'), 'a command for another table is continued', at=at)
                ctx.ob('command.same', name, any(o == 'ne' and {x, y} == {pos, L(s, 'WriteLog.meta', 'Buf.start')} for o, x, y in facts), 'a command is continued although there is none', at=at)
            sz = e.get(F(h, 'RecordCmd.size'), {})
            prev = ('load', F(h, 'RecordCmd.size'))
            k = [x for x in sz if x is not None and x != prev]
            ok = len(k) == 1 and k[0][0] == 'call' and k[0][1] in ('row_size', 'json_sizeof') and k[0][2] == (data,) and sz.get(prev, 0) == (0 if new else 1) and not sz.get(None)
            ctx.ob('command.size', name, ok, 'the size of a command is not advanced by what is added', at=at)
            asz = lin(ia[0].a[2]) if ia else {}
            ctx.ob('command.size', name, set(asz) == set(k) or asz == {prev: 1} and new, 'the data is not added whole', at=at)
    ctx.floor('accounts.size', 2)
    ctx.floor('command.size', 8)


RULES = [rows, told, accounts]
