"""what a row operation of a partition does, path by path (shared by T02, T05 and T06)"""
from ..q import *

OPS = {'part_insert': ('upd', 'row'), 'part_upsert': ('upd', 'row'), 'part_update': ('upd', 'row'), 'part_delete': ('del', None)}
MUT = {'IndexIf.replace_by': 'replace', 'IndexIf.replace': 'replace', 'IndexIf.upsert': 'upsert', 'IndexIf.delete_by': 'delete', 'IndexIf.delete': 'delete'}
KEEP = ['heap_remove', 'index_iterator', 'iterator_open', 'iterator_close', 'limit_ensure', 'log_row', 'log_persist', 'iterator_at', 'part_sync_sequence']
UNKEEP = ['index_replace_by', 'index_replace', 'index_delete_by', 'index_delete', 'index_upsert', 'part_primary']


class Ev2:
    pass


def primary(v):
    return ('load', ('field', ('arg', 0, v.params[0]), 'Part.indexes'))


def nth(v, t):
    """0 for the primary index of the partition, k for the k-th after it, None for something else"""
    k = 0
    while t[0] == 'load' and t[1][0] == 'field' and t[1][2] == 'Index.next':
        t = t[1][1]
        k += 1
    return k if t == primary(v) else None


def events(v, p):
    """log records, index changes and the stores of what they superseded, in order"""
    r = []
    tr = trace(p)
    N = lambda e, t: v.norm(subst(t, p.envs[e.n]))
    raw = lambda e, t: subst(t, p.envs[e.n])
    for e in tr:
        x = Ev2()
        x.i, x.n, x.e = e.i, e.n, e
        if e.k == 'call' and e.i.callee is None and isinstance(e.i.d['f'], list):
            t = N(e, v.term(e.i.d['f']))
            if t[0] == 'load' and t[1][0] == 'field' and t[1][2] in MUT:
                x.k, x.what, x.idx, x.how = 'change', MUT[t[1][2]], e.a[0], t[1][2]
                x.own = t[1][1][0] == 'field' and t[1][1][1] == e.a[0]
                x.row = e.a[1] if e.i.args[1:] and t[1][2] != 'IndexIf.delete' else None
                x.it = e.a[-1]
                x.res = raw(e, v.term(['v', e.i.id]))
                r.append(x)
        elif e.k == 'call' and e.f == 'log_row':
            x.k, x.log, x.cmd, x.iface, x.idx, x.row, x.prev = 'log', e.a[0], e.a[1], e.a[2], e.a[3], e.a[4], e.a[5]
            x.res = raw(e, v.term(['v', e.i.id]))
            r.append(x)
        elif e.k == 'call' and e.f == 'log_persist':
            x.k, x.log, x.id = 'persist', e.a[0], e.a[1]
            r.append(x)
        elif e.k == 'call' and e.f == 'heap_remove':
            x.k, x.heap, x.row = 'free', e.a[0], e.a[1]
            r.append(x)
        elif e.k == 'call' and e.f == 'report_error':
            x.k = 'raise'
            r.append(x)
        elif e.k == 'call' and e.f == 'iterator_open':
            x.k, x.it, x.row, x.res = 'seek', e.a[0], e.a[1], raw(e, v.term(['v', e.i.id]))
            r.append(x)
        elif e.k == 'store' and e.f == 'LogRow.row_prev':
            x.k = 'prev'
            a = raw(e, v.term(e.i.args[1]))
            x.ref, x.v = a[1], strip_cast(raw(e, v.term(e.i.args[0])))
            r.append(x)
    return r


def op_paths(P, name, cache={}):
    v = P.view(name)
    if (id(P), name) not in cache:
        cache[(id(P), name)] = [(p, events(v, p)) for p in paths(v, visits=3, instances=True, limit=40000)]
    return v, cache[(id(P), name)]


def handlers_of(P, g):
    """(commit, abort) functions of a global LogIf"""
    t = strip_cast(g)
    n = t[1] if t[0] in ('global', 'g') else None
    d = P.globals.get(n)
    if not d:
        return None
    f = d['init']['f']
    return f['commit'][1], f['abort'][1]
