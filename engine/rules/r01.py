"""R01: a stored row contains exactly the columns its table defines."""
from ..q import *
from ..core import load as core_load, Broken
from ..flow import key, unkey, atom, num, add, scale, const, one
from ..bits import Bits, Ival, show, norm, cutl
from .. import seg
from .s01 import noexc

ENTRIES, KEEP, PLAIN = [], [], True


def arg(k):
    return atom(('arg', k))


def subst(l, env):
    """replace atoms by forms and redo the products"""
    r = {}
    for a, c in l.items():
        if a is None:
            x = num(c)
        elif a in env:
            x = scale(env[a], c)
        elif a[0] == 'bin' and a[1] in ('mul', 'shl'):
            p, q = subst(unkey(a[2]), env), subst(unkey(a[3]), env)
            if a[1] == 'shl' and const(q) is not None:
                q = num(1 << const(q))
            if const(p) is not None:
                x = scale(scale(q, const(p)), c)
            elif const(q) is not None and (a[1] == 'mul' or True):
                x = scale(scale(p, const(q)), c)
            else:
                x = scale(atom(a), c)
        elif a[0] == 'sel':
            t = Ival(None, {}).form(subst(unkey(a[1]), env))
            x = scale(subst(unkey(a[2] if t[0] else a[3]), env), c) if t and t[0] == t[1] else scale(atom(a), c)
        elif a[0] == 'cmp':
            t = Ival.test(a[1], *[(const(y), const(y)) if const(y) is not None else None for y in (subst(unkey(a[2]), env), subst(unkey(a[3]), env))])
            x = num(int(t) * c) if t is not None else scale(atom(a), c)
        elif a[0] == 'bits':
            b = subst(unkey(a[1]), env)
            k = b.pop(None, 0)
            x = scale(atom(('bits', key(b), a[2] + 8 * k, a[3])), c)
        else:
            x = scale(atom(a), c)
        r = add(r, x)
    return r


def factors(ctx, P):
    """the measured size of a row is its header, its index and its data, the width of the index entries can hold it and is remembered"""
    n = 'row_measure'
    base = P.structs['Row']['b']['data'][0] // 8
    fs = set()
    for fl, p in flows(P, n):
        at = p.insts[-1]
        f = const(fl.load(arg(2), 32))
        ctx.ob('measure.factor', n, f in (0, 1, 3), 'the width of the index entries is not 1, 2 or 4 bytes', at=at)
        if f is None:
            continue
        fs.add(f)
        r = fl.opd(at.args[0])
        want = add(add(num(base), arg(1)), scale(add(arg(0), num(1)), f + 1))
        ctx.ob('measure.size', n, r == want, 'the size of a row is not its header, its index and its data', at=at)
        if f < 3:
            ctx.ob('measure.fits', n, fl.proves(add(want, num(-((1 << 8 * (f + 1)) - 1)))), 'the size or an offset of a row does not fit its index', at=at)
    ctx.floor('measure.size', 2)
    return sorted(fs)


def linked(fl, e):
    for x in e.a[:2]:
        fl.forget(x, 16)
    return {}


def flows(P, n, keep=(), model=None):
    v = core_load([n], list(keep), [], False).view(n)
    for p in paths(v, edge=noexc):
        fl = Bits(p, P, model=dict(model or {}, list_append=linked))
        if p.end() == 'ret' and not fl.torn():
            yield fl, p


def layout(ctx, P):
    """what is written into a row is read from the same place with the same width: the size, the entries of the index, the data behind it"""
    fs = factors(ctx, P)
    me = arg(0)
    dat = P.structs['Row']['b']['data'][0] // 8
    # only where the index can hold it
    for n in ('row_init', 'row_size', 'row_at', 'row_set', 'row_set_null', 'row_data', 'row_data_size'):
        for f in fs:
            w = f + 1
            got = 0
            for fl, p in flows(P, n):
                at = p.insts[-1]
                fac = fl.init(me, 'Row.size_factor') if n != 'row_init' else arg(2)
                env = {one(fac): num(f)}
                iv = Ival(P, {one(fac): (f, f)})
                if not iv.feasible(fl.facts):
                    continue
                got += 1
                where = '%s:%d' % (n, w)
                S = lambda l: subst(l, env)
                bits = lambda a, W: S(fl.unwrap(cutl(fl.getbits(*fl.split(a), 64), 0, W)))
                size = atom(('bits',) + fl.split(add(me, num(dat))) + (8 * w,))
                head = add(num(dat), scale(add(arg(1), num(1)), w))
                if n == 'row_init':
                    now = fl.getbits(*fl.split(add(me, num(dat))), 8 * w)
                    ok = now == norm(cutl(fl.wrap(arg(3), 64), 0, 8 * w))
                    ctx.ob('init.size', where, ok, 'a row has another size than it was given', at=at)
                    ctx.ob('init.factor', where, fl.is_now(me, 'Row.size_factor', arg(2)) and fl.is_now(me, 'Row.columns', arg(1)), 'the width of the index or the number of columns is not remembered', at=at)
                    ctx.ob('init.delete', where, fl.is_now(me, 'Row.is_delete', {}), 'a new row is a deleted one', at=at)
                    far = max([x[2] + x[3] for x in fl.wr if x[1] == key(me)] + [0])
                    ctx.ob('init.only', where, far <= (dat + w) * 8, 'setting up a row writes beyond its header', at=at)
                elif n == 'row_size':
                    ctx.ob('size.read', where, S(fl.opd(at.args[0])) == size, 'the size is read from elsewhere', at=at)
                elif n == 'row_data':
                    ctx.ob('data.begin', where, S(fl.opd(at.args[0])) == add(me, head), 'the data does not begin behind the index', at=at)
                elif n == 'row_data_size':
                    ctx.ob('data.size', where, S(fl.opd(at.args[0])) == add(size, head, -1), 'the size of the data is not what is left of the row behind its index', at=at)
                else:
                    # place of the entry of a column
                    b, o = fl.split(add(add(me, num(dat + w)), scale(arg(1), w)))
                    if n == 'row_at':
                        r = fl.opd(at.args[0])
                        e = atom(('bits', b, o, 8 * w))
                        beyond = any(x[1] in ('sge', 'uge') and x[2] == add(arg(1), fl.init(me, 'Row.columns'), -1) or x[1] in ('sle', 'ule') and x[2] == add(fl.init(me, 'Row.columns'), arg(1), -1) or
                                     x[1] in ('sgt', 'ugt') and x[2] == add(add(arg(1), num(1)), fl.init(me, 'Row.columns'), -1) for x in fl.facts)
                        none = [x for x in fl.facts if S(x[2]) == e and x[1] in ('eq', 'ne')]
                        if beyond:
                            ctx.ob('read.beyond', where, r == {}, 'a row has a column it was not created with', at=at)
                        elif none:
                            ctx.ob('read.entry', where, S(r) == ({} if none[0][1] == 'eq' else add(me, e)), 'a column is read from another place than it was written to, or null is not null', at=at)
                            ctx.ob('read.guard', where, fl.proves(add(add(arg(1), num(1)), fl.init(me, 'Row.columns'), -1)), 'the entry of a column the row does not have is read', at=at)
                        else:
                            x = one(r)
                            ok = x is not None and x[0] == 'sel' and False
                            ctx.ob('read.entry', where, ok, 'a column is read from another place than it was written to, or null is not null', at=at)
                    else:
                        x = arg(2) if n == 'row_set' else {}
                        want = add(add(me, num(dat + w)), scale(arg(1), w))
                        st = [s for s in fl.stores if not any(k and k[0] == 'alloca' for k in s[1])]
                        ok = len(st) == 1 and S(st[0][1]) == want and const(st[0][2]) == w and norm(cutl(fl.wrap(st[0][3], 64), 0, 8 * w)) == norm(cutl(fl.wrap(x, 64), 0, 8 * w))
                        ctx.ob('write.entry', where, ok, 'a column is written to another place than it is read from', at=at)
            ctx.ob('layout.covered', '%s:%d' % (n, w), got > 0, 'a row of this width is not handled')
    for x in ('init.size', 'size.read', 'write.entry', 'data.begin'):
        ctx.floor(x, 3)
    ctx.floor('read.entry', 6)


def creators(ctx, P):
    """a row is allocated with its measured size and set up with the same columns and width"""
    k = 0
    for f in sorted(P.fn.values(), key=lambda f: f.name):
        if not any(x[2] == 'row_init' for i in f.insts() for x in i.d.get('l') or []) or f.name == 'row_init':
            continue
        n = f.name
        for fl, p in flows(P, n, ['row_measure', 'row_init', 'heap_add', 'buf_emplace']):
            for e in fl.calls:
                if e.f != 'row_init':
                    continue
                k += 1
                m = [x for x in fl.calls if x.f == 'row_measure' and x.n < e.n]
                a = [x for x in fl.calls if x.r == e.a[0] and x.f in ('heap_add', 'buf_emplace') or x.f not in ('row_measure', 'row_init') and x.r == e.a[0]]
                ok = bool(m) and m[-1].a[0] == e.a[1] and e.a[3] == m[-1].r
                ctx.ob('create.columns', n, ok, 'a row is set up for other columns than were measured', at=e.i)
                ok = bool(m) and bool(a) and any(x == m[-1].r for x in a[-1].a)
                ctx.ob('create.size', n, ok, 'a row has less space than was measured', at=e.i)
                out = m and m[-1].a[2]
                ld = [l for l in fl.loads if out and l[1] == out and l[0] > m[-1].n]
                ok = bool(m) and any(fl.val.get(l[3].id) == e.a[2] for l in ld)
                ctx.ob('create.factor', n, ok, 'a row has another index width than was measured', at=e.i)
                r = fl.opd(p.insts[-1].args[0]) if p.insts[-1].args else None
                ctx.ob('create.row', n, r == e.a[0], 'what is returned is not the row', at=e.i)
    ctx.floor('create.columns', 2)


def keyed(fl, v, node):
    k = add(node, num(-(fl.pos('Key.link')[0] // 8)))
    col = fl.init(k, 'Key.column')
    return fl.init(col, 'Column.order'), fl.init(col, 'Column.type_size')


def steps(v, P, keep):
    """(path, flow, list node) of each segment of a loop over keys"""
    hs = seg.heads(v)
    if len(hs) != 1:
        raise Broken('%s is not one loop over the keys' % v.name)
    h = next(iter(hs))
    for p in seg.segments(v, noexc):
        fl = Bits(p, P, model={k: (lambda fl, e: atom(('call', e.f) + tuple(key(x) for x in e.a))) for k in keep})
        if fl.torn():
            continue
        yield h, p, fl


# pairs of keys: the comparison is a function of their order alone, seen at the ends of the range and around zero
SAMPLES = {w: [(a, b) for a in xs for b in xs] for w in (32, 64) for xs in [(-(1 << w - 1), -(1 << w - 2) - 3, -1, 0, 1, (1 << w - 2) + 5, (1 << w - 1) - 1)]}


def compares(ctx, P):
    """keys are compared in their order, each with the width of its column and both rows at the same column; the first difference decides and its sign is the order"""
    n = 'compare'
    keep = ['row_at', 'uuid_compare', 'json_compare_string']
    v = core_load([n], keep + ['json_read_string'], [], False).view(n)
    sizes = {8: 64, 4: 32, P.structs['Uuid']['size']: 'uuid_compare', 0: 'json_compare_string'}
    segs = list(steps(v, P, keep))
    h = segs[0][0]
    nodes = [i.id for i in seg.phis(v, h) if any(arrive_first(v, P, p, fl, i, arg(0)) for _, p, fl in segs)]
    ctx.ob('compare.begin', n, len(nodes) == 1, 'comparing does not begin with the first key', at=v.entry())
    if len(nodes) != 1:
        return
    node = atom(('phi', nodes[0]))
    end = add(node, add(arg(0), num(0)), -1)
    for size, how in sizes.items():
        for a0, b0 in SAMPLES[how] if isinstance(how, int) else ((0, 1), (0, 0), (1, 0)):
            sign = (a0 > b0) - (a0 < b0)
            got = 0
            where = '%s:%d:%d,%d' % (n, size, a0, b0)
            for h, p, fl in segs:
                if p.blocks[0] != h:
                    continue
                order, ts = keyed(fl, v, node)
                A, B = [atom(('call', 'row_at', key(x), key(order))) for x in (arg(1), arg(2))]
                env = {one(ts): (size, size), one(A): (1 << 40, 1 << 40), one(B): (1 << 41, 1 << 41)}
                if isinstance(how, int):
                    a, b = [one(atom(('bits',) + fl.split(x) + (how,))) for x in (A, B)]
                    env[a], env[b] = (a0, a0), (b0, b0)
                else:
                    env[('call', how, key(A), key(B))] = (sign * 3, sign * 3)
                iv = Ival(P, env)
                last = any(f[1] == 'eq' and f[2] in (end, scale(end, -1)) for f in fl.facts)
                if last:
                    r = fl.opd(p.insts[-1].args[0]) if p.insts[-1].op == 'ret' else None
                    ctx.ob('compare.equal', n, r == {}, 'rows with equal keys differ', at=p.insts[-1])
                    continue
                fs = [(f, iv.fact(f)) for f in fl.facts]
                if any(x is False for _, x in fs):
                    continue
                bad = [f for f, x in fs if x is None and f[2] not in (end, scale(end, -1))]
                got += 1
                ctx.ob('compare.known', where, not bad, 'what two rows are compared by is not a key of them', at=p.insts[-1])
                if p.cut is not None:
                    to = seg.arrive(fl, p).get(nodes[0])
                    ctx.ob('compare.next', where, sign == 0 and to == atom(('bits',) + fl.split(node) + (64,)), 'a difference is passed over, or a key is', at=p.insts[-1])
                else:
                    r = iv.form(fl.opd(p.insts[-1].args[0])) if p.insts[-1].op == 'ret' else None
                    ok = sign != 0 and r is not None and r[0] == r[1] and (r[0] > 0) == (sign > 0) and r[0] != 0 and -(1 << 31) <= r[0] < 1 << 31
                    ctx.ob('compare.sign', where, ok, 'the order of two rows is not the order of their keys', at=p.insts[-1])
            ctx.ob('compare.covered', where, got > 0, 'rows with such keys are not compared')
    ctx.floor('compare.sign', 8)
    ctx.floor('compare.next', 4)


def arrive_first(v, P, p, fl, i, me):
    """the head receives the first element of the list in i"""
    if p.blocks[0] != 0 or p.cut is None:
        return False
    x = seg.arrive(fl, p).get(i.id)
    return x == fl.init(me, 'Keys.list.next')


def hashes(ctx, P):
    """the hash of a row covers every key in order, fixed columns with their size and texts with their length"""
    n = 'row_hash'
    keep = ['row_at', 'json_read_string', 'hash_murmur3_32']
    v = core_load([n], keep, [], False).view(n)
    hs = seg.heads(v)
    if len(hs) != 1:
        raise Broken('row_hash is not one loop over the keys')
    h = next(iter(hs))
    segs = [(p, Bits(p, P, model={'row_at': lambda fl, e: atom(('call', e.f) + tuple(key(x) for x in e.a))})) for p in seg.segments(v, noexc)]
    ph = seg.phis(v, h)
    nodes = [i.id for i in ph if any(arrive_first(v, P, p, fl, i, arg(1)) for p, fl in segs)]
    ctx.ob('hash.begin', n, len(nodes) == 1, 'hashing does not begin with the first key', at=v.entry())
    if len(nodes) != 1:
        return
    node = atom(('phi', nodes[0]))
    for p, fl in segs:
        if p.blocks[0] != h or fl.torn():
            continue
        at = p.insts[-1]
        order, ts = keyed(fl, v, node)
        acc = [i.id for i in ph if i.id != nodes[0]]
        if p.cut is None:
            ctx.ob('hash.end', n, at.op == 'ret' and fl.opd(at.args[0]) in [atom(('phi', a)) for a in acc], 'what is returned is not the hash of all keys', at=at)
            continue
        col = atom(('call', 'row_at', key(arg(0)), key(order)))
        h3 = [e for e in fl.calls if e.f == 'hash_murmur3_32']
        rd = [e for e in fl.calls if e.f == 'json_read_string']
        ok = len(h3) == 1 and h3[0].a[2] in [atom(('phi', a)) for a in acc]
        to = seg.arrive(fl, p)
        ctx.ob('hash.next', n, ok and to.get(nodes[0]) == atom(('bits',) + fl.split(node) + (64,)) and any(to.get(a) == h3[0].r for a in acc), 'a key is left out of the hash', at=at)
        if not h3:
            continue
        e = h3[0]
        if rd:
            out = rd[0].a[1]
            ctx.ob('hash.text', n, len(rd) == 1 and any(s[1] == rd[0].a[0] and s[3] == col and s[0] < rd[0].n for s in fl.stores) and not Ival(P, {one(ts): (1, 1 << 20)}).feasible(fl.facts), 'the text of a key is not what is hashed', at=e.i)
            o, en = [fl.load(add(out, num(fl.pos('Str.' + x)[0] // 8))) for x in ('pos', 'end')]
            ctx.ob('hash.length', n, e.a[0] == o and e.a[1] == add(en, o, -1), 'a text is hashed with another length', at=e.i)
        else:
            ctx.ob('hash.fixed', n, e.a[0] == col and e.a[1] == ts and not Ival(P, {one(ts): (0, 0)}).feasible(fl.facts), 'a column is hashed with another width', at=e.i)
    for x in ('hash.text', 'hash.fixed', 'hash.end'):
        ctx.floor(x, 1)


def columns(ctx, P):
    """the order of a column is its position, every column is appended, and keys refer to the column of their order"""
    n = 'columns_add'
    me, col = arg(0), arg(1)
    for fl, p in flows(P, n, ['list_append']):
        at = p.insts[-1]
        cnt = fl.init(me, 'Columns.count')
        ctx.ob('column.order', n, fl.is_now(col, 'Column.order', cnt) and fl.is_now(me, 'Columns.count', add(cnt, num(1))), 'the order of a column is not its position', at=at)
        link, lst = add(col, num(fl.pos('Column.link')[0] // 8)), add(me, num(fl.pos('Columns.list')[0] // 8))
        e = [c for c in fl.calls if c.f == 'list_append']
        ctx.ob('column.append', n, len(e) == 1 and e[0].a[:2] == [lst, link], 'a column is not the last of its table', at=at)
        idn, had = fl.init(col, 'Column.constraints.as_identity'), fl.init(me, 'Columns.identity')
        says = lambda x: next((f[1] == 'ne' for f in fl.facts if f[2] == x and f[1] in ('eq', 'ne')), None)
        now = fl.unwrap(fl.now(me, 'Columns.identity'))
        if now != had:
            ctx.ob('column.identity', n, now == col and says(idn) is True and says(had) is False, 'the identity column is another one', at=at)
        else:
            ctx.ob('column.identity', n, says(idn) is False or says(had) is True, 'the identity column is forgotten', at=at)
    n = 'keys_add'
    for fl, p in flows(P, n, ['list_append', 'columns_find_by'], {'columns_find_by': lambda fl, e: atom(('call', e.f, e.n))}):
        at = p.insts[-1]
        e = [c for c in fl.calls if c.f == 'columns_find_by']
        ok = len(e) == 1 and e[0].a[0] == fl.init(me, 'Keys.columns') and (one(e[0].a[1]) or ())[:3] == one(fl.init(arg(1), 'Key.ref'))[:3] and fl.is_now(arg(1), 'Key.column', e[0].r)
        ctx.ob('key.column', n, ok, 'a key refers to another column', at=at)
        cnt = fl.init(me, 'Keys.list_count')
        e = [c for c in fl.calls if c.f == 'list_append']
        ok = len(e) == 1 and e[0].a[1] == add(arg(1), num(fl.pos('Key.link')[0] // 8)) and e[0].a[0] == add(me, num(fl.pos('Keys.list')[0] // 8))
        ctx.ob('key.order', n, ok and fl.is_now(arg(1), 'Key.order', cnt) and fl.is_now(me, 'Keys.list_count', add(cnt, num(1))), 'a key is not the last of its index', at=at)
    n = 'columns_find_by'
    v = core_load([n], [], [], False).view(n)
    hs = seg.heads(v)
    for p in seg.segments(v, noexc):
        fl = Bits(p, P)
        if fl.torn() or p.blocks[0] not in hs or p.insts[-1].op != 'ret':
            continue
        r = fl.opd(p.insts[-1].args[0])
        if r == {}:
            continue
        o = add(fl.init(r, 'Column.order'), arg(1), -1)
        ctx.ob('column.found', n, any(f[1] == 'eq' and f[2] in (o, scale(o, -1)) for f in fl.facts), 'a column of another order is found', at=p.insts[-1])
    for x in ('column.order', 'key.column', 'key.order', 'column.found'):
        ctx.floor(x, 1)
    ctx.floor('column.identity', 2)


def widths(ctx, P):
    """a type has a fixed size exactly where its values do: the sizes types are declared with agree with the size of the type"""
    T = P.enum('TYPE_STRING')
    v = core_load(['type_sizeof'], [], [], False).view('type_sizeof')
    own = {}
    for name, k in T.items():
        for p in paths(v):
            fl = Bits(p, P)
            if Ival(P, {('arg', 0): (k, k)}).feasible(fl.facts, fl.among) and p.end() == 'ret':
                r = Ival(P, {('arg', 0): (k, k)}).form(fl.opd(p.insts[-1].args[0]))
                own.setdefault(k, set()).add(r and r[0] == r[1] and r[0])
    v = core_load(['type_read'], ['str_is_case'], [], False).view('type_read')
    seen = set()
    var = {T[x] for x in ('TYPE_STRING', 'TYPE_JSON', 'TYPE_VECTOR')}
    for p in paths(v, edge=noexc, limit=200000):
        fl = Bits(p, P, pure=('str_is_case',))
        if fl.torn() or p.end() != 'ret':
            continue
        r = fl.opd(p.insts[-1].args[0])
        k, s = const(r), const(fl.load(arg(1), 32))
        name = next((x for x, y in T.items() if y == k), '?')
        if k == -1:
            continue
        seen.add((k, s))
        o = own.get(k, {None})
        ok = s is not None and len(o) == 1 and (s == 0) == (k in var) and 0 <= s <= max(o) if None not in o else False
        ctx.ob('type.size', '%s:%s' % (name, s), ok, 'a column has a size its values do not have', at=p.insts[-1])
    for k in {k for k, _ in seen}:
        name = next((x for x, y in T.items() if y == k), '?')
        o = own.get(k)
        ctx.ob('type.own', name, o is not None and len(o) == 1 and max([s for t, s in seen if t == k]) == list(o)[0], 'the size of a type is not the largest of its columns')
    ctx.floor('type.own', 9)


def identities(ctx, P):
    """the value of the identity column is read with the width the column has"""
    n = 'part_sync_sequence'
    for ts in (4, 8):
        for fl, p in flows(P, n, ['row_at', 'sequence_sync'], {'row_at': lambda fl, e: atom(('call', e.f) + tuple(key(x) for x in e.a))}):
            at = p.insts[-1]
            col = fl.init(arg(2), 'Columns.identity')
            t = fl.init(col, 'Column.type_size')
            iv = Ival(P, {one(t): (ts, ts)})
            if not iv.feasible(fl.facts, fl.among):
                continue
            e = [c for c in fl.calls if c.f == 'sequence_sync']
            if any(f[1] == 'eq' and f[2] == col for f in fl.facts):
                ctx.ob('identity.none', n, not e, 'a table without identity column has a sequence value', at=at)
                continue
            v = atom(('bits',) + fl.split(atom(('call', 'row_at', key(arg(1)), key(fl.init(col, 'Column.order'))))) + (8 * ts,))
            ctx.ob('identity.width', '%s:%d' % (n, ts), len(e) == 1 and e[0].a[1] == v and e[0].a[0] == fl.init(fl.init(arg(0), 'Part.arg'), 'PartArg.seq'), 'the value of the identity column is read with another width', at=at)
    ctx.floor('identity.width', 2)


RULES = [layout, creators, compares, hashes, columns, widths, identities]
