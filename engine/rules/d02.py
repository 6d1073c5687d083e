"""D02: every stored definition reads back as it was written."""
from ..q import *
from ..core import load as core_load, fields_in
from .enc import *
from .t05 import callers_of

ENTRIES, KEEP, PLAIN = [], [], True
LISTS = ['list_append', 'list_push']


class Def:
    """one kind of definition: its writer, reader and copier"""


def relpath(t):
    """fields from the object a location belongs to"""
    r = []
    while t[0] in ('field', 'index', 'load'):
        if t[0] == 'field':
            r.append(t[2])
        elif t[0] == 'load' and not (t[1][0] == 'field' and t[1][2].startswith('List.')):
            r.append('*')
        t = t[1]
    return tuple(reversed([x for x in r if not x.startswith('List.')]))


_cache = {}


def defs(P):
    if id(P) in _cache:
        return _cache[id(P)]
    enc, dec = set(SCALAR_W) | set(OPEN), {'decode_obj', 'json_read_array'}
    names = []
    for n in P.fn:
        if n.endswith('_write') and n[:-6] + '_read' in P.fn:
            w = {t for c in P.fn[n].allcalls() for t in c.targets()}
            if w & enc and P.fn[n].params:
                names.append(n[:-6])
    every = [x + s for x in names for s in ('_write', '_read', '_copy') if x + s in P.fn]
    keep = CODEC + every + [x for x in P.fn if x.endswith('_free')] + ['str_is_case', 'str_is', 'flags_has', 'str_empty', 'buf_empty'][:2] + ['keys_update']
    Q = core_load(every, keep, ['encode_integer'][:0], True)
    out = {}
    for n in sorted(names):
        d = Def()
        d.name = n
        d.w = Q.view(n + '_write')
        d.r = Q.view(n + '_read')
        d.c = Q.view(n + '_copy') if n + '_copy' in P.fn else None
        d.wp = [p for p in paths(d.w) if p.end() == 'ret']
        d.rp = [p for p in paths(d.r) if p.end() == 'ret']
        d.cp = [p for p in paths(d.c) if p.end() == 'ret'] if d.c else []
        out[n] = d
    _cache[id(P)] = out
    return out


def nests(ds, s):
    return {n + s: n for n in ds}


def steps(p, head):
    """(elements visited, visited to the end) by the loops of a path over a list"""
    k, end = 0, False
    for f in p.facts:
        if f[1] in ('ne', 'eq'):
            for a, b in ((f[2], f[3]), (f[3], f[2])):
                if b[0] == 'field' and relpath(p.v.norm(b)) == head and a[0] == 'load' and leaf_field(a) == 'List.next':
                    if f[1] == 'ne':
                        k += 1
                    else:
                        end = True
                    break
    return k, end


def shape(d):
    """what a writer may produce at the top: array or obj"""
    return {t[0][0] for p, t in d.trees if t}


def flagset(p):
    """bits of the flags argument a path has tested"""
    r = []
    for f in p.facts:
        a = strip_cast(f[2])
        if f[1] in ('eq', 'ne', 'sgt', 'ugt', 'sle', 'ule') and const_of(f[3]) == 0 and a[0] == 'bin' and a[1] == 'and' and a[2][0] == 'arg' and const_of(a[3]) is not None:
            r.append((const_of(a[3]), f[1] in ('ne', 'sgt', 'ugt')))
    return r


def written(ctx, P):
    """what a writer produces is well formed: objects and arrays are closed, every key of an object is followed by exactly one value and occurs once, and the length given for a key is its length"""
    ds = defs(P)
    n = 0
    for d in ds.values():
        d.trees, d.keys = [], []
        for p in d.wp:
            evs = trace(p)
            buf = [e.a[0] for e in evs if e.k == 'call' and e.f in OPEN]
            t = tree(writes_of(evs, buf[0], nests(ds, '_write'))) if buf else None
            ctx.ob('written.balanced', d.w.name, t is not None and len(t) == 1 and t[0][0] in ('array', 'obj'), 'a definition is not written as one object or array', at=p.insts[-1])
            if not t or len(t) != 1:
                continue
            d.trees.append((p, t))
            if t[0][0] != 'obj':
                continue
            xs, keys = t[0][1], {}
            ok = len(xs) % 2 == 0
            for k in range(0, len(xs) - 1, 2):
                key = xs[k][2]
                e = xs[k][3]
                good = xs[k][0] == 'string' and key is not None and key[0] == 'str'
                ok = ok and good
                if not good:
                    continue
                if len(e.a) > 2:
                    ctx.ob('written.length', d.w.name, const_of(e.a[2]) == len(key[1]), 'the key "%s" is written with the wrong length' % key[1], at=e.i)
                    n += 1
                ctx.ob('written.once', d.w.name, key[1] not in keys, 'the key "%s" is written twice' % key[1], at=e.i)
                keys[key[1]] = xs[k + 1]
            ctx.ob('written.pairs', d.w.name, ok, 'keys and values do not alternate', at=p.insts[-1])
            d.keys.append((p, keys))
    ctx.floor('written.length', 40)
    ctx.floor('written.balanced', 14)


def items(ds, p, xs, what):
    """the definition an array is made of, and the list it comes from"""
    names = {x[1] for x in xs}
    if not xs or len(names) != 1 or any(x[0] != 'nested' for x in xs):
        return None
    heads = set()
    for x in xs:
        o = [a for a in x[2] if root(a)[0] == 'arg' and a[0] != 'arg']
        if not o:
            return None
        heads.add(relpath(o[0]))
    return (names.pop(), heads.pop()) if len(heads) == 1 else None


def reader_keys(ds, d):
    """(path, key -> (kind, location, definition read from it))"""
    out = []
    for p in d.rp:
        evs = trace(p)
        calls = [e for e in evs if e.k == 'call' and e.f == 'decode_obj']
        if not calls:
            continue
        t, bad, ended = table(P_of[0], evs, calls[0])
        r = {}
        for k, (kind, to) in t.items():
            use = None
            if to[0] == 'alloca':
                us = [e for e in evs if e.k == 'call' and e.n > calls[0].n and to in e.a]
                rd = nests(ds, '_read')
                first = us[0] if us else None
                if first is not None and first.f in rd:
                    dst = [a for a in first.a if a != to and a[0] == 'field']
                    use = ('nested', rd[first.f], relpath(dst[0]) if dst else None, len(us) == 1, 0)
                elif first is not None and first.f == 'json_read_array':
                    it = [e for e in us if e.f in rd]
                    names = {rd[e.f] for e in it}
                    # the elements are added to a list
                    heads, added = set(), 0
                    for e in it:
                        ap = [x for x in evs if x.k == 'call' and x.f in LISTS and x.n > e.n and len(x.a) > 1 and root(x.a[1])[:2] == ('call', e.f)]
                        added += 1 if ap else 0
                        heads |= {relpath(x.a[0]) for x in ap[:1]}
                    use = ('items', names, heads, added == len(it) == more_for(p, to, evs)[0] and more_for(p, to, evs)[1], len(it))
                else:
                    use = ('unused', us[0].f if us else None, None, False, 0)
            r[k] = (kind, to, use)
        out.append((p, r, bad, ended, calls))
    return out


P_of = [None]


def says_false(f):
    return f[1] == 'eq' and const_of(f[3]) == 0 or f[1] == 'ne' and const_of(f[3]) == 1


def more_for(p, to, evs):
    """(elements announced, end reached) for the array read through a position"""
    more, done = 0, False
    for f in p.facts:
        a = p.v.norm(strip_cast(f[2]))
        if a[0] == 'call' and a[1] == 'json_read_array_end' and a[2][0] == to:
            if says_false(f):
                more += 1
            else:
                done = True
    return more, done


def read(ctx, P):
    """an object's reader finds every key it requires, with the kind it expects, and puts the value where the writer took it from; nested definitions and lists are read by the counterpart of what wrote them, element by element to the end"""
    P_of[0] = P
    ds = defs(P)
    n = 0
    for d in ds.values():
        d.fields = {}
        rks = reader_keys(ds, d)
        for p, r, bad, ended, calls in rks:
            at = calls[0].i
            ctx.ob('read.table', d.r.name, not bad and ended and len(calls) == 1, 'a decoding table is malformed', at=at)
            ctx.ob('read.position', d.r.name, calls[0].a[2][0] == 'arg', 'a definition is not read from the given position', at=at)
            for key, (kind, to, use) in r.items():
                mine = relpath(to) if to[0] != 'alloca' else None
                if use and use[0] == 'nested':
                    mine = use[2]
                elif use and use[0] == 'items':
                    mine = next(iter(use[2])) if len(use[2]) == 1 else None
                    ctx.ob('read.items', d.r.name, use[3], 'not every element of "%s" is read and kept' % key, at=at)
                elif use:
                    ctx.ob('read.used', d.r.name, False, '"%s" is read and not used' % key, at=at)
                if mine:
                    d.fields.setdefault(mine, (key, kind, use))
                for wp, keys in d.keys:
                    fl = flagset(wp)
                    if key not in keys:
                        ctx.ob('read.required', d.r.name, bool(fl), 'the key "%s" is required but never written' % key, at=at)
                        continue
                    x = keys[key]
                    wk = x[0]
                    if wk == 'nested':
                        sub = ds[x[1]]
                        wk = next(iter(shape(sub))) if len(shape(sub)) == 1 else None
                    ok = wk == kind or kind == 'any' or (wk, kind) in (('uuid', 'uuid'), ('base64', 'string'))
                    ctx.ob('read.kind', d.r.name, ok, '"%s" is written as %s and read as %s' % (key, wk, kind), at=at)
                    n += 1
                    if x[0] == 'nested':
                        okn = use and use[0] == 'nested' and use[1] == x[1] and relpath(x[2][0]) == use[2]
                        ctx.ob('read.nested', d.r.name, bool(okn), '"%s" is not read by the counterpart of what wrote it into the same place' % key, at=x[3].i)
                    elif x[0] == 'array':
                        it = items(ds, wp, x[1], 'write')
                        if x[1]:
                            head = it[1] if it else None
                            cnt, end = steps(wp, head) if head else (0, False)
                            ctx.ob('read.every', d.w.name, bool(it) and cnt == len(x[1]) and end, 'not every element of "%s" is written' % key, at=x[3].i)
                        if it and use and use[0] == 'items' and use[4]:
                            ctx.ob('read.same', d.r.name, use[1] == {it[0]} and use[2] == {it[1]}, 'the elements of "%s" are not read by the counterpart of what wrote them into the same list' % key, at=x[3].i)
                    else:
                        loc, cs = deref(x[2])
                        ctx.ob('read.place', d.r.name, mine is not None and relpath(loc) == mine, '"%s" is written from %s and read into another place' % (key, '.'.join(relpath(loc)[-1:])), at=x[3].i)
                        if kind == 'integer':
                            ctx.ob('read.width', d.r.name, cs == [], 'the field of "%s" is not as wide as what is read into it' % key, at=x[3].i)
                        if kind == 'bool':
                            ctx.ob('read.width', d.r.name, cs in ([], [('trunc', 'i8', 'i1')]), 'the field of "%s" is not as wide as what is read into it' % key, at=x[3].i)
    ctx.floor('read.kind', 40)
    ctx.floor('read.nested', 5)
    ctx.floor('read.same', 2)


def lists(ctx, P):
    """a list of definitions is written element by element from first to last, and read back element by element until its end, appending to the same list"""
    ds = defs(P)
    rd = nests(ds, '_read')
    n = 0
    for d in ds.values():
        d.items = None
        top = [(p, t[0]) for p, t in d.trees if t[0][0] == 'array']
        if not top or any(x[0] != 'nested' for p, t in top for x in t[1]):
            continue
        elems = [items(ds, p, t[1], 'write') for p, t in top if t[1]]
        if not elems or None in elems or len(set(elems)) != 1:
            ctx.ob('lists.of', d.w.name, False, 'a list is not written as elements of one kind')
            continue
        d.items = elems[0]
        for p, t in top:
            cnt, end = steps(p, d.items[1])
            ctx.ob('lists.every', d.w.name, cnt == len(t[1]) and end, 'not every element is written', at=p.insts[-1])
        for p in d.rp:
            evs = trace(p)
            rds = [e for e in evs if e.k == 'call' and e.f in rd]
            pos = [a for a in (d.r.params and [('arg', k, x) for k, x in enumerate(d.r.params)])][-1]
            more, end = more_for(p, pos, evs)
            ctx.ob('lists.read', d.r.name, len(rds) == more and end and all(rd[e.f] == d.items[0] and pos in e.a for e in rds), 'not every element is read', at=p.insts[-1])
            n += 1
            for e in rds:
                ap = [x for x in evs if x.k == 'call' and x.f == 'list_append' and x.n > e.n and root(x.a[1])[:2] == ('call', e.f)]
                ctx.ob('lists.kept', d.r.name, any(relpath(x.a[0]) == d.items[1] for x in ap), 'an element that was read is not kept in order', at=e.i)
    ctx.floor('lists.read', 6)
    ctx.floor('lists.kept', 4)


def constraints(ctx, P):
    """optional parts, written as [name, value] pairs: every part is read back by its name with the same kind into the same field, and one is left out only if it has its initial value"""
    ds = defs(P)
    n = 0
    for d in ds.values():
        top = [(p, t[0]) for p, t in d.trees if t[0][0] == 'array']
        if not any(x[0] == 'array' for p, t in top for x in t[1]):
            continue
        parts, d.shown = {}, []
        for p, t in top:
            for x in t[1]:
                if x[0] != 'array' or len(x[1]) != 2 or x[1][0][0] != 'string' or x[1][0][2][0] != 'str':
                    ctx.ob('parts.pair', d.w.name, False, 'a part is not written as a name and a value', at=x[3].i)
                    continue
                key, e = x[1][0][2][1], x[1][0][3]
                ctx.ob('parts.length', d.w.name, len(e.a) < 3 or const_of(e.a[2]) == len(key), 'the name "%s" is written with the wrong length' % key, at=e.i)
                loc, cs = deref(x[1][1][2])
                w = (x[1][1][0], relpath(loc), tuple(cs))
                if any(on for m, on in flagset(p)):
                    d.shown.append((p, key, w))
                    continue
                parts.setdefault(key, set()).add(w)
        have = {}
        for p in d.rp:
            evs = trace(p)
            for k, e in enumerate(evs):
                if e.k != 'call' or e.f not in ('str_is_case', 'str_is'):
                    continue
                key = e.a[1][1] if e.a[1][0] == 'str' else None
                if not any(not_zero(f) and strip_cast(f[2])[:3] == ('call', e.f, e.i.id) for f in p.facts):
                    continue
                ctx.ob('parts.compare', d.r.name, const_of(e.a[2]) == len(key), 'the name "%s" is compared with the wrong length' % key, at=e.i)
                nx = next((x for x in evs[k + 1:] if x.k == 'call' and x.f in SCALAR_R and x.f != 'json_read_array'), None)
                if nx is None:
                    have.setdefault(key, set()).add(None)
                    continue
                kind, to = SCALAR_R[nx.f], nx.a[1]
                if to[0] == 'alloca':
                    b = next((x for x in evs if x.k == 'call' and x.f in ('base64url_decode', 'base64_decode', 'uuid_set') and x.n > nx.n and to in x.a), None)
                    kind, to = ({'base64url_decode': 'base64', 'base64_decode': 'base64?', 'uuid_set': 'uuid'}[b.f], b.a[0]) if b else (kind, to)
                have.setdefault(key, set()).add((kind, relpath(to)))
        for key, ws in parts.items():
            ok = len(ws) == 1 and have.get(key) == {(k, l) for k, l, c in ws}
            ctx.ob('parts.read', d.r.name, ok, 'the part "%s" is not read back as it was written' % key)
            for k, l, c in ws:
                d.fields[l] = (key, k, None)
                ctx.ob('parts.width', d.w.name, c == () or k == 'bool' and c == (('trunc', 'i8', 'i1'),) or k not in ('bool', 'integer'), 'the field of "%s" is not as wide as what is read into it' % key)
            n += 1
        d.shown = [(p, key) for p, key, w in d.shown if {w} != parts.get(key)]
        # left out only when it has its initial value
        init = initial(P, d)
        for p, t in top:
            there = {x[1][0][2][1] for x in t[1] if x[0] == 'array' and len(x[1]) == 2}
            for key, ws in parts.items():
                if key in there:
                    continue
                f = next(iter(ws))[1][-1]
                ctx.ob('parts.omitted', d.w.name, is_initial(p, f, init), 'the part "%s" is left out although it may not have its initial value' % key, at=p.insts[-1])
    ctx.floor('parts.read', 5)
    ctx.floor('parts.omitted', 5)


def not_zero(f):
    return f[1] == 'ne' and const_of(f[3]) == 0 or f[1] == 'eq' and const_of(f[3]) == 1


def initial(P, d):
    """field -> constant it is initialized with"""
    n = d.name + '_init'
    if n not in P.fn:
        return {}
    v = core_load([n], [], [], True).view(n)
    r = {}
    for p in paths(v):
        for a, val in effects(p).items():
            f = leaf_field(a) if isinstance(a, tuple) else None
            if f:
                r[f] = val
    return r


def is_initial(p, f, init):
    for x in p.facts:
        a = strip_cast(x[2])
        fs = fields_in(a)
        if f not in fs:
            continue
        c = const_of(x[3])
        if a[0] == 'load' and leaf_field(a) == f and x[1] == 'eq' and c is not None:
            i = init.get(f)
            return const_eq(i, c)
        # text and buffers: empty
        if x[1] == 'eq' and (c == 0 or x[3] == ('null',)):
            return True
        if x[1] == 'eq' and leaf_field(x[3]) and f in fields_in(x[3]):
            return True         # start == position
    return False


def const_eq(i, c):
    if i is None:
        return c == 0
    if isinstance(i, tuple) and i and i[0] == 'const':
        return i[1] == c
    if isinstance(i, dict):
        return {k: v for k, v in i.items() if v} == ({(): c} if c else {}) or i.get(1) == c or i.get('1') == c or list(i.values()) == [c] or not i and c == 0
    return i == c


def copied(ctx, P):
    """a copy of a definition carries everything its reader restores, from the original to the copy"""
    ds = defs(P)
    cp = nests(ds, '_copy')
    n = 0
    for d in ds.values():
        if not d.c:
            continue
        need = dict(d.fields)
        if d.items:
            need = {d.items[1]: (d.items[0], 'items', ('items',))}
        for p in d.cp:
            evs = trace(p)
            for k, i in enumerate(p.insts):
                if i.op == 'call' and (i.callee or '').startswith('llvm.memcpy'):
                    e = Ev()
                    e.i, e.n, e.k, e.f, e.v = i, k, 'call', 'memcpy', None
                    e.a = [d.c.norm(subst(d.c.term(o), p.envs[k])) for o in i.args]
                    evs.append(e)
            got, dirs = {}, set()
            for e in evs:
                pr = None
                if e.k == 'store' and e.v is not None:
                    loc, cs = deref(e.v)
                    if e.v[0] in ('load', 'cast') and loc[0] == 'field' and leaf_field(loc) == leaf_field(e.a) and e.a[0] == 'field':
                        pr = (e.a, loc)
                elif e.k == 'call' and e.f in ('str_copy', 'buf_write_buf', 'memcpy') and len(e.a) > 1:
                    pr = (e.a[0], e.a[1])
                elif e.k == 'call' and e.f in cp and len(e.a) > 1 and e.a[0][0] == 'field' and e.a[1][0] == 'field':
                    pr = (e.a[0], e.a[1]) if dst_first(P, ds, cp[e.f]) else (e.a[1], e.a[0])
                if pr and relpath(pr[0]) == relpath(pr[1]) and root(pr[0]) != root(pr[1]):
                    got.setdefault(relpath(pr[0]), []).append((root(pr[0]), root(pr[1]), e))
                    dirs.add((root(pr[0])[:2], root(pr[1])[:2]))
            for f, (key, kind, use) in need.items():
                if use and use[0] == 'items':
                    el = [e for e in evs if e.k == 'call' and e.f in cp and any(relpath(a) == f and a[0] != 'field' for a in e.a)]
                    cnt, end = steps(p, f)
                    ap = [e for e in evs if e.k == 'call' and e.f == 'list_append' and relpath(e.a[0]) == f and root(e.a[1])[0] == 'call' and root(e.a[1])[1] in cp]
                    ctx.ob('copied.items', d.c.name, len(el) == cnt == len(ap) and end, 'not every element of "%s" is copied' % key, at=p.insts[-1])
                    for e, x in zip(el, ap):
                        src = [root(a) for a in e.a if relpath(a) == f and a[0] != 'field']
                        ctx.ob('copied.from', d.c.name, root(x.a[0]) not in src, '"%s" is copied into the original' % key, at=e.i)
                else:
                    ctx.ob('copied.field', d.c.name, f in got, '"%s" is not copied' % key, at=p.insts[-1])
                n += 1
            ctx.ob('copied.way', d.c.name, not any((b, a) in dirs for a, b in dirs), 'parts are copied in both directions', at=p.insts[-1])
    ctx.floor('copied.field', 25)
    ctx.floor('copied.items', 6)


def dst_first(P, ds, name):
    """does the two-argument copier take the destination first? (the side that is stored into)"""
    d = ds[name]
    if len(d.c.params) < 2:
        return True
    for p in d.cp:
        for e in trace(p):
            if e.k == 'store' and e.a[0] == 'field' and root(e.a)[0] == 'arg':
                return root(e.a)[1] == 0
            if e.k == 'call' and e.f in ('list_append', 'str_copy') and root(e.a[0])[0] == 'arg':
                return root(e.a[0])[1] == 0
    return True


def complete(ctx, P):
    """wherever a definition is written to be read back (with fixed flags: into the log, an undo record or a file), nothing its reader requires is left out"""
    ds = defs(P)
    n = 0

    def lacks(d, flags, seen=()):
        if d.name in seen:
            return None
        need = {k for k, _, _ in d.fields.values()} if any(True for _ in d.keys) else set()
        for p, keys in d.keys:
            if all(bool(flags & m) == on for m, on in flagset(p)):
                miss = {x for x in need if x not in keys}
                if miss:
                    return '%s: "%s"' % (d.name, sorted(miss)[0])
        for p, key in getattr(d, 'shown', ()):
            if all(bool(flags & m) == on for m, on in flagset(p)):
                return '%s: "%s"' % (d.name, key)
        for p, t in d.trees:
            for x in flat(t):
                if x[0] == 'nested':
                    fa = [strip_cast(a) for a in x[2]][-1]
                    fl = flags if fa[0] == 'arg' else const_of(fa)
                    if fl is not None and all(bool(flags & m) == on for m, on in flagset(p)):
                        r = lacks(ds[x[1]], fl, seen + (d.name,))
                        if r:
                            return r
        return None
    for d in ds.values():
        for i, caller in callers_of(P, d.w.name):
            f = i.f if hasattr(i, 'f') else P.fn[caller]
            last = const_of(P.fn[caller].term(i.args[-1]))
            if last is None:
                continue
            w = lacks(d, last)
            ctx.ob('complete.flags', caller, w is None, 'a definition that is to be read back is written without %s' % w, at=i)
            n += 1
    ctx.floor('complete.flags', 12)


def flat(t):
    for x in t:
        yield x
        if x[0] in ('array', 'obj') and isinstance(x[1], list):
            yield from flat(x[1])


RULES = [written, read, lists, constraints, copied, complete]
