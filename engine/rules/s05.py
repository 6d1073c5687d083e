"""S05: option protections are enforced."""
from ..q import *
from ..core import load as core_load
from .opts import *
from .f05 import listing, tycase, READ, SETTERS, cut

ENTRIES, KEEP, PLAIN = [], [], True
noexc = lambda b, s, l: l != ('exc',)
# the types of options a value is taken for only if the text says so
FORM = {'OPT_BOOL': 'json_is_bool', 'OPT_INT': 'json_is_integer', 'OPT_STRING': 'json_is_string'}
BYNAME = ['opts_find', 'opt_set', 'opt_set_json', 'opt_int_set', 'opt_string_set', 'opt_string_set_raw', 'opt_json_set', 'opt_json_set_buf', 'opt_json_set_str']


def said(p, call, upto, since=0):
    """[value]: what a path knows about the result of a call before an instruction (True: non zero)"""
    r = []
    for f, m in zip(p.facts, p.at):
        if m > upto or m < since or f[0] != 'cmp':
            continue
        t, c = strip_cast(p.v.norm(f[2])), f[3]
        if t[0] == 'call' and t[1] == call[1]:
            if const_of(c) is not None:
                r.append((f[1], const_of(c)))
            elif c == ('null',):
                r.append((f[1], 0))
    return r


def nonzero(xs):
    return any(o == 'ne' and c == 0 or o == 'eq' and c for o, c in xs)


def lookup(t):
    """the lookup a pointer to an option comes from"""
    t = strip_cast(t)
    while t[0] in ('field', 'load', 'index'):
        t = strip_cast(t[1])
    return t if t[0] == 'call' and t[1] == 'opts_find' else None


def guarded(ctx, P):
    """an option found by its name is set only if it was found and may be changed; every set of a named option is of one found"""
    C = P.enum('OPT_C')['OPT_C']
    tabs = tables(P)
    # structures of which every option may be changed
    free = set()
    for n, (d, rows) in tabs.items():
        st = {r['opt'][2].split('.')[0] for r in rows}
        if all(const_of(r['flags']) & C for r in rows):
            free |= st
    k = 0
    users = sorted({f.name for f in P.fn.values() if f.calls('opts_find')} | {f.name for f in P.fn.values() if f.calls('opt_set', 'opt_set_json')})
    for n in users:
        Q = core_load([n], BYNAME + READ + ['arg_parse', 'str_set', 'opts_set'], [], False)
        v = Q.view(n)
        for p in paths(v):
            since = 0
            for e in trace(p):
                if e.k == 'call' and e.f == 'opts_find':
                    since = e.n
                if e.k != 'call' or e.f not in BYNAME or e.f == 'opts_find':
                    continue
                c = lookup(e.a[0])
                named = e.f in ('opt_set', 'opt_set_json')
                if c is None:
                    ctx.ob('guarded.found', n, not named or n in BYNAME, 'an option is set by a name it was not found by', at=e.i)
                    continue
                k += 1
                whole = strip_cast(e.a[0])
                ctx.ob('guarded.found', n, whole[:2] == c[:2] and nonzero(said(p, c, e.n, since)), 'an option is set that was not found', at=e.i)
                own = c[2][0]
                st = own[2].split('.')[0] if own[0] == 'field' and own[2].endswith('.opts') else None
                if st in free:
                    ctx.ob('guarded.allowed', n, True, '', at=e.i)
                    continue
                ok = clear_or_set(P, p, since, e.n, C, c)
                ctx.ob('guarded.allowed', n, ok, 'an option is set without asking whether it may be changed', at=e.i)
    ctx.floor('guarded.allowed', 3)
    # nothing else reaches the setters by name
    for f in P.fn.values():
        for c in f.calls('opt_set', 'opt_set_json'):
            ctx.ob('guarded.callers', f.name, bool(f.calls('opts_find')) or lookup(f.term(c.args[0])) is not None, 'an option is set that was not looked up', at=c)
    ctx.floor('guarded.callers', 2)


def clear_or_set(P, p, since, upto, mask, c):
    """the option c was found to have a flag of mask, and nothing else"""
    for f, m in zip(p.facts, p.at):
        if m > upto or m < since or f[0] != 'cmp':
            continue
        t = strip_cast(f[2])
        k = const_of(f[3])
        if t[0] != 'bin' or t[1] != 'and' or k is None:
            continue
        x, b = strip_cast(t[2]), const_of(t[3])
        if b is None:
            x, b = strip_cast(t[3]), const_of(t[2])
        if b is None or leaf_field(x) != 'Opt.flags' or x[0] != 'load':
            continue
        o = lookup(p.v.norm(x[1]))
        if o is None or o[:2] != c[:2]:
            continue
        vals = [y for y in submasks(b) if holds(f[1], y, k)]
        if vals and all(y & mask for y in vals):
            return True
    return False


def found(ctx, P):
    """a lookup gives the option of exactly that name; it gives none only if no option has the name"""
    n = 'opts_find'
    Q = core_load([n], ['str_compare'], [], False)
    v = Q.view(n)
    head = ('field', ('arg', 0, v.params[0]), 'Opts.list')
    name = ('arg', 1, v.params[1])
    for p in paths(v, edge=noexc, visits=3):
        if p.end() != 'ret':
            continue
        at = p.insts[-1]
        cmps = [e for e in trace(p) if e.k == 'call' and e.f == 'str_compare']
        el, full = elements(P, p, head)
        r = p.v.norm(p.arg(at, 0))
        off = -offset_of(P, 'Opt', 'link')[0]
        yes = []
        for t, a, b in el:
            me = (t, off)
            for f, m in zip(p.facts, p.at):
                x = strip_cast(v.norm(f[2]))
                if a <= m <= b and x[0] == 'call' and x[1] == 'str_compare':
                    ask = [e for e in cmps if a <= e.n <= m]
                    ar = list(ask[-1].a) if ask else []
                    it = [y for y in ar if leaf_field(y) == 'Opt.name']
                    ot = [y for y in ar if y == name]
                    if len(it) == 1 and len(ot) == 1 and optof(P, it[0]) == me:
                        eq = f[1] == 'ne' and const_of(f[3]) == 0 or f[1] == 'eq' and const_of(f[3]) == 1
                        no = f[1] == 'eq' and const_of(f[3]) == 0
                        yes.append((me, True if eq else False if no else None))
        if r == ('null',):
            ctx.ob('found.none', n, full and len(yes) == len(el) and all(y is False for _, y in yes), 'an option that has the name is not found', at=at)
        else:
            ctx.ob('found.same', n, bool(yes) and yes[-1][1] is True and passed(P, r) == yes[-1][0], 'an option of another name is found', at=at)
    ctx.floor('found.none', 1)
    ctx.floor('found.same', 1)


def right(ctx, P):
    """an option is set only from a value of its type, and to zero only if it may be zero"""
    T = types(P)
    inv = {v: k for k, v in T.items()}
    Z = P.enum('OPT_Z')['OPT_Z']
    Q = core_load(['opt_set_json', 'opt_set', 'opt_int_set', 'opt_string_set', 'str_dup', 'str_copy', 'opt_string_set_raw'], READ + ['opt_int_set', 'opt_string_set', 'opt_string_set_raw', 'str_dup', 'str_copy', 'str_free', 'str_is_case', 'str_is', 'str_compare'], [], False)
    seen = {}
    for n in ('opt_set_json', 'opt_set'):
        v = Q.view(n)
        for p in paths(v, edge=noexc):
            evs = trace(p)
            t = tycase(p, P)
            for e in [e for e in evs if e.k == 'call' and e.f in SETTERS]:
                k = inv.get(t, '?')
                seen.setdefault(n, set()).add(k)
                if n == 'opt_set_json' and k in FORM:
                    ok = nonzero(said(p, ('call', FORM[k]), e.n))
                    # asked about the value before it was read
                    rd = [x.n for x in evs if x.k == 'call' and x.f.startswith('json_read')]
                    ask = [x.n for x in evs if x.k == 'call' and x.f == FORM[k] and strip_cast(x.a[0]) == ('load', ('arg', 1, v.params[1]))]
                    ok = ok and bool(ask) and all(ask[0] < x for x in rd)
                    ctx.ob('right.type', n + ':' + k, ok, 'the option is set from a value of another type', at=e.i)
                if n == 'opt_set' and k == 'OPT_INT':
                    q = said(p, ('call', 'str_toint'), e.n)
                    ok = any(o == 'ne' and c in (-1, 0xffffffff) or o == 'eq' and c == 0 or o == 'sgt' and c == -1 or o == 'sge' and c == 0 for o, c in q)
                    rd = [x for x in evs if x.k == 'call' and x.f == 'str_toint']
                    ok = ok and len(rd) == 1 and rd[0].a[0] == ('arg', 1, v.params[1]) and strip_cast(e.a[1]) == ('load', rd[0].a[1]) and not cut(e.a[1])
                    ctx.ob('right.type', n + ':' + k, ok, 'the option is set from a text that is no integer', at=e.i)
                if n == 'opt_set' and k == 'OPT_BOOL':
                    x = const_of(e.a[1])
                    w = words(p, evs, e, ('arg', 1, v.params[1]))
                    ok = x == 1 and ('true' in w or '' in w) or x == 0 and 'false' in w
                    ctx.ob('right.type', n + ':' + k, ok, 'the option is set from a text that is no bool', at=e.i)
                if k == 'OPT_INT':
                    # the value is not zero, or the option may be zero
                    ff = flag_facts(P, p, 0, e.n, None)
                    val = strip_cast(e.a[1])
                    nz = any(m <= e.n and f[0] == 'cmp' and v.norm(strip_cast(f[2])) == val and (f[1] == 'ne' and const_of(f[3]) == 0 or f[1] in ('sgt', 'ugt') and const_of(f[3]) == 0) for f, m in zip(p.facts, p.at))
                    ctx.ob('right.zero', n, nz or clear(ff, Z), 'an option that must not be zero is set to zero', at=e.i)
        ctx.ob('right.all', n, seen.get(n) == set(inv.values()), 'a type is not set: %s' % sorted(set(inv.values()) - seen.get(n, set())))
    ctx.floor('right.type', 5)
    ctx.floor('right.zero', 2)


def words(p, evs, e, value):
    """the words a text is known to be ('' for none)"""
    r = set()
    asked = {}
    for x in evs:
        if x.k == 'call' and x.f in ('str_is_cstr', 'str_is', 'str_is_case') and x.n < e.n and x.a[0] == value and x.a[1][0] == 'str':
            asked[x.n] = x
    for f, m in zip(p.facts, p.at):
        if m > e.n or f[0] != 'cmp':
            continue
        t = strip_cast(p.v.norm(f[2]))
        if t[0] == 'call' and t[1] in ('str_is_cstr', 'str_is', 'str_is_case') and f[1] == 'ne' and const_of(f[3]) == 0 and p.v.norm(t[2][0]) == value and t[2][1][0] == 'str':
            r.add(t[2][1][1])
        if f[1] == 'eq' and not (t[0] == 'call'):
            from .f03 import pl
            w = {leaf_field(k): c for k, c in pl(f[2]).items() if k is not None}
            w2 = {leaf_field(k): -c for k, c in pl(f[3]).items() if k is not None}
            for k, c in w2.items():
                w[k] = w.get(k, 0) + c
            if {k for k, c in w.items() if c} == {'Str.end', 'Str.pos'} and sorted(c for c in w.values() if c) == [-1, 1]:
                r.add('')
    return r


def hidden(ctx, P):
    """listings and prints contain no hidden or secret option, and every other one"""
    f = P.enum('OPT_H')['OPT_H'] | P.enum('OPT_S')['OPT_S']
    for n in ('opts_list', 'opts_print'):
        listing(ctx, P, n, 'hidden', f, f)


def computed(ctx, P):
    """what the system counts is neither saved nor accepted from the user"""
    E, C = P.enum('OPT_E')['OPT_E'], P.enum('OPT_C')['OPT_C']
    by = {}
    for n, (d, rows) in tables(P).items():
        for r in rows:
            by[r['opt'][2]] = (const_of(r['flags']), r)
    k = 0
    for f in P.fn.values():
        for c in f.calls('opt_int_add', 'opt_int_sub', 'opt_int_set_next', 'opt_int_follow'):
            o = leaf_field(strip_cast(f.term(c.args[0])))
            if o in by:
                k += 1
                fl = by[o][0]
                ctx.ob('computed.excluded', o, bool(fl & E), 'a counter is saved', at=by[o][1]['at'])
                ctx.ob('computed.closed', o, not fl & C, 'a counter can be set by the user', at=by[o][1]['at'])
    ctx.floor('computed.closed', 6)


RULES = [guarded, found, right, hidden, computed]
