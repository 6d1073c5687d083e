"""Options: the tables that define them, and what functions over the list of options do with each one."""
from ..q import *
from ..core import load as core_load
from .f03 import addr, pl

UNION = ''


def tables(P):
    """{function: [row]}; a row is {name, type, flags, opt, default_string, default_int}"""
    r = {}
    for n in sorted(P.fn):
        f = P.fn[n]
        if not f.calls('opts_define'):
            continue
        Q = core_load([n], ['opts_define', 'opts_init'], [], False)
        v = Q.view(n)
        size = find_struct(P, 'OptsDef')['size']
        for p in paths(v):
            evs = trace(p)
            d = [e for e in evs if e.k == 'call' and e.f == 'opts_define']
            if p.end() != 'ret' or len(d) != 1:
                continue
            base, o = addr(P, d[0].a[1])
            rows = {}
            for e in evs:
                if e.n < d[0].n and e.k == 'store' and (e.f or '').startswith('OptsDef.'):
                    b, off = addr(P, e.a)
                    if b == base:
                        rows.setdefault((off - o) // size, {'at': e.i})[e.f.split('.')[1]] = strip_cast(e.v)
            out = []
            for k in sorted(rows):
                if rows[k].get('name', ('null',)) == ('null',):
                    break
                out.append(rows[k])
            r[n] = (d[0], out)
            break
    return r


def types(P):
    e = P.enum('OPT_BOOL')
    return {k: v for k, v in e.items()} if e else {}


def flag_facts(P, p, lo, hi, base):
    """[(mask, set)]: what the path says about flags of the option at base, between two points"""
    r = []
    for f, m in zip(p.facts, p.at):
        if not lo <= m <= hi or f[0] != 'cmp':
            continue
        t = strip_cast(p.v.norm(f[2]) if False else f[2])
        c = const_of(f[3])
        if t[0] != 'bin' or t[1] != 'and' or c is None:
            continue
        x, mask = strip_cast(t[2]), const_of(t[3])
        if mask is None:
            x, mask = strip_cast(t[3]), const_of(t[2])
        if mask is None or leaf_field(x) != 'Opt.flags' or x[0] != 'load':
            continue
        if base is not None and optof(P, p.v.norm(x[1])) != base:
            continue
        vals = [y for y in submasks(mask) if holds(f[1], y, c)]
        if vals == [0]:
            r.append((mask, False))
        elif 0 not in vals and vals:
            r.append((mask, True))
    return r


def submasks(m):
    r, s = [], m
    while True:
        r.append(s)
        if not s:
            return r
        s = (s - 1) & m


def optof(P, t):
    """the option a term points into: (base, offset of the option)"""
    off = 0
    t = strip_cast(t)
    while True:
        t = strip_cast(t)
        if t[0] == 'field' and t[2].startswith('Opt.'):
            t = strip_cast(t[1])
            b, o = addr(P, t)
            return b, o + off
        if t[0] == 'field':
            # a field of something inside an option
            t = t[1]
            continue
        b, o = addr(P, t)
        return b, o


def passed(P, t):
    """the option a pointer argument is: (base, offset)"""
    return addr(P, strip_cast(t))


def clear(facts, mask):
    """all bits of mask are known to be clear"""
    k = 0
    for m, s in facts:
        if not s:
            k |= m
    return (k & mask) == mask


def some(facts, mask):
    """a bit of mask is known to be set"""
    return any(s and (m & ~mask) == 0 for m, s in facts)


def elements(P, p, head):
    """[(cursor, first, last instruction)] the elements of a list a path visits, and whether it went to the end"""
    out, end = [], False
    cur = None
    for f, m in zip(p.facts, p.at):
        if f[0] != 'cmp' or f[1] not in ('ne', 'eq'):
            continue
        a, b = p.v.norm(f[2]), p.v.norm(f[3])
        if b != head and a != head:
            continue
        t = a if b == head else b
        if leaf_field(t) not in ('List.next',):
            continue
        if f[1] == 'ne':
            out.append([t, m, None])
        else:
            end = True
    for j in range(len(out)):
        out[j][2] = out[j + 1][1] if j + 1 < len(out) else len(p.insts)
    # successive elements
    ok = True
    prev = head
    for t, m, n in out:
        ok = ok and t == ('load', ('field', prev, 'List.next'))
        prev = t
    return out, end and ok
