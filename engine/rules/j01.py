"""J01: encoded values decode to themselves."""
from ..q import *
from ..core import load as core_load, Broken
from ..flow import key, unkey, atom, num, add, scale, const, one
from ..bits import Bits, Ival, show, norm, cutl, total
from .. import seg
from .s01 import noexc

ENTRIES, KEEP, PLAIN = [], [], True
READERS = ['json_read_integer', 'json_read_raw', 'json_read_string', 'json_read_string_copy', 'json_read_real', 'json_read_bool', 'json_read_null', 'json_read_obj', 'json_read_obj_end', 'json_read_array', 'json_read_array_end']
CLASSES = ['null', 'bool', 'real', 'integer', 'string', 'obj', 'obj_end', 'array', 'array_end']
READ = {'null': ('json_read_null', 'json_skip'), 'bool': ('json_read_bool',), 'real': ('json_read_real',), 'integer': ('json_read_integer',), 'string': ('json_read_raw', 'json_read_string'),
        'obj': ('json_read_obj',), 'obj_end': ('json_read_obj_end',), 'array': ('json_read_array',), 'array_end': ('json_read_array_end',)}
A = lambda k: atom(('arg', k))
VIEWS = {}


def view(P, n, keep=()):
    k = (id(P), n, tuple(keep))
    if k not in VIEWS:
        VIEWS[k] = core_load([n], [x for x in keep if x != n] + ([n] if n in keep else []), [], False).view(n)
    return VIEWS[k]


def flows(P, n, keep=()):
    r = []
    for p in seg.segments(view(P, n, keep), noexc):
        fl = Bits(p, P)
        fl.end = p.end() if p.cut is None else 'loop'
        if not fl.torn() and fl.end != 'panic' and not torn(fl) and not clash(fl):
            r.append(fl)
    return r


# ---- conditions on reals: each test leaves the relations in which the two sides can be
REL = {'eq': 'e', 'ne': 'lgu', 'lt': 'l', 'le': 'le', 'gt': 'g', 'ge': 'ge'}
FLIP = str.maketrans('lg', 'gl')


def reals(fl):
    """[(x, y, relations, n)] of the branches on reals of a path"""
    r, p = [], fl.p
    n = -1
    for k, b in enumerate(p.blocks):
        n += len(p.v.blocks[b])
        l = p.v.blocks[b][-1]
        nxt = p.blocks[k + 1] if k + 1 < len(p.blocks) else p.cut
        if l.op != 'br' or len(l.d.get('s', [])) != 2 or l.d['s'][0] == l.d['s'][1]:
            continue
        f = fl.opd(l.d['c'])
        a = one(f)
        want = nxt == l.d['s'][0]
        if a is None or a[0] != 'cmp' or a[1][0] not in 'ou' or a[1] in ('ult', 'ule', 'ugt', 'uge'):
            continue
        rel = set(REL[a[1][1:]]) if a[1] not in ('ord', 'uno') else set('leg' if a[1] == 'ord' else 'u')
        if a[1] == 'one':
            rel = set('lg')
        if a[1][0] == 'u' and a[1] != 'uno':
            rel |= {'u'}
        if not want:
            rel = set('legu') - rel
        r.append((a[2], a[3], rel, n))
    return r


def torn(fl, *more):
    """tests on reals exclude each other"""
    m = {}
    for x, y, rel, _ in sum([reals(f) for f in (fl,) + more], []):
        if (y, x) in m:
            x, y, rel = y, x, {c.translate(FLIP) for c in rel}
        m[(x, y)] = m.get((x, y), set('legu')) & rel
    return any(not s for s in m.values())


def gives(fl, x, y):
    """the path knows that two reals are equal"""
    r = set('legu')
    for a, b, rel, _ in reals(fl):
        if {a, b} == {key(x), key(y)}:
            r &= {c.translate(FLIP) for c in rel} if a == key(y) else rel
    return r == {'e'}


# ---- what a path did to the place it wrote to or read from
def head(fl, cell):
    """where the cursor stood"""
    b, p = fl.split(cell)
    return atom(('bits', b, p, 64))


def advance(fl, cell):
    """how far the cursor moved"""
    return add(fl.load(cell, 64), head(fl, cell), -1)


def at(fl, a, W):
    b, p = fl.split(a)
    return fl.getbits(b, p, W)


def value(ival, ls):
    """value of lanes under an assignment, or None"""
    r, k = 0, 0
    for w, s in ls:
        if s[0] == 'c':
            x = s[1]
        elif s[0] == 'f':
            f = ival.form(unkey(s[1]))
            if f is None or f[0] != f[1]:
                return None
            x = (f[0] >> s[2]) & ((1 << w) - 1)
        elif s[0] == 'm':
            f = ival.atom(('bits', s[1], s[2], w))
            if f is None or f[0] != f[1]:
                return None
            x = f[0]
        else:
            return None
        r |= x << k
        k += w
    return r


def tagat(fl, cell):
    b, p = fl.split(head(fl, cell))
    return ('bits', b, p, 8)


class Copy:
    def __init__(self, a):
        self.a = a


def copied(f):
    """[destination, source, size] of the bytes copied on a path"""
    src = {x[0]: x[1] for x in f.loads if x[3].op == 'call'}
    return [Copy([x[1], src[x[0]], x[2]]) for x in f.stores if x[4].op == 'call' and x[0] in src]


def clash(fl):
    """bounds of one value exclude each other"""
    m = {}
    for x in fl.facts:
        op, f = x[1], x[2]
        if op not in ('slt', 'sle', 'sgt', 'sge', 'ult', 'ule', 'ugt', 'uge', 'eq'):
            continue
        l = {k: c for k, c in f.items() if k is not None}
        if not l:
            continue
        c = f.get(None, 0)
        q = key(l)
        if q[0][2] < 0:
            q = key(scale(l, -1))
            c = -c
            op = {'lt': 'gt', 'le': 'ge', 'gt': 'lt', 'ge': 'le'}[op[1:]] if op != 'eq' else op
            op = op if op == 'eq' else x[1][0] + op
        for s in 'su' if op == 'eq' else op[0]:
            r = m.setdefault((s, q), [None, None])
            o = op[1:] if op != 'eq' else 'eq'
            v = -c
            if o in ('le', 'lt', 'eq'):
                y = v - (o == 'lt')
                r[1] = y if r[1] is None else min(r[1], y)
            if o in ('ge', 'gt', 'eq'):
                y = v + (o == 'gt')
                r[0] = y if r[0] is None else max(r[0], y)
    return any(a is not None and b is not None and a > b for a, b in m.values())


def huge(f):
    """only for strings longer than any can be"""
    return any(x[1] in ('ugt', 'uge', 'sgt', 'sge') and any(c > 0 for k, c in x[2].items() if k is not None) and x[2].get(None, 0) <= -((1 << 31) - 4096) for x in f.facts)


class Read:
    """a reader, tag by tag: the paths that return"""

    def __init__(self, P, n, keep=()):
        self.P, self.n = P, n
        self.fl = flows(P, n, keep)
        if any(f.end == 'loop' for f in self.fl):
            raise Broken('a loop in ' + n)

    def on(self, t, env=None):
        r = []
        for f in self.fl:
            e = dict(env or {})
            e[tagat(f, A(0))] = (t, t)
            iv = Ival(self.P, e)
            if iv.feasible(f.facts, f.among):
                r.append((f, iv))
        return r


def tags(P):
    E = P.enum('JSON_NULL')
    E = E.get('members', E) if isinstance(E, dict) else E
    c = {}
    R = lambda a, b: range(E[a], E[b] + 1)
    for n, r in (('null', [E['JSON_NULL']]), ('bool', [E['JSON_TRUE'], E['JSON_FALSE']]), ('real', [E['JSON_REAL32'], E['JSON_REAL64']]),
                 ('integer', R('JSON_INTV0', 'JSON_INT64')), ('string', R('JSON_STRINGV0', 'JSON_STRING32')),
                 ('obj', [E['JSON_OBJ']]), ('obj_end', [E['JSON_OBJ_END']]), ('array', [E['JSON_ARRAY']]), ('array_end', [E['JSON_ARRAY_END']])):
        for t in r:
            c[t] = n
    return E, c


def points(fls, a):
    """values at which the paths of a function over one integer may part, and their neighbours"""
    s = {0, 1, (1 << 31) - 1, (1 << 15) - 1, (1 << 15), 127, 128, 255, 256, 65535, 65536, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 63) - 1, -1, -(1 << 63)}
    for fl in fls:
        for f in fl.facts:
            x = f[2]
            if set(x) - {None} == {a} and abs(x[a]) == 1:
                c = -x.get(None, 0) * x[a]
                s |= {c - 1, c, c + 1}
    return sorted(s)


def numbers(ctx, P):
    """an integer and the length of a string are written with a tag for which the reader takes the same bytes, gets the same value and moves as far as the writer, and as the size computation says"""
    E, C = tags(P)
    for wn, rn, sn, cls, k, top, extra in (('json_write_integer', 'json_read_integer', 'json_size_integer', 'integer', 1, None, 0),
                                           ('json_write_raw', 'json_read_raw', 'json_size_string', 'string', 2, (1 << 31) - 1, 1),
                                           ('json_write_string32', 'json_read_raw', 'json_size_string32', 'string', 1, (1 << 31) - 1, 0)):
        W = flows(P, wn)
        R = Read(P, rn)
        S = flows(P, sn)
        a = ('arg', k)
        sa = ('arg', 0)
        n = 0
        for x in points(W + R.fl + S, a):
            if top is not None and not 0 <= x <= top:
                continue
            n += 1
            ws = [(f, Ival(P, {a: (x, x), ('arg', 1): (1, 1)} if extra else {a: (x, x)})) for f in W]
            ws = [(f, iv) for f, iv in ws if f.end == 'ret' and iv.feasible(f.facts, f.among)]
            ss = [(f, Ival(P, {sa: (x, x)})) for f in S]
            ss = [(f, iv) for f, iv in ss if iv.feasible(f.facts, f.among)]
            where = '%s' % wn
            if not ctx.ob('number.written', where, len(ws) >= 1, 'no encoding for a value', why='value %d' % x):
                continue
            for f, iv in ws:
                loc = f.p.insts[-1]
                h = head(f, A(0))
                t = value(iv, at(f, h, 8))
                adv = iv.form(advance(f, A(0)))
                if not ctx.ob('number.tag', where, t is not None and C.get(t) == cls, 'a value is written under a tag of another kind', at=loc, why='value %d' % x):
                    continue
                rs = [(g, jv) for g, jv in R.on(t) if g.end == 'ret']
                ctx.ob('number.read', rn, len(rs) == 1, 'the reader does not know a tag the writer uses', why='tag %d' % t)
                size = None
                if ss and sn != 'json_size_string32':
                    size = {v for v in (jv.form(g.opd(g.p.insts[-1].args[0])) for g, jv in ss)}
                elif ss:
                    size = {(const(g.opd(g.p.insts[-1].args[0])),) * 2 for g, jv in ss}
                body = x if extra else 0
                ctx.ob('number.size', sn, adv is not None and adv[0] == adv[1] and size == {adv}, 'the computed size is not what the writer writes', at=loc, why='value %d' % x)
                for g, jv in rs:
                    # the value: inline in the tag or the bytes behind it
                    src = at(g, A(2), 32) if cls == 'string' else at(g, A(1), 64)
                    got = None
                    lead = src[0]
                    bits = width = 0
                    for w, s in src:
                        if s[0] == 'm' and s[1] == f_base(g, A(0)) and s[2] == 8 + width:
                            width += w
                        else:
                            break
                    if width:
                        wl = at(f, add(h, num(1)), width)
                        v = value(iv, wl)
                        sx = signed(g)
                        if v is not None:
                            full = 32 if cls == 'string' else 64
                            if v >> (width - 1) and sx and width < full:
                                v -= 1 << width
                            if width == full and v >> (full - 1):
                                v -= 1 << full
                            got = v
                        used = 1 + width // 8
                    else:
                        got = value(jv, src)
                        used = 1
                    ctx.ob('number.value', rn, got == x, 'a value reads back as another one', at=loc, why='value %d tag %d' % (x, t))
                    radv = advance(g, A(0))
                    want = num(used)
                    if cls == 'string':
                        want = add(want, g.load(A(2), 32))
                        hd = g.load(A(1), 64)
                        ctx.ob('number.bytes', rn, hd == add(head(g, A(0)), num(used)), 'the bytes of a string are looked for at another place', at=g.p.insts[-1])
                    e = jv.form(add(radv, want, -1))
                    ctx.ob('number.step', rn, radv == want or e == (0, 0), 'the reader does not move past what it read', at=g.p.insts[-1])
                    ctx.ob('number.advance', where, adv == (used + body, used + body), 'the writer does not move past what it wrote', at=loc, why='value %d' % x)
        ctx.ob('number.cases', wn, n >= 8, 'too few values decide the encoding')
    ctx.floor('number.value', 40)


def f_base(g, cell):
    return g.split(head(g, cell))[0]


def signed(g):
    """does the path widen what it loaded with its sign"""
    return any(i.op == 'sext' for i in g.p.insts)


def copies(ctx, P):
    """the bytes of a string are put directly behind its header, all of them"""
    for n, parts in (('json_write_raw', [(1, 2)]), ('json_write_string_cat', [(1, 3), (2, 4)])):
        k = 0
        for f in flows(P, n):
            if f.end != 'ret' or huge(f):
                continue
            loc = f.p.insts[-1]
            cp = copied(f)
            if not cp and n == 'json_write_raw':
                ctx.ob('copy.skipped', n, any(x[1] == 'eq' and x[2] in (A(1), A(2)) for x in f.facts) or any(x[1] in ('ule', 'sle') and x[2] == A(2) for x in f.facts), 'a string is encoded without its bytes', at=loc)
                continue
            k += 1
            to = [one(c) for c in ()]
            pos = None
            total_ = {}
            ok = len(cp) == len(parts)
            for c, (a, s) in zip(cp, parts):
                d = add(c.a[0], head(f, A(0)), -1)
                if pos is None:
                    pos = d
                    ok = ok and const(d) in (1, 2, 3, 5)
                ok = ok and d == add(pos, total_) and c.a[1] == A(a) and c.a[2] == A(s)
                total_ = add(total_, A(s))
            ctx.ob('copy.bytes', n, ok and advance(f, A(0)) == add(pos, total_), 'the bytes of a string are not put behind its header', at=loc)
            if n == 'json_write_string_cat':
                t = at(f, head(f, A(0)), 8)
                tc = t[0][1][1] if t[0][1][0] == 'c' else None
                E, C = tags(P)
                used = {None: 1, E['JSON_STRING8']: 2, E['JSON_STRING16']: 3, E['JSON_STRING32']: 5}.get(tc)
                ctx.ob('copy.header', n, const(pos) == used or not used, 'the header of a string has another size', at=loc)
                if used and used > 1:
                    ctx.ob('copy.length', n, at(f, add(head(f, A(0)), num(1)), 8 * (used - 1)) == f.wrap(add(A(3), A(4)), 64)[:0] + cutl(f.wrap(add(A(3), A(4)), 64), 0, 8 * (used - 1)), 'the length of a string is not the length of its parts', at=loc)
                    top = {2: 127, 3: 32767, 5: (1 << 31) - 1}[used]
                    ctx.ob('copy.fits', n, any(x[1] in ('ule', 'ult', 'sle', 'slt') and add(x[2], add(A(3), A(4)), -1) == num(-top - (x[1] in ('ult', 'slt'))) or x[1] in ('ule', 'sle') and const(add(x[2], add(A(3), A(4)), -1)) is not None and -const(add(x[2], add(A(3), A(4)), -1)) <= top for x in f.facts), 'the length of a string does not fit its header', at=loc)
                elif tc is None:
                    ctx.ob('copy.inline', n, t == cutl(f.wrap(add(add(A(3), A(4)), num(E['JSON_STRINGV0'])), 64), 0, 8), 'a short string is written under another tag', at=loc)
        ctx.floor('copy.bytes', 1)
    ctx.floor('copy.bytes', 6)


def fixed(ctx, P):
    """a constant kind is written as its own tag and read back over exactly that byte; a real is stored short only when the short form is the same number"""
    E, C = tags(P)
    for n in ('null', 'obj', 'obj_end', 'array', 'array_end'):
        for f in flows(P, 'json_write_' + n):
            t = at(f, head(f, A(0)), 8)
            ctx.ob('fixed.write', 'json_write_' + n, t[0][1][0] == 'c' and C.get(t[0][1][1]) == n and advance(f, A(0)) == num(1), 'a value is written under the tag of another kind', at=f.p.insts[-1])
    for f in flows(P, 'json_write_bool'):
        t = at(f, head(f, A(0)), 8)
        for x in (0, 1):
            iv = Ival(P, {('arg', 1): (x, x)})
            if iv.feasible(f.facts, f.among):
                ctx.ob('fixed.write', 'json_write_bool', value(iv, t) == E['JSON_TRUE' if x else 'JSON_FALSE'] and advance(f, A(0)) == num(1), 'a truth value is written as the other one', at=f.p.insts[-1])
    R = Read(P, 'json_read_bool')
    for x in (0, 1):
        for f, iv in [y for y in R.on(E['JSON_TRUE' if x else 'JSON_FALSE']) if y[0].end == 'ret']:
            ctx.ob('fixed.bool', 'json_read_bool', value(iv, at(f, A(1), 8)) == x, 'a truth value reads back as the other one', at=f.p.insts[-1])
    ctx.floor('fixed.bool', 2)
    # reals
    R = Read(P, 'json_read_real')
    W = flows(P, 'json_write_real')
    for f in W:
        h = head(f, A(0))
        t = value(Ival(P, {}), at(f, h, 8))
        ctx.ob('real.tag', 'json_write_real', C.get(t) == 'real', 'a real is written under a tag of another kind', at=f.p.insts[-1])
        for g, jv in [y for y in R.on(t) if y[0].end == 'ret']:
            v = one(g.load(A(1), 64))
            # what is loaded: 4 or 8 bytes behind the tag
            ld = [l for l in g.loads if add(l[1], add(head(g, A(0)), num(1)), -1) == {}]
            w = max([const(l[2]) for l in ld], default=0)
            ctx.ob('real.step', 'json_read_real', w in (4, 8) and advance(g, A(0)) == num(1 + w), 'the reader does not move past what it read', at=g.p.insts[-1])
            ctx.ob('real.advance', 'json_write_real', advance(f, A(0)) == num(1 + w), 'a real is read with another size than written', at=f.p.insts[-1])
            pay = at(f, add(h, num(1)), 8 * w)
            if w == 8:
                ctx.ob('real.value', 'json_write_real', pay == f.wrap(A(1), 64), 'a real is not stored itself', at=f.p.insts[-1])
                ctx.ob('real.loaded', 'json_read_real', v is not None and v[0] == 'bits', 'a real is not what was stored', at=g.p.insts[-1])
            else:
                # the short form must be known to widen to the same number
                same = False
                for i in f.p.insts:
                    if i.op == 'fpext' and pay == short(f, i):
                        same = same or gives(f, A(1), f.val[i.id])
                ctx.ob('real.exact', 'json_write_real', same, 'a real is stored with single precision without knowing that it is the same number', at=f.p.insts[-1])
                d = [i for i in g.p.insts if i.op == 'fpext']
                ctx.ob('real.loaded', 'json_read_real', len(d) == 1 and g.val[d[0].id] == g.load(A(1), 64), 'a short real is not widened', at=g.p.insts[-1])
    ctx.floor('real.value', 1)


def short(f, i):
    return f.wrap(f.opd(i.args[0]), 32)


def kinds(ctx, P):
    """a value is recognized by exactly the tags of its kind, every reader accepts exactly these and reports any other, and each kind has a name of its own"""
    E, C = tags(P)
    ctx.ob('kinds.disjoint', 'json.h', len(C) == len(set(E.values()) | set(C)) and set(E.values()) <= set(C), 'two kinds share a tag')
    for c in CLASSES:
        n = 'json_is_' + c
        fs = flows(P, n)
        bad = []
        for t in range(256):
            r = set()
            for f in fs:
                b, p = f.split(A(0))
                iv = Ival(P, {('bits', b, p, 8): (t, t)})
                if iv.feasible(f.facts, f.among):
                    r.add(iv.form(f.opd(f.p.insts[-1].args[0])))
            y = C.get(t) == c
            if r != {(int(y), int(y))}:
                bad.append(t)
        ctx.ob('kinds.is', n, not bad, 'takes a value for another kind', at=fs[0].p.insts[-1], why='tags %s' % bad[:6])
        n = 'json_read_' + c if c != 'string' else 'json_read_raw'
        R = Read(P, n)
        bad = []
        for t in range(256):
            fs = R.on(t)
            y = C.get(t) == c
            if c.endswith('_end'):
                ok = bool(fs) and all(f.end == 'ret' and iv.form(f.opd(f.p.insts[-1].args[0])) == (int(y),) * 2 and advance(f, A(0)) == num(int(y)) for f, iv in fs)
            elif y:
                ok = bool(fs) and all(f.end == 'ret' for f, iv in fs)
            else:
                ok = bool(fs) and all(f.end == 'unwind' for f, iv in fs)
            if c in ('null', 'bool', 'obj', 'array') and y:
                ok = ok and all(advance(f, A(0)) == num(1) for f, iv in fs)
            if not ok:
                bad.append(t)
        ctx.ob('kinds.read', n, not bad, 'reads a value of another kind or refuses its own', at=R.fl[0].p.insts[-1], why='tags %s' % bad[:6])
    fs = flows(P, 'json_typeof')
    names = {}
    for t in range(256):
        for f in fs:
            if Ival(P, {('arg', 0): (t, t)}).feasible(f.facts, f.among):
                names.setdefault(C.get(t, '').split('_')[0], set()).add(show(f.opd(f.p.insts[-1].args[0])))
    ctx.ob('kinds.name', 'json_typeof', all(len(x) == 1 for x in names.values()) and len({tuple(x) for x in names.values()}) == len(names) == 8, 'a kind is named as another one', at=fs[0].p.insts[-1])
    ctx.floor('kinds.is', 9)
    ctx.floor('kinds.read', 9)


def cases(fl, P, cell, t, env=None):
    e = dict(env or {})
    e[tagat(fl, cell)] = (t, t)
    iv = Ival(P, e)
    return iv if iv.feasible(fl.facts, fl.among) else None


def reads(fl, cell):
    """calls that consume from a cursor"""
    return [c for c in fl.calls if c.f in READERS + ['json_skip'] and c.a and c.a[0] == cell]


def level(fl, p):
    """[(the counter before, after)] : integers carried around the loop"""
    r = []
    if p.cut is not None:
        for i, x in seg.arrive(fl, p).items():
            r.append((atom(('phi', i)), x))
    return r


def skip(ctx, P):
    """the skipper passes every kind with the reader of its kind, descends at the beginning of a container and ascends at its end; the size of a value is how far it moves"""
    E, C = tags(P)
    for n, cells in (('json_skip', [A(0)]), ('json_compare', None)):
        v = view(P, n, READERS + ['json_skip', 'str_compare_fn'] if n != 'json_skip' else READERS)
        fs = flows(P, n, READERS + ['json_skip', 'str_compare_fn'] if n != 'json_skip' else READERS)
        if cells is None:
            cells = []
            for k in (0, 1):
                s = [x[1] for f in fs if f.p.blocks[0] == 0 for x in f.stores if x[3] == A(k)]
                if not s:
                    raise Broken('where does json_compare keep its cursors')
                cells.append(atom(('v',) + one(s[0])[1:]))
        body = [f for f in fs if f.p.blocks[0] != 0 or f.p.cut is None]
        for f in fs:
            if f.p.blocks[0] == 0 and f.p.cut is not None:
                for i, x in seg.arrive(f, f.p).items():
                    ctx.ob('walk.start', n, x == {}, 'the depth does not begin at zero', at=f.p.insts[-1])
        reps = sorted({c: t for t, c in C.items()}.values()) + [255]
        for t in range(256):
            c = C.get(t)
            live = []
            for f in body:
                if n == 'json_skip':
                    iv = cases(f, P, cells[0], t)
                    if iv:
                        live.append((f, iv))
                else:
                    # the other side is of the same kind
                    for u in [x for x in C if C[x] == c] if c else reps:
                        iv = cases(f, P, cells[0], t, {tagat(f, cells[1]): (u, u)})
                        if iv:
                            live.append((f, iv))
                            break
            if c is None:
                ctx.ob('walk.unknown', n, live and all(f.end == 'unwind' for f, _ in live), 'an unknown tag is not an error', why='tag %d' % t)
                continue
            if not ctx.ob('walk.known', n, live and all(f.end != 'unwind' for f, _ in live), 'a kind is refused', why='tag %d' % t):
                continue
            d = 1 if c in ('obj', 'array') else -1 if c.endswith('_end') else 0
            for f, iv in live:
                loc = f.p.insts[-1]
                for cell in cells:
                    rd = reads(f, cell)
                    ok = len(rd) == 1 and rd[0].f in READ[c] if rd else d and advance(f, cell) == num(1)
                    ctx.ob('walk.step', n, ok, 'a value is not passed with the reader of its kind', at=loc, why='tag %d' % t)
                # depth
                for was, now in level(f, f.p):
                    ctx.ob('walk.depth', n, now == add(was, num(d)), 'the depth does not follow the containers', at=loc, why='tag %d' % t)
                    ctx.ob('walk.more', n, f.proves(add(num(1), now, -1)), 'goes on after the end of the value', at=loc)
                if f.p.cut is None and f.end == 'ret' and (n == 'json_skip' or const(f.opd(f.p.insts[-1].args[0])) == 0):
                    ph = [atom(('phi', i.id)) for i in seg.phis(v, f.p.blocks[0])]
                    ctx.ob('walk.stop', n, any(f.proves(add(x, num(d))) for x in ph), 'ends inside of a value', at=loc)
        if n == 'json_compare':
            for t in [x for x in reps if x in C]:
                for u in range(256):
                    if C.get(u) == C[t]:
                        continue
                    live = []
                    for f in body:
                        iv = cases(f, P, cells[0], t, {tagat(f, cells[1]): (u, u)})
                        if iv:
                            live.append((f, iv))
                    ok = live and all(f.end == 'ret' and not reads(f, cells[0]) and iv.form(f.opd(f.p.insts[-1].args[0])) == ((1, 1) if t > u else (-1, -1)) for f, iv in live)
                    ctx.ob('compare.kinds', n, ok, 'values of different kinds are not ordered by their kind', why='tags %d and %d' % (t, u))
            scalar(ctx, P, fs, cells, n)
    ctx.floor('walk.step', 100)
    for f in flows(P, 'json_sizeof', ['json_skip']):
        sk = [c for c in f.calls if c.f == 'json_skip']
        ok = len(sk) == 1
        if ok:
            b, p = f.split(sk[0].a[0])
            st = [x for x in f.stores if x[1] == sk[0].a[0] and x[0] < sk[0].n]
            ok = bool(st) and st[-1][3] == A(0)
            ok = ok and f.opd(f.p.insts[-1].args[0]) == add(f.load(sk[0].a[0], 64), A(0), -1)
        ctx.ob('walk.sizeof', 'json_sizeof', ok, 'the size of a value is not how far the skipper moves', at=f.p.insts[-1])
    ctx.floor('walk.sizeof', 1)


def scalar(ctx, P, fs, cells, n):
    """the order of two values of one kind is the order of what was read"""
    k = 0
    for f in fs:
        rd = [reads(f, c) for c in cells]
        if f.end != 'ret' or not all(len(x) == 1 for x in rd) or len(rd[0][0].a) < 2:
            continue
        r = f.opd(f.p.insts[-1].args[0])
        if const(r) == 0:
            continue
        k += 1
        x, y = rd[0][0].a[1], rd[1][0].a[1]
        c = [c for c in f.calls if c.f == 'str_compare_fn']
        if c:
            ok = c[0].a[:2] == [x, y] and r == c[0].r
        else:
            W = {'json_read_bool': 1}.get(rd[0][0].f, 64)
            a, b = f.load(x, W), f.load(y, W)
            ok = False
            if isinstance(r, dict) and len(r) == 2 and sorted(r.values()) == [-1, 1]:
                gt, lt = (next(q for q, z in r.items() if z == s) for s in (1, -1))
                ok = gt and lt and gt[0] == lt[0] == 'cmp' and gt[1] in ('sgt', 'ugt', 'ogt') and lt[1] in ('slt', 'ult', 'olt') and [unkey(gt[2]), unkey(gt[3])] == [a, b] == [unkey(lt[2]), unkey(lt[3])]
                ok = ok or gt and lt and gt[0] == lt[0] == 'cmp' and gt[1] in ('slt', 'ult', 'olt') and [unkey(gt[2]), unkey(gt[3])] == [b, a]
            elif const(r) is not None:
                ok = f.proves(add(add(b, a, -1), num(1))) if const(r) > 0 else f.proves(add(add(a, b, -1), num(1)))
        ctx.ob('compare.order', n, ok, 'two values are not ordered by what they are', at=f.p.insts[-1])
    ctx.floor('compare.order', 4)


def export(ctx, P):
    """the exporter reads every kind with the reader of its kind, prints the value it read, goes through a container to its end and refuses an unknown tag"""
    E, C = tags(P)
    n = 'json_export_as'
    keep = READERS + ['json_skip', 'buf_write', 'buf_printf', 'escape_str', n]
    v = view(P, n, keep)
    fs = flows(P, n, keep)
    cell = A(4)
    first = [f for f in fs if f.p.blocks[0] == 0]
    for t in range(256):
        c = C.get(t)
        live = [f for f in first if cases(f, P, cell, t)]
        if c is None or c.endswith('_end'):
            ctx.ob('export.unknown', n, live and all(f.end == 'unwind' for f in live), 'an unknown tag is not an error', why='tag %d' % t)
            continue
        if not ctx.ob('export.known', n, live and all(f.end != 'unwind' for f in live), 'a kind is refused', why='tag %d' % t):
            continue
        for f in live:
            rd = reads(f, cell)
            loc = f.p.insts[-1]
            ok = bool(rd) and rd[0].f in READ[c] and all(x.f == READ[c][0] + '_end' for x in rd[1:])
            ctx.ob('export.reader', n, ok, 'a value is not read with the reader of its kind', at=loc, why='tag %d' % t)
            out = [x for x in f.calls if x.f in ('buf_write', 'buf_printf', 'escape_str')]
            ctx.ob('export.printed', n, bool(out) and all(x.a[0] == A(0) for x in out), 'a value is not printed', at=loc)
            if c == 'bool' and rd:
                b = f.load(rd[0].a[1], 1)
                tr = any(x[1] == 'ne' and x[2] == b for x in f.facts)
                fa = any(x[1] == 'eq' and x[2] == b for x in f.facts)
                s = [lit(x.a[1]) for x in out]
                ctx.ob('export.bool', n, s == ['true'] and tr or s == ['false'] and fa, 'a truth value is printed as the other one', at=loc)
            if c in ('real', 'integer') and rd:
                ctx.ob('export.value', n, len(out) == 1 and out[0].f == 'buf_printf' and f.load(rd[0].a[1], 64) in out[0].a[2:], 'another value is printed', at=loc)
            if c == 'null':
                ctx.ob('export.value', n, [lit(x.a[1]) for x in out] == ['null'], 'another value is printed', at=loc)
            if c == 'string' and rd:
                ctx.ob('export.value', n, [x.f for x in out] == ['buf_write', 'escape_str', 'buf_write'] and out[1].a[1] == rd[0].a[1], 'another value is printed', at=loc)
    # inside of containers: every loop that prints elements ends at the end tag
    k = 0
    for f in fs:
        rec = [x for x in f.calls if x.f == n]
        if not rec:
            continue
        k += 1
        ends = [x for x in f.calls if x.f in ('json_read_obj_end', 'json_read_array_end') and x.n < rec[0].n]
        ctx.ob('export.all', n, all(x.a[4] == cell and x.a[0] == A(0) for x in rec), 'an element of a container is printed elsewhere', at=rec[0].i)
        if f.p.cut is not None and f.p.cut == f.p.blocks[0] or ends:
            ok = len(ends) == 1 and any(x[1] == 'eq' and x[2] == ends[0].r for x in f.facts)
            ctx.ob('export.end', n, ok, 'an element is printed after the end of its container', at=rec[0].i)
            ctx.ob('export.pairs', n, bool(ends) and len(rec) == (2 if ends[0].f == 'json_read_obj_end' else 1), 'a container is not printed element by element', at=rec[0].i)
    ctx.floor('export.all', 3)
    ctx.floor('export.value', 20)


def lit(x):
    a = one(x)
    return a[1] if a is not None and a[0] == 'str' else None


def encode(ctx, P):
    """every encoder reserves what its writer moves over, and stores the very value it was given"""
    E, C = tags(P)
    for n in ('encode_obj', 'encode_obj_end', 'encode_array', 'encode_array_end', 'encode_raw', 'encode_buf', 'encode_string', 'encode_string32', 'encode_target', 'encode_integer', 'encode_bool', 'encode_real', 'encode_null'):
        for f in flows(P, n, ['buf_reserve']):
            if f.end != 'ret' or n in ('encode_raw', 'encode_buf', 'encode_string', 'encode_target') and huge(f):
                continue
            loc = f.p.insts[-1]
            rs = [c for c in f.calls if c.f == 'buf_reserve']
            if not ctx.ob('encode.reserve', n, len(rs) == 1 and rs[0].a[0] == A(0), 'a value is encoded without reserving its place', at=loc):
                continue
            cell = rs[0].r
            m = advance(f, cell)
            want = rs[0].a[1]
            ok = m == want
            if not ok and n in ('encode_raw', 'encode_string', 'encode_buf'):
                # nothing to copy: an empty string or none at all
                ok = f.proves(add(m, want, -1)) or copyless(f)
            ctx.ob('encode.size', n, ok, 'the writer moves over another size than was reserved', at=loc)
            cls = n[7:]
            t = at(f, head(f, cell), 8)
            if cls in C.values() and cls not in ('integer', 'string', 'real', 'bool'):
                ctx.ob('encode.kind', n, C.get(value(Ival(P, {}), t)) == cls, 'a value is encoded as another kind', at=loc)
            elif cls in ('raw', 'buf', 'string', 'string32', 'target'):
                tc = t[0][1]
                ok = C.get(tc[1]) == 'string' if tc[0] == 'c' else True
                ctx.ob('encode.kind', n, ok, 'a value is encoded as another kind', at=loc)
                cp = copied(f)
                b = lambda k, o: atom(('bits', f.split(A(k))[0], o * 8, 64))
                src = {'raw': [(A(1), A(2))], 'buf': [(b(1, 0), add(b(1, 8), b(1, 0), -1))], 'string': [(b(1, 0), add(b(1, 8), b(1, 0), -1))]}.get(cls)
                if src and cp:
                    ctx.ob('encode.bytes', n, [(c.a[1], c.a[2]) for c in cp] == src, 'the bytes of another string are encoded', at=loc)
                if cls == 'target':
                    h = head(f, cell)
                    s1, s2 = (add(b(k, 8), b(k, 0), -1) for k in (1, 2))
                    hd = {c: k for c, k in ((E['JSON_STRING8'], 2), (E['JSON_STRING16'], 3), (E['JSON_STRING32'], 5))}.get(tc[1] if tc[0] == 'c' else None, 1)
                    seq = [(c.a[0], c.a[1], c.a[2]) for c in cp if const(c.a[2]) != 1]
                    ok = seq == [(add(h, num(hd)), b(1, 0), s1), (add(add(h, num(hd + 1)), s1), b(2, 0), s2)]
                    ctx.ob('encode.bytes', n, ok, 'the bytes of a name are not put where they belong', at=loc)
            elif cls == 'integer':
                pass
        # the writer given the value of the encoder
        for f in flows(P, n, ['buf_reserve'] + ['json_write_' + x for x in ('integer', 'bool', 'real', 'string32')]):
            for c in f.calls:
                if c.f.startswith('json_write_'):
                    ctx.ob('encode.value', n, c.a[1] == A(1) and c.f == 'json_write_' + n[7:], 'another value is encoded', at=c.i)
    for n in ('encode_string_unescape', 'encode_base64'):
        for f in flows(P, n, ['buf_reserve', 'unescape_str', 'base64url_encode', 'str_set']):
            if f.end != 'ret':
                continue
            loc = f.p.insts[-1]
            fill = [c for c in f.calls if c.f in ('unescape_str', 'base64url_encode')]
            ok = len(fill) == 1 and fill[0].a[0] == A(0)
            # after the content is known the header is written again with its size
            h = [x for x in f.wr if fill and x[0] > fill[0].n and x[3] == 32]
            start, posn = (lambda: (f.load(A(0), 64), f.load(add(A(0), num(8)), 64)))()
            b0, p0 = atom(('bits', f.split(A(0))[0], 0, 64)), atom(('bits', f.split(A(0))[0], 64, 64))
            off = add(p0, b0, -1)
            if ok and len(h) == 1:
                addr = add(unkey(h[0][1]), num(h[0][2] // 8))
                size = add(add(posn, start, -1), add(off, num(5)), -1)
                ok = addr == add(add(start, off), num(1)) and [(h[0][3], h[0][4])] == cutl(f.wrap(size, 64), 0, 32)
                t = f.load(add(start, off), 8)
                ok = ok and t == num(E['JSON_STRING32'])
            else:
                ok = False
            ctx.ob('encode.fixup', n, ok, 'the size of a string written piecewise is not the size of its content', at=loc)
    ctx.floor('encode.size', 25)
    ctx.floor('encode.fixup', 2)
    ctx.floor('encode.value', 3)
    for n, f in (('encode_cstr', None), ('encode_uuid', None)):
        for fl in flows(P, n, ['encode_raw', 'uuid_get']):
            c = [c for c in fl.calls if c.f == 'encode_raw']
            ctx.ob('encode.text', n, len(c) == 1 and c[0].a[0] == A(0), 'a text is not encoded', at=fl.p.insts[-1])
            if n == 'encode_cstr' and c:
                s = [x for x in fl.calls if x.f == 'strlen']
                ctx.ob('encode.text', n, len(s) == 1 and s[0].a[0] == A(1) == c[0].a[1] and c[0].a[2] == s[0].r, 'a text is encoded with another size', at=c[0].i)
            elif c:
                g = [x for x in fl.calls if x.f == 'uuid_get']
                ctx.ob('encode.text', n, len(g) == 1 and g[0].a[1] == c[0].a[1] and add(g[0].a[2], c[0].a[2], -1) == num(1), 'an identifier is encoded with another size', at=c[0].i)
    ctx.floor('encode.text', 4)


def copyless(f):
    """no bytes were copied because the pointer is null or there are none"""
    return not copied(f) and any(x[1] in ('eq', 'ule', 'sle') for x in f.facts)


def decode(ctx, P):
    """a field of an object is taken only from a value of the kind its reader expects and lands in the place given for it, unknown fields are passed over and a missing one is an error"""
    E, C = tags(P)
    n = 'decode_obj'
    D = P.enum('DECODE_UUID')
    D = D.get('members', D)
    sinks = ['str_is_cstr', 'uuid_set', 'base64url_decode', 'buf_write', 'str_free']
    fs = flows(P, n, READERS + ['json_skip'] + sinks)
    v = fs[0].p.v
    want = {'UUID': 'string', 'STRING': 'string', 'STRING_READ': 'string', 'INT': 'integer', 'BOOL': 'bool', 'REAL': 'real', 'NULL': 'null', 'ARRAY': 'array', 'OBJ': 'obj', 'DATA': None, 'BASE64': 'string'}
    ctx.ob('decode.kinds', n, set(want) | {'FOUND'} == {k[7:] for k in D}, 'a kind of field nobody checks')
    bit = D['DECODE_FOUND']
    cell = A(2)
    S = P.structs['Decode']
    off = {f[0]: f[2] for f in S['f']}
    inner = set()
    n_ok = 0
    for f in fs:
        sw = [p for p in f.p.blocks if v.blocks[p][-1].op == 'switch']
        is_ = [c for c in f.calls if c.f == 'str_is_cstr']
        if is_:
            inner.add(f.p.blocks[0])
    for kd, cls in want.items():
        if 'DECODE_' + kd not in D:
            continue
        k = D['DECODE_' + kd]
        for t in range(256):
            live = []
            for f in fs:
                is_ = [c for c in f.calls if c.f == 'str_is_cstr']
                if not is_ or not any(x[1] == 'ne' and x[2] == is_[0].r for x in f.facts):
                    continue
                env = {is_[0].r and one(is_[0].r): (1, 1)}
                ref = field_of(is_[0].a[1], off['key'])
                iv = Ival(P, env, [flags(ref, off['flags'], k)])
                iv.env[tagat(f, cell)] = (t, t)
                for x in f.facts:
                    for a in x[2]:
                        flagenv(iv, a, ref, off['flags'], k)
                if iv.feasible(f.facts, f.among):
                    live.append((f, iv, ref))
            ok = C.get(t) == cls if cls else True
            if not ok:
                ctx.ob('decode.refuse', n, live and all(f.end == 'unwind' for f, _, _ in live), 'a field is taken from a value of another kind', why='%s tag %d' % (kd, t))
                continue
            if not ctx.ob('decode.accept', n, live and all(f.end == 'loop' for f, _, _ in live), 'a field is refused', why='%s tag %d' % (kd, t)):
                continue
            for f, iv, ref in live:
                if ref is None:
                    raise Broken('which field is decoded')
                loc = f.p.insts[-1]
                rd = reads(f, cell)
                vb, vp = f.split(add(ref, num(off['value'])))
                val = atom(('bits', vb, vp, 64))
                ok = len(rd) == 1
                if ok:
                    r = rd[0]
                    if kd in ('INT', 'BOOL', 'REAL', 'STRING_READ'):
                        ok = r.f in READ[cls] and r.a[1] == val
                    elif kd == 'STRING':
                        fr = [c for c in f.calls if c.f == 'str_free']
                        ok = r.f == 'json_read_string_copy' and r.a[1] == val
                    elif kd in ('UUID', 'BASE64'):
                        s = [c for c in f.calls if c.f == ('uuid_set' if kd == 'UUID' else 'base64url_decode')]
                        ok = r.f == 'json_read_string' and len(s) == 1 and s[0].a[0] == val and s[0].a[1] == r.a[1] and s[0].n > r.n
                    elif kd in ('ARRAY', 'OBJ'):
                        ok = r.f == 'json_skip' and any(x[1] == val and x[3] == head(f, cell) for x in f.stores)
                    elif kd == 'DATA':
                        s = [c for c in f.calls if c.f == 'buf_write']
                        ok = r.f == 'json_skip' and len(s) == 1 and s[0].a[:2] == [val, head(f, cell)] and s[0].a[2] == add(f.load(cell, 64), head(f, cell), -1)
                    elif kd == 'NULL':
                        ok = r.f in ('json_read_null', 'json_skip')
                ctx.ob('decode.value', n, ok, 'a field is not stored where its reader wants it', at=loc, why=kd)
                st = [x for x in f.stores if x[1] == add(ref, num(off['flags']))]
                ctx.ob('decode.found', n, len(st) == 1 and setbit(st[0][3], bit), 'a field that was read is not marked', at=loc, why=kd)
                n_ok += 1
    # whatever passes one key of the object consumes exactly one value
    for f in fs:
        if f.p.blocks[0] in inner and f.p.cut is not None and f.p.cut not in inner:
            rd = reads(f, cell)
            ctx.ob('decode.consume', n, len(rd) == 1, 'a field of the object is not passed over', at=f.p.insts[-1])
            is_ = [c for c in f.calls if c.f == 'str_is_cstr']
            if not is_:
                ctx.ob('decode.unknown', n, [c.f for c in rd] == ['json_skip'], 'an unknown field is not passed over', at=f.p.insts[-1])
        elif f.p.blocks[0] in inner and f.p.cut in inner:
            is_ = [c for c in f.calls if c.f == 'str_is_cstr']
            ctx.ob('decode.next', n, bool(is_) and any(x[1] == 'eq' and x[2] == is_[-1].r for x in f.facts) and not reads(f, cell), 'a field is passed over although its name matches', at=f.p.insts[-1])
    # missing keys
    k = 0
    for f in fs:
        if f.p.blocks[0] == 0 or f.p.blocks[0] in inner or any(c.f in READERS for c in f.calls) or f.p.cut is None and f.end == 'ret':
            continue
        if f.p.cut is not None and f.p.cut != f.p.blocks[0]:
            continue
        k += 1
        has = [x for x in f.facts if any(a and a[0] in ('cat', 'bin', 'bits') and hasbit(a, bit) for a in x[2])]
        ok = any(x[1] == ('ne' if f.end == 'loop' else 'eq') for x in has)
        ctx.ob('decode.missing', n, ok and (f.end == 'loop' or f.end == 'unwind'), 'a missing field is not an error', at=f.p.insts[-1])
    ctx.floor('decode.missing', 2)
    ctx.floor('decode.value', 11)
    ctx.floor('decode.unknown', 1)


def field_of(a, off):
    """the object a loaded field belongs to"""
    x = one(a)
    if x is None or x[0] != 'bits':
        return None
    return add(unkey(x[1]), num(x[2] // 8 - off))


def hasbit(a, bit):
    """the value is that one bit of the flags"""
    k = bit.bit_length() - 1
    if a[0] == 'cat':
        p = 0
        for w, s in a[1]:
            if s[0] != 'c':
                return p == k and w == 1 and s[0] == 'm' and s[2] % 32 == k
            p += w
    if a[0] == 'bits':
        return a[3] == 1 and a[2] % 32 == k
    if a[0] == 'bin' and a[1] == 'and':
        return const(unkey(a[3])) == bit
    return False


def flags(ref, off, k):
    def f(iv, a):
        if ref is None:
            return None
        b = add(ref, num(off))
        at_ = (b.get(None, 0)) * 8
        if a[1] == key({x: c for x, c in b.items() if x is not None}) and at_ <= a[2] and a[2] + a[3] <= at_ + 32:
            x = (k >> (a[2] - at_)) & ((1 << a[3]) - 1)
            return x, x
        return None
    return f


def flagenv(iv, a, ref, off, k):
    """pieces of the flags put together"""
    if not a or a[0] != 'cat' or a in iv.env or ref is None:
        return
    b = add(ref, num(off))
    base, at_ = key({x: c for x, c in b.items() if x is not None}), b.get(None, 0) * 8
    r = p = 0
    for w, s in a[1]:
        if s[0] == 'm' and s[1] == base:
            r |= ((k >> (s[2] - at_)) & ((1 << w) - 1)) << p
        elif s[0] != 'c':
            return
        else:
            r |= s[1] << p
        p += w
    iv.env[a] = (r, r)


def setbit(x, bit):
    """a value with one more bit set"""
    a = one(x)
    if a is None:
        return False
    if a[0] == 'bin' and a[1] == 'or':
        return bit in (const(unkey(a[2])), const(unkey(a[3])))
    if a[0] == 'cat':
        p = 0
        for w, s in a[1]:
            if s[0] == 'c' and p <= bit.bit_length() - 1 < p + w:
                return s[1] >> (bit.bit_length() - 1 - p) & 1 == 1
            p += w
    return False


RULES = [numbers, copies, fixed, kinds, skip, export, encode, decode]
