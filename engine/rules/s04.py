"""S04: untrusted input never causes out-of-bounds access or unbounded growth."""
import itertools, re
from ..q import *
from ..core import load as core_load, Broken
from ..flow import Flow, key, unkey, atom, num, add, scale, const, one, entails
from .. import seg
from .s01 import noexc

ENTRIES, KEEP, PLAIN = [], [], True
A = lambda k: atom(('arg', k))
BASE, LIMIT, ROOM = atom(('base',)), atom(('limit',)), atom(('room',))
KEPT = ['encode_string', 'encode_string_unescape', 'encode_integer', 'encode_real', 'encode_null', 'encode_bool', 'encode_array', 'encode_array_end', 'encode_obj', 'encode_obj_end',
        'buf_write', 'buf_truncate', 'buf_reset', 'buf_reserve', 'buf_free', 'buf_create', 'buf_emplace', 'str_is_prefix', 'str_is_prefix_case', 'opt_string_set_raw', 'opts_find', 'readahead_read', 'readahead_pushback', 'memmem', 'str_toint']
UNKEPT = ['str_set', 'str_set_u8', 'str_init']
ARITH = ('add', 'sub', 'zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'alloca')
ADDR = ('vp.field.', 'vp.index', 'vp.elem', 'llvm.threadlocal', 'llvm.expect')
PURE = ('encode_', 'isspace', '__ctype', 'strtod', '__errno', 'opt_', 'opts_', 'report_error', 'memmem')


# ---- what the functions called tell about the text
def literal(e, k):
    """length of a string constant"""
    o = e.i.args[k]
    return len(o[1].encode('latin-1', 'replace').split(b'\\0')[0]) if o[0] == 's' else None


def m_strtod(fl, e):
    """reads up to a zero that was put behind the number; moves to somewhere in between"""
    r = atom(('call', 'strtod end', e.n))
    ends = [a for n, a, w, x, i in fl.stores if x is not None and i.d.get('vt') == 'i8' and const(x) == 0]
    b = {k for k in e.a[0] if k is not None}
    ends = [a for a in ends if b <= set(a)]
    if ends:
        fl.more += [(e.n, add(e.a[0], r, -1)), (e.n, add(r, ends[-1], -1))]
    else:
        fl.needs.append((e.n, e.i, e.a[0], None))
        fl.more.append((e.n, add(e.a[0], r, -1)))
    fl.store(e.a[1], r)


def m_compared(size):
    """compares so many bytes; a string constant that was found is all there"""
    def h(fl, e):
        zero = e.f.startswith('str')
        fl.needs.append((e.n, e.i, e.a[0], num(1) if zero and fl.zero else e.a[size]))
        r = atom(('call', e.f, e.n))
        n = const(e.a[size])
        if zero and fl.zero and n is not None and literal(e, 1) is not None and literal(e, 1) >= n:
            fl.when.append((e.n, 'eq', r, [add(add(e.a[0], num(n + 1)), LIMIT, -1)]))
        return r
    return h


def m_strstr(fl, e):
    fl.needs.append((e.n, e.i, e.a[0], num(1) if fl.zero else None))
    r = atom(('call', e.f, e.n))
    n = literal(e, 1)
    fl.when.append((e.n, 'ne', r, [add(e.a[0], r, -1)] + ([add(add(r, num(n + 1)), LIMIT, -1)] if n else [])))
    return r


def m_memchr(fl, e):
    fl.needs.append((e.n, e.i, e.a[0], e.a[2]))
    r = atom(('call', e.f, e.n))
    fl.when.append((e.n, 'ne', r, [add(e.a[0], r, -1), add(add(r, num(1)), add(e.a[0], e.a[2]), -1)]))
    return r


def m_memmem(fl, e):
    """where the text read so far ends, if it does"""
    r = atom(('call', e.f, e.n))
    n = const(e.a[3]) or 0
    z = add(r, num(n))
    fl.when.append((e.n, 'ne', r, [add(e.a[0], r, -1), add(z, LIMIT, -1), add(LIMIT, z, -1), add(BASE, e.a[0], -1), add(e.a[0], BASE, -1)]))
    return r


def m_same(exact):
    """a text known to begin with, or to be, so many bytes"""
    def h(fl, e):
        r = atom(('call', e.f, e.n))
        p, q = fl.load(fl.field(e.a[0], 'Str.pos')), fl.load(fl.field(e.a[0], 'Str.end'))
        g = add(add(p, q, -1), e.a[2])
        fl.when.append((e.n, 'ne', r, [g] + ([scale(g, -1)] if exact else [])))
        return r
    return h


def m_str_copy(fl, e):
    """the copy has a zero behind it"""
    r = atom(('call', e.f, e.n))
    p, q = fl.load(fl.field(e.a[1], 'Str.pos')), fl.load(fl.field(e.a[1], 'Str.end'))
    z = add(r, add(q, p, -1))
    fl.store(fl.field(e.a[0], 'Str.pos'), r)
    fl.store(fl.field(e.a[0], 'Str.end'), z)
    lim = add(z, num(1))
    fl.more += [(e.n, x) for x in (add(p, q, -1), add(lim, LIMIT, -1), add(LIMIT, lim, -1), add(r, BASE, -1), add(BASE, r, -1))]
    return r


def m_slice(fl, e):
    fl.needs.append((e.n, e.i, e.a[1], e.a[2]))


def m_buf(fl, e):
    """appends to a buffer, nothing else"""
    if e.a:
        fl.forget(e.a[0], 40)


def m_reserve(fl, e):
    m_buf(fl, e)
    x = add(fl.load(fl.field(e.a[0], 'Buf.position')), e.a[1])
    fl.more += [(e.n, add(x, ROOM, -1)), (e.n, add(ROOM, x, -1))]


def m_read(fl, e):
    r = atom(('call', e.f, e.n))
    fl.store(e.a[2], atom(('call', 'read', e.n)))
    return r


MODEL = {'strtod': m_strtod, 'strncasecmp': m_compared(2), 'memcmp': m_compared(2), 'strncmp': m_compared(2), 'strstr': m_strstr, 'memchr': m_memchr, 'memmem': m_memmem, 'str_is': m_same(True), 'str_is_case': m_same(True),
         'str_is_prefix': m_same(False), 'str_is_prefix_case': m_same(False), 'str_copy': m_str_copy, 'opt_string_set_raw': m_slice, 'buf_write': m_buf, 'buf_reset': m_buf, 'buf_truncate': m_buf, 'buf_emplace': m_buf,
         'buf_reserve': m_reserve, 'readahead_read': m_read}


class Text(Flow):
    """a path through a parser: what was computed before the segment is computed again where that is arithmetic"""

    def __init__(self, p, P, given, zero):
        self.more, self.needs, self.when = [], [], []
        self.given, self.zero = given, zero
        Flow.__init__(self, p, P, model=MODEL, pure=PURE)

    def before(self, k):
        if not hasattr(self.v, '_defs'):
            self.v._defs = {i.id: i for b in self.v.blocks for i in b if i.id is not None}
        i = self.v._defs.get(k)
        if i is not None and self.p.blocks and self.p.blocks[0] != 0 and (i.op in ARITH or i.op == 'call' and (i.callee or '').startswith(ADDR)):
            Flow.step(self, i, -1, None)
            return self.val.pop(k)
        return atom(('v', k))

    def form0(self, a):
        return atom(('init', key(a)))

    def entry(self):
        """what holds when the function is called: the text given lies within its limits"""
        r = []
        if self.p.blocks[0] == 0:
            for k, lo, hi in self.given:
                x, y = [atom(('init', key(self.field(A(k), f)))) for f in (lo, hi)]
                r += [add(x, y, -1), add(y, LIMIT, -1), add(BASE, x, -1)]
        return r


class Bounds:
    """invariants  x + k <= y  at the heads of the loops of a parser"""

    def __init__(self, P, n, given=(), sentinel=b'', keep=()):
        self.P, self.n, self.sentinel, self.given = P, n, sentinel, given
        self.v = v = core_load([n], [x for x in KEPT + list(keep) if x != n], UNKEPT, False).view(n)
        self.ty = {i.id: i.d.get('t') for b in v.blocks for i in b if i.id is not None}
        self.fls = []
        for p in seg.segments(v, noexc):
            fl = Text(p, P, given, sentinel[-1:] == b'\0')
            fl.end = p.end() if p.cut is None else 'loop'
            if not fl.torn() and fl.end != 'panic':
                self.fls.append(fl)
        self.heads = sorted({fl.p.blocks[0] for fl in self.fls})
        self.cache = {}
        self.positions = {key(x) for fl in self.fls for i in fl.p.insts if i.op == 'load' and direct(v, i.args[0], 'Buf.position') for x in [fl.val.get(i.id)] if x}
        self.always()
        self.places()
        self.solve()

    def always(self):
        """what every way into the first loop establishes about values that do not change"""
        self.ever = []
        ins = [fl for fl in self.fls if fl.p.blocks[0] == 0 and fl.p.cut is not None]
        got = []
        for fl in ins:
            ids = {}
            for k, x in fl.val.items():
                a = one(x)
                if a is not None:
                    ids.setdefault(a, ('v', k))
            s = {}
            for l in fl.entry() + [l for _, l in fl.more]:
                t = {}
                for a, c in l.items():
                    t[a if a is None or a[0] in ('limit', 'base', 'room', 'arg') else ids.get(a)] = c
                if None in t and None not in l or any(a is None for a in [ids.get(a, 0) for a in l]):
                    continue
                t = {a: c for a, c in t.items()}
                if len(t) == len(l):
                    s[key(t)] = t
            same = {}
            for k, x in fl.val.items():
                a = one(x)
                if a is not None and self.v.inst[k].op in ('load', 'call') and not (self.v.inst[k].callee or '').startswith(ADDR):
                    if same.setdefault(a, k) != k:
                        t = {('v', same[a]): 1, ('v', k): -1}
                        s[key(t)], s[key(scale(t, -1))] = t, scale(t, -1)
            got.append(s)
        if got:
            self.ever = [t for k, t in got[0].items() if all(k in s for s in got)]

    def places(self):
        """what an invariant can speak about"""
        v = self.v
        slots, vs, ats = set(), set(), set()
        ks = {0, 1}

        def collect(k):
            if k[0] == 'v':
                vs.add(k[1])
            elif k[0] == 'init':
                x = [a for _, a, c in k[1] if a is not None]
                if len(x) == 1 and x[0][0] == 'arg':
                    ats.add(k)
        for fl in self.fls:
            for n, a, w, x, i in fl.stores:
                b = [k for k in a if k is not None]
                if x is not None and i.d.get('vt') == 'p':
                    for k in x:
                        if k is not None:
                            collect(k)
                if len(b) == 1 and b[0][0] in ('arg', 'alloca'):
                    if x is not None and i.d.get('vt') in ('p', 'i64'):
                        slots.add(key(a))
                    elif x is None and (const(w) or 99) <= 64:
                        slots |= {key(add(a, num(o))) for o in range(0, const(w), 8)}
            for k in fl.mem:
                b = [a for _, a, c in k if a is not None]
                if len(b) == 1 and b[0][0] == 'alloca' and any(e.f == 'str_copy' for e in fl.calls):
                    slots.add(k)
            for f in fl.facts:
                for k in f[2]:
                    if k is not None:
                        collect(k)
                c = f[2].get(None, 0)
                if 0 < abs(c) <= 64 and f[1] not in ('eq', 'ne') and len(f[2]) > 2:
                    ks |= {abs(c), abs(c) - 1, abs(c) + 1}
            for n, a, w, i in fl.loads:
                for k in a:
                    if k is not None:
                        collect(k)
            for e in fl.calls:
                if e.f in ('str_is_prefix', 'str_is_prefix_case', 'strncmp', 'strncasecmp'):
                    ks |= {const(x) for x in e.a if const(x)}
        # the initial contents of a place serve as long as nothing writes there
        for fl in self.fls:
            for k, x in fl.mem.items():
                if key(x) != key(atom(('init', k))):
                    ats.discard(('init', k))
        ats = {a for a in ats if a[1] not in slots}
        for l in self.ever:
            vs |= {a[1] for a in l if a and a[0] == 'v'}
        self.ks = sorted(k for k in ks | set(range(len(self.sentinel) + 1)) if k <= 64)
        common = [('slot', s) for s in sorted(slots, key=str)] + [('v', x) for x in sorted(vs)] + [('atom', a) for a in sorted(ats, key=str)]
        self.at = {h: [('phi', i.id) for i in seg.phis(v, h) if i.d.get('t') in ('p', 'i64', 'i32')] + common for h in self.heads}

    def form(self, x):
        """a place as the segment that begins at the head sees it"""
        k, d = x
        if k == 'zero':
            return {}
        return atom(d if k == 'atom' else ('init', d) if k == 'slot' else (k, d) if k in ('phi', 'v') else (k,))

    def arrived(self, fl, x, phis):
        k, d = x
        if k == 'phi':
            return phis.get(d)
        if k == 'slot':
            return fl.load(unkey(d))
        if k in ('v', 'op'):
            return fl.opd(('v', d) if k == 'v' else d)
        return self.form(x)

    def candidates(self, h):
        out = []
        for x, y in itertools.permutations(self.at[h] + [('limit', 0), ('base', 0), ('zero', 0)], 2):
            tx, ty = [self.ty.get(z[1]) if z[0] in ('phi', 'v') else None for z in (x, y)]
            if y[0] in ('zero', 'base') or x[0] == y[0] == 'atom':
                continue
            if x[0] == 'zero' and (y[0] != 'phi' or ty == 'p'):
                continue
            if x[0] == 'limit' and (not self.sentinel or y[0] not in ('v', 'slot') or ty == 'i32'):
                continue
            if x[0] == 'base' and (ty == 'i32' or y[0] == 'limit') or y[0] == 'limit' and tx == 'i32':
                continue
            if tx and ty and (tx == 'i32') != (ty == 'i32'):
                continue
            out.append((((x, 1), (y, -1)), self.ks[-1]))
        # one does not run ahead of the other
        ph = [i for i in seg.phis(self.v, h) if i.d.get('t') == 'p']
        first = {i.id: [o for o, b in i.d['in'] if b < h] for i in ph}
        for i, j in itertools.permutations(ph, 2):
            for p in first[i.id][:1]:
                for q in first[j.id][:1]:
                    if p[0] == q[0] == 'v':
                        out.append(((('phi', i.id), 1), (('phi', j.id), -1), (('v', p[1]), -1), (('v', q[1]), 1)))
                        out[-1] = (out[-1], 0)
        return out

    def total(self, fl, inv, phis=None):
        """the form of an invariant at its head, or as a segment brings it along"""
        r = {}
        for x, c in inv:
            f = self.arrived(fl, x, phis) if phis is not None else self.form(x)
            if f is None:
                return None
            r = add(r, f, c)
        return r

    def solve(self):
        """the strongest of the candidates that every segment keeps"""
        inv = {h: dict(self.candidates(h)) for h in self.heads if h}
        self.inv, self.tests = inv, 0
        while True:
            changed = False
            for fl in self.fls:
                cut = fl.p.cut
                if cut is None or cut not in inv or not inv[cut]:
                    continue
                ph = seg.arrive(fl, fl.p)
                le, ne = self.facts(fl)
                ks = {key(x) for x in ne}
                order = Order([add(f, num(1)) if key(f) in ks or key(scale(f, -1)) in ks else f for f in le])
                wide = any(len([k for k in f if k is not None]) > 2 for f in le)
                for c, k in list(inv[cut].items()):
                    g = self.total(fl, c, ph)
                    while g is not None and k is not None:
                        self.tests += 1
                        q = order.proves(add(g, num(k)))
                        if q or (q is None or wide) and entails(le, ne, add(g, num(k))):
                            break
                        j = self.ks.index(k)
                        k = self.ks[j - 1] if j and len(c) == 2 else None
                        changed = True
                    if g is None or k is None:
                        del inv[cut][c]
                        changed = True
                    else:
                        inv[cut][c] = k
            self.cache = {}
            if not changed:
                break

    def facts(self, fl, upto=None):
        if (id(fl), upto) in self.cache:
            return self.cache[id(fl), upto]
        le, ne = fl.known(upto)
        h = fl.p.blocks[0]
        base = fl.entry() + [l for n, l in fl.more if upto is None or n <= upto]
        if h:
            base += self.ever
            base += [add(self.total(fl, c), num(k)) for c, k in thin(self.inv.get(h, {}))]
        for n, op, r, ls in fl.when:
            if any(f[1] == op and key(f[2]) in (key(r), key(scale(r, -1))) and (upto is None or f[0] <= upto) for f in fl.facts):
                base += ls
        le = base + le
        le += self.reached(fl, le, ne, upto)
        o = Order(le)
        for f in ne:
            for g in (f, scale(f, -1)):
                if len(g) > 1 and o.proves(g):
                    le.append(add(g, num(1)))
        self.cache[id(fl), upto] = le, ne
        return le, ne

    def reached(self, fl, le, ne, upto=None):
        """a byte which is not the one that ends the text lies before it"""
        out, s = [], self.sentinel
        for n, a, w, i in fl.loads if s else []:
            b = fl.val.get(i.id)
            if i.d.get('t') != 'i8' or b is None or upto is not None and n >= upto:
                continue
            is_, not_ = byte(fl, b, upto)
            for j, c in reversed(list(enumerate(s))):
                if is_ is not None and c not in is_ or c in not_:
                    g = add(add(a, num(len(s) - j)), LIMIT, -1)
                    if entails(le + out, ne, g):
                        out.append(add(g, num(1)))
        return out


def thin(inv):
    """without what follows from two others"""
    two = {(c[0][0], c[1][0]): k for c, k in inv.items() if len(c) == 2}
    nodes = {x for e in two for x in e}
    for x, y in list(two):
        for z in nodes:
            if z != x and z != y and (x, z) in two and (z, y) in two and two[x, z] + two[z, y] >= two[x, y]:
                del two[x, y]
                break
    return [(c, k) for c, k in inv.items() if len(c) != 2 or (c[0][0], c[1][0]) in two]


class Order:
    """differences between places"""

    def __init__(self, le):
        self.e = {}
        for f in le:
            ks = [k for k in f if k is not None]
            if len(ks) == 1 and abs(f[ks[0]]) == 1:
                x, y = (ks[0], None) if f[ks[0]] == 1 else (None, ks[0])
            elif len(ks) == 2 and sorted(f[k] for k in ks) == [-1, 1]:
                x, y = ks if f[ks[0]] == 1 else ks[::-1]
            else:
                continue
            c = -f.get(None, 0)             # x - y <= c
            m = self.e.setdefault(x, {})
            m[y] = min(m.get(y, c), c)
        self.d = {}

    def least(self, x):
        if x not in self.d:
            d = {x: 0}
            todo = [x]
            n = 0
            while todo and n < 5000:
                n += 1
                u = todo.pop(0)
                for w, c in self.e.get(u, {}).items():
                    if w not in d or d[u] + c < d[w]:
                        d[w] = d[u] + c
                        todo.append(w)
            self.d[x] = d
        return self.d[x]

    def proves(self, g):
        ks = [k for k in g if k is not None]
        if not ks:
            return g.get(None, 0) <= 0
        if len(ks) == 1 and abs(g[ks[0]]) == 1:
            x, y = (ks[0], None) if g[ks[0]] == 1 else (None, ks[0])
        elif len(ks) == 2 and sorted(g[k] for k in ks) == [-1, 1]:
            x, y = ks if g[ks[0]] == 1 else ks[::-1]
        else:
            return None
        d = self.least(x)
        return y in d and d[y] + g.get(None, 0) <= 0


def byte(fl, b, upto):
    """(what a byte is among, what it is not)"""
    is_, not_ = None, set()
    for f in fl.facts:
        if upto is not None and f[0] > upto:
            continue
        c = const(add(f[2], b, -1))
        if c is None:
            c = const(add(f[2], b))
            if c is None:
                continue
            c = -c
        if f[1] == 'eq':
            is_ = {-c & 255}
        elif f[1] == 'ne':
            not_.add(-c & 255)
        elif f[1] == 'ult' and len(f) > 3 and const(f[3][1]) is not None:
            m = const(add(f[3][0], b, -1))
            if m is not None:
                is_ = {(x - m) & 255 for x in range(const(f[3][1]))}
    for n, x, ks in fl.among:
        if (upto is None or n <= upto) and key(x) == key(b):
            is_ = {k & 255 for k in ks}
    return is_, not_


def foreign(a):
    """an address that comes out of another object: no text"""
    for k in a:
        if k is not None and k[0] == 'init':
            b = [x for _, x, c in k[1] if x is not None]
            if b and b[0][0] not in ('arg', 'alloca'):
                return True
        if k is not None and k[0] in ('global', 'str'):
            return True
    return False


def direct(v, o, *what):
    """is an operand the address of a field or of a variable"""
    if o[0] == 'fld':
        return not what or o[2] in what
    i = v.inst.get(o[1]) if o[0] == 'v' else None
    if i is None:
        return False
    c = i.callee or ''
    return c in ['vp.field.' + x for x in what] if what else c.startswith('vp.field.') or i.op == 'alloca'


def target(B, a, deep=3):
    """is an address in the buffer that is written"""
    ids = [(k[1], k[0]) for k in a if k is not None and k[0] in ('v', 'phi')]
    for k in a:
        if k is not None and k[0] == 'init' and key(atom(k)) in B.positions:
            return True
    for x, kind in ids:
        i = B.v.inst.get(x)
        if i is None:
            continue
        if i.op == 'load' and direct(B.v, i.args[0], 'Buf.position'):
            return True
        if i.op == 'phi' and deep:
            for o, b in i.d['in']:
                if o[0] == 'v' and o[1] != x and target(B, atom(('v', o[1])), deep - 1):
                    return True
        if i.callee and i.callee.startswith(('vp.index', 'vp.elem')) and deep and i.args[0][0] == 'v' and target(B, atom(('v', i.args[0][1])), deep - 1):
            return True
    return False


def within(B, report):
    """every byte read and every slice taken lies within the text"""
    for fl in B.fls:
        for n, a, w, i in fl.loads:
            if i.d.get('t') == 'i8' and i.args and not direct(B.v, i.args[0]) and not foreign(a) and not target(B, a):
                le, ne = B.facts(fl, n)
                report(fl, n, i, 'read', entails(le, ne, add(add(a, num(1)), LIMIT, -1)), entails(le, ne, add(BASE, a, -1)))
        for n, i, a, w in fl.needs:
            if not foreign(a):
                le, ne = B.facts(fl, n)
                report(fl, n, i, 'read', w is not None and entails(le, ne, add(add(a, w), LIMIT, -1)), entails(le, ne, add(BASE, a, -1)))
        for n, a, w, x, i in fl.stores:
            if x is None:
                continue
            if direct(B.v, i.args[1], 'Str.end') and const(x) is None and not foreign(x):
                le, ne = B.facts(fl, n)
                b = [z for m, q, _, z, _ in fl.stores if m < n and z is not None and key(q) == key(add(a, num(-8)))] or [fl.form0(add(a, num(-8)))]
                b = b[-1]
                report(fl, n, i, 'slice', entails(le, ne, add(x, LIMIT, -1)), const(b) is None and entails(le, ne, add(BASE, b, -1)) and entails(le, ne, add(b, x, -1)))
            elif i.d.get('vt') == 'i8' and not direct(B.v, i.args[1]) and not foreign(a) and not [k for k in a if k and k[0] == 'alloca']:
                le, ne = B.facts(fl, n)
                report(fl, n, i, 'write', entails(le, ne, add(add(a, num(1)), ROOM, -1)), True)


# ---- the rules
STRS = lambda k: [(k, 'Str.pos', 'Str.end')]
PARSERS = [('json_parse', STRS(1), b''), ('http_read', [], b'\r\n\r\n'), ('uri_parse', STRS(1), b'\0'), ('uri_parse_endpoint', STRS(1), b'\0'), ('base64_encode', STRS(1), b''), ('base64_decode', STRS(1), b''),
           ('base64url_encode', STRS(1), b''), ('base64url_decode', STRS(1), b''), ('uuid_set_nothrow', STRS(1), b''), ('jwt_decode', STRS(1), b''), ('date_set', STRS(0), b''), ('timestamp_set', STRS(1), b''),
           ('interval_set', STRS(1), b''), ('unescape_str', STRS(1), b''), ('escape_str', STRS(1), b''), ('str_toint', STRS(0), b''), ('str_split', STRS(0), b''), ('str_arg', STRS(0), b''), ('str_gets', STRS(0), b''),
           ('str_shrink', STRS(0), b''), ('utf8_strlen', STRS(0), b'')]
CODECS = ['base64_encode', 'base64_decode', 'base64url_encode', 'base64url_decode']
CACHE = {}


def bounds(P, n):
    if (id(P), n) not in CACHE:
        g, s = {x: (g, s) for x, g, s in PARSERS}[n]
        CACHE[id(P), n] = Bounds(P, n, g, s)
    return CACHE[id(P), n]


def texts(ctx, P):
    """in every parser of untrusted text, each byte that is read and each slice that is handed on lies between the beginning and the end of the text, on every path and in every round of every loop"""
    for n, g, s in PARSERS:
        B = bounds(P, n)
        bad, seen = {}, {}

        def report(fl, at, i, what, hi, lo):
            if what == 'write':
                return
            k = (i.loc()[-1][0], i.loc()[-1][1], what)
            seen[k] = i
            if not hi:
                bad.setdefault(k, (i, 'a %s can reach behind the end of the text' % what))
            elif not lo:
                bad.setdefault(k, (i, 'a %s can lie before the beginning of the text' % what if what == 'read' else 'a slice can begin outside the text or behind its end'))
        within(B, report)
        if not seen:
            raise Broken('%s reads no text' % n)
        for k in sorted(seen, key=str):
            ctx.ob('texts.' + k[2], '%s:%s' % (n, seen[k].loc()[-1][2]), k not in bad, bad[k][1] if k in bad else '', at=seen[k], why='%d paths' % len(B.fls))
    ctx.floor('texts.read', 40)
    ctx.floor('texts.slice', 8)


def number(v, o, n, deep=40):
    """what an operand is worth for a text of n bytes"""
    if o[0] == 'c':
        return o[1]
    if o[0] == 'd':
        return float(o[1])
    if o[0] != 'v' or not deep:
        return None
    i = v.inst.get(o[1])
    if i is None:
        return None
    if i.op == 'load':
        return n if direct(v, i.args[0], 'Str.end') else 0 if direct(v, i.args[0], 'Str.pos') else None
    x = [number(v, a, n, deep - 1) for a in i.args]
    if any(k is None for k in x):
        return None
    if i.op in ('ptrtoint', 'sext', 'zext', 'trunc', 'bitcast', 'freeze'):
        return x[0]
    import math
    c = i.callee or ''
    try:
        if i.op == 'call':
            return math.ceil(x[0]) if 'ceil' in c else math.floor(x[0]) if 'floor' in c else x[0] if c.startswith('llvm.expect') else None
        return {'sub': lambda: x[0] - x[1], 'add': lambda: x[0] + x[1], 'mul': lambda: x[0] * x[1], 'shl': lambda: x[0] << x[1], 'ashr': lambda: x[0] >> x[1], 'lshr': lambda: x[0] >> x[1], 'and': lambda: x[0] & x[1],
                'or': lambda: x[0] | x[1], 'sdiv': lambda: int(x[0] / x[1]), 'udiv': lambda: x[0] // x[1], 'urem': lambda: x[0] % x[1], 'srem': lambda: int(math.fmod(x[0], x[1])), 'sitofp': lambda: float(x[0]), 'uitofp': lambda: float(x[0]),
                'fptosi': lambda: int(x[0]), 'fptoui': lambda: int(x[0]), 'fdiv': lambda: x[0] / x[1], 'fmul': lambda: x[0] * x[1], 'fadd': lambda: x[0] + x[1], 'fsub': lambda: x[0] - x[1]}[i.op]()
    except KeyError:
        return None


class Machine:
    """the rounds of a codec counted out: positions are numbers, the bytes themselves stay unknown"""

    def __init__(self, B, n):
        self.B, self.n, self.v = B, n, B.v
        self.writes, self.unfilled = set(), False
        todo, seen = [], set()
        for fl in B.fls:
            if fl.p.blocks[0] == 0:
                self.go(fl, {}, None, frozenset(), todo)
        while todo:
            h, st, out, filled = todo.pop()
            k = (h, tuple(sorted(st.items(), key=str)), out, filled)
            if k in seen:
                continue
            seen.add(k)
            if len(seen) > 4000:
                raise Broken('%s: too many states' % B.n)
            for fl in B.fls:
                if fl.p.blocks[0] == h:
                    self.go(fl, st, out, filled, todo)
        self.states = len(seen)

    def at(self, fl, st, out, f):
        r = 0
        for k, c in f.items():
            x = 1 if k is None else self.one(fl, st, out, k)
            if x is None:
                return None
            r += c * x
        return r

    def one(self, fl, st, out, k):
        if k[0] == 'phi':
            return st.get(k[1])
        if k[0] in ('limit',):
            return self.n
        if k[0] == 'base':
            return 0
        if k[0] == 'v':
            i = self.v.inst.get(k[1])
            if i is not None and i.op == 'load':
                if direct(self.v, i.args[0], 'Buf.position'):
                    return 0
                return self.n if direct(self.v, i.args[0], 'Str.end') else 0 if direct(self.v, i.args[0], 'Str.pos') else None
            if i is not None and i.op == 'phi':
                return st.get(k[1])
            return None
        if k[0] == 'init':
            d = {x: c for _, x, c in k[1]}
            for a in [('arg', j) for j in range(4)]:
                if a in d:
                    if key(atom(k)) == key(atom(('init', key(fl.field(A(a[1]), 'Buf.position'))))):
                        return out
                    if key(atom(k)) == key(atom(('init', key(fl.field(A(a[1]), 'Str.end'))))) and a[1] == self.B.given[0][0]:
                        return self.n
                    if key(atom(k)) == key(atom(('init', key(fl.field(A(a[1]), 'Str.pos'))))) and a[1] == self.B.given[0][0]:
                        return 0
            return None
        if k[0] == 'after':
            return 0 if key(atom(k)) in self.B.positions else None
        if k[0] == 'bin':
            x, y = [self.at(fl, st, out, unkey(z)) for z in k[2:4]]
            if x is None or y is None:
                return None
            return {'and': lambda: x & y, 'or': lambda: x | y, 'lshr': lambda: x >> y, 'ashr': lambda: x >> y, 'urem': lambda: x % y, 'srem': lambda: x % y, 'udiv': lambda: x // y, 'sdiv': lambda: x // y}.get(k[1], lambda: None)()
        return None

    def go(self, fl, st, out, filled, todo):
        slot = fl.field(A(0), 'Buf.position')
        if out is None:
            out = 0
        for f in fl.facts:
            x = self.at(fl, st, out, f[2])
            if x is not None and not {'eq': x == 0, 'ne': x != 0, 'slt': x < 0, 'ult': x < 0, 'sle': x <= 0, 'ule': x <= 0, 'sgt': x > 0, 'ugt': x > 0, 'sge': x >= 0, 'uge': x >= 0}[f[1]]:
                return
        for n, x, ks in fl.among:
            y = self.at(fl, st, out, x)
            if y is not None and y not in ks:
                return
        filled = set(filled)
        ev = [(n, 'w', a) for n, a, w, x, i in fl.stores if i.d.get('vt') == 'i8' and not direct(self.v, i.args[1]) and target(self.B, a)]
        ev += [(n, 'r', a) for n, a, w, i in fl.loads if i.d.get('t') == 'i8' and i.args and not direct(self.v, i.args[0]) and target(self.B, a)]
        for n, k, a in sorted(ev, key=lambda e: e[0]):
            x = self.at(fl, st, out, a)
            if x is None:
                raise Broken('%s: cannot tell where byte is written' % self.B.n)
            if k == 'w':
                self.writes.add(x)
                filled.add(x)
            elif x not in filled:
                self.unfilled = True
        o = self.at(fl, st, out, fl.mem[key(slot)]) if key(slot) in fl.mem else out
        if fl.p.cut is None:
            if fl.end == 'ret' and any(x not in filled for x in range(o or 0)):
                self.unfilled = True
            return
        ph = {k: self.at(fl, st, out, f) for k, f in seg.arrive(fl, fl.p).items()}
        # what was written long ago does not matter any more
        keep = frozenset(x for x in filled)
        if o is None:
            raise Broken('%s: cannot tell how far the buffer is filled' % self.B.n)
        todo.append((fl.p.cut, {k: x for k, x in ph.items() if x is not None}, o, keep))


def codecs(ctx, P):
    """a codec reserves what it writes for every length of text, writes nowhere else, and leaves no byte of its result unwritten"""
    for n in CODECS:
        B = bounds(P, n)
        rs = {id(e.i): (e.i, fl) for fl in B.fls for e in fl.calls if e.f == 'buf_reserve'}
        most, room = {}, {}
        bad = None
        for k in range(0, 25):
            m = Machine(B, k)
            most[k] = max(m.writes, default=-1) + 1
            got = [number(B.v, i.args[1], k) for i, fl in rs.values()]
            if not got or any(x is None for x in got):
                raise Broken('%s: cannot tell how much is reserved' % n)
            room[k] = max(got)
            if any(x < 0 for x in m.writes) or most[k] > room[k]:
                bad = bad or 'for %d bytes of text %d bytes are written where %d were reserved' % (k, most[k], room[k])
            if m.unfilled:
                bad = bad or 'for %d bytes of text a byte of the result is used that was not written' % k
        if not bad and any(most[k + 12] - most[k] > room[k + 12] - room[k] for k in range(13)):
            bad = 'what is written grows faster than what is reserved'
        ctx.ob('codecs.room', n, bad is None, bad or '', at=next(iter(rs.values()))[0] if rs else None, why='25 lengths, period 12')
        if not any(most.values()):
            raise Broken('%s writes nothing' % n)
    ctx.floor('codecs.room', len(CODECS))


def copies(ctx, P):
    """where a text is written through a cursor, the cursor stays within what was reserved and every byte it passes is written"""
    for n in ['unescape_str']:
        B = bounds(P, n)
        bad, seen = {}, {}

        def report(fl, at, i, what, hi, lo):
            if what == 'write':
                k = i.loc()[-1][:2]
                seen[str(k)] = i
                if not hi:
                    bad[str(k)] = 'a write can reach behind what was reserved'
        within(B, report)
        for k in sorted(seen):
            ctx.ob('copies.room', '%s:%s' % (n, seen[k].loc()[-1][2]), k not in bad, bad.get(k, ''), at=seen[k])
        if not seen:
            raise Broken('%s writes nothing' % n)
        gap, steps, last = None, 0, None
        for fl in B.fls:
            if fl.p.cut is None or fl.p.cut != fl.p.blocks[0]:
                continue
            for k, f in seg.arrive(fl, fl.p).items():
                d = const(add(f, atom(('phi', k)), -1))
                if d and B.ty.get(k) == 'p' and target(B, atom(('phi', k))):
                    steps += 1
                    have = {const(add(a, atom(('phi', k)), -1)) for m, a, w, x, i in fl.stores}
                    last = fl.p.insts[-1]
                    if not set(range(d)) <= have:
                        gap = gap or fl.p.insts[-1]
        ctx.ob('copies.filled', n, gap is None and steps > 0, 'a byte of the result is counted that was not written', at=gap or last, why='%d steps' % steps)
    ctx.floor('copies.room', 1)


def span(v, o, deep=20):
    """least and greatest value of an operand by its type and the masks applied"""
    if o[0] == 'c':
        return o[1], o[1]
    i = v.inst.get(o[1]) if o[0] == 'v' else None
    if i is None or not deep:
        return None
    W = {'i1': 1, 'i8': 8, 'i16': 16, 'i32': 32}
    x = [span(v, a, deep - 1) for a in i.args]
    c = i.args[1][1] if len(i.args) > 1 and i.args[1][0] == 'c' else None
    if i.op in ('zext', 'sext'):
        s = v.inst.get(i.args[0][1]) if i.args[0][0] == 'v' else None
        w = W.get(s.d.get('t')) if s is not None else None
        if x[0] and (i.op == 'sext' or x[0][0] >= 0):
            return x[0]
        return None if w is None else (0, (1 << w) - 1) if i.op == 'zext' else (-(1 << (w - 1)), (1 << (w - 1)) - 1)
    if i.op == 'and' and c is not None and c >= 0:
        return 0, c
    if i.op in ('lshr', 'ashr') and c is not None and x[0] and x[0][0] >= 0:
        return x[0][0] >> c, x[0][1] >> c
    if i.op == 'shl' and c is not None and x[0] and x[0][0] >= 0:
        return x[0][0] << c, x[0][1] << c
    if i.op in ('or', 'xor') and x[0] and x[1] and x[0][0] >= 0 and x[1][0] >= 0:
        return 0, (1 << max(x[0][1].bit_length(), x[1][1].bit_length())) - 1
    if i.op == 'add' and x[0] and x[1]:
        return x[0][0] + x[1][0], x[0][1] + x[1][1]
    if i.op in ('urem', 'srem') and c and x[0] and x[0][0] >= 0:
        return 0, c - 1
    if i.op == 'trunc' and x[0] and 0 <= x[0][0] and x[0][1] < (1 << (W.get(i.d.get('t'), 64) - 1)):
        return x[0]
    if i.op == 'call' and (i.callee or '').startswith('llvm.expect'):
        return x[0]
    return None


def tables(ctx, P):
    """a constant table is read with an index that lies within it, whatever the byte that selects the entry"""
    for n in CODECS:
        B = bounds(P, n)
        ok, seen = {}, {}
        for fl in B.fls:
            for m, a, w, i in fl.loads:
                g = [k for k in a if k is not None and k[0] == 'global']
                d = B.v.inst.get(i.args[0][1]) if i.args and i.args[0][0] == 'v' else None
                if not g or d is None or not (d.callee or '').startswith(('vp.elem', 'vp.index')):
                    continue
                z = re.match(r'\[(\d+)\]', str(P.globals[g[0][1]].get('ty', '')))
                if not z:
                    continue
                size = int(z.group(1))
                x = fl.opd(d.args[1])
                s = span(B.v, d.args[1])
                le, ne = B.facts(fl, m)
                hi = s is not None and s[1] < size or entails(le, ne, add(x, num(1 - size)))
                lo = s is not None and s[0] >= 0 or entails(le, ne, scale(x, -1))
                k = str(i.loc()[-1][:2])
                seen[k] = (i, g[0][1])
                ok[k] = ok.get(k, True) and hi and lo
        for k in sorted(seen):
            ctx.ob('tables.index', '%s:%s' % (n, seen[k][1]), ok[k], 'an entry outside the table can be read', at=seen[k][0])
        if not seen:
            raise Broken('%s uses no table' % n)
    ctx.floor('tables.index', 8)


def limits(ctx, P):
    """the header of a message is given up once it is longer than it may be; room for the content is reserved only within the limit given and the range of a size; no more is read than was announced"""
    B = bounds(P, 'http_read')
    n, ok, at = 0, True, None
    for fl in B.fls:
        es = [e for e in fl.calls if e.f == 'buf_write']
        if fl.p.cut is None or not es or not any(e.f == 'readahead_read' for e in fl.calls):
            continue
        # does the loop go on reading?
        if fl.p.cut != fl.p.blocks[0] and not any(g.p.blocks[0] == fl.p.cut and any(e.f == 'readahead_read' for e in g.calls) for g in B.fls):
            continue
        b = es[-1].a[0]
        n += 1
        size = add(fl.load(fl.field(b, 'Buf.position')), fl.load(fl.field(b, 'Buf.start')), -1)
        at = es[-1].i
        ok = ok and fl.proves(add(size, num(65536), -1))
    # what is parsed ends with the end of the header that was found
    last = set()
    for fl in B.fls:
        for e in fl.calls:
            if e.f == 'memmem':
                for g in fl.facts:
                    if g[1] == 'ne' and key(g[2]) == key(e.r) and not (fl.p.cut is None and fl.p.end() == 'panic'):
                        m = literal(e, 2)
                        pos = [x for k, q, w, x, i in fl.stores if k > e.n and x is not None and e.r and one(e.r) in x and const(add(x, e.r, -1)) is not None]
                        last.add((e.i, bool(pos) and const(add(pos[-1], e.r, -1)) == m))
    for i, good in sorted(last, key=lambda x: str(x[0].loc())):
        ctx.ob('limits.ended', 'http_read', good, 'the text that is parsed does not end with the end of the header', at=i)
    ctx.floor('limits.ended', 1)
    ctx.ob('limits.header', 'http_read', ok and n > 0, 'a header of any length is read', at=at, why='%d rounds' % n)
    v = core_load(['http_read_content_limit'], [x for x in KEPT if x != 'http_read_content_limit'] + ['http_find'], UNKEPT, False).view('http_read_content_limit')
    fls = [f for f in (Text(p, P, [], False) for p in seg.segments(v, noexc)) if not f.torn() and not (f.p.cut is None and f.p.end() == 'panic')]
    res = n = 0
    ends = [i for fl in fls for i in fl.p.insts if i.op == 'store' and i.d.get('vt') == 'i8']
    for fl in fls:
        for e in fl.calls:
            if e.f == 'buf_reserve' and key(e.a[0]) == key(A(2)):
                res += 1
                le, ne = fl.known(e.n)
                ctx.ob('limits.content', 'http_read_content_limit', entails(le, ne, add(e.a[1], add(A(3), num(1)), -1)), 'room for the content is reserved before its size was compared with the limit', at=e.i)
                ctx.ob('limits.range', 'http_read_content_limit', entails(le, ne, add(e.a[1], num(2147483647), -1)), 'the size announced does not fit the size of a buffer', at=e.i)
                told = [c for c in fl.calls if c.f == 'str_toint' and c.n < e.n]
                more = [add(e.a[1], fl.load(c.a[1]), -1) for c in told]
                ok = any(const(x) is not None and const(x) >= (1 if ends else 0) for x in more)
                ctx.ob('limits.room', 'http_read_content_limit', ok, 'less room is reserved than the content and its end need', at=e.i)
            if e.f == 'readahead_read':
                n += 1
                ctx.ob('limits.left', 'http_read_content_limit', left(fl, e), 'more can be read than was announced', at=e.i)
    if not res:
        raise Broken('http_read_content_limit reserves nothing')
    if not n:
        raise Broken('http_read_content_limit reads nothing')
    # the buffer that is read from
    v = core_load(['readahead_read'], [x for x in KEPT if x != 'readahead_read'] + ['tcp_read'], UNKEPT, False).view('readahead_read')
    n = 0
    for p in seg.segments(v, noexc):
        fl = Flow(p, P)
        r = p.v.blocks[p.blocks[-1]][-1]
        if p.cut is not None or r.op != 'ret' or fl.torn():
            continue
        x = fl.opd(r.args[0] if r.args else r.d['v'])
        if const(x) == 0:
            continue
        n += 1
        st, at_ = fl.field(A(0), 'Readahead.buf'), fl.field(A(0), 'Readahead.offset')
        old, new = atom(('init', key(at_))), fl.load(at_)
        size = add(fl.load(fl.field(st, 'Buf.position')), fl.load(fl.field(st, 'Buf.start')), -1)
        le, ne = fl.known()
        ok = entails(le, ne, add(add(old, x), size, -1)) and entails(le, ne, add(x, atom(('arg', 1)), -1)) and not add(add(old, x), new, -1)
        ctx.ob('limits.chunk', 'readahead_read', ok, 'more is handed out than was read or asked for, or the same again', at=r)
    if not n:
        raise Broken('readahead_read hands out nothing')


def left(fl, e):
    """asked for at most what was announced less what is there; the announced size is what the size of the content is compared with"""
    if any(c.n < e.n and c.f.startswith('buf_') and c.f != 'buf_reserve' and key(c.a[0]) == key(A(2)) for c in fl.calls):
        return False
    size = add(atom(('init', key(fl.field(A(2), 'Buf.position')))), atom(('init', key(fl.field(A(2), 'Buf.start')))), -1)
    le, ne = fl.known(e.n)
    for f in fl.facts:
        for s in (1, -1):
            more = scale(f[2], s)
            told = add(more, size)
            if f[0] <= e.n and None not in told and len(told) == 1 and set(told.values()) == {1} and entails(le, ne, add(e.a[1], more, -1)):
                return True
    return False


RULES = [texts, tables, codecs, copies, limits]
