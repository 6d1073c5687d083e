"""Flow with memory and values kept as lanes of bits: what is read from and written to bit fields is told apart exactly.

A lane is (width, source); sources are ('c', n), ('m', base, position) for what memory held when the path began,
('f', form, low) for bits of a value from `low` up and ('u', id, low) for what is not known."""
from .flow import Flow, key, unkey, atom, num, add, scale, const, one


def bits_of(t):
    return 64 if t in ('p', 'ptr', '', None) else int(t[1:]) if t[0] == 'i' and t[1:].isdigit() else {'double': 64, 'float': 32}.get(t, 64)


def sub(lane, lo, w):
    s = lane[1]
    if s[0] == 'c':
        return (w, ('c', (s[1] >> lo) & ((1 << w) - 1)))
    if s[0] in ('f', 'u', 'm'):
        return (w, (s[0], s[1], s[2] + lo))
    raise KeyError(s)


def norm(ls):
    """merge neighbours that continue each other"""
    r = []
    for w, s in ls:
        if not w:
            continue
        if r:
            pw, ps = r[-1]
            if ps[0] == 'c' and s[0] == 'c':
                r[-1] = (pw + w, ('c', ps[1] | (s[1] << pw)))
                continue
            if ps[0] == s[0] and s[0] in 'fum' and ps[1] == s[1] and ps[2] + pw == s[2]:
                r[-1] = (pw + w, ps)
                continue
        r.append((w, s))
    return r


def cutl(ls, lo, w):
    """bits lo .. lo + w of lanes (zero beyond)"""
    r, at = [], 0
    for lw, s in ls:
        a, b = max(lo, at), min(lo + w, at + lw)
        if a < b:
            r.append(sub((lw, s), a - at, b - a))
        at += lw
    if at < lo + w:
        r.append((lo + w - max(at, lo), ('c', 0)))
    return norm(r)


def total(ls):
    return sum(w for w, _ in ls)


class Bits(Flow):
    def __init__(self, p, P, **kw):
        self.lv = {}
        self.wr = []
        super().__init__(p, P, **kw)

    # ---- values
    def wrap(self, form, W):
        c = const(form)
        if c is not None:
            return [(W, ('c', c & ((1 << W) - 1)))]
        z = 0
        while form and all(x % 2 == 0 for x in form.values()) and z < W - 1:
            form = {k: x // 2 for k, x in form.items()}
            z += 1
        a = one(form)
        if a is not None and a[0] == 'bits' and a[3] <= W - z:
            return norm([(z, ('c', 0)), (a[3], ('m', a[1], a[2])), (W - z - a[3], ('c', 0))])
        if a is not None and a[0] == 'cat':
            return norm([(z, ('c', 0))] + cutl(list(a[1]), 0, W - z))
        if a is not None and a[0] == 'cmp':
            return norm([(z, ('c', 0)), (1, ('f', key(form), 0)), (W - z - 1, ('c', 0))])
        return norm([(z, ('c', 0)), (W - z, ('f', key(form), 0))])

    def unwrap(self, ls):
        ls = norm(ls)
        while len(ls) > 1 and ls[-1][1] == ('c', 0):
            ls = ls[:-1]
        if len(ls) == 1:
            w, s = ls[0]
            if s[0] == 'c':
                if w in (8, 16, 32, 64) and s[1] >> (w - 1):
                    return num(s[1] - (1 << w))
                return num(s[1])
            if s[0] == 'm':
                return atom(('bits', s[1], s[2], w))
            if s[0] == 'f' and s[2] == 0:
                return unkey(s[1])
        return atom(('cat', tuple(ls)))

    def lanes(self, o, W):
        if o[0] == 'v' and o[1] in self.lv:
            ls = self.lv[o[1]]
            return cutl(ls, 0, W) if total(ls) != W else ls
        return self.wrap(self.opd(o), W)

    # ---- memory
    def split(self, a):
        return key({k: c for k, c in a.items() if k is not None}), a.get(None, 0) * 8

    def getbits(self, base, pos, W):
        m = self.mem.get(base, {})
        r, at = [], pos
        for lo in sorted(m):
            lw, s = m[lo]
            if lo + lw <= at or lo >= pos + W:
                continue
            if lo > at:
                r.append((lo - at, ('m', base, at)))
                at = lo
            e = min(lo + lw, pos + W)
            r.append(sub((lw, s), at - lo, e - at))
            at = e
        if at < pos + W:
            r.append((pos + W - at, ('m', base, at)))
        return norm(r)

    def setbits(self, base, pos, ls):
        m = self.mem.setdefault(base, {})
        W = total(ls)
        for lo in sorted(m):
            lw, s = m[lo]
            if lo + lw <= pos or lo >= pos + W:
                continue
            del m[lo]
            if lo < pos:
                m[lo] = sub((lw, s), 0, pos - lo)
            if lo + lw > pos + W:
                m[pos + W] = sub((lw, s), pos + W - lo, lo + lw - pos - W)
        at = pos
        for w, s in ls:
            m[at] = (w, s)
            at += w

    def load(self, a, W=64):
        b, p = self.split(a)
        return self.unwrap(self.getbits(b, p, W))

    def store(self, a, x, W=64):
        b, p = self.split(a)
        self.setbits(b, p, self.wrap(x, W))

    def forget(self, a, size=256):
        b, p = self.split(a)
        self.fresh += 1
        self.setbits(b, p, [(size * 8, ('u', self.fresh, 0))])

    def near(self, a):
        return []

    def copy(self, d, s, n):
        b, p = self.split(s)
        ls = self.getbits(b, p, n * 8)
        b, p = self.split(d)
        self.setbits(b, p, ls)

    # ---- instructions
    def step(self, i, n, nxt):
        op = i.op
        t = i.d.get('t')
        if op == 'load':
            a = self.opd(i.args[0])
            W = bits_of(t)
            b, p = self.split(a)
            ls = self.getbits(b, p, W)
            self.loads.append((n, a, num(W // 8), i))
            self.lv[i.id] = ls
            self.val[i.id] = self.unwrap(ls)
            return
        if op == 'store':
            a = self.opd(i.args[1])
            W = bits_of(i.d.get('vt'))
            ls = self.lanes(i.args[0], W)
            self.stores.append((n, a, num(W // 8), self.unwrap(ls), i))
            b, p = self.split(a)
            old = self.getbits(b, p, W)
            at = 0
            for w, s in ls:
                if s != ('m', b, p + at):
                    self.wr.append((n, b, p + at, w, s, i))
                at += w
            self.setbits(b, p, ls)
            return
        W = bits_of(t)
        if op == 'and':
            for x, y in ((0, 1), (1, 0)):
                m = const(self.opd(i.args[y]))
                if m is not None:
                    m &= (1 << W) - 1
                    ls = self.lanes(i.args[x], W)
                    r, at = [], 0
                    while at < W:
                        k = at
                        while k < W and (m >> k & 1) == (m >> at & 1):
                            k += 1
                        r += cutl(ls, at, k - at) if m >> at & 1 else [(k - at, ('c', 0))]
                        at = k
                    return self.put(i, norm(r))
        elif op in ('lshr', 'shl') and const(self.opd(i.args[1])) is not None:
            k = const(self.opd(i.args[1]))
            ls = self.lanes(i.args[0], W)
            return self.put(i, norm(cutl(ls, k, W - k) + [(k, ('c', 0))]) if op == 'lshr' else norm([(k, ('c', 0))] + cutl(ls, 0, W - k)), scale(self.opd(i.args[0]), 1 << k) if op == 'shl' and W <= 64 and const(self.opd(i.args[0])) is None else None)
        elif op == 'or':
            a, b = self.lanes(i.args[0], W), self.lanes(i.args[1], W)
            ends, at = set(), 0
            for ls in (a, b):
                at = 0
                for w, _ in ls:
                    at += w
                    ends.add(at)
            r, at, ok = [], 0, True
            for e in sorted(ends):
                x, y = cutl(a, at, e - at), cutl(b, at, e - at)
                if all(s == ('c', 0) for _, s in y):
                    r += x
                elif all(s == ('c', 0) for _, s in x):
                    r += y
                elif len(x) == len(y) == 1 and x[0][1][0] == y[0][1][0] == 'c':
                    r.append((e - at, ('c', x[0][1][1] | y[0][1][1])))
                elif any(s == ('c', (1 << w) - 1) for w, s in x + y):
                    r += x if any(s == ('c', (1 << w) - 1) for w, s in x) else y
                else:
                    ok = False
                at = e
            if ok and W > 1:
                return self.put(i, norm(r))
        elif op == 'trunc':
            return self.put(i, cutl(self.lanes(i.args[0], bits_of(i.d.get('ft'))), 0, W), None if i.args[0][0] == 'v' and i.args[0][1] in self.lv else self.opd(i.args[0]))
        elif op == 'zext':
            f = bits_of(i.d.get('ft'))
            return self.put(i, norm(self.lanes(i.args[0], f) + [(W - f, ('c', 0))]), None if i.args[0][0] == 'v' and i.args[0][1] in self.lv else self.opd(i.args[0]))
        elif op == 'call' and (i.callee or '').startswith('llvm.') and not i.callee.startswith(('llvm.mem', 'llvm.expect', 'llvm.threadlocal')):
            self.val[i.id] = atom((i.callee,) + tuple(key(self.opd(x)) for x in i.args))
            return
        elif op in ('fptrunc', 'fpext'):
            self.val[i.id] = atom((op, key(self.opd(i.args[0]))))
            return
        super().step(i, n, nxt)
        if op in ('atomicrmw', 'cmpxchg'):
            self.lv.pop(i.id, None)

    def put(self, i, ls, form=None):
        self.lv[i.id] = ls
        self.val[i.id] = form if form is not None else self.unwrap(ls)

    # ---- questions
    def pos(self, sf):
        """(bit offset, width) of a field of a structure, with the path of nested fields: 'Heap.page_mgr.list'"""
        st, *fs = sf.split('.')
        at = 0
        for k, f in enumerate(fs):
            s = self.P.structs[st]
            o, w = s['b'][f]
            at += o
            ty = next((x[1] for x in s['f'] if x[0] == f), None)
            if k + 1 < len(fs):
                st = ty
            elif ty == '_Bool':
                w = 1
        return at, w

    def init(self, a, sf):
        o, w = self.pos(sf)
        b, p = self.split(a)
        return atom(('bits', b, p + o, w))

    def now(self, a, sf):
        o, w = self.pos(sf)
        b, p = self.split(a)
        return self.getbits(b, p + o, w)

    def is_now(self, a, sf, form):
        """the field holds the value (cut to its width)"""
        o, w = self.pos(sf)
        ls = self.now(a, sf)
        return ls == norm(cutl(self.wrap(form, max(w, 64)), 0, w))

    def same(self, a, sf):
        return self.is_now(a, sf, self.init(a, sf))


def show(x, P=None):
    """text of a form, key, atom or lanes, for people"""
    if isinstance(x, dict):
        return '+'.join(('%s' % c if k is None else show(k) if c == 1 else '%s*%s' % (c, show(k))) for k, c in x.items()) or '0'
    if isinstance(x, list):
        return '[' + ' '.join('%d:%s' % (w, show(s)) for w, s in x) + ']'
    if isinstance(x, tuple):
        if x and x[0] == 'arg':
            return 'a%d' % x[1]
        if x and x[0] == 'bits':
            return '(%s)@%d.%d' % (show(unkey(x[1])), x[2], x[3])
        if x and x[0] == 'm':
            return '(%s)@%d' % (show(unkey(x[1])), x[2])
        if x and x[0] == 'f':
            return '{%s}>>%d' % (show(unkey(x[1])), x[2])
        if x and isinstance(x[0], tuple) and len(x[0]) == 3:
            return show(unkey(x))
        return '(' + ' '.join(show(y) for y in x) + ')'
    return str(x)


# ---------------------------------------------------------------- values in intervals

def bytes_of(P, init, ty=None):
    """[(bit offset, width, value)] of a constant initializer; None where it is not understood"""
    if init is None:
        return None
    if isinstance(init, dict) and 'ar' in init:
        out, at = [], 0
        for e in init['ar']:
            r = bytes_of(P, e)
            if r is None:
                return None
            n, xs = r
            out += [(at + o, w, c) for o, w, c in xs]
            at += n
        return at, out
    if isinstance(init, dict) and 'st' in init:
        s = P.structs[init['st']]
        out = []
        for f, x in init['f'].items():
            o, w = s['b'][f]
            if isinstance(x, list) and x[0] == 'c':
                out.append((o, w, x[1]))
            elif isinstance(x, list) and x[0] in ('n', 'z'):
                out.append((o, w, 0))
        return s['size'] * 8, out
    return None


class Ival:
    """intervals of forms: env gives (lo, hi) of atoms, tables answers reads of memory: f(ival, atom) -> (lo, hi) or None"""

    def __init__(self, P, env, tables=()):
        self.P, self.env, self.tables, self.memo = P, env, tables, {}

    def form(self, l):
        lo = hi = 0
        for a, c in l.items():
            if a is None:
                lo, hi = lo + c, hi + c
                continue
            r = self.atom(a)
            if r is None:
                return None
            x, y = r[0] * c, r[1] * c
            lo, hi = lo + min(x, y), hi + max(x, y)
        return lo, hi

    def atom(self, a):
        if a in self.memo:
            return self.memo[a]
        self.memo[a] = None
        r = self.memo[a] = self.atom2(a)
        return r

    def atom2(self, a):
        if a in self.env:
            return self.env[a]
        F = lambda k: self.form(unkey(k))
        if a[0].startswith('llvm.ctlz.') if isinstance(a[0], str) else False:
            r = F(a[1])
            W = int(a[0].split('.i')[1])
            if r and r[0] > 0:
                return W - r[1].bit_length(), W - r[0].bit_length()
        elif a[0] == 'bin':
            x, y = F(a[2]), F(a[3])
            if x is None or y is None:
                return None
            op = a[1]
            if op == 'shl' and x[0] >= 0 and 0 <= y[0] and y[1] < 64:
                return x[0] << y[0], x[1] << y[1]
            if op in ('lshr', 'ashr') and x[0] >= 0 and 0 <= y[0] and y[1] < 64:
                return x[0] >> y[1], x[1] >> y[0]
            if op in ('sdiv', 'udiv') and x[0] >= 0 and y[0] > 0:
                return x[0] // y[1], x[1] // y[0]
            if op == 'mul' and x[0] >= 0 and y[0] >= 0:
                return x[0] * y[0], x[1] * y[1]
            if op == 'and' and y[0] == y[1] >= 0 and x[0] >= 0:
                m = y[0]
                if x[0] // (m + 1) == x[1] // (m + 1) and m & (m + 1) == 0:
                    return x[0] & m, x[1] & m
                return 0, min(m, x[1])
            if op in ('srem', 'urem') and x[0] >= 0 and y[0] == y[1] > 0:
                m = y[0]
                if x[0] // m == x[1] // m:
                    return x[0] % m, x[1] % m
                return 0, m - 1
        elif a[0] == 'cmp':
            r = self.test(a[1], self.form(unkey(a[2])), self.form(unkey(a[3])))
            return (int(r), int(r)) if r is not None else (0, 1)
        elif a[0] == 'sel':
            c = F(a[1])
            if c and c[0] == c[1]:
                return F(a[2] if c[0] else a[3])
        elif a[0] == 'cut':
            return F(a[2])
        elif a[0] == 'bits':
            for t in self.tables:
                r = t(self, a)
                if r is not None:
                    return r
            return self.globl(a)
        elif a[0] == 'cat' and len(a[1]) == 1 and a[1][0][1][0] == 'f' and a[1][0][1][2] == 0:
            r = F(a[1][0][1][1])
            if r and 0 <= r[0] and r[1] < 1 << a[1][0][0]:
                return r
        elif a[0] == 'cat':
            # pieces of one value
            r, at = [0, 0], 0
            for w, s in a[1]:
                if s[0] == 'c':
                    x = (s[1], s[1])
                elif s[0] == 'f':
                    x = F(s[1])
                    if x is None or x[0] < 0 or x[0] >> (s[2] + w) != x[1] >> (s[2] + w):
                        return None
                    m = (1 << (s[2] + w)) - 1
                    x = ((x[0] & m) >> s[2], (x[1] & m) >> s[2])
                else:
                    return None
                r = [r[0] + (x[0] << at), r[1] + (x[1] << at)]
                at += w
            return tuple(r)
        return None

    def globl(self, a):
        base = unkey(a[1])
        g = [k for k in base if k and k[0] == 'global']
        if len(g) != 1 or base[g[0]] != 1:
            return None
        off = self.form({k: c for k, c in base.items() if k != g[0]})
        if off is None:
            return None
        G = self.P.globals.get(g[0][1])
        if not G:
            return None
        tb = bytes_of(self.P, G.get('init'))
        if tb is None:
            return None
        lo, hi = off[0] * 8 + a[2], off[1] * 8 + a[2]
        xs = [c for o, w, c in tb[1] if lo <= o <= hi and w == a[3]]
        if lo == hi and not xs:
            return None
        return (min(xs), max(xs)) if xs and 0 <= lo and hi < tb[0] else None

    @staticmethod
    def test(p, x, y):
        if x is None or y is None:
            return None
        if p[0] == 'u' and (x[0] < 0 or y[0] < 0):
            if x[0] != x[1] or y[0] != y[1]:
                return None
            x, y = (x[0] % (1 << 64),) * 2, (y[0] % (1 << 64),) * 2
        lt = True if x[1] < y[0] else False if x[0] >= y[1] else None
        le = True if x[1] <= y[0] else False if x[0] > y[1] else None
        q = p[-2:] if p not in ('eq', 'ne') else p
        if q == 'eq':
            return True if x == y and x[0] == x[1] else False if x[1] < y[0] or y[1] < x[0] else None
        if q == 'ne':
            r = Ival.test('eq', x, y)
            return None if r is None else not r
        return {'lt': lt, 'le': le, 'gt': None if le is None else not le, 'ge': None if lt is None else not lt}[q]

    def fact(self, f):
        """True, False or None: does a fact of a path hold"""
        if len(f) > 3:
            return self.test(f[1], self.form(f[3][0]), self.form(f[3][1]))
        r = self.form(f[2])
        if f[1][0] == 'u' and (f[2].get(None) or r and r[0] < 0):
            return None
        return self.test(f[1], r, (0, 0))

    def feasible(self, facts, among=()):
        for _, x, ks in among:
            r = self.form(x)
            if r is not None and not any(r[0] <= k <= r[1] for k in ks):
                return False
        return all(self.fact(f) is not False for f in facts)


class Walk(Bits):
    """constant propagation from the entry with every branch decided by constants; an undecided branch takes `choose`"""

    def __init__(self, v, P, choose, limit=200000, **kw):
        self.choose, self.limit, self.done = choose, limit, None
        from .q import Path
        super().__init__(Path(v), P, **kw)

    def run(self):
        from .core import Broken
        v, b, prev, n = self.v, 0, None, 0
        self.wr_n = {}
        while True:
            up = {}
            for i in v.blocks[b]:
                if i.op == 'phi':
                    for x, pb in i.d['in']:
                        if pb == prev:
                            up[i.id] = self.opd(x)
            self.val.update(up)
            for k in up:
                self.lv.pop(k, None)
            for i in v.blocks[b]:
                self.lv.pop(i.id, None) if i.op != 'phi' else None
                self.step(i, n, None)
                n += 1
                if n > self.limit:
                    raise Broken('the initialization of a table does not end: ' + v.name)
            l = v.blocks[b][-1]
            if not v.succ[b]:
                self.done = l.op
                return
            prev = b
            if l.op == 'br' and len(l.d.get('s', [])) == 2:
                c = self.opd(l.d['c'])
                r = const(c)
                if r is None:
                    t = Ival(self.P, {}).form(c)
                    r = t[0] if t and t[0] == t[1] else None
                b = l.d['s'][0 if r else 1] if r is not None else self.choose(self, l)
            elif l.op == 'br':
                b = l.d['s'][0]
            else:
                r = const(self.opd(l.d['c']))
                if r is None:
                    raise Broken('switch on an unknown value: ' + v.name)
                b = next((t for k, t in l.d['cs'] if k == r), l.d['d'])
