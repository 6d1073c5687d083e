"""Forward value flow along one path in the domain of linear expressions.

Every value is a linear form over atoms (parameters, initial contents of locations, results of calls); memory is a map
from addresses (linear forms as well, fields are constant offsets) to values; branches become linear constraints.
Locations with different addresses are taken as different. A call forgets what is stored behind its pointer arguments,
unless it is modelled or known to only read."""
from .q import offset_of, lin
from .core import Broken

READS = ('str_is', 'str_compare', 'str_chr', 'str_of', 'str_size', 'str_empty', 'memcmp', 'memchr', 'strlen', 'strncmp', 'strstr', 'hash_', 'json_is_', 'error', 'report_error', 'am_self', 'info')


IDS = {}


def key(l):
    return tuple(sorted(((IDS.setdefault(a, len(IDS)), a, c) for a, c in l.items() if c), key=lambda x: x[0]))


def atom(a):
    return {a: 1}


def num(c):
    return {None: c} if c else {}


def add(a, b, s=1):
    r = dict(a)
    for k, c in b.items():
        r[k] = r.get(k, 0) + s * c
        if not r[k]:
            del r[k]
    return r


def scale(a, c):
    return {k: v * c for k, v in a.items() if v * c}


def const(l):
    """the constant a form is, or None"""
    if not l:
        return 0
    return l[None] if set(l) == {None} else None


def one(l):
    """the single atom a form is, or None"""
    return next(iter(l)) if len(l) == 1 and None not in l and next(iter(l.values())) == 1 else None


NEG = {'eq': 'ne', 'ne': 'eq', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt', 'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt'}


class Call:
    __slots__ = ('f', 'a', 'i', 'n', 'r')

    def __repr__(self):
        return '<%s>' % self.f


class Flow:
    """model: {callee: handler(flow, call) -> result form or None}; pure: callees (or prefixes) that change nothing"""

    def __init__(self, p, P, model=None, pure=(), mem=None, phis=None, touch=None, keepcut=False):
        self.p, self.v, self.P = p, p.v, P
        self.model, self.pure = model or {}, tuple(READS) + tuple(pure)
        self.val, self.mem, self.calls, self.facts, self.stores, self.loads = {}, dict(mem or {}), [], [], [], []
        self.among = []
        self.phis = phis
        self.touch = touch
        self.fresh = 0
        self.keepcut = keepcut
        self.sz = {}
        self.run()

    # ---- values
    def off(self, sf):
        if sf not in self.sz:
            st, f = sf.split('.', 1)
            try:
                self.sz[sf] = offset_of(self.P, st, f)[0]
            except Exception:
                self.sz[sf] = None
        return self.sz[sf]

    def field(self, b, sf):
        o = self.off(sf)
        if o is None:
            return atom(('field', key(b), sf))
        return add(b, num(o))

    def opd(self, o):
        k = o[0]
        if k == 'v':
            if o[1] not in self.val:
                return self.before(o[1])
            return self.val[o[1]]
        if k == 'a':
            return atom(('arg', o[1]))
        if k == 'c':
            return num(o[1])
        if k == 'n':
            return {}
        if k == 's':
            return atom(('str', o[1]))
        if k == 'f':
            return atom(('fn', o[1]))
        if k == 'g':
            return atom(('global', o[1]))
        if k == 'fld':
            return self.field(self.opd(o[1]), o[2])
        if k == 'e' and o[1] in ('inttoptr', 'ptrtoint', 'bitcast') and len(o) == 3 and o[2][0] in ('c', 'n', 'g', 'f'):
            return self.opd(o[2])
        return atom(('other', str(o)))

    def before(self, k):
        """a value computed before the segment begins: address arithmetic is redone, anything else is an unknown"""
        if not hasattr(self.v, '_defs'):
            self.v._defs = {i.id: i for b in self.v.blocks for i in b if i.id is not None}
        i = self.v._defs.get(k)
        r = atom(('v', k))
        if i is not None and self.p.blocks and self.p.blocks[0] != 0 and i.op == 'call' and (i.callee or '').startswith(('vp.field.', 'vp.index', 'vp.elem', 'llvm.threadlocal', 'llvm.expect')):
            Flow.step(self, i, -1, None)
            r = self.val.pop(k)
        return r

    def new(self, what):
        self.fresh += 1
        return atom((what, self.fresh))

    def load(self, a):
        k = key(a)
        if k not in self.mem:
            self.mem[k] = atom(('init', k))
        return self.mem[k]

    def store(self, a, x):
        self.mem[key(a)] = x

    def near(self, a):
        """[(offset, key)] known locations behind an address"""
        r = []
        base = {k: c for k, c in a.items() if k is not None}
        for k in list(self.mem):
            d = {x: c for _, x, c in k}
            if {x: c for x, c in d.items() if x is not None} == base:
                r.append((d.get(None, 0) - a.get(None, 0), k))
        return r

    def forget(self, a, size=256):
        for o, k in self.near(a):
            if 0 <= o < size:
                self.mem[k] = self.new('after')
        # what was never looked at is unknown as well
        self.mem.setdefault(key(a), self.new('after'))

    def copy(self, d, s, n):
        got = {o: self.mem[k] for o, k in self.near(s) if 0 <= o < n}
        for o, k in self.near(d):
            if 0 <= o < n:
                del self.mem[k]
        for o in range(0, n, 4):
            if o in got or o % 8 == 0:
                self.mem[key(add(d, num(o)))] = got[o] if o in got else self.load(add(s, num(o)))

    # ---- instructions
    def run(self):
        p, v = self.p, self.v
        n = 0
        prev = None
        for bi, b in enumerate(p.blocks):
            up = {}
            for i in v.blocks[b]:
                if i.op == 'phi':
                    if prev is None:
                        if self.phis and i.id in self.phis:
                            up[i.id] = self.phis[i.id]
                        else:
                            up[i.id] = atom(('phi', i.id))
                    else:
                        for x, pb in i.d['in']:
                            if pb == prev:
                                up[i.id] = self.opd(x)
            self.val.update(up)
            for i in v.blocks[b]:
                if n >= len(p.insts):
                    break
                self.step(i, n, p.blocks[bi + 1] if bi + 1 < len(p.blocks) else p.cut)
                n += 1
            prev = b

    def step(self, i, n, nxt):
        op = i.op
        A = lambda k: self.opd(i.args[k])
        if op == 'phi':
            return
        if op == 'call':
            c = i.callee or ''
            if c.startswith('vp.field.'):
                self.val[i.id] = self.field(A(0), c[9:])
            elif c in ('vp.index', 'vp.elem'):
                k = const(A(1))
                s = i.args[2][1]
                self.val[i.id] = add(A(0), scale(A(1), s))
            elif c.startswith(('llvm.expect', 'llvm.threadlocal')):
                self.val[i.id] = A(0)
            elif c.startswith(('llvm.memcpy', 'llvm.memmove')):
                k = const(A(2))
                self.stores.append((n, A(0), A(2), None, i))
                self.loads.append((n, A(1), A(2), i))
                if k is not None and k <= 4096:
                    self.copy(A(0), A(1), k)
                else:
                    self.forget(A(0))
            elif c.startswith('llvm.memset'):
                k = const(A(2))
                self.stores.append((n, A(0), A(2), None, i))
                for o, kk in self.near(A(0)):
                    if k is None or 0 <= o < k:
                        self.mem[kk] = A(1) if const(A(1)) == 0 else self.new('set')
                if k is not None and const(A(1)) == 0:
                    for o in range(0, min(k, 1024), 4):
                        self.mem[key(add(A(0), num(o)))] = {}
            elif c.startswith(('llvm.', 'vp.')):
                self.val[i.id] = atom((c, n))
            else:
                e = Call()
                e.f, e.i, e.n, e.a = c or '?', i, n, [self.opd(x) for x in i.args]
                e.r = None
                self.calls.append(e)
                h = self.model.get(c)
                r = h(self, e) if h else None
                if not h and not c.startswith(self.pure):
                    for x, o in zip(e.a, i.args):
                        if o[0] in ('v', 'fld', 'a', 'g') and any(k is not None for k in x):
                            self.forget(x)
                if r is None:
                    r = atom(('call', c or '?', n))
                e.r = r
                self.val[i.id] = r
            return
        if op == 'load':
            a = A(0)
            self.loads.append((n, a, num(width(i.d.get('t', ''))), i))
            self.val[i.id] = self.load(a)
        elif op == 'store':
            a, x = self.opd(i.args[1]), A(0)
            self.stores.append((n, a, num(width(i.d.get('vt', ''))), x, i))
            self.store(a, x)
        elif op in ('atomicrmw', 'cmpxchg'):
            a = A(0)
            o = self.load(a)
            self.val[i.id] = o
            if op == 'atomicrmw' and i.d.get('rmw') in ('add', 'sub'):
                self.store(a, add(o, A(1), 1 if i.d['rmw'] == 'add' else -1))
            else:
                self.store(a, self.new('rmw'))
        elif op in ('zext', 'sext', 'bitcast', 'inttoptr', 'ptrtoint', 'freeze'):
            self.val[i.id] = A(0)
        elif op == 'trunc':
            x = A(0)
            self.val[i.id] = x if const(x) is not None or not self.keepcut else atom(('cut', i.d['t'], key(x)))
        elif op == 'alloca':
            self.val[i.id] = atom(('alloca', i.id))
        elif op in ('add', 'sub'):
            self.val[i.id] = add(A(0), A(1), 1 if op == 'add' else -1)
        elif op == 'mul' and (const(A(0)) is not None or const(A(1)) is not None):
            x, y = A(0), A(1)
            self.val[i.id] = scale(x, const(y)) if const(y) is not None else scale(y, const(x))
        elif op == 'shl' and const(A(1)) is not None:
            self.val[i.id] = scale(A(0), 1 << const(A(1)))
        elif op in ('mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem'):
            x, y = const(A(0)), const(A(1))
            r = None
            if x is not None and y is not None:
                try:
                    r = {'mul': lambda: x * y, 'and': lambda: x & y, 'or': lambda: x | y, 'xor': lambda: x ^ y, 'shl': lambda: x << y, 'lshr': lambda: x >> y, 'ashr': lambda: x >> y,
                         'udiv': lambda: x // y, 'sdiv': lambda: x // y, 'urem': lambda: x % y, 'srem': lambda: x % y}[op]()
                except Exception:
                    r = None
            self.val[i.id] = num(r) if r is not None else atom(('bin', op, key(A(0)), key(A(1))))
        elif op in ('icmp', 'fcmp'):
            self.val[i.id] = atom(('cmp', i.d['p'], key(A(0)), key(A(1))))
        elif op == 'select':
            c = const(A(0))
            self.val[i.id] = (A(1) if c else A(2)) if c is not None else atom(('sel', key(A(0)), key(A(1)), key(A(2))))
        elif op == 'br' and nxt is not None and len(i.d.get('s', [])) == 2 and i.d['s'][0] != i.d['s'][1]:
            c = i.d['c']
            ci = self.v.inst.get(c[1]) if c[0] == 'v' else None
            if ci is None or ci.callee != 'vp.throws':
                self.cond(self.opd(c), nxt == i.d['s'][0], n)
        elif op == 'switch' and nxt is not None:
            x = self.opd(i.d['c'])
            ks = [k for k, b in i.d['cs'] if b == nxt]
            if ks and i.d['d'] != nxt:
                self.among.append((n, x, tuple(ks)))
            if len(ks) == 1 and i.d['d'] != nxt:
                self.facts.append((n, 'eq', add(x, num(ks[0]), -1)))
            elif i.d['d'] == nxt:
                for k, b in i.d['cs']:
                    if b != nxt:
                        self.facts.append((n, 'ne', add(x, num(k), -1)))
        elif op not in ('ret', 'br', 'switch', 'unreachable'):
            self.val[i.id] = atom((op, i.id, n))

    def cond(self, c, yes, n):
        a = one(c)
        if a is None:
            k = const(c)
            if k is not None and (k != 0) != bool(yes):
                # a branch that cannot be taken
                self.facts.append((n, 'eq', num(1)))
            return
        if a[0] == 'cmp':
            x, y = unkey(a[2]), unkey(a[3])
            if a[1] in ('eq', 'ne') and const(y) is not None and const(y) in (0, 1):
                b = one(x)
                if b and (b[0] == 'cmp' or b[0] == 'bin' and b[1] in ('xor', 'and', 'or') and boolean(b)):
                    self.cond(x, yes == ((a[1] == 'ne') == (const(y) == 0)), n)
                    return
            p = a[1] if yes else NEG.get(a[1])
            if p:
                self.facts.append((n, p, add(x, y, -1)))
                if p in ('ult', 'ule', 'ugt', 'uge', 'slt', 'sle', 'sgt', 'sge'):
                    self.facts[-1] += ((x, y),)
        elif a[0] == 'bin' and a[1] == 'xor' and const(unkey(a[3])) in (1, -1):
            self.cond(unkey(a[2]), not yes, n)
        elif a[0] == 'bin' and (a[1] == 'and' and yes or a[1] == 'or' and not yes):
            self.cond(unkey(a[2]), yes, n)
            self.cond(unkey(a[3]), yes, n)
        elif a[0] == 'sel':
            # c && x / c || x
            if const(unkey(a[3])) == 0 and yes:
                self.cond(unkey(a[1]), True, n)
                self.cond(unkey(a[2]), True, n)
            elif const(unkey(a[2])) in (1, -1) and not yes:
                self.cond(unkey(a[1]), False, n)
                self.cond(unkey(a[3]), False, n)
        else:
            self.facts.append((n, 'ne' if yes else 'eq', c))

    # ---- questions
    def known(self, upto=None):
        """[form <= 0] and [form != 0] that hold on the path"""
        le, ne = [], []
        for f in self.facts:
            n, p, l = f[:3]
            if upto is not None and n > upto:
                continue
            if p == 'eq':
                le += [l, scale(l, -1)]
            elif p == 'ne':
                ne.append(l)
            elif p in ('slt', 'ult'):
                le.append(add(l, num(1)))
            elif p in ('sle', 'ule'):
                le.append(l)
            elif p in ('sgt', 'ugt'):
                le.append(add(num(1), l, -1))
            elif p in ('sge', 'uge'):
                le.append(scale(l, -1))
            if p in ('ult', 'ule') and len(f) > 3:
                # unsigned: below something that is not negative means not negative either
                if const(f[3][1]) is not None and const(f[3][1]) >= 0:
                    le.append(scale(f[3][0], -1))
        return le, ne

    def torn(self):
        """a branch contradicts a value known: the path cannot be taken"""
        for f in self.facts:
            c = const(f[2])
            if c is None:
                continue
            ok = {'eq': c == 0, 'ne': c != 0, 'slt': c < 0, 'ult': c < 0, 'sle': c <= 0, 'ule': c <= 0, 'sgt': c > 0, 'ugt': c > 0, 'sge': c >= 0, 'uge': c >= 0}.get(f[1], True)
            if len(f) > 3 and f[1][0] == 'u' and ((const(f[3][0]) or 0) < 0 or (const(f[3][1]) or 0) < 0):
                continue
            if not ok:
                return True
        ev = ({}, {})
        for f in self.facts:
            if f[1] in ('eq', 'ne'):
                k = key(f[2])
                if key(scale(f[2], -1)) in ev[f[1] == 'eq'] or k in ev[f[1] == 'eq']:
                    return True
                ev[f[1] == 'ne'][k] = 1
        return False

    def proves(self, goal, upto=None, extra=()):
        """goal <= 0 follows from what the path knows"""
        le, ne = self.known(upto)
        le = list(extra) + le
        return entails(le, ne, goal)


def boolean(a):
    for k in (a[2], a[3]):
        x = unkey(k)
        b = one(x)
        if const(x) in (0, 1, -1):
            continue
        if b is None or not (b[0] in ('cmp', 'sel') or b[0] == 'bin' and boolean(b)):
            return False
    return True


def width(t):
    return {'i1': 1, 'i8': 1, 'i16': 2, 'i32': 4, 'i64': 8, 'ptr': 8, 'double': 8, 'float': 4}.get(t, 1)


def unkey(k):
    return {a: c for _, a, c in k}


def entails(le, ne, goal, limit=400):
    """does goal <= 0 follow from the constraints (each form <= 0)? Fourier-Motzkin over the atoms connected to the goal"""
    g = const(goal)
    if g is not None and g <= 0:
        return True
    # tighten with disequalities: f <= 0 and f != 0 gives f + 1 <= 0
    ks = {key(x) for x in ne}
    cs = []
    for f in le:
        if key(f) in ks or key(scale(f, -1)) in ks:
            f = add(f, num(1))
        cs.append(f)
    neg = add(num(1), goal, -1)        # goal >= 1
    # only what is connected to the goal
    rel, todo = [], {a for a in neg if a is not None}
    rest = list(cs)
    while True:
        more = [f for f in rest if any(a in todo for a in f if a is not None)]
        if not more:
            break
        rest = [f for f in rest if f not in more]
        rel += more
        for f in more:
            todo |= {a for a in f if a is not None}
    cs = [neg] + rel
    seen = set()
    uniq = []
    for f in cs:
        if key(f) not in seen:
            seen.add(key(f))
            uniq.append(f)
    cs = uniq
    atoms = {a for f in cs for a in f if a is not None}
    while atoms:
        a = min(atoms, key=lambda x: sum(1 for f in cs if f.get(x, 0) > 0) * sum(1 for f in cs if f.get(x, 0) < 0))
        atoms.discard(a)
        pos = [f for f in cs if f.get(a, 0) > 0]
        neg_ = [f for f in cs if f.get(a, 0) < 0]
        cs = [f for f in cs if not f.get(a, 0)]
        for f in pos:
            for h in neg_:
                r = add(scale(f, -h[a]), scale(h, f[a]))
                r.pop(a, None)
                c = const(r)
                if c is not None:
                    if c > 0:
                        return True
                    continue
                cs.append(r)
        if len(cs) > limit:
            return False
        u, s = [], set()
        for f in cs:
            if key(f) not in s:
                s.add(key(f))
                u.append(f)
        cs = u
    return any((const(f) or 0) > 0 for f in cs)
