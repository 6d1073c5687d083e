"""M01: what a failing operation acquired is released."""
import collections
from ..q import *
from ..core import load as core_load, Broken

ENTRIES, KEEP, PLAIN = [], [], True

# what the operating system and the libraries give out, and what takes it back
GIVES = {'malloc', 'calloc', 'realloc', 'opendir', 'vfs_open', 'socket', 'SSL_new', 'SSL_CTX_new', 'buf_create'}
TAKES = {'free': 0, 'closedir': 0, 'close': 0, 'vfs_close': 0, 'SSL_free': 0, 'SSL_CTX_free': 0, 'buf_free': 0}
# finishing a transaction cannot fail: T04
NOFAIL = {'tr_commit', 'tr_abort'}
SKIP = {'exception_mgr_throw', 'defer_runner'}
# library calls that only read or fill what they are given
PLAINLY = ('mem', 'str', 'snprintf', 'vsnprintf', 'printf', 'fprintf', 'vfs_', 'read', 'write', 'lseek', 'fstat', 'sfmt',
           'SSL_', 'BIO_', 'ERR_', 'setsockopt', 'getsockopt', 'bind', 'listen', 'connect', 'accept', 'fcntl', 'epoll_', 'llvm.',
           'inet_', 'recv', 'send', 'getsockname', 'getpeername', 'ZSTD_', 'EVP_', 'X509_', 'getaddrinfo', 'qsort')


# parts of an object others may point to without owning it
PARTS = {'File', 'Id', 'Str', 'Buf'}


def part(P, f, o):
    """the address of a part of an object that is no link and no base of it"""
    if o[0] != 'v':
        return False
    i = f.inst[o[1]]
    c = i.callee or ''
    if not c.startswith('vp.field.'):
        return False
    t, fl = c[9:].split('.', 1)
    return any(x[0] == fl and x[1] in PARTS for x in P.structs.get(t, {}).get('f', []))


def derived(f, i):
    """the operand an instruction's value is an address into (or the same as), or None"""
    c = i.callee or ''
    if i.op == 'call' and (c.startswith('vp.field.') or c in ('vp.index', 'vp.elem') or c.startswith('llvm.expect')):
        return i.args[0]
    if i.op in ('bitcast', 'freeze', 'inttoptr', 'ptrtoint', 'sext', 'zext', 'trunc'):
        return i.args[0]
    return None


class Own:
    """who gives, keeps and takes what: per function, by fixpoint over the program"""

    def __init__(self, P):
        self.P = P
        self.memo = {}
        self.gives = set(GIVES)                       # functions whose result is new
        self.takes = {k: {v} for k, v in TAKES.items()}   # function -> parameters it releases
        self.keeps = collections.defaultdict(set)     # function -> parameters it stores somewhere
        self.fns = [f for f in P.fn.values() if f.name not in SKIP]
        self.local = {}
        for f in self.fns:
            self.local[f.name] = self.alias(f)
        n = 1
        while n:
            n = 0
            for f in self.fns:
                n += self.round(f)

    def alias(self, f):
        """instruction id -> set of roots ('a',k) / ('v',call) it may be (an address into), flow-insensitively"""
        r = collections.defaultdict(set)
        box = collections.defaultdict(set)             # what a local pointer variable may hold
        ch = True

        def of(o):
            if o[0] == 'a':
                return {('a', o[1])}
            if o[0] == 'v':
                return r[o[1]]
            if o[0] == 'fld':
                return of(o[1])
            return set()
        for i in f.insts():
            if i.op == 'call' and not (i.callee or '').startswith('vp.'):
                r[i.id].add(('v', i.id))
            if i.op == 'alloca':
                r[i.id].add(('l', i.id))
        while ch:
            ch = False
            for i in f.insts():
                n = set()
                d = derived(f, i)
                if d is not None:
                    n |= of(d)
                elif i.op == 'phi':
                    for o, _ in i.d['in']:
                        n |= of(o)
                elif i.op == 'select':
                    n |= of(i.args[1]) | of(i.args[2])
                elif i.op == 'load':
                    for x in of(i.args[0]):
                        if x[0] == 'l':
                            n |= box[x[1]]
                elif i.op == 'store':
                    for x in of(i.args[1]):
                        if x[0] == 'l' and not of(i.args[0]) <= box[x[1]]:
                            box[x[1]] |= of(i.args[0])
                            ch = True
                if not n <= r[i.id]:
                    r[i.id] |= n
                    ch = True
        r['of'] = of
        r['box'] = box
        return r

    def round(self, f):
        al = self.local[f.name]
        of = al['of']
        n = 0
        for i in f.insts():
            if i.op == 'store':
                if part(self.P, f, i.args[0]):
                    continue
                src = of(i.args[0])
                dst = of(i.args[1])
                for x in src:
                    if x[0] == 'a' and x not in dst and not (dst and all(d[0] == 'l' for d in dst)):
                        n += self.add(self.keeps, f, x[1])
            elif i.op == 'call' and not (i.callee or '').startswith('vp.'):
                for k, o in enumerate(i.args):
                    if (i.callee or '').startswith('llvm.lifetime'):
                        continue
                    for x in self.inner(f, o):
                        # a variable that holds it is passed on
                        n += self.add(self.keeps, f, x)
                    if part(self.P, f, o):
                        continue
                    for x in of(o):
                        if x[0] != 'a':
                            continue
                        if self.taken(i, k, o, f):
                            n += self.add(self.takes, f, x[1])
                        elif self.kept(i, k):
                            n += self.add(self.keeps, f, x[1])
            elif i.op == 'ret' and i.args and f.ret != 'v' and f.name not in self.gives:
                # new on every path, or nothing
                if self.fresh(f, i.args[0], set()) == 'new' and not any(self.handed(f, x) for x in of(i.args[0]) if x[0] == 'v'):
                    self.gives.add(f.name)
                    n += 1
        return n

    def inner(self, f, o):
        """parameters that a variable holds whose address this is"""
        al = self.local[f.name]
        for x in al['of'](o):
            if x[0] == 'l' and f.inst[x[1]].d.get('at') != 'S:Defer':
                for y in al['box'][x[1]]:
                    if y[0] == 'a':
                        yield y[1]

    def handed(self, f, root, but=None):
        """somewhere in the function the object is stored in another one"""
        al = self.local[f.name]
        of = al['of']
        for i in f.insts():
            if i is but:
                continue
            if i.op == 'store':
                if part(self.P, f, i.args[0]):
                    continue
                dst = of(i.args[1])
                if but is not None and dst == of(but.args[1]):
                    continue                            # another field of the same object
                if root in of(i.args[0]) and root not in dst and not (dst and all(d[0] == 'l' for d in dst)):
                    return True
            elif i.op == 'call' and i.id != root[1] and not (i.callee or '').startswith('vp.'):
                for k, o in enumerate(i.args):
                    if root in of(o) and not part(self.P, f, o) and not self.taken(i, k, o, f) and self.kept(i, k):
                        return True
        return False

    def raises(self, block):
        """the call before the end of a block may raise, given the constants it passes"""
        for i in reversed(block[:-2]):
            if i.op == 'call' and not (i.callee or '').startswith(('vp.', 'llvm.')):
                break
        else:
            return True
        if i.callee in NOFAIL:
            return False
        cs = tuple((k, bool(o[1])) for k, o in enumerate(i.args) if o[0] == 'c' and o[1] in (0, 1))
        ts = i.targets()
        return not cs or not ts or any(self.may(t, cs, 0) for t in ts)

    def may(self, n, cs, depth):
        f = self.P.fn.get(n)
        if f is None or depth > 4:
            return True
        if (n, cs) in self.memo:
            return self.memo[n, cs]
        self.memo[n, cs] = True
        cs_ = dict(cs)

        def value(o):
            if o[0] == 'a':
                return cs_.get(o[1])
            if o[0] == 'c':
                return bool(o[1])
            if o[0] == 'v':
                i = f.inst[o[1]]
                if i.op in ('zext', 'trunc', 'freeze') or (i.callee or '').startswith('llvm.expect'):
                    return value(i.args[0])
                if i.op == 'xor' and i.args[1] == ['c', 1]:
                    v = value(i.args[0])
                    return None if v is None else not v
                if i.op == 'icmp' and i.args[1] == ['c', 0] and i.d['p'] in ('eq', 'ne'):
                    v = value(i.args[0])
                    return None if v is None else v == (i.d['p'] == 'ne')
            return None
        wl, seen, r = [0], {0}, False
        while wl and not r:
            b = wl.pop()
            if any(i.callee == 'vp.unwind' for i in f.blocks[b]):
                r = True
            for s, l in f.succ[b]:
                if l and l[0] == 'br':
                    v = value(l[1])
                    if v is not None and v != l[2]:
                        continue
                if l and l[0] == 'exc':
                    for c in reversed(f.blocks[b][:-2]):
                        if c.op == 'call' and not (c.callee or '').startswith(('vp.', 'llvm.')):
                            break
                    else:
                        c = None
                    if c is not None:
                        k2 = tuple((k, value(o)) for k, o in enumerate(c.args) if o[0] in 'ac' and (o[0] == 'a' or o[1] in (0, 1)) and value(o) is not None)
                        if c.targets() and k2 and not any(self.may(t, k2, depth + 1) for t in c.targets()):
                            continue
                if s not in seen:
                    seen.add(s)
                    wl.append(s)
        self.memo[n, cs] = r
        return r

    def add(self, m, f, k):
        s = m.setdefault(f.name, set())
        if k in s:
            return 0
        s.add(k)
        return 1

    def direct(self, f, o, root):
        """the operand is the root itself, not an address into it"""
        while o[0] == 'v':
            i = f.inst[o[1]]
            c = i.callee or ''
            if i.op in ('bitcast', 'freeze', 'inttoptr', 'ptrtoint', 'sext', 'zext', 'trunc') or c.startswith('llvm.expect'):
                o = i.args[0]
            else:
                break
        return o

    def taken(self, i, k, o, f):
        ts = i.targets()
        if not ts or not all(k in self.takes.get(t, ()) for t in ts):
            return False
        d = self.direct(f, o, None)
        if d[0] == 'v' and (f.inst[d[1]].callee or '').startswith('vp.field.') or d[0] == 'fld':
            return False
        return True

    def kept(self, i, k):
        ts = i.targets()
        if not ts:
            return True
        for t in ts:
            if t in self.P.fn:
                if k in self.keeps.get(t, ()):
                    return True
            elif t in TAKES:
                pass
            elif not t.startswith(PLAINLY):
                return True
        return False

    def fresh(self, f, o, seen):
        if o[0] == 'n' or (o[0] == 'c' and o[1] in (0, -1)):
            return 'none'
        if o[0] != 'v' or o[1] in seen:
            return 'none' if o[0] == 'v' else 'no'
        seen.add(o[1])
        i = f.inst[o[1]]
        if i.op == 'call':
            ts = i.targets()
            if ts and all(t in self.gives for t in ts):
                return 'new'
            return 'no'
        if i.op == 'phi':
            r = [self.fresh(f, x, seen) for x, _ in i.d['in']]
        elif i.op == 'select':
            r = [self.fresh(f, x, seen) for x in i.args[1:3]]
        elif derived(f, i) is not None:
            r = [self.fresh(f, i.args[0], seen)]
        else:
            return 'no'
        return 'no' if 'no' in r else 'new' if 'new' in r else 'none'




class Walk:
    """every way through a function after something was given to it: what happens to it"""

    def __init__(self, O, f, c, start=None, gone=None, limit=20000):
        self.gone = gone
        self.start = start or ['v', c.id]
        self.O, self.f, self.c = O, f, c
        self.al = O.local[f.name]
        self.leaks, self.twice, self.after = [], [], []
        # what was loaded is the same object when loaded again
        self.where = None
        if gone is None and self.start[0] == 'v' and f.inst[self.start[1]].op == 'load':
            self.where = f.norm(f.term(self.start))
        self.n = 0
        self.limit = limit
        self.seen = set()
        n = collections.Counter(x.d['c'][1] for x in f.insts() if x.op == 'br' and x.d.get('c') and x.d['c'][0] == 'v')
        u = set(o[1] for x in f.insts() if x.op == 'phi' and x.d['t'] == 'i1' for o, _ in x.d['in'] if o[0] == 'v')
        self.again = set(x for x in n if n[x] > 1 or x in u or f.inst[x].op == 'phi')
        self.run()

    def run(self):
        f, c, gone = self.f, self.c, self.gone
        # state: block, index, names of the object, boxes holding it, released, conditions known
        wl = [(c.b, c.k + 1, frozenset([self.start[1] if self.start[0] == 'v' else tuple(self.start)]), frozenset(), gone, frozenset(), (c,))]
        while wl:
            b, k, names, boxes, gone, conds, tr = wl.pop()
            st = (b, k, names, boxes, gone is not None, conds)
            if st in self.seen:
                continue
            self.seen.add(st)
            self.n += 1
            if self.n > self.limit:
                raise Broken('%s: too many ways' % f.name)
            r = self.block(b, k, set(names), set(boxes), gone, tr)
            if r is None:
                continue
            names, boxes, gone, tr, kill = r
            cd = {x[0]: x[1] for x in conds if x[0] not in kill}
            for s, l in f.succ[b]:
                nc = dict(cd)
                if l and l[0] == 'exc' and (self.inflight(b) or not self.O.raises(f.blocks[b])):
                    continue
                if l and l[0] == 'br':
                    v = self.decide(l[1], names, nc)
                    if v is not None and v != l[2]:
                        continue
                    if l[1][0] == 'v' and l[1][1] in self.again:
                        nc[l[1][1]] = l[2]
                nn, nb = set(names), boxes
                ph = {}
                for i in f.blocks[s]:
                    if i.op != 'phi':
                        break
                    for o, fr in i.d['in']:
                        if fr == b:
                            ph[i.id] = self.inside(o, names)
                            if i.id not in self.again:
                                pass
                            elif o[0] == 'c' and i.d['t'] == 'i1':
                                nc[i.id] = bool(o[1])
                            elif o[0] == 'v' and o[1] in cd and i.d['t'] == 'i1':
                                nc[i.id] = cd[o[1]]
                            else:
                                nc.pop(i.id, None)
                for x, y in ph.items():
                    (nn.add if y else nn.discard)(x)
                wl.append((s, 0, frozenset(nn), frozenset(nb), gone, frozenset(nc.items()), tr))

    def inflight(self, b):
        """the call that may raise is the one that gives"""
        bl = self.f.blocks[b]
        return len(bl) >= 3 and bl[-3] is self.c

    def decide(self, o, names, conds, depth=0):
        if o[0] == 'c':
            return bool(o[1])
        if o[0] != 'v' or depth > 8:
            return None
        if o[1] in conds:
            return conds[o[1]]
        i = self.f.inst[o[1]]
        if i.op == 'icmp':
            x, y = i.args
            if self.isname(y, names):
                x, y = y, x
            if self.isname(x, names) and (y[0] == 'n' or (y[0] == 'c' and y[1] in (0, -1))):
                p = i.d['p']
                if p == 'eq':
                    return False
                if p == 'ne':
                    return True
                if p in ('slt', 'sle'):
                    return False
                if p in ('sgt', 'sge'):
                    return True
            return None
        if i.op == 'xor' and i.args[1] == ['c', 1]:
            v = self.decide(i.args[0], names, conds, depth + 1)
            return None if v is None else not v
        if i.op in ('zext', 'trunc', 'freeze') or (i.callee or '').startswith('llvm.expect'):
            return self.decide(i.args[0], names, conds, depth + 1)
        return None

    def inside(self, o, names):
        if o[0] == 'fld':
            return self.inside(o[1], names)
        if self.isname(o, names):
            return True
        if o[0] != 'v':
            return False
        i = self.f.inst[o[1]]
        d = derived(self.f, i)
        return d is not None and i.op == 'call' and self.inside(d, names)

    def isname(self, o, names):
        return o[0] == 'v' and o[1] in names or o[0] == 'a' and tuple(o) in names

    def block(self, b, k, names, boxes, gone, tr):
        """-> state after the block, or None when the object is out of sight"""
        f, O = self.f, self.O
        of = self.al['of']
        kill = set()
        inside = lambda o: self.inside(o, names)
        for i in f.blocks[b][k:]:
            if i.op == 'phi':
                continue
            kill.add(i.id)
            if i is self.c and self.gone is not None:
                # another object in the next turn, unless the name is the same
                if not inside(i.args[0]) and not any(inside(x) for x in i.args):
                    return None
            if i.id in names and i.op in ('call', 'load'):
                names.discard(i.id)
            if i is self.c and self.gone is None:
                # given again: the former one is lost
                if gone is None and (names or boxes):
                    self.leaks.append((i, tr, 'given again'))
                return None
            if i.op in ('bitcast', 'freeze', 'ptrtoint', 'inttoptr', 'sext', 'zext', 'trunc') or (i.callee or '').startswith('llvm.expect'):
                (names.add if self.isname(i.args[0], names) else names.discard)(i.id)
                continue
            if i.op == 'select':
                if self.isname(i.args[1], names) or self.isname(i.args[2], names):
                    names.add(i.id)
                continue
            if i.op == 'alloca':
                continue
            if derived(f, i) is not None:
                continue
            if i.op == 'load':
                src = i.args[0]
                if src[0] == 'v' and f.inst[src[1]].op == 'alloca':
                    (names.add if src[1] in boxes else names.discard)(i.id)
                elif self.where is not None and f.norm(f.term(['v', i.id])) == self.where:
                    names.add(i.id)
                elif gone is not None and inside(src):
                    self.after.append((i, tr + (gone,)))
                    return None
                continue
            if i.op == 'store':
                val, dst = i.args
                d = dst
                if d[0] == 'v' and f.inst[d[1]].op == 'alloca':
                    if inside(val):
                        if self.boxed(d[1]):
                            boxes.add(d[1])
                        else:
                            return None
                    else:
                        boxes.discard(d[1])
                    continue
                if inside(dst):
                    if gone is not None:
                        self.after.append((i, tr + (gone,)))
                        return None
                    continue
                if inside(val):
                    if self.deferred(dst) or part(O.P, f, val) or self.described(val, dst):
                        continue
                    return None                         # handed over
                continue
            if i.op == 'call' and not (i.callee or '').startswith('vp.'):
                for a, o in enumerate(i.args):
                    if not inside(o):
                        if o[0] == 'v' and o[1] in boxes and not (i.callee or '').startswith('llvm.'):
                            return None                 # the variable itself is passed on
                        continue
                    if O.taken(i, a, o, f):
                        if gone is not None:
                            self.twice.append((i, tr + (gone,)))
                            return None
                        gone = i
                    elif gone is not None:
                        if i.targets() and not all(t.startswith('llvm.') for t in i.targets()):
                            self.after.append((i, tr + (gone,)))
                        return None
                    elif O.kept(i, a) and not part(O.P, f, o):
                        return None
                if i.d.get('nr') and f.succ[b] == [] and not any(x.callee == 'vp.unwind' for x in f.blocks[b]):
                    return None
                continue
            if i.callee == 'vp.unwind':
                if gone is None:
                    self.leaks.append((i, tr, 'error'))
                return None
            if i.op == 'ret':
                if gone is None and not (i.args and inside(i.args[0])):
                    self.leaks.append((i, tr, 'return'))
                if gone is not None and i.args and self.isname(i.args[0], names):
                    self.after.append((i, tr + (gone,)))
                return None
        if not f.succ[b]:
            return None
        return names, boxes, gone, tr + ((f.blocks[b][-1],) if len(tr) < 40 else ()), kill

    def boxed(self, a):
        """a local pointer variable that is only loaded and stored"""
        for u in self.f.users(a):
            if u.op == 'load' or (u.op == 'store' and u.args[1] == ['v', a]):
                continue
            if (u.callee or '').startswith('llvm.lifetime'):
                continue
            return False
        return True

    def described(self, val, dst):
        """the address of a field, put into a local description of the object's fields"""
        if val[0] != 'v' or not (self.f.inst[val[1]].callee or '').startswith('vp.field.'):
            return False
        while dst[0] == 'v':
            i = self.f.inst[dst[1]]
            if i.op == 'alloca':
                return 'Decode' in (i.d.get('at') or '')
            d = derived(self.f, i)
            if d is None:
                return False
            dst = d
        return False

    def deferred(self, dst):
        while dst[0] == 'v':
            i = self.f.inst[dst[1]]
            if i.op == 'alloca':
                return i.d.get('at') == 'S:Defer'
            d = derived(self.f, i)
            if d is None:
                return False
            dst = d
        return False


def given(ctx, P):
    """what an operation was given and did not hand over is released on every way out, and once"""
    O = Own(P)
    for f in O.fns:
        if f.name in GIVES or f.name in TAKES:
            continue
        for c in f.insts():
            if c.op != 'call' or (c.callee or '').startswith('vp.'):
                continue
            ts = c.targets()
            if not ts or not all(t in O.gives for t in ts):
                continue
            w = Walk(O, f, c)
            ctx.ob('given.released', f.name, not w.leaks, '%s: what %s gives is not released on every way out' % (f.name, ts[0]), at=c,
                   why='; '.join(x[0].where() + ' ' + x[2] for x in w.leaks[:3]))
            ctx.ob('given.once', f.name, not w.twice, '%s: what %s gives is released twice' % (f.name, ts[0]), at=c,
                   why='; '.join(x[0].where() for x in w.twice[:3]))
            ctx.ob('given.after', f.name, not w.after, '%s: what %s gives is used after it was released' % (f.name, ts[0]), at=c,
                   why='; '.join(x[0].where() for x in w.after[:3]))
    ctx.floor('given.released', 60)


def used(ctx, P):
    """what was released is not used, released again or returned afterwards"""
    O = Own(P)
    for f in O.fns:
        if f.name in TAKES:
            continue
        for c in f.insts():
            if c.op != 'call' or (c.callee or '').startswith('vp.'):
                continue
            for k, o in enumerate(c.args):
                if o[0] not in 'va' or not O.taken(c, k, o, f) or c.is_defer:
                    continue
                if o[0] == 'v' and f.inst[o[1]].op == 'alloca':
                    continue
                o = O.direct(f, o, None)
                w = Walk(O, f, c, start=o, gone=c)
                bad = w.twice + w.after
                ctx.ob('used.after', f.name, not bad, '%s: used or released after %s released it' % (f.name, (c.targets() or ['?'])[0]), at=c,
                       why='; '.join(x[0].where() for x in bad[:3]))
    ctx.floor('used.after', 80)


RULES = [given, used]


OUT = {'list_unlink': 0, 'hashtable_delete': 1}


def root(f, o):
    """(root operand, type, field) of the object whose link this is"""
    t = None
    while o[0] in ('v', 'fld'):
        if o[0] == 'fld':
            t = o[2]
            o = o[1]
            continue
        i = f.inst[o[1]]
        c = i.callee or ''
        if c.startswith('vp.field.'):
            t = c[9:]
            o = i.args[0]
            continue
        if i.op in ('bitcast', 'freeze'):
            o = i.args[0]
            continue
        break
    return o, t


def unlinked(ctx, P):
    """what is taken out of its list or table is released, put elsewhere or returned"""
    O = Own(P)
    outs = {k: {v: None} for k, v in OUT.items()}
    done = set()
    wl = True
    while wl:
        wl = False
        for f in O.fns:
            for c in f.insts():
                if c.op != 'call' or (f.name, c.id) in done:
                    continue
                for t in c.targets():
                    for k in outs.get(t, {}):
                        o, ty = root(f, c.args[k])
                        ty = outs[t][k] or (ty or '').split('.')[0]
                        done.add((f.name, c.id))
                        wl = True
                        w = Walk(O, f, c, start=o)
                        if w.leaks and o[0] == 'a':
                            outs.setdefault(f.name, {})[o[1]] = ty
                            continue
                        ctx.ob('unlinked.released', f.name, not w.leaks,
                               '%s: a %s is taken out by %s, and is neither released nor kept' % (f.name, ty or 'node', t), at=c,
                               why='; '.join(x[0].where() + ' ' + x[2] for x in w.leaks[:3]))
    ctx.floor('unlinked.released', 15)


RULES.append(unlinked)


def struct_of(f, a):
    """the type of a local object"""
    at = f.inst[a].d.get('at') or ''
    return at[2:] if at.startswith('S:') else None


class Inside:
    """which fields of the objects it is given a function fills with something new, and which of them it releases"""

    def __init__(self, O):
        self.O = O
        self.fills = collections.defaultdict(dict)     # function -> {parameter: {field path}}
        self.drains = collections.defaultdict(dict)
        self.twins = collections.defaultdict(set)
        self.sets = collections.defaultdict(dict)      # function -> {parameter: {field path it writes}}
        self.moves = collections.defaultdict(dict)     # function -> {parameter: {(parameter, field path) it is stored in}}
        n = 1
        while n:
            n = 0
            for f in O.fns:
                n += self.round(f)

    def path(self, f, o):
        """(root operand, path of fields) of an address"""
        p = []
        while True:
            if o[0] == 'fld':
                p.append(o[2])
                o = o[1]
                continue
            if o[0] != 'v':
                break
            i = f.inst[o[1]]
            c = i.callee or ''
            if c.startswith('vp.field.'):
                p.append(c[9:])
                o = i.args[0]
            elif i.op in ('bitcast', 'freeze') or c == 'vp.elem' and i.args[1] == ['c', 0]:
                o = i.args[0]
            else:
                break
        return o, tuple(reversed(p))

    def add(self, m, f, k, path):
        s = m[f.name].setdefault(k, set())
        if path in s or len(path) > 6 or len(path) == 2 and isinstance(path[1], tuple) and len(path[1]) > 6:
            return 0
        s.add(path)
        return 1

    def round(self, f):
        n = 0
        for i in f.insts():
            if i.op == 'store':
                o, p = self.path(f, i.args[1])
                d = self.O.direct(f, i.args[0], None)
                if o[0] == 'a' and p:
                    n += self.add(self.sets, f, o[1], p)
                if o[0] == 'a' and p and d[0] == 'a' and d[1] != o[1] and not self.O.handed(f, tuple(d), i):
                    n += self.add(self.moves, f, d[1], (o[1], p))
                if o[0] == 'a' and p and self.O.fresh(f, i.args[0], set()) == 'new' \
                        and not any(self.O.handed(f, x, i) for x in self.O.local[f.name]['of'](i.args[0]) if x[0] == 'v'):
                    n += self.add(self.fills, f, o[1], p)
                    for j in f.insts():
                        if j.op == 'store' and self.O.local[f.name]['of'](j.args[0]) & self.O.local[f.name]['of'](i.args[0]) and self.path(f, j.args[1])[0] == o:
                            self.twins[p].add(self.path(f, j.args[1])[1])
            elif i.op == 'call' and not (i.callee or '').startswith(('vp.', 'llvm.')):
                for k, x in enumerate(i.args):
                    if x[0] == 'v' and f.inst[x[1]].op in ('load', 'phi') and self.O.taken(i, k, x, f):
                        y = f.inst[x[1]]
                        for z in [y] if y.op == 'load' else [f.inst[w[1]] for w, _ in y.d['in'] if w[0] == 'v' and f.inst[w[1]].op == 'load']:
                            o, p = self.path(f, z.args[0])
                            if o[0] == 'a' and p:
                                n += self.add(self.drains, f, o[1], p)
                    if self.O.fresh(f, x, set()) == 'new':
                        for t in i.targets():
                            for j, q in list(self.moves[t].get(k, ())):
                                if j < len(i.args):
                                    o, p = self.path(f, i.args[j])
                                    if o[0] == 'a':
                                        n += self.add(self.fills, f, o[1], p + q)
                                        self.twins[p + q] |= {p + r for h, r in self.moves[t].get(k, ()) if h == j}
                    d = self.O.direct(f, x, None)
                    if d[0] == 'a':
                        for t in i.targets():
                            for j, q in list(self.moves[t].get(k, ())):
                                if j < len(i.args):
                                    o, p = self.path(f, i.args[j])
                                    if o[0] == 'a' and o[1] != d[1]:
                                        n += self.add(self.moves, f, d[1], (o[1], p + q))
                    o, p = self.path(f, x)
                    if o[0] != 'a':
                        continue
                    for t in i.targets():
                        for q in list(self.fills[t].get(k, ())):
                            n += self.add(self.fills, f, o[1], p + q)
                        for q in list(self.drains[t].get(k, ())):
                            n += self.add(self.drains, f, o[1], p + q)
                        for q in list(self.sets[t].get(k, ())):
                            n += self.add(self.sets, f, o[1], p + q)
        return n


def locals_(ctx, P):
    """what a local object (a file, a buffer, a connection) was filled with is released on every way out"""
    O = Own(P)
    I = Inside(O)
    for f in O.fns:
        for a in f.insts():
            if a.op != 'alloca' or not struct_of(f, a.id) or struct_of(f, a.id) == 'Defer':
                continue
            fill, drain, moved = {}, {}, set()
            for i in f.insts():
                if i.op != 'call' or (i.callee or '').startswith('vp.'):
                    continue
                if (i.callee or '').startswith('llvm.mem') and len(i.args) > 1 and I.path(f, i.args[1])[0] == ['v', a.id]:
                    moved.add(i.id)                     # copied as a whole: someone else has it now
                for k, x in enumerate(i.args):
                    o, p = I.path(f, x)
                    if o != ['v', a.id]:
                        continue
                    for t in i.targets():
                        for q in I.fills[t].get(k, ()):
                            fill.setdefault(i.id, set()).add(p + q)
                        for q in I.drains[t].get(k, ()):
                            drain.setdefault(i.id, set()).add(p + q)
            if not fill:
                continue
            for q in set().union(*fill.values()):
                for i in fill:
                    if q in fill[i]:
                        bad = held(O, f, f.inst[i], {x for x in drain if q in drain[x]} | moved)
                        ctx.ob('locals.released', f.name, not bad,
                               '%s: %s of a local object is filled by %s and not released on every way out' % (f.name, '.'.join(x.split('.')[-1] for x in q), f.inst[i].callee),
                               at=f.inst[i], why='; '.join(x.where() for x in bad[:3]))
    ctx.floor('locals.released', 20)


def held(O, f, c, drains):
    """exits reached from a call (and from it failing) without passing a release"""
    bad, seen, wl = [], set(), [c]
    for s in f.nxt(c):
        wl.append(s)
    wl = wl[1:]
    while wl:
        i = wl.pop()
        if i.id in seen or i.id in drains:
            continue
        seen.add(i.id)
        if i.callee == 'vp.unwind' or i.op == 'ret':
            bad.append(i)
            continue
        b = f.blocks[i.b]
        if i.k + 1 < len(b):
            wl.append(b[i.k + 1])
            continue
        for s, l in f.succ[i.b]:
            if l and l[0] == 'exc' and not O.raises(b):
                continue
            wl.append(f.blocks[s][0])
    return bad


RULES.append(locals_)


def typed(f, k):
    """the structure a parameter points to, by the fields that are used"""
    r = collections.Counter(i.callee[9:].split('.')[0] for i in f.insts() if (i.callee or '').startswith('vp.field.') and i.args[0] == ['a', k])
    return r.most_common(1)[0][0] if r else None


def destructors(ctx, P):
    """what an object was filled with is released when the object is"""
    O = Own(P)
    I = Inside(O)
    frees = collections.defaultdict(set)
    for f in O.fns:
        for i in f.calls('am_free', 'free'):
            d = O.direct(f, i.args[0], None)
            if d[0] == 'a' and typed(f, d[1]):
                frees[typed(f, d[1])].add((f.name, d[1]))
    fills = collections.defaultdict(set)
    for f in O.fns:
        for k, v in I.fills[f.name].items():
            for q in v:
                if all(nested(P, q, j) for j in range(len(q) - 1)):
                    fills[q].add(f.name)
    for f in O.fns:
        for i in f.insts():
            if i.op == 'store' and O.fresh(f, i.args[0], set()) == 'new':
                o, p = I.path(f, i.args[1])
                if p and o[0] == 'v' and all(nested(P, p, j) for j in range(len(p) - 1)) \
                        and not any(O.handed(f, x, i) for x in O.local[f.name]['of'](i.args[0]) if x[0] == 'v'):
                    fills[p].add(f.name)
    drained = collections.defaultdict(set)
    for f in O.fns:
        for k, v in I.drains[f.name].items():
            for q in v:
                drained[q].add(f.name)
    lent = set()                                        # fields whose own address is passed on: what they hold is copied
    for f in O.fns:
        for i in f.insts():
            if i.op == 'call' and not (i.callee or '').startswith(('vp.', 'llvm.life')):
                for x in i.args:
                    if I.path(f, x)[1]:
                        lent.add(I.path(f, x)[1][-1])
    for q in sorted(fills):
        if q[-1] in lent or q[0].startswith('Defer.'):
            continue
        t = q[0].split('.')[0]
        name = t + '.' + '.'.join(x.split('.')[-1] for x in q)
        for n, k in sorted(frees.get(t, ())):
            ctx.ob('destructors.complete', n, bool(({q} | I.twins[q]) & set(I.drains[n].get(k, ()))), '%s: %s (filled by %s) is not released with the object' % (n, name, sorted(fills[q])[0]),
                   at=P.fn[n].entry())
        if t not in frees:
            ctx.ob('destructors.some', name, any(drained.get(x) for x in {q} | I.twins[q]) or any(drained.get(q[j:]) for j in range(1, len(q))),
                   '%s: filled by %s and released by no function' % (name, sorted(fills[q])[0]), at=P.fn[sorted(fills[q])[0]].entry())
    ctx.floor('destructors.complete', 20)
    ctx.floor('destructors.some', 20)


def nested(P, q, j):
    """the next step of the path is a field of what this field is, embedded"""
    t, fl = q[j].split('.', 1)
    return q[j + 1].split('.')[0] == embedded(P, t, fl)


def embedded(P, t, fl):
    s = P.structs.get(t)
    for x in (s or {}).get('f', []):
        if isinstance(x, (list, tuple)) and x[0] == fl or isinstance(x, dict) and x.get('n') == fl:
            return x[1] if isinstance(x, (list, tuple)) else x.get('s')
    return None


def once(ctx, P):
    """what an object holds is not released twice without being set anew in between"""
    O = Own(P)
    I = Inside(O)
    for f in O.fns:
        ev = collections.defaultdict(list)              # (root, path) -> releases
        for i in f.insts():
            if i.op != 'call' or (i.callee or '').startswith(('vp.', 'llvm.')):
                continue
            for k, x in enumerate(i.args):
                if x[0] == 'v' and f.inst[x[1]].op == 'load' and O.taken(i, k, x, f):
                    o, p = I.path(f, f.inst[x[1]].args[0])
                    if p:
                        ev[tuple(o), p].append(i)
                o, p = I.path(f, x)
                ts = i.targets()
                if not ts or o[0] not in 'av':
                    continue
                for q in set.intersection(*[set(I.drains[t].get(k, ())) for t in ts]):
                    ev[tuple(o), p + q].append(i)
        for (o, q), l in ev.items():
            if len(l) < 2 and not any(x.id in f.reach([x]) for x in l):
                continue
            anew = set()
            for s in f.insts():
                if s.op == 'store' and I.path(f, s.args[1]) == (list(o), q):
                    anew.add(s.id)
                if s.op == 'call' and not (s.callee or '').startswith('vp.'):
                    if o == ('v', s.id):
                        anew.add(s.id)
                    for k, x in enumerate(s.args):
                        o2, p2 = I.path(f, x)
                        if tuple(o2) == o and ((s.callee or '').startswith('llvm.mem') or any(p2 + z == q for t in s.targets() for z in I.sets[t].get(k, ()))):
                            anew.add(s.id)
                if o == ('v', s.id):
                    anew.add(s.id)                      # another object
            for i in l:
                if i.id in anew:
                    continue
                bad = [x for x in l if x.id in after(O, f, i, anew)]
                ctx.ob('once.released', f.name, not bad, '%s: %s is released twice' % (f.name, '.'.join(x.split('.')[-1] for x in q)), at=i,
                       why='; '.join(x.where() for x in bad[:3]))
    ctx.floor('once.released', 1)


def after(O, f, c, stop):
    """what runs after a call, up to one of stop"""
    seen, wl = set(), f.nxt(c)[1:] if False else list(f.nxt(c))
    while wl:
        i = wl.pop()
        if i.id in seen:
            continue
        seen.add(i.id)
        if i.id in stop:
            continue
        b = f.blocks[i.b]
        if i.k + 1 < len(b):
            wl.append(b[i.k + 1])
            continue
        for s, l in f.succ[i.b]:
            if l and l[0] == 'exc' and not O.raises(b):
                continue
            wl.append(f.blocks[s][0])
    return seen


RULES += [destructors, once]


# lists that own what is on them
OWNERS = [('Columns.list', 'Column'), ('Keys.list', 'Key'), ('PartMgr.list', 'Part'), ('RelationMgr.list', 'Relation'),
          ('Server.config', 'ServerConfig'), ('Server.listen', 'ServerListen'), ('TableConfig.indexes', 'IndexConfig'),
          ('TableConfig.tiers', 'TierConfig'), ('Tier.list', 'Object'), ('TierMgr.list', 'Tier'), ('TrCache.list', 'Tr'),
          ('UserCache.list', 'User'), ('VolumeMgr.list', 'Volume'), ('CoroutineMgr.list_free', 'Coroutine'), ('CodecCache.list', 'Codec')]


def owners(ctx, P):
    """a list that owns its elements releases them when it goes itself"""
    O = Own(P)
    frees = collections.defaultdict(set)
    for f in O.fns:
        for i in f.calls('am_free', 'free'):
            d = O.direct(f, i.args[0], None)
            if d[0] == 'a':
                frees[typed(f, d[1])].add(f.name)

    def does(n, fl, e, depth=0):
        f = P.fn.get(n)
        if f is None:
            return False
        fields = set(i.callee[9:] for i in f.insts() if (i.callee or '').startswith('vp.field.'))
        for i in f.allcalls():
            for k, x in enumerate(i.args):
                for c in i.targets():
                    if fl in fields and O.taken(i, k, x, f):
                        t = typed(P.fn[c], k) if c in P.fn else None
                        if t == e or t is None and any(y.startswith(e + '.') for y in fields):
                            return True
                    if depth < 3 and c in P.fn and c != n and does(c, fl, e, depth + 1):
                        return True
        return False
    for fl, e in OWNERS:
        s = fl.split('.')[0]
        if s not in P.structs or not any(x[0] == fl.split('.')[1] for x in P.structs[s]['f']):
            raise Broken('%s is not a field any more' % fl)
        n = sorted(frees.get(s, ()))
        if not n:
            n = [x.name for x in O.fns if x.name.endswith('_free') and x.params and typed(x, 0) == s and x.name.replace('_', '') == s.lower() + 'free']
        if not n:
            raise Broken('what ends a %s is not known' % s)
        for x in n:
            ctx.ob('owners.released', x, does(x, fl, e), '%s: the elements of %s (%s) are not released with it' % (x, fl, e), at=P.fn[x].entry())
    ctx.floor('owners.released', len(OWNERS))


RULES.append(owners)
