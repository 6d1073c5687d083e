"""Queries shared by the rules: selecting events by what they touch, and path conditions between them."""
from .core import NEG, leaf_field, fields_in, strip_cast, base_of, boolish
from .facts import Broken


def stores(f, *fields):
    """plain stores whose target is one of Struct.field"""
    r = []
    for i in f.insts():
        if i.op == 'store' and leaf_field(f.term(i.args[1])) in fields and f.term(i.args[1])[0] == 'field':
            r.append(i)
    return r


def writes(f, *fields):
    """stores and atomic read-modify-writes of a field"""
    r = stores(f, *fields)
    for i in f.insts():
        if i.op in ('atomicrmw', 'cmpxchg') and leaf_field(f.term(i.args[0])) in fields:
            r.append(i)
    return r


def loads(f, *fields):
    r = []
    for i in f.insts():
        if i.op == 'load':
            t = f.term(i.args[0])
            if t[0] == 'field' and t[2] in fields:
                r.append(i)
    return r


def on(f, calls, field, arg=0):
    """calls whose argument `arg` is (the address or the value of) Struct.field"""
    return [c for c in calls if len(c.args) > arg and leaf_field(f.term(c.args[arg])) == field]


def call_on(f, name, field, arg=0):
    return on(f, f.calls(name), field, arg)


def argfield(f, c, n):
    return leaf_field(f.term(c.args[n])) if len(c.args) > n else None


def inst(f, t):
    """instruction a term was computed by"""
    if t[0] in ('load', 'call', 'op'):
        return f.inst[t[2]]
    if t[0] in ('phi', 'alloca'):
        return f.inst[t[1]]
    return None


def missing(f, frm, ends, via, exc=True, edge=None):
    """an end reachable from frm (None: function entry) without passing one of via, or None"""
    if frm is None:
        return f.from_entry(ends, avoid=via, exc=exc, edge=edge)
    return f.can_reach(frm, ends, avoid=via, exc=exc, edge=edge)


def after(f, a, bs, avoid=(), exc=True, edge=None):
    """one of bs reachable after a"""
    return f.can_reach(a, bs, avoid=avoid, exc=exc, edge=edge)


def resolve(f, t, depth=0, seen=None):
    """set of non-phi terms a value may come from"""
    if seen is None:
        seen = set()
    if t[0] == 'phi':
        if t[1] in seen or depth > 12:
            return []
        seen.add(t[1])
        r = []
        for v, b in f.inst[t[1]].d['in']:
            r += resolve(f, f.term(v), depth + 1, seen)
        return r
    if t[0] == 'select':
        return resolve(f, t[2], depth + 1, seen) + resolve(f, t[3], depth + 1, seen)
    if t[0] == 'cast':
        return resolve(f, t[4], depth + 1, seen)
    return [t]


def deep(f, t, pred, seen=None):
    """does pred hold for some term in the expression tree (through phis)?"""
    if seen is None:
        seen = set()
    if pred(t):
        return True
    if t[0] == 'phi':
        if t[1] in seen:
            return False
        seen.add(t[1])
        return any(deep(f, f.term(v), pred, seen) for v, b in f.inst[t[1]].d['in'])
    if t[0] == 'call':
        if isinstance(t[2], tuple):
            return any(deep(f, x, pred, seen) for x in t[2] if isinstance(x, tuple))
        i = f.inst[t[2]]
        if ('c', t[2]) in seen:
            return False
        seen.add(('c', t[2]))
        return any(deep(f, f.term(a), pred, seen) for a in i.args)
    return any(deep(f, x, pred, seen) for x in t if isinstance(x, tuple))


def mentions(f, t, field):
    return deep(f, t, lambda x: x[0] == 'field' and x[2] == field)


def calls_in(f, t, name):
    return deep(f, t, lambda x: x[0] == 'call' and x[1] == name)


def cond_facts(f, l):
    if not l:
        return []
    if l[0] == 'br':
        return f.fact(f.term(l[1]), l[2])
    return []


def cut_when(f, pred):
    """edge filter that removes edges on which pred(facts) holds"""
    cache = {}

    def edge(b, s, l):
        if not l or l[0] != 'br':
            return True
        k = (b, s, l[2])
        if k not in cache:
            cache[k] = not pred(cond_facts(f, l))
        return cache[k]
    return edge


def is_opt(f, t, field):
    """t is the value of option Struct.field"""
    t = strip_cast(t)
    if t[0] == 'load' and leaf_field(t[1]) in ('Opt.integer',) and t[1][0] == 'field':
        return leaf_field(t[1][1]) == field
    if t[0] == 'call' and t[1] in ('opt_int_of', 'opt_string_of', 'opt_json_of'):
        return leaf_field(f.term(f.inst[t[2]].args[0])) == field
    return False


def truth(f, facts, pred):
    """True / False / None: what the facts say about the (boolean) value matched by pred"""
    for _, p, a, b in facts:
        if b == ('const', 0) and p in ('ne', 'eq') and pred(strip_cast(a)):
            return p == 'ne'
        if b == ('const', 1) and p in ('ne', 'eq') and pred(strip_cast(a)):
            return p == 'eq'
    return None


def opt_off(f, field):
    return cut_when(f, lambda fs: truth(f, fs, lambda t: is_opt(f, t, field)) is False)


def opt_on(f, field):
    return cut_when(f, lambda fs: truth(f, fs, lambda t: is_opt(f, t, field)) is True)


def allof(*edges):
    es = [e for e in edges if e]
    return lambda b, s, l: all(e(b, s, l) for e in es)


def error_edges(f, calls, bad=lambda p, k: False):
    """edge filter that removes the edges taken when one of the calls failed (returned -1 / NULL / non-zero as given by bad)"""
    ids = set(c.id for c in calls)

    def pred(fs):
        for _, p, a, b in fs:
            a = strip_cast(a)
            if a[0] == 'call' and a[2] in ids:
                if b[0] == 'const' and bad(p, b[1]):
                    return True
                if b[0] == 'null' and bad(p, None):
                    return True
        return False
    return cut_when(f, pred)


def is_fail(p, k):
    """-1 convention"""
    return (p == 'eq' and k == -1) or (p == 'slt' and k == 0) or (p == 'ne' and k == 0) or (p == 'sle' and k == -1)


def const_of(t):
    t = strip_cast(t)
    return t[1] if t[0] == 'const' else None


def loop_blocks(f):
    """blocks that lie on a cycle -> set; plus scc id"""
    n = len(f.blocks)
    idx, low, st, on, out, c = {}, {}, [], set(), {}, [0]
    import sys
    sys.setrecursionlimit(20000)

    def go(v):
        work = [(v, iter(f.succ[v]))]
        idx[v] = low[v] = c[0]; c[0] += 1
        st.append(v); on.add(v)
        while work:
            u, it = work[-1]
            adv = False
            for w, _ in it:
                if w not in idx:
                    idx[w] = low[w] = c[0]; c[0] += 1
                    st.append(w); on.add(w)
                    work.append((w, iter(f.succ[w])))
                    adv = True
                    break
                elif w in on:
                    low[u] = min(low[u], idx[w])
            if adv:
                continue
            work.pop()
            if work:
                low[work[-1][0]] = min(low[work[-1][0]], low[u])
            if low[u] == idx[u]:
                comp = []
                while True:
                    w = st.pop(); on.discard(w); comp.append(w)
                    if w == u:
                        break
                self_loop = any(w == u for w, _ in f.succ[u])
                if len(comp) > 1 or self_loop:
                    for w in comp:
                        out[w] = u
    for v in range(n):
        if v not in idx:
            go(v)
    return out


def in_loop(f, i):
    if not hasattr(f, '_loops'):
        f._loops = loop_blocks(f)
    return i.b in f._loops


def list_loop_head(f, i):
    """fields of the lists the loop around i walks over (the term the cursor is compared with)"""
    if not hasattr(f, '_loops'):
        f._loops = loop_blocks(f)
    s = f._loops.get(i.b)
    r = []
    if s is None:
        return r
    for b, sid in f._loops.items():
        if sid != s:
            continue
        for t, l in f.succ[b]:
            if l and l[0] == 'br' and f._loops.get(t) != s:
                for _, p, a, x in cond_facts(f, l):
                    for y in (a, x):
                        lf = leaf_field(y)
                        if lf:
                            r.append(lf)
    return r


# ---------------------------------------------------------------- path enumeration (small functions)

def fold(t):
    if t[0] == 'bin' and t[2][0] == 'const' and t[3][0] == 'const' and isinstance(t[2][1], int) and isinstance(t[3][1], int):
        a, b = t[2][1], t[3][1]
        op = t[1]
        if op == 'or': return ('const', a | b)
        if op == 'and': return ('const', a & b)
        if op == 'xor': return ('const', a ^ b)
        if op == 'add': return ('const', a + b)
        if op == 'sub': return ('const', a - b)
        if op == 'mul': return ('const', a * b)
        if op == 'shl' and 0 <= b < 64: return ('const', a << b)
    if t[0] == 'bin' and t[1] == 'and' and t[3][0] == 'const' and t[2][0] == 'bin' and t[2][1] == 'and' and t[2][3][0] == 'const':
        return fold(('bin', 'and', t[2][2], ('const', t[2][3][1] & t[3][1])))
    if t[0] == 'bin' and t[1] == 'and' and t[3] == ('const', 0):
        return ('const', 0)
    if t[0] == 'cmp' and t[2][0] == 'const' and t[3][0] == 'const' and isinstance(t[2][1], int) and isinstance(t[3][1], int):
        a, b, p = t[2][1], t[3][1], t[1]
        if p[0] == 'u' and (a < 0 or b < 0):
            a &= (1 << 64) - 1
            b &= (1 << 64) - 1
        return ('const', int({'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[p[-2:]]))
    if t[0] == 'cmp' and t[2] == ('null',) and t[3] == ('null',):
        return ('const', int(t[1] == 'eq'))
    if t[0] == 'cmp' and t[1] in ('eq', 'ne') and t[3] == ('null',) and t[2][0] in ('field', 'alloca', 'str', 'fn', 'global'):
        return ('const', int(t[1] == 'ne'))
    if t[0] == 'cast' and t[4][0] == 'const':
        if t[1] == 'zext' and t[2] == 'i1':
            return ('const', t[4][1] & 1)
        if t[1] == 'trunc' and t[3] == 'i1':
            return ('const', t[4][1] & 1)
        return t[4]
    if t[0] == 'select' and t[1][0] == 'const':
        return t[2] if t[1][1] else t[3]
    return t


def subst(t, env, d=0):
    if not isinstance(t, tuple) or d > 40:
        return t
    if t[0] == 'phi':
        return env.get(t[1], t)
    if t[0] in ('load', 'field', 'cast', 'cmp', 'bin', 'select', 'index'):
        if t[0] == 'load' and ('i', t[2]) in env:
            return t[:1] + (subst(t[1], env, d + 1), t[2], env[('i', t[2])])
        return fold(tuple(subst(x, env, d + 1) if isinstance(x, tuple) else x for x in t))
    if t[0] in ('call', 'op') and ('i', t[2]) in env:
        return t[:3] + (env[('i', t[2])],)
    return t


class Path:
    def __init__(self, v):
        self.v, self.insts, self.facts, self.env, self.blocks, self.cut, self.live, self.at, self.envs = v, [], [], {}, [], None, [], [], []

    def arg(self, i, n):
        return subst(self.v.term(i.args[n]), i_env(self, i))

    def calls(self, *names):
        return [i for i in self.insts if i.op == 'call' and any(t in names for t in i.targets())]

    def index(self, i):
        return next(k for k, x in enumerate(self.insts) if x is i)

    def end(self):
        """'ret' | 'unwind' | 'panic' """
        l = self.insts[-1]
        if self.cut is not None:
            return 'loop'
        if l.op == 'ret':
            return 'ret'
        if any(i.callee == 'vp.unwind' for i in self.insts[-3:]):
            return 'unwind'
        return 'panic'

    def truth(self, pred):
        return truth(self.v, self.facts, pred)

    def answers(self, pred):
        """(call, True/False/None) of every executed call of the given kind, by the branches taken on that execution's result"""
        r = []
        ks = [k for k, i in enumerate(self.insts) if i.op == 'call' and pred(i)]
        for j, k in enumerate(ks):
            i = self.insts[k]
            nx = next((x for x in ks[j + 1:] if self.insts[x] is i), len(self.insts) + 1)
            fs = [f for f, a in zip(self.facts, self.at) if k < a <= nx]
            r.append((i, truth(self.v, fs, lambda t, i=i: t[0] == 'call' and t[2] == i.id)))
        return r


def i_env(p, i):
    return p.env


def stable_key(v, t):
    """terms that keep their value during one call of a function: option values"""
    t = strip_cast(t)
    if t[0] == 'call' and t[1] in ('opt_int_of',):
        return ('opt', leaf_field(v.term(v.inst[t[2]].args[0])))
    if t[0] == 'load' and t[1][0] == 'field' and t[1][2] == 'Opt.integer':
        return ('opt', leaf_field(t[1][1]))
    return t


def paths(v, limit=20000, visits=2, stable=stable_key, start=None, cut=False, edge=None, instances=False):
    """all paths through v (each block at most `visits` times), contradictory branches on the same value pruned.
    instances: every execution of a call or load is a value of its own (terms carry the number of the execution)"""
    out = []
    n = [0]

    def consistent(facts, new):
        for _, p, a, b in new:
            ka = stable(v, a)
            for _, q, c, d in facts:
                if d == b and stable(v, c) == ka:
                    if NEG.get(p) == q:
                        return False
                elif stable(v, c) == ka and p == 'eq' and q == 'eq' and b[0] == 'const' and d[0] == 'const' and b != d:
                    return False
        return True

    blk = {i.id: bi for bi, bl in enumerate(v.blocks) for i in bl}
    tb = {}

    def defs(t):
        """blocks in which the values of a term are computed"""
        if t in tb:
            return tb[t]
        r = set()
        if isinstance(t, tuple) and t:
            if t[0] in ('load', 'call', 'op') and not isinstance(t[2], tuple):
                r.add(blk.get(t[2]))
            elif t[0] in ('phi', 'deep'):
                r.add(blk.get(t[1]))
            for x in t:
                if isinstance(x, tuple):
                    r |= defs(x)
        tb[t] = r
        return r

    def go(b, prev, p, seen):
        n[0] += 1
        if n[0] > limit * 40 or len(out) > limit:
            raise Broken('too many paths in ' + v.name)
        seen = dict(seen)
        seen[b] = seen.get(b, 0) + 1
        q = Path(v)
        q.insts = list(p.insts)
        q.facts = list(p.facts)
        q.at = list(p.at)
        # values computed in a block that is entered again are new values
        q.live = p.live if seen[b] == 1 or instances else [f for f in p.live if b not in defs(f)]
        q.env = dict(p.env)
        q.envs = p.envs + [q.env] * len(v.blocks[b])
        q.blocks = p.blocks + [b]
        upd = {}
        if instances:
            for i in v.blocks[b]:
                if i.op in ('call', 'load') and seen[b] > 1:
                    upd[('i', i.id)] = seen[b]
        for i in v.blocks[b]:
            if i.op == 'phi' and prev is not None:
                for val, pb in i.d['in']:
                    if pb == prev:
                        upd[i.id] = subst(v.term(val), q.env)
            q.insts.append(i)
        q.env.update(upd)
        if not v.succ[b]:
            out.append(q)
            return
        for s, l in v.succ[b]:
            if edge and not edge(b, s, l):
                continue
            r = q
            new = []
            if l and l[0] == 'br':
                t = subst(v.term(l[1]), q.env)
                t2 = fold(t)
                if t2[0] == 'const':
                    if bool(t2[1]) != l[2]:
                        continue
                else:
                    new = v.fact(t2, l[2])
                    bad = False
                    for f in new:
                        ff = fold(f)
                        if ff[0] == 'const' and not ff[1]:
                            bad = True
                    if bad or not consistent(q.live, new):
                        continue
            elif l and l[0] == 'sw':
                t = fold(subst(v.term(l[1]), q.env))
                if t[0] == 'const':     # known: one way only
                    cs = [c for c, _ in v.blocks[b][-1].d['cs']]
                    if l[2] is not None and l[2] != t[1] or l[2] is None and t[1] in cs:
                        continue
                elif l[2] is not None:
                    new = [('cmp', 'eq', subst(v.term(l[1]), q.env), ('const', l[2]))]
                else:
                    new = [('cmp', 'ne', subst(v.term(l[1]), q.env), ('const', c)) for c, _ in v.blocks[b][-1].d['cs']]
            if new:
                r = Path(v)
                r.insts, r.env, r.blocks, r.live, r.at, r.envs = q.insts, q.env, q.blocks, q.live, q.at, q.envs
                r.facts = q.facts + new
                r.live = q.live + new
                r.at = q.at + [len(q.insts)] * len(new)
            if seen.get(s, 0) >= visits:
                if cut:
                    r.cut = s
                    out.append(r)
                    r = q
                continue
            go(s, b, r, seen)
    import sys
    sys.setrecursionlimit(20000)
    go(0 if start is None else start, None, Path(v), {})
    return out


# ---------------------------------------------------------------- linear forms

def lin(t, sign=1, acc=None, keepcast=False):
    """linear form {atom: coefficient} (constant under None) of an integer term; widening casts are transparent"""
    if acc is None:
        acc = {}
    if t[0] == 'cast' and (not keepcast or t[1] != 'trunc'):
        return lin(t[4], sign, acc, keepcast)
    if t[0] == 'const' and isinstance(t[1], int):
        acc[None] = acc.get(None, 0) + sign * t[1]
    elif t[0] == 'bin' and t[1] == 'add':
        lin(t[2], sign, acc, keepcast)
        lin(t[3], sign, acc, keepcast)
    elif t[0] == 'bin' and t[1] == 'sub':
        lin(t[2], sign, acc, keepcast)
        lin(t[3], -sign, acc, keepcast)
    elif t[0] == 'bin' and t[1] == 'mul' and t[3][0] == 'const':
        lin(t[2], sign * t[3][1], acc, keepcast)
    elif t[0] == 'bin' and t[1] == 'mul' and t[2][0] == 'const':
        lin(t[3], sign * t[2][1], acc, keepcast)
    elif t[0] == 'bin' and t[1] == 'shl' and t[3][0] == 'const':
        lin(t[2], sign << t[3][1] if sign >= 0 else -((-sign) << t[3][1]), acc, keepcast)
    else:
        acc[t] = acc.get(t, 0) + sign
    return {k: c for k, c in acc.items() if c or k is None}


def plin(t, sign=1, acc=None):
    """linear form of a pointer or integer term: indexing is addition"""
    if acc is None:
        acc = {}
    if t[0] == 'cast':
        return plin(t[4], sign, acc)
    if t[0] == 'index':
        plin(t[1], sign, acc)
        for k, c in lin(t[2]).items():
            acc[k] = acc.get(k, 0) + sign * c * t[3]
    elif t[0] == 'bin' and t[1] in ('add', 'sub'):
        plin(t[2], sign, acc)
        plin(t[3], sign if t[1] == 'add' else -sign, acc)
    else:
        for k, c in lin(t, sign).items():
            acc[k] = acc.get(k, 0) + c
    return {k: c for k, c in acc.items() if c}


def ladd(*es):
    """sum of (sign, linear form)"""
    r = {}
    for s, e in es:
        for k, c in e.items():
            r[k] = r.get(k, 0) + s * c
    return {k: c for k, c in r.items() if c}


def le0(fact):
    """fact over integers as a linear form E with E <= 0 (or None)"""
    _, p, a, b = fact
    if b == ('null',) or a == ('null',):
        return None
    if p in ('ult', 'slt'):
        e = lin(b, -1, lin(a))
        e[None] = e.get(None, 0) + 1
    elif p in ('ule', 'sle'):
        e = lin(b, -1, lin(a))
    elif p in ('ugt', 'sgt'):
        e = lin(a, -1, lin(b))
        e[None] = e.get(None, 0) + 1
    elif p in ('uge', 'sge'):
        e = lin(a, -1, lin(b))
    else:
        return None
    return {k: c for k, c in e.items() if c or k is None}


def normal(v, e):
    """linear form with location-normalised atoms"""
    r = {}
    for k, c in e.items():
        kk = None if k is None else v.norm(k)
        r[kk] = r.get(kk, 0) + c
    return {k: c for k, c in r.items() if c}


def bounds(v, i):
    """all E <= 0 facts that hold at instruction i, atoms kept"""
    r = []
    for f in v.conds(i):
        e = le0(f)
        if e is not None:
            r.append(e)
        if f[1] == 'eq':
            for q in ('ule', 'uge'):
                e = le0(('cmp', q, f[2], f[3]))
                if e is not None:
                    r.append(e)
    return r


def find_struct(P, name):
    if name not in P.structs:
        raise Broken('structure %s is not in the program' % name)
    return P.structs[name]


def offset_of(P, st, field):
    for n, ty, off, size in find_struct(P, st)['f']:
        if n == field:
            return off, size
    raise Broken('%s has no field %s' % (st, field))


# ---------------------------------------------------------------- what happens on a path, in order

class Ev:
    """one event: k in load/store/rmw/call; f = field written/read or callee; a = address or args; v = value"""
    __slots__ = ('k', 'f', 'a', 'v', 'i', 'n', 'fs')

    def __repr__(self):
        return '<%s %s %s>' % (self.k, self.f, self.v)


def trace(p, loads=False):
    """the events of a path in order, in location-normalised terms"""
    v, r = p.v, []
    for n, i in enumerate(p.insts):
        T = lambda o: v.norm(subst(v.term(o), p.envs[n]))
        e = Ev()
        e.i, e.n, e.v, e.fs = i, n, None, ()
        if i.op == 'store':
            e.k, e.a, e.v = 'store', T(i.args[1]), T(i.args[0])
            e.f = leaf_field(e.a)
        elif i.op in ('atomicrmw', 'cmpxchg'):
            e.k, e.a = 'rmw', T(i.args[0])
            e.f, e.v = leaf_field(e.a), (i.d.get('rmw', 'cmpxchg'), T(i.args[1]))
        elif i.op == 'load' and loads:
            e.k, e.a = 'load', T(i.args[0])
            e.f = leaf_field(e.a)
        elif i.op == 'call' and not (i.callee or '').startswith(('vp.', 'llvm.')):
            e.k, e.f, e.fs = 'call', i.callee or '?', i.targets()
            e.a = [T(x) for x in i.args]
        else:
            continue
        r.append(e)
    return r


def sel(tr, k, *names):
    return [e for e in tr if e.k == k and (e.f in names or any(t in names for t in e.fs))]


def wrote(e, delta=None, const=None):
    """the store/rmw adds delta to what was there, or writes the constant"""
    if e.k == 'rmw':
        op, x = e.v
        c = const_of(x)
        if delta is not None:
            return (op == 'add' and c == delta) or (op == 'sub' and c == -delta)
        return op == 'xchg' and c == const
    x = strip_cast(e.v)
    if delta is not None:
        if x[0] == 'bin' and x[1] in ('add', 'sub') and x[3][0] == 'const' and strip_cast(x[2]) == ('load', e.a):
            return (x[3][1] if x[1] == 'add' else -x[3][1]) == delta
        return False
    return x == ('const', const) or (not const and x == ('null',))


def fact_says(p, pred, k=0):
    """what the branches of the path say about a value compared with k: set of possible small values"""
    vals = set(range(-3, 6))
    for f in p.facts:
        a, b = strip_cast(f[2]), f[3]
        if pred(a) and b[0] in ('const', 'null'):
            c = b[1] if b[0] == 'const' else 0
            vals = {x for x in vals if holds(f[1], x, c)}
    return vals


def before(p, n, start=-1):
    """the path as seen by its n-th instruction (facts only)"""
    q = Path(p.v)
    q.insts, q.env, q.envs = p.insts, p.env, p.envs
    q.facts = [f for f, a in zip(p.facts, p.at) if start < a <= n]
    q.at = [a for a in p.at if start < a <= n]
    return q


def holds(p, x, c):
    if p[0] == 'u':
        x, c = x & (2 ** 64 - 1), c & (2 ** 64 - 1)
    return {'eq': x == c, 'ne': x != c, 'lt': x < c, 'le': x <= c, 'gt': x > c, 'ge': x >= c}[p[-2:]]


def isload(*fields):
    return lambda t: t[0] == 'load' and t[1][0] == 'field' and t[1][2] in fields


def iscall(*names):
    return lambda t: t[0] == 'call' and t[1] in names


def effects(p):
    """what a path stores: {address: linear form of the last value stored, over the values at the start of the path}; loads see earlier stores of the path.
    Addresses and values are in location-normalised terms"""
    v, mem, val = p.v, {}, {}
    base = {}

    def ev(t):
        t = subst(t, {})
        out = {}
        for k, c in plin(t).items():
            if k is not None and k[0] == 'load' and k[2] in val:
                for k2, c2 in val[k[2]].items():
                    out[k2] = out.get(k2, 0) + c * c2
            else:
                k = rebuild(k)
                out[k] = out.get(k, 0) + c
        return {k: c for k, c in out.items() if c}

    def rebuild(k):
        """an atom with the loads inside it replaced by what they read"""
        if not isinstance(k, tuple):
            return k
        if k[0] == 'load' and k[2] in val:
            x = val[k[2]]
            if len(x) == 1:
                (a, c), = x.items()
                if a is not None and c == 1:
                    return a
            return ('lin', tuple(sorted(x.items(), key=repr)))
        if k[0] == 'load':
            return ('load', rebuild(k[1]))
        if k[0] == 'call':
            return v.norm(k)
        if k[0] == 'phi':
            return k
        return tuple(rebuild(x) if isinstance(x, tuple) else x for x in k)
    r = []
    for n, i in enumerate(p.insts):
        if i.op == 'load':
            a = rebuild(subst(v.term(i.args[0]), p.envs[n]))
            if a in mem:
                val[i.id] = mem[a]
            else:
                val[i.id] = {('load', a): 1}
        elif i.op == 'store':
            a = rebuild(subst(v.term(i.args[1]), p.envs[n]))
            mem[a] = ev(subst(v.term(i.args[0]), p.envs[n]))
            r.append((a, i))
    p.addr = dict(r)
    p.value = lambda t: ev(t)
    return mem
