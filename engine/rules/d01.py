"""D01: a schema operation means the same when it is replayed."""
from ..q import *
from ..core import load as core_load
from .enc import *
from . import d02
from .t05 import callers_of

ENTRIES, KEEP, PLAIN = [], [], True
RELATED = {'DDL_INDEX_CREATE'}      # carried out outside of catalog_execute


class Op:
    pass


def kinds(P):
    """DDL_* commands"""
    return {m: v for m, v in P.enum('DDL_TABLE_CREATE').items() if m.startswith('DDL_')}


_cache = {}


def codecs(P):
    """writers and readers of operations: functions that write, or read, an array that starts with a command"""
    if id(P) in _cache:
        return _cache[id(P)]
    ds = d02.defs(P)
    own = {x + s for x in ds for s in ('_write', '_read')}
    head = {n for n, f in P.fn.items() if '/catalog/' in (f.file or '') and f.file.endswith('.h') and n not in own}

    def calls(n, d=0):
        t = {x for c in P.fn[n].allcalls() for x in c.targets()}
        for x in list(t):
            if x in head and d < 4 and x != n:
                t |= calls(x, d + 1)
        return t
    cand = []
    for n in head:
        t = calls(n)
        if 'encode_array' in t and 'encode_integer' in t or 'json_read_array' in t and 'json_read_integer' in t:
            cand.append(n)
    sub = set()
    for n in cand:      # parts of others
        sub |= calls(n) & set(cand) - {n}
    cand = [n for n in cand if n not in sub]
    every = [x + s for x in ds for s in ('_write', '_read')]
    Q = core_load(cand, CODEC + every, [], True)
    W, R = {}, {}
    for n in sorted(cand):
        v = Q.view(n)
        ps = [p for p in paths(v) if p.end() == 'ret']
        o = Op()
        o.name, o.v, o.paths = n, v, ps
        evs = [trace(p) for p in ps]
        if not evs:
            continue
        if any(e.k == 'call' and e.f == 'encode_array' for e in evs[0]):
            buf = ('arg', 0, v.params[0])
            ts = [tree(writes_of(e, buf, d02.nests(ds, '_write'))) for e in evs]
            o.trees = ts
            if all(t and len(t) == 1 and t[0][0] == 'array' and t[0][1] and t[0][1][0][0] == 'integer' for t in ts):
                W[n] = o
            elif any(t is None for t in ts):
                W[n] = o
        else:
            o.evs = evs
            pos = [i for i in evs[0] if i.k == 'call' and i.f == 'json_read_array']
            if pos and any(e.k == 'call' and e.f == 'json_read_array_end' for es in evs for e in es):
                R[n] = o
    _cache[id(P)] = (W, R, ds, every)
    return _cache[id(P)]


def wshape(o):
    """[(kind, parameter position)] after the command, and the command (None: given)"""
    t = o.trees[0][0][1]
    cmd = const_of(t[0][2])
    if cmd is None:
        a = strip_cast(t[0][2])
        cmd = ('arg', a[1]) if a[0] == 'arg' else '?'
    r = []
    for x in t[1:]:
        if x[0] == 'nested':
            r.append((x[1], par(x[2][0])))
        else:
            r.append((x[0], par(x[2])))
    return cmd, r


def par(t):
    t = strip_cast(t)
    return t[1] if t[0] == 'arg' else None


def rshape(o, ds, evs):
    """[(kind, where: parameter position or 'ret')], and how the array is framed"""
    rd = d02.nests(ds, '_read')
    cs = [e for e in evs if e.k == 'call' and (e.f in SCALAR_R or e.f in OPEN or e.f in END or e.f in rd or e.f == 'json_skip')]
    framed = len(cs) >= 3 and cs[0].f == 'json_read_array' and SCALAR_R.get(cs[1].f) == 'integer' and cs[-1].f == 'json_read_array_end' and len([c for c in cs if c.f in OPEN or c.f in END]) == 2
    pos = {c.a[0] if c.f not in rd else c.a[-1] for c in cs}
    r = []
    for c in cs[2:-1]:
        if c.f in rd:
            r.append((rd[c.f], 'ret'))
        elif c.f == 'json_skip':
            r.append(('skip', 'ret'))
        elif c.f in SCALAR_R:
            r.append((SCALAR_R[c.f], par(c.a[1]) if len(c.a) > 1 else None))
        else:
            r.append((c.f, None))
    return r, framed and len(pos) == 1


def encoded(ctx, P):
    """an operation is written as one array that starts with its command, no two writers claim the same command, and every value comes from its own parameter"""
    W, R, ds, _ = codecs(P)
    seen = {}
    for n, o in W.items():
        ok = all(t and len(t) == 1 and t[0][0] == 'array' for t in o.trees)
        ctx.ob('encoded.array', n, ok, 'an operation is not written as one closed array')
        if not ok:
            continue
        ctx.ob('encoded.one', n, len({str(wshape1(t)) for t in o.trees}) == 1, 'what is written depends on the path')
        cmd, sh = wshape(o)
        ctx.ob('encoded.command', n, cmd != '?' and (isinstance(cmd, tuple) or cmd in kinds(P).values()), 'an operation does not start with its command')
        if isinstance(cmd, int):
            ctx.ob('encoded.distinct', n, cmd not in seen, 'the command is also written by %s' % seen.get(cmd))
            seen[cmd] = n
        ps = [p for k, p in sh]
        ctx.ob('encoded.parameters', n, None not in ps and len(set(ps)) == len(ps), 'a value does not come from its own parameter')
        # where the operation starts is what the caller gets
        used = set(ps) | {0} | ({cmd[1]} if isinstance(cmd, tuple) else set())
        ctx.ob('encoded.all', n, used == set(range(len(o.v.params))), 'a parameter is not written')
    ctx.floor('encoded.array', 25)
    miss = [m for m, v in kinds(P).items() if v not in seen]
    gen = [n for n, o in W.items() if isinstance(wshape(o)[0], tuple)]
    ctx.ob('encoded.kinds', 'ddl', not miss or bool(gen), 'no operation is written for %s' % ', '.join(miss))


def wshape1(t):
    return [(x[0], x[1] if x[0] == 'nested' else None, str(x[2])) for x in t[0][1]]


def decoded(ctx, P):
    """each reader of operations takes exactly one array apart, from its command to its end, through one cursor"""
    W, R, ds, _ = codecs(P)
    for n, o in R.items():
        shs = [rshape(o, ds, e) for e in o.evs]
        ctx.ob('decoded.framed', n, all(f for s, f in shs), 'an operation is not read from its start to its end')
        ctx.ob('decoded.one', n, len({str(s) for s, f in shs}) == 1, 'what is read depends on the path')
        ps = [p for k, p in shs[0][0] if p != 'ret']
        ctx.ob('decoded.parameters', n, None not in ps and len(set(ps)) == len(ps), 'a value is not read into its own parameter')
        if any(k == 'skip' for k, p in shs[0][0]):
            # what is returned is where the skipped value starts
            for p, e in zip(o.paths, o.evs):
                sk = [x for x in e if x.k == 'call' and x.f == 'json_skip'][0]
                rt = [i for i in p.insts if i.op == 'ret'][-1]
                t = subst(o.v.term(rt.args[0]), p.envs[-1]) if rt.args else None
                k = t[2] if t and t[0] == 'load' else None
                where = next((m for m, i in enumerate(p.insts) if i.id == k), None) if k is not None else None
                prev = [x.n for x in e if x.k == 'call' and x.n < sk.n and (x.f in SCALAR_R or x.f in OPEN)]
                nxt = sk.n
                ctx.ob('decoded.start', n, where is not None and max(prev) < where < nxt, 'the position returned is not where the nested definition starts', at=rt)
    ctx.floor('decoded.framed', 25)


def same_shape(w, r):
    """kinds agree in order and the parameters correspond"""
    if len(w) != len(r):
        return 'the number of values differs'
    off = None
    lasts = []
    for (wk, wp), (rk, rp) in zip(w, r):
        if rk == 'skip':
            if wk in ('string', 'integer', 'bool', 'real'):
                return 'a plain value is skipped'
        elif wk != rk:
            return '%s is read as %s' % (wk, rk)
        if rp != 'ret':
            lasts.append((wp, rp))
    if [a for a, b in sorted(lasts)] != [a for a, b in sorted(lasts, key=lambda x: x[1])]:
        return 'values change places'
    return None


def dispatched(ctx, P):
    """catalog_execute takes every command apart with a reader of the shape it was written with, reads a nested definition with the counterpart of its writer, and gives every value to the action in its place; a command that cannot be executed is refused"""
    W, R, ds, every = codecs(P)
    Q = core_load(['catalog_execute'], CODEC + every + list(R) + ['ddl_of'] + [n for n in P.fn if n.endswith(('_mgr_find', '_validate', '_validate_udfs', '_free', '_allocate'))] + actions(P), [], True)
    v = Q.view('catalog_execute')
    K = kinds(P)
    inv = {x: m for m, x in K.items()}
    writers = {}
    for n, o in W.items():
        cmd, sh = wshape(o)
        writers.setdefault(cmd if isinstance(cmd, int) else None, []).append((n, sh))
    done = set()
    rd = d02.nests(ds, '_read')
    seen = set()
    for p in paths(v):
        cmd = None
        for f in p.facts:
            a = strip_cast(f[2])
            if f[1] == 'eq' and a[0] == 'call' and a[1] == 'ddl_of' and const_of(f[3]) is not None:
                cmd = const_of(f[3])
        if cmd is None or cmd not in inv:
            continue
        evs = trace(p)
        rs = [e for e in evs if e.k == 'call' and e.f in R]
        at = p.insts[-1]
        if p.end() != 'ret':
            continue
        done.add(cmd)
        sig = (cmd, tuple((e.f, tuple(e.a)) for e in evs if e.k == 'call'))
        if sig in seen:
            continue
        seen.add(sig)
        ctx.ob('dispatched.reader', inv[cmd], len(rs) == 1 and rs[0].a[0] == ('arg', 2, v.params[2]), 'a command is not read exactly once', at=at)
        if len(rs) != 1:
            continue
        e = rs[0]
        rsh = rshape(R[e.f], ds, R[e.f].evs[0])[0]
        ws = writers.get(cmd) or writers.get(None, [])
        for wn, wsh in ws:
            why = same_shape(wsh, rsh)
            ctx.ob('dispatched.shape', inv[cmd], why is None, 'written by %s, read by %s: %s' % (wn, e.f, why), at=e.i)
            for (wk, _), (rk, _) in zip(wsh, rsh):
                if rk == 'skip':
                    it = [x for x in evs if x.k == 'call' and x.f in rd and x.n > e.n]
                    src = [b for x in it for b in x.a if b[0] == 'alloca']
                    st = [x for x in evs if x.k == 'store' and x.a in src and x.v[:2] == ('call', e.f)]
                    ctx.ob('dispatched.nested', inv[cmd], len(it) == 1 and rd[it[0].f] == wk and bool(st), 'the nested definition is not read by the counterpart of its writer', at=e.i)
        # every value reaches the action, in its place
        outs = [a for a in e.a[1:] if a[0] == 'alloca']
        later = [x for x in evs if x.k == 'call' and x.n > e.n]
        act = [x for x in later if x.f in actions(P)]
        ctx.ob('dispatched.action', inv[cmd], len(act) == 1, 'a command does not lead to one action', at=at)
        if len(act) != 1:
            continue
        act = act[0]
        find = [x for x in later if x.f == 'table_mgr_find']
        use = {}
        for x in find + [act]:
            for k, a in enumerate(x.a):
                b = a
                while b[0] == 'cast':
                    b = b[4]
                if b[0] == 'load':
                    b = b[1]
                if b in outs:
                    use.setdefault(b, []).append((x.f, k))
        for b in outs:
            ctx.ob('dispatched.used', inv[cmd], b in use or b[-1] == '', 'a value of the command is not used', at=act.i)
        order = [b for x in find + [act] for a in x.a for b in outs if leafmost(a) == b]
        want = [b for b in outs if b in order]
        named = None if any(swapped(P, R[e.f], e, x, outs) is None for x in find + [act]) else False
        ctx.ob('dispatched.order', inv[cmd], order == want or named is False, 'the values of the command change places', at=act.i)
        # the action belongs to this command
        ctx.ob('dispatched.kind', inv[cmd], belongs(P, inv[cmd], act.f), 'the command leads to %s' % act.f, at=act.i)
    for m, x in K.items():
        if m in RELATED:
            continue
        ctx.ob('dispatched.known', m, x in done, 'a command is not executed')
    ctx.floor('dispatched.shape', 25)
    ctx.floor('dispatched.order', 25)


def leafmost(a):
    while a[0] == 'cast':
        a = a[4]
    return a[1] if a[0] == 'load' else a


def swapped(P, r, e, act, outs):
    """False when the names say that nothing changes places"""
    prm = P.fn[act.f].params
    for k, a in enumerate(act.a):
        b = leafmost(a)
        if b in outs:
            nm = r.v.params[list(e.a).index(b)]
            if prm[k] != nm and b[2] != prm[k]:
                return None
    return False


# what an action on each object looks up
OBJECTS = {'STORAGE': 'storage_mgr_find', 'DATABASE': 'database_mgr_find', 'TABLE': 'table_mgr_find', 'INDEX': 'table_index_find', 'TIER': 'tier_mgr_find', 'UDF': 'udf_mgr_find'}
SCOPES = {'COLUMN': 'columns_find', 'STORAGE': 'volume_mgr_find'}
VERBS = {'CREATE': ('create', 'add'), 'DROP': ('drop',), 'RENAME': ('rename',), 'TRUNCATE': ('truncate',), 'ADD': ('add',), 'PAUSE': ('pause',), 'REPLACE': ('replace', 'create'), 'SET': ('set',),
         'IDENTITY': ('identity',), 'UNLOGGED': ('unlogged',), 'DEFAULT': ('set',), 'STORED': ('set',), 'RESOLVED': ('set',)}


def belongs(P, cmd, fn):
    w = VERBS.get(cmd.split('_')[-1])
    if w is not None and not any(x in fn.split('_') for x in w):
        return False
    o = OBJECTS.get(cmd.split('_')[1])
    c = closure(P, fn)
    return o is None or o in c or not c & set(OBJECTS.values())


def closure(P, n, seen=None):
    seen = set() if seen is None else seen
    for c in P.fn[n].allcalls():
        for t in c.targets():
            if t in P.fn and t not in seen:
                seen.add(t)
                closure(P, t, seen)
    return seen


def actions(P):
    """functions that register a change in the transaction they are given, called to execute a command"""
    R = codecs(P)[1]
    r, wl, seen = [], ['catalog_execute'], set()
    while wl:
        n = wl.pop()
        for c in P.fn[n].allcalls():
            for t in c.targets():
                if t in seen or t not in P.fn or 'tr' not in P.fn[t].params:
                    continue
                seen.add(t)
                if closure(P, t) & set(R):
                    wl.append(t)
                else:
                    r.append(t)
    return sorted(r)


def conditions(ctx, P):
    """the option that makes a command do nothing when its object is missing is the one that says 'if exists', and the one for an object that is already there 'if not exists'"""
    acts = [a for a in actions(P)]
    finders = [n for n in P.fn if n.endswith('_find')] + ['columns_find']
    leaf = {}
    Q = core_load(acts, CODEC + finders + ['log_relation', 'error_throw', 'report_error'], [], True)
    for n in acts:
        v = Q.view(n)
        for i in v.calls('error_throw', 'report_error'):
            last = None
            cs = v.conds(i)
            for f in cs:
                a = strip_cast(f[2])
                if a[0] == 'call' and a[1] in finders and f[3] == ('null',):
                    last, by = f[1], a[1]
                elif a[0] == 'arg' and const_of(f[3]) == 0 and last and f == cs[-1]:
                    leaf.setdefault((n, a[1]), set()).add((last, by))
                    ctx.ob('conditions.refused', n, f[1] == 'eq', 'the option makes the command fail', at=i)
    Q2 = core_load(['catalog_execute'], acts + ['ddl_of'] + [n for n in P.fn if n.endswith('_read')], [], True)
    v = Q2.view('catalog_execute')
    bits = P.enum('DDL_IF_EXISTS')
    inv = {x: m for m, x in bits.items()}
    miss = {x for m, x in bits.items() if m.endswith('_EXISTS') and '_NOT_' not in m}
    there = {x for m, x in bits.items() if '_NOT_EXISTS' in m}
    for i in v.calls(*acts):
        for k, a in enumerate(i.args):
            s = leaf.get((i.callee, k))
            if not s:
                continue
            m = mask(v, v.term(a))
            if m is None:
                continue
            d = {x for x, _ in s}
            ok = not (d == {'eq'} and m in there or d == {'ne'} and m in miss) and m in inv
            if ok:
                sc = [w for w in SCOPES if '_%s_' % w in inv[m]]
                ok = all((y in [SCOPES[w] for w in sc]) if sc else y not in SCOPES.values() for _, y in s)
            ctx.ob('conditions.option', i.callee, ok, 'the command looks at the wrong option', at=i)
    ctx.floor('conditions.option', 15)


def mask(v, t, d=0):
    """bit of the flags a condition depends on"""
    if d > 10 or not isinstance(t, tuple):
        return None
    if t[0] == 'bin' and t[1] == 'and':
        c = const_of(t[3])
        if c is not None and strip_cast(t[2])[0] == 'arg':
            return c
    for x in t[1:]:
        if isinstance(x, tuple):
            r = mask(v, x, d + 1)
            if r is not None:
                return r
    return None


RULES = [encoded, decoded, dispatched, conditions]
