"""S01: only a valid, unexpired token of an existing user authenticates."""
from ..q import *
from ..core import load as core_load
from ..flow import Flow, key, add, const, num, scale, atom
from .enc import table

ENTRIES, KEEP, PLAIN = [], [], True
noexc = lambda b, s, l: l != ('exc',)
PARTS = ['jwt_decode', 'jwt_decode_data', 'jwt_decode_validate', 'auth_cache_find', 'auth_cache_add', 'auth_cache_del', 'auth_cache_prepare', 'auth_cache_reset', 'user_cache_find', 'time_ms', 'buf_reset', 'json_reset']
PRIMS = ['base64url_decode', 'HMAC', 'EVP_sha256', 'json_parse', 'decode_obj', 'str_is_case', 'str_is', 'str_is_cstr', 'str_compare', 'buf_reset', 'json_reset', 'report_error', 'str_set', 'json_init', 'json_free', 'hashtable_get', 'hashtable_set', 'hashtable_reserve', 'hash_murmur3_32', 'str_copy', 'str_free', 'buf_str']


def A(v, n):
    return ('arg', n, v.params[n])


def call_of(t):
    t = strip_cast(t)
    return t if t[0] == 'call' else None


def fact(p, pred):
    return any(pred(f[1], strip_cast(p.v.norm(f[2])), strip_cast(p.v.norm(f[3]))) for f in p.facts if f[0] == 'cmp')


def isnow(t):
    """the time in seconds"""
    t = strip_cast(t)
    return t[0] == 'bin' and t[1] in ('udiv', 'sdiv') and call_of(t[2]) == ('call', 'time_ms', ()) and const_of(t[3]) == 1000


def before(p, limit):
    """the path knows that the time is below a limit"""
    def f(op, a, b):
        if isnow(a) and b == limit:
            return op in ('slt', 'ult')
        if isnow(b) and a == limit:
            return op in ('sgt', 'ugt')
        return False
    return fact(p, f)


def nonnull(p, c):
    return fact(p, lambda o, a, b: a == c and (o == 'ne' and (b == ('null',) or const_of(b) == 0)))


def nonzero(p, t):
    return fact(p, lambda o, a, b: a == t and (o == 'ne' and const_of(b) == 0 or o in ('sgt', 'ugt') and const_of(b) is not None and const_of(b) >= 0))


def decision(ctx, P):
    """a user is given only for a token that was parsed without error and either is the very one accepted before and not expired, or passes every check; an error gives none"""
    Q = core_load(['auth'], PARTS, [], False)
    v = Q.view('auth')
    me, token = A(v, 0), A(v, 1)
    cache, jwt, users = ('field', me, 'Auth.cache'), ('field', me, 'Auth.jwt'), ('field', me, 'Auth.user_cache')
    kinds = set()
    n = 0
    for p in paths(v):
        at = p.insts[-1]
        ctx.ob('decision.contained', 'auth', p.end() != 'unwind', 'an error leaves the decision', at=at)
        if p.end() != 'ret':
            continue
        r = strip_cast(v.norm(p.arg(at, 0)))
        if r == ('null',):
            continue
        n += 1
        evs = trace(p)
        C = lambda f: [e for e in evs if e.k == 'call' and e.f == f]
        dec = C('jwt_decode')
        ok = len(dec) == 1 and dec[0].a == [jwt, token]
        ctx.ob('decision.parsed', 'auth', ok, 'a token is accepted that was not parsed', at=at)
        # what was left by the token before
        rs = {e.f for e in evs if e.k == 'call' and e.f in ('buf_reset', 'json_reset') and dec and e.n < dec[0].n}
        ctx.ob('decision.reset', 'auth', rs >= {'buf_reset', 'json_reset'}, 'parts of an earlier token are still there', at=at)
        thrown = any(l == ('exc',) for l in edges(p))
        ctx.ob('decision.error', 'auth', not thrown, 'a token is accepted after an error', at=at)
        if r[0] == 'load' and leaf_field(r) == 'AuthCacheNode.user':
            kinds.add('cached')
            c = call_of(r[1][1])
            ok = c is not None and c[1] == 'auth_cache_find' and c[2][0] == cache and nonnull(p, c)
            ctx.ob('cached.found', 'auth', ok, 'the user is not that of a decision remembered', at=at)
            ctx.ob('cached.same', 'auth', ok and c[2][1] == token, 'a decision is used for another token than it was made for', at=at)
            ctx.ob('cached.valid', 'auth', ok and before(p, ('load', ('field', c, 'AuthCacheNode.expire'))), 'a decision is used after it expired', at=at)
            continue
        kinds.add('full')
        c = call_of(r)
        data = C('jwt_decode_data')
        ok = c is not None and c[1] == 'user_cache_find' and c[2][0] == users and nonnull(p, c) and len(data) == 1
        ctx.ob('full.user', 'auth', ok and c[2][1] == data[0].a[1], 'the user is not the one the token names', at=at)
        if not ok:
            continue
        ok = data[0].a[0] == jwt and dec and data[0].n > dec[0].n
        ctx.ob('full.data', 'auth', bool(ok), 'the fields are not those of the token', at=at)
        iat, exp = ('load', data[0].a[2]), ('load', data[0].a[3])
        over = [e for e in evs if e.k == 'store' and e.n > data[0].n and e.a in (data[0].a[1], data[0].a[2], data[0].a[3])]
        ctx.ob('full.data', 'auth', not over, 'the fields are changed', at=at)
        order = fact(p, lambda o, a, b: (a, b) == (iat, exp) and o in ('sle', 'slt') or (a, b) == (exp, iat) and o in ('sge', 'sgt'))
        ctx.ob('full.period', 'auth', nonzero(p, iat) and nonzero(p, exp) and order, 'a token without a validity period is accepted', at=at)
        ctx.ob('full.valid', 'auth', before(p, exp), 'an expired token is accepted', at=at)
        val = C('jwt_decode_validate')
        sec = ('field', ('load', ('field', c, 'User.config')), 'UserConfig.secret')
        ok = len(val) == 1 and val[0].a == [jwt, sec] and val[0].n > dec[0].n
        ctx.ob('full.signed', 'auth', ok, 'the signature is not verified with the secret of the user', at=at)
        for e in C('auth_cache_add'):
            ok = e.a[0] == cache and e.a[1] == c and e.a[2] == token and strip_cast(e.a[3]) == exp and bool(val) and e.n > val[0].n
            ctx.ob('full.remembered', 'auth', ok, 'something else than this decision is remembered', at=e.i)
    ctx.ob('decision.kinds', 'auth', 'full' in kinds, 'no token is accepted')
    for p in paths(v):
        evs = trace(p)
        val = [e.n for e in evs if e.k == 'call' and e.f == 'jwt_decode_validate']
        for e in evs:
            if e.k == 'call' and e.f == 'auth_cache_add':
                ctx.ob('full.verified', 'auth', bool(val) and val[0] < e.n and not thrown_between(p, val[0], e.n), 'a decision is remembered before it is made', at=e.i)
    ctx.floor('decision.parsed', 2)
    ctx.floor('full.signed', 1)
    ctx.floor('cached.same', 1)
    # nobody else decides
    for f in P.fn.values():
        for c in f.calls('auth_cache_find', 'auth_cache_add', 'auth_run'):
            ctx.ob('decision.only', f.name, f.name in ('auth', 'auth_run') or f.file == P.fn['auth'].file, 'a decision is made elsewhere', at=c)


def edges(p):
    r = []
    for a, b in zip(p.blocks, p.blocks[1:]):
        ls = [l for s, l in p.v.succ[a] if s == b]
        r += ls if len(ls) == 1 else []
    return r


def thrown_between(p, lo, hi):
    n = 0
    for j, b in enumerate(p.blocks[:-1]):
        n += len(p.v.blocks[b])
        ls = [l for s, l in p.v.succ[b] if s == p.blocks[j + 1]]
        if ls == [('exc',)] and lo <= n <= hi:
            return True
    return False


def SZ(t):
    """the string a term is the size of"""
    t = strip_cast(t)
    if t[0] == 'bin' and t[1] == 'sub':
        a, b = strip_cast(t[2]), strip_cast(t[3])
        if a[0] == b[0] == 'load' and a[1][0] == b[1][0] == 'field' and a[1][2] == 'Str.end' and b[1][2] == 'Str.pos' and a[1][1] == b[1][1]:
            return a[1][1]
    return None


def signature(ctx, P):
    """a token is valid only if the digest in it is the whole keyed digest of its signed part; a user without a secret has none, and a digest that could not be computed matches nothing"""
    n = 'jwt_decode_validate'
    Q = core_load([n], PRIMS, [], False)
    v = Q.view(n)
    me, sec = A(v, 0), A(v, 1)
    data, digest, signed = ('field', me, 'JwtDecode.data'), ('field', me, 'JwtDecode.digest'), ('field', me, 'JwtDecode.digest_origin')
    k = 0
    for p in paths(v, edge=noexc):
        if p.end() != 'ret':
            continue
        k += 1
        at = p.insts[-1]
        evs = trace(p)
        C = lambda f: [e for e in evs if e.k == 'call' and e.f == f]
        dec, mac = C('base64url_decode'), C('HMAC')
        cmp_ = [e for e in evs if e.k == 'call' and e.f in ('memcmp', 'CRYPTO_memcmp', 'bcmp')]
        ok = len(dec) == 1 and dec[0].a == [data, digest] and any(e.n < dec[0].n and e.a[0] == data for e in C('buf_reset'))
        ctx.ob('signature.given', n, ok, 'the digest is not that of the token', at=at)
        size = fact(p, lambda o, a, b: o == 'eq' and const_of(b) == 32 and {leaf_field(x) for x in pieces(a)} == {'Buf.position', 'Buf.start'} and all(x[1][1] == data for x in pieces(a)))
        ctx.ob('signature.size', n, size, 'a digest of another size is compared', at=at)
        ok = len(mac) == 1 and call_of(mac[0].a[0]) == ('call', 'EVP_sha256', ()) and mac[0].a[1] == ('load', ('field', sec, 'Str.pos')) and SZ(mac[0].a[2]) == sec and mac[0].a[3] == ('load', ('field', signed, 'Str.pos')) and SZ(mac[0].a[4]) == signed
        ctx.ob('signature.computed', n, ok, 'the digest is not computed from the signed part with the secret', at=at)
        if len(mac) != 1:
            continue
        c = ('call', 'HMAC', tuple(mac[0].a))
        ctx.ob('signature.done', n, nonnull(p, c) , 'a digest that could not be computed is compared', at=at)
        empty = fact(p, lambda o, a, b: SZ(a) == sec and const_of(b) == 0 and o in ('ne', 'sgt', 'ugt'))
        ctx.ob('signature.secret', n, empty, 'a user without a secret is accepted', at=at)
        out = strip_index0(mac[0].a[5])
        ok = len(cmp_) == 1 and cmp_[0].n > max(mac[0].n, dec[0].n if dec else 0)
        if ok:
            e = cmp_[0]
            sides = [strip_cast(e.a[0]), strip_cast(e.a[1])]
            ok = const_of(e.a[2]) == 32 and ('load', ('field', data, 'Buf.start')) in sides and any(strip_index0(x) == out for x in sides)
            ok = ok and fact(p, lambda o, a, b: a[0] == 'call' and a[1] == e.f and o == 'eq' and const_of(b) == 0)
            ok = ok and not any(x.k == 'store' and x.n > mac[0].n and x.n < e.n for x in evs)
        ctx.ob('signature.match', n, ok, 'the digests are not compared as a whole', at=at)
    ctx.floor('signature.match', 1)


def pieces(t):
    t = strip_cast(t)
    if t[0] == 'bin':
        return [strip_cast(x) for x in t[2:4]]
    return [t]


def strip_index0(t):
    t = strip_cast(t)
    while t[0] == 'index' and const_of(t[2]) == 0:
        t = strip_cast(t[1])
    return t


def fields(ctx, P):
    """the algorithm and the type are the accepted ones, and the fields used are those of the token's own payload, all required"""
    n = 'jwt_decode_data'
    Q = core_load([n], PRIMS, [], False)
    v = Q.view(n)
    me = A(v, 0)
    data, json = ('field', me, 'JwtDecode.data'), ('field', me, 'JwtDecode.json')
    want = {'alg': 'HS256', 'typ': 'JWT'}
    k = 0
    for p in paths(v, edge=noexc):
        if p.end() != 'ret':
            continue
        k += 1
        at = p.insts[-1]
        evs = trace(p)
        dobj = [e for e in evs if e.k == 'call' and e.f == 'decode_obj']
        got = {}
        for e in dobj:
            rows, bad, ended = table(P, evs_between(evs, e), e)
            ctx.ob('fields.table', n, not bad and ended, 'the table of fields is not understood', at=e.i)
            src = source(evs, e, data, json)
            for key_, (kind, to) in rows.items():
                got[key_] = (kind, to, src, e)
        for key_, word in want.items():
            g = got.get(key_)
            ok = g is not None and g[2] == ('field', me, 'JwtDecode.header')
            ctx.ob('fields.header', n + ':' + key_, ok, 'the field is not taken from the header', at=at)
            if ok:
                okw = fact(p, lambda o, a, b: a[0] == 'call' and a[1] in ('str_is_case', 'str_is', 'str_is_cstr') and a[2][0] == g[1] and a[2][1] == ('str', word) and (len(a[2]) < 3 or const_of(a[2][2]) == len(word)) and o == 'ne' and const_of(b) == 0)
                ctx.ob('fields.accepted', n + ':' + key_, okw, 'another algorithm or type is accepted', at=at)
        for key_, kind, arg in (('sub', 'string', 1), ('iat', 'integer', 2), ('exp', 'integer', 3)):
            g = got.get(key_)
            ctx.ob('fields.payload', n + ':' + key_, g is not None and g[0] == kind and g[1] == A(v, arg) and g[2] == ('field', me, 'JwtDecode.payload'), 'the field is not the one of the payload', at=at)
    ctx.floor('fields.accepted', 2)
    ctx.floor('fields.payload', 3)


def evs_between(evs, e):
    """the stores since the decode before this one (each has a table of its own)"""
    last = max([x.n for x in evs if x.k == 'call' and x.f == 'decode_obj' and x.n < e.n], default=-1)
    return [x for x in evs if x.n > last or x.k == 'store' and x.f in ('Decode.flags', 'Decode.key', 'Decode.value')]


def source(evs, e, data, json):
    """the part of the token a decoded object comes from: base64 -> text -> json -> object, each one of its own"""
    pos = [x for x in evs if x.k == 'store' and x.a == e.a[2] and x.n < e.n]
    if not pos or pos[-1].v not in (('load', ('field', ('field', json, 'Json.buf_data'), 'Buf.start')), ('load', ('field', ('load', ('field', json, 'Json.buf')), 'Buf.start'))):
        return None
    pr = [x for x in evs if x.k == 'call' and x.f == 'json_parse' and x.n < e.n]
    if not pr or pr[-1].a[0] != json:
        return None
    txt = [x for x in evs if x.k == 'call' and x.f in ('str_set', 'buf_str') and x.n < pr[-1].n and pr[-1].a[1] in x.a]
    if not txt:
        return None
    t = txt[-1]
    if t.f == 'str_set' and not (t.a[1] == ('load', ('field', data, 'Buf.start')) and {leaf_field(x) for x in pieces(t.a[2])} == {'Buf.position', 'Buf.start'}):
        return None
    if t.f == 'buf_str' and t.a[0] != data:
        return None
    b = [x for x in evs if x.k == 'call' and x.f == 'base64url_decode' and x.n < t.n]
    if not b or b[-1].a[0] != data:
        return None
    # nothing left of the part before
    if len(b) > 1 and not any(x.k == 'call' and x.f == 'buf_reset' and x.a[0] == data and b[-2].n < x.n < b[-1].n for x in evs):
        return None
    if len(pr) > 1 and not any(x.k == 'call' and x.f == 'json_reset' and x.a[0] == json and pr[-2].n < x.n < pr[-1].n for x in evs):
        return None
    return b[-1].a[1]


def split(fl, e):
    """str_split(from, part, separator): the part ends at the first separator"""
    pos = fl.load(fl.field(e.a[0], 'Str.pos'))
    fl.store(fl.field(e.a[1], 'Str.pos'), pos)
    fl.store(fl.field(e.a[1], 'Str.end'), atom(('dot', e.n)))
    return None


def strset(fl, e):
    fl.store(fl.field(e.a[0], 'Str.pos'), e.a[1])
    fl.store(fl.field(e.a[0], 'Str.end'), add(e.a[1], e.a[2]))
    return None


def parts(ctx, P):
    """the token is cut into three parts at its first two dots, and what is signed is the text from the first to the end of the second"""
    n = 'jwt_decode'
    Q = core_load([n], ['str_split', 'str_set', 'str_is_prefix', 'report_error'], [], False)
    v = Q.view(n)
    k = 0
    for p in paths(v, edge=noexc):
        if p.end() != 'ret':
            continue
        k += 1
        at = p.insts[-1]
        fl = Flow(p, P, {'str_split': split, 'str_set': strset})
        tok, me = atom(('arg', 1)), atom(('arg', 0))
        start = add(fl.load(fl.field(tok, 'Str.pos')), num(7))
        end = fl.load(fl.field(tok, 'Str.end'))
        S = lambda f: (fl.load(fl.field(fl.field(me, 'JwtDecode.' + f), 'Str.pos')), fl.load(fl.field(fl.field(me, 'JwtDecode.' + f), 'Str.end')))
        h, pl_, d, o = S('header'), S('payload'), S('digest'), S('digest_origin')
        sp = [e for e in fl.calls if e.f == 'str_split']
        ok = len(sp) == 2 and all(const(e.a[2]) == ord('.') for e in sp)
        dots = [atom(('dot', e.n)) for e in sp]
        ctx.ob('parts.dots', n, ok, 'the token is not cut at its dots', at=at)
        if not ok:
            continue
        ctx.ob('parts.prefix', n, any(f[1] == 'ne' and any(a and a[0] == 'call' and a[1] == 'str_is_prefix' for a in f[2]) for f in fl.facts), 'a token without the scheme is accepted', at=at)
        ctx.ob('parts.header', n, key(h[0]) == key(start) and key(h[1]) == key(dots[0]), 'the header is another part', at=at)
        ctx.ob('parts.payload', n, key(pl_[0]) == key(add(dots[0], num(1))) and key(pl_[1]) == key(dots[1]), 'the payload is another part', at=at)
        ctx.ob('parts.digest', n, key(d[0]) == key(add(dots[1], num(1))) and key(d[1]) == key(end), 'the digest is another part', at=at)
        ctx.ob('parts.signed', n, key(o[0]) == key(start) and key(o[1]) == key(dots[1]), 'what is signed is not the header and the payload', at=at)
        for a, b, w in ((h[0], h[1], 'header'), (pl_[0], pl_[1], 'payload'), (d[0], d[1], 'digest')):
            ctx.ob('parts.some', n + ':' + w, any(f[1] in ('ne', 'sgt', 'ugt') and key(f[2]) == key(add(b, a, -1)) for f in fl.facts), 'an empty part is accepted', at=at)
        ctx.ob('parts.found', n, sum(1 for f in fl.facts if f[1] == 'ne' and any(a and a[0] == 'call' and a[1] == 'str_split' for a in f[2])) == 2, 'a token with fewer parts is accepted', at=at)
    ctx.floor('parts.signed', 1)


def remembered(ctx, P):
    """a decision is found by the very text it was remembered under"""
    Q = core_load(['auth_cache_find', 'auth_cache_add', 'auth_cache_cmp'], PRIMS, [], False)
    v = Q.view('auth_cache_find')
    for p in paths(v, edge=noexc):
        if p.end() != 'ret':
            continue
        at = p.insts[-1]
        r = strip_cast(v.norm(p.arg(at, 0)))
        if r == ('null',):
            continue
        while r[0] in ('index', 'field'):
            r = strip_cast(r[1])
        ok = r[0] == 'call' and r[1] == 'hashtable_get' and r[2][2] == ('fn', 'auth_cache_cmp') and r[2][3] == A(v, 1) and r[2][0] == ('field', A(v, 0), 'AuthCache.ht')
        ctx.ob('remembered.found', 'auth_cache_find', ok and nonnull(p, r), 'a decision is found by something else', at=at)
        h = call_of(r[2][1]) if ok else None
        ctx.ob('remembered.hash', 'auth_cache_find', h is not None and h[1] == 'hash_murmur3_32' and h[2][0] == ('load', ('field', A(v, 1), 'Str.pos')) and SZ(h[2][1]) == A(v, 1), 'a decision is looked for in another place than it was put', at=at)
        seed = h[2][2] if h else None
    v = Q.view('auth_cache_cmp')
    for p in paths(v, edge=noexc):
        if p.end() != 'ret':
            continue
        at = p.insts[-1]
        r = strip_cast(v.norm(p.arg(at, 0)))
        ok = r[0] == 'call' and r[1] == 'str_compare' and leaf_field(r[2][0]) == 'AuthCacheNode.digest' and r[2][1] == A(v, 1)
        ctx.ob('remembered.equal', 'auth_cache_cmp', ok, 'two tokens are taken for the same', at=at)
    v = Q.view('auth_cache_add')
    for p in paths(v, edge=noexc):
        if p.end() != 'ret':
            continue
        at = p.insts[-1]
        evs = trace(p)
        se = [e for e in evs if e.k == 'call' and e.f == 'hashtable_set']
        ok = len(se) == 1
        node = strip_cast(se[0].a[1]) if ok else None
        while ok and node[0] in ('index', 'field'):
            node = strip_cast(node[1])
        last = lambda f: [e.v for e in evs if e.k == 'store' and e.f == f and e.a[1] == node]
        cp = [e for e in evs if e.k == 'call' and e.f == 'str_copy']
        ok = ok and last('AuthCacheNode.user')[-1:] == [A(v, 1)] and last('AuthCacheNode.expire')[-1:] == [A(v, 3)] and len(cp) == 1 and cp[0].a == [('field', node, 'AuthCacheNode.digest'), A(v, 2)]
        ctx.ob('remembered.kept', 'auth_cache_add', ok, 'something else is remembered', at=at)
        hs = [e.v for e in evs if e.k == 'store' and e.f == 'HashtableNode.hash']
        h = call_of(hs[-1]) if hs else None
        ctx.ob('remembered.hash', 'auth_cache_add', h is not None and h[1] == 'hash_murmur3_32' and h[2][0] == ('load', ('field', A(v, 2), 'Str.pos')) and SZ(h[2][1]) == A(v, 2) and h[2][2] == seed, 'a decision is put where it is not looked for', at=at)
        rs = [e.n for e in evs if e.k == 'call' and e.f == 'hashtable_reserve']
        ctx.ob('remembered.room', 'auth_cache_add', bool(rs) and bool(se) and rs[0] < se[0].n, 'there may be no room', at=at)
    ctx.floor('remembered.found', 1)
    ctx.floor('remembered.equal', 1)
    ctx.floor('remembered.kept', 1)


def changed(ctx, P):
    """decisions are forgotten before the users they were made for change; the users are those of the server: none that was removed, each with its current secret"""
    for f in P.fn.values():
        cs = [c for c in f.calls('user_cache_sync', 'user_cache_delete', 'user_cache_free') if leaf_field(strip_cast(f.term(c.args[0]))) == 'Auth.user_cache']
        for c in cs:
            rs = f.calls('auth_cache_reset', 'auth_cache_free')
            ok = any(f.dominated(c, [r]) for r in rs)
            ctx.ob('changed.forgotten', f.name, ok, 'decisions stay when users change', at=c)
    ctx.floor('changed.forgotten', 1)
    # syncing
    Q = core_load(['user_cache_sync', 'user_cache_find', 'user_config_sync', 'auth_cache_reset'], ['user_cache_find', 'user_cache_delete', 'user_cache_add', 'user_allocate', 'user_config_sync', 'str_compare', 'str_copy', 'str_free', 'am_free', 'hashtable_free', 'hashtable_init'], [], False)
    v = Q.view('user_cache_sync')
    me, other = A(v, 0), A(v, 1)
    from .opts import elements
    for p in paths(v, edge=noexc, visits=2):
        if p.end() != 'ret':
            continue
        at = p.insts[-1]
        if torn(p):
            continue
        evs = trace(p)
        fd = [e for e in evs if e.k == 'call' and e.f == 'user_cache_find']
        for e in evs:
            if e.k != 'call':
                continue
            prev = [x for x in fd if x.n < e.n]
            if e.f == 'user_cache_delete':
                ctx.ob('changed.removed', 'user_cache_sync', bool(prev) and prev[-1].a[0] == other and found(p, prev[-1], e.n) is False, 'a user that exists is removed', at=e.i)
            if e.f == 'user_config_sync':
                c = ('call', 'user_cache_find', tuple(prev[-1].a)) if prev else None
                ok = bool(prev) and prev[-1].a[0] == other and found(p, prev[-1], e.n) is True and fromcall(e.a[1], 'user_cache_find')
                ctx.ob('changed.secret', 'user_cache_sync', ok, 'the secret is not updated from the current one', at=e.i)
            if e.f == 'user_cache_add':
                ctx.ob('changed.added', 'user_cache_sync', bool(prev) and prev[-1].a[0] == me and found(p, prev[-1], e.n) is False and e.a[0] == me, 'a user is added twice', at=e.i)
        # what was looked up is acted upon
        for j, x in enumerate(fd):
            hi = fd[j + 1].n if j + 1 < len(fd) else len(p.insts)
            acts = {e.f for e in evs if e.k == 'call' and x.n < e.n < hi}
            y = found(p, x, hi)
            if x.a[0] == other:
                ctx.ob('changed.each', 'user_cache_sync', y is False and 'user_cache_delete' in acts or y is True and 'user_config_sync' in acts, 'a removed user stays, or an old secret', at=x.i)
            else:
                ctx.ob('changed.each', 'user_cache_sync', y is True or y is False and 'user_cache_add' in acts, 'a new user is left out', at=x.i)
        for head, n in ((('field', me, 'UserCache.list'), 0), (('field', other, 'UserCache.list'), 1)):
            el = list_steps(p, head)
            mine = [x for x in fd if (x.a[0] == other) == (n == 0)]
            ctx.ob('changed.all', 'user_cache_sync', el is not None and el == len(mine), 'users are left out', at=at)
    v = Q.view('user_config_sync')
    for p in paths(v, edge=noexc):
        if p.end() != 'ret':
            continue
        evs = trace(p)
        a, b = ('field', A(v, 0), 'UserConfig.secret'), ('field', A(v, 1), 'UserConfig.secret')
        same = fact(p, lambda o, x, y: x[0] == 'call' and x[1] == 'str_compare' and set(x[2]) == {a, b} and o == 'ne' and const_of(y) == 0)
        cp = [e for e in evs if e.k == 'call' and e.f == 'str_copy' and e.a == [a, b]]
        ctx.ob('changed.synced', 'user_config_sync', same or len(cp) == 1, 'an old secret stays', at=p.insts[-1])
    v = Q.view('user_cache_find')
    head = ('field', A(v, 0), 'UserCache.list')
    for p in paths(v, edge=noexc, visits=3):
        if p.end() != 'ret':
            continue
        at = p.insts[-1]
        cm = [e for e in trace(p) if e.k == 'call' and e.f == 'str_compare']
        ans = [found(p, e, (cm[j + 1].n if j + 1 < len(cm) else len(p.insts))) for j, e in enumerate(cm)]
        r = strip_cast(v.norm(p.arg(at, 0)))
        shape = all(A(v, 1) in e.a and any(leaf_field(x) == 'UserConfig.name' for x in e.a) for e in cm)
        if r == ('null',):
            ctx.ob('user.none', 'user_cache_find', shape and all(x is False for x in ans) and list_steps(p, head) == len(cm), 'a user is not found', at=at)
        else:
            nm = [x for x in cm[-1].a if leaf_field(x) == 'UserConfig.name'] if cm else []
            ok = shape and bool(ans) and ans[-1] is True and nm and nm[0] == ('field', ('load', ('field', r, 'User.config')), 'UserConfig.name')
            ctx.ob('user.same', 'user_cache_find', bool(ok), 'another user is found', at=at)
    for x in ('changed.each', 'changed.all', 'changed.synced', 'user.same', 'user.none'):
        ctx.floor(x, 1)


def fromcall(t, name):
    t = strip_cast(t)
    while t[0] in ('load', 'field', 'index'):
        t = strip_cast(t[1])
    return t[0] == 'call' and t[1] == name


def found(p, e, hi):
    """what the path says about the result of a call, before the next one"""
    for f, m in zip(p.facts, p.at):
        if f[0] != 'cmp' or not e.n < m <= hi:
            continue
        t = strip_cast(p.v.norm(f[2]))
        if t[0] == 'call' and t[1] == e.f and (f[3] == ('null',) or const_of(f[3]) == 0):
            return {'ne': True, 'eq': False}.get(f[1])
    return None


def torn(p):
    """a path where a list element has no next one: lists are circular"""
    return fact(p, lambda o, a, b: o == 'eq' and b == ('null',) and a[0] == 'load' and leaf_field(a) in ('List.next', 'List.prev'))


def list_steps(p, head):
    """elements visited by the loop over a list, None if it does not go to the end"""
    n, end = 0, False
    for f in p.facts:
        if f[0] != 'cmp' or f[1] not in ('ne', 'eq'):
            continue
        a, b = strip_cast(p.v.norm(f[2])), strip_cast(p.v.norm(f[3]))
        if head not in (a, b):
            continue
        if f[1] == 'ne':
            n += 1
        else:
            end = True
    return n if end else None


RULES = [decision, signature, fields, parts, remembered, changed]
