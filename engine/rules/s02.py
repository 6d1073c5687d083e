"""S02: secrets are not disclosed."""
import re
from ..q import *
from ..core import load as core_load
from .opts import flag_facts, optof
from .s01 import A, noexc

ENTRIES, KEEP, PLAIN = [], [], True

# what holds a secret: the field, and what it is
SECRETS = {
    'UserConfig.secret': 'the secret of a user',
    'Endpoint.secret': 'the secret of an endpoint',
    'Endpoint.token': 'the token of an endpoint',
    'Endpoint.uri': 'a connection string, with its password',
    'JwtDecode.digest': 'a token',
    'JwtDecode.digest_origin': 'a token',
    'Uri.pos': 'a connection string, with its password',
    'State.users': 'the secrets of all users',
}
# arguments that are secret whoever calls
GIVEN = {
    ('auth', 1): 'a token', ('jwt_decode', 1): 'a token', ('jwt_decode_validate', 1): 'the secret of a user',
    ('jwt_create', 1): 'the secret of a user', ('jwt_encode', 3): 'the secret of a user', ('auth_cache_add', 2): 'a token',
    ('auth_cache_find', 1): 'a token', ('user_config_set_secret', 1): 'the secret of a user',
    ('opt_set', 1): 'the value of an option', ('opt_set_json', 1): 'the value of an option', ('opt_string_set', 1): 'the value of an option',
    ('opt_string_set_raw', 1): 'the value of an option', ('opt_json_set_str', 1): 'the value of an option', ('opts_set', 1): 'the values of options',
    ('opts_set_json', 1): 'the values of options', ('uri_parse', 1): 'a connection string, with its password',
}
# what a value given to one of these is
SETS = ('opt_set', 'opt_set_json', 'opt_string_set', 'opt_string_set_raw', 'opt_json_set_str')
# where data leaves: what is written there is seen by others
SINK = re.compile(r'^(encode_\w+|buf_write\w*|buf_v?printf|report\w*|logger_\w+|v?s?n?printf|v?f?printf|file_write\w*|vfs_(p?writev?)\w*|(tcp|io|tls)_write\w*|iov_add\w*|perror|syslog)$')
# one way functions
ONEWAY = ('HMAC', 'EVP_sha256', 'hash_murmur3_32', 'CRYPTO_memcmp')
# the explicit ways out: (root function, what, why)
OUT = {
    ('user_config_write', 'the secret of a user'): 'only under FSECRETS (rule asked)',
    ('http_begin_request', 'the token of an endpoint'): 'the request that authenticates with it',
}


def leaves(t, out=None):
    """(kind, what) a term is made of"""
    if out is None:
        out = set()
    if not isinstance(t, tuple):
        return out
    if t[0] == 'field':
        out.add(('field', t[2]))
    elif t[0] in ('arg', 'alloca'):
        out.add((t[0], t[1]))
    elif t[0] == 'phi':
        out.add(('phi', t[1]))
        return out
    elif t[0] == 'call':
        out.add(('call', t[2] if len(t) > 2 else None))
        return out
    for x in t[1:]:
        if isinstance(x, tuple):
            leaves(x, out)
    return out


class Taint:
    """which functions are given a secret, in which argument, and where one leaves the server"""
    def __init__(self, P):
        self.P = P
        self.P.fn
        self.found = []        # (inst, function, sink, what, chain)
        self.seen = {}
        self.used = 0
        self.flows = 0
        self.ret = {}

    def gives(self, n, k, depth=0):
        """what a function returns is, or points into, what it is given as an argument"""
        f = self.P.fn.get(n)
        if f is None:
            return True
        if (n, k) in self.ret:
            return self.ret[n, k]
        self.ret[n, k] = False
        r = False
        if not re.match(r'^(i\d+|v|void)$', str(f.ret)):
            for i in f.insts():
                if i.op == 'ret' and i.args:
                    r = r or self.from_arg(f, i.args[0], k, set(), depth)
        self.ret[n, k] = r
        return r

    def from_arg(self, f, op, k, seen, depth):
        for kind, x in leaves(f.term(op)):
            if kind == 'arg' and x == k:
                return True
            if kind in ('call', 'phi') and x is not None and x not in seen and depth < 8:
                seen.add(x)
                i = f.inst.get(x)
                for a, o in enumerate(i.args if i is not None else ()):
                    if (kind == 'phi' or i.callee and i.callee not in ONEWAY and self.gives(i.callee, a, depth + 1)) and self.from_arg(f, o, k, seen, depth + 1):
                        return True
        return False

    def what(self, f, op, args, mem, seen=None):
        """what secret a value is, or points to (None: none)"""
        seen = set() if seen is None else seen
        t = f.term(op)
        for k, x in sorted(leaves(t), key=str):
            if k == 'field' and x in SECRETS:
                return SECRETS[x]
            if k == 'arg' and x in args:
                return args[x]
            if k == 'alloca' and x in mem:
                return mem[x]
            if k in ('call', 'phi') and x is not None and x not in seen:
                seen.add(x)
                i = f.inst.get(x)
                if i is None or k == 'call' and (not i.callee or i.callee in ONEWAY):
                    continue
                for a, o in enumerate(i.args):
                    if k == 'call' and not self.gives(i.callee, a):
                        continue
                    w = self.what(f, o, args, mem, seen)
                    if w:
                        return w
        return None

    def run(self, n, args, chain=()):
        f = self.P.fn.get(n)
        k = (n, tuple(sorted(args.items())))
        roots = frozenset(c for c in chain + (n,) if any(c == o[0] for o in OUT))
        if f is None or (k, roots) in self.seen or len(chain) > 12:
            return
        self.seen[(k, roots)] = True
        chain = chain + (n,)
        # local copies
        mem = {}
        for _ in range(4):
            size = len(mem)
            for i in f.insts():
                if i.op == 'store':
                    t = f.term(i.args[0]) if i.args else None
                    w = self.what(f, i.args[0], args, mem) if t and t[0] == 'load' else None
                    d = f.term(i.args[1]) if w else None
                    for kk, x in (leaves(d) if d else ()):
                        if kk == 'alloca':
                            mem.setdefault(x, w)
                elif i.op == 'call' and i.callee:
                    if i.callee in SETS:
                        t = f.term(i.args[1])
                        for kk, x in leaves(t):
                            if kk == 'alloca':
                                mem.setdefault(x, 'the value of an option')
                    if i.callee.startswith(('str_', 'llvm.memcpy', 'llvm.memmove', 'memcpy', 'memmove', 'strcpy', 'strncpy', 'opt_string_set', 'opt_copy')) and len(i.args) > 1:
                        d = f.term(i.args[0])
                        w = None
                        for a in i.args[1:]:
                            w = w or self.what(f, a, args, mem)
                        if w:
                            for kk, x in leaves(d):
                                if kk == 'alloca':
                                    mem.setdefault(x, w)
            if len(mem) == size:
                break
        for i in f.insts():
            if i.op != 'call' or not i.callee or i.callee.startswith(('vp.', 'llvm.')) or i.callee in ONEWAY:
                continue
            g = {}
            for a, o in enumerate(i.args):
                w = self.what(f, o, args, mem)
                if w:
                    g[a] = w
            if not g:
                continue
            self.flows += 1
            if SINK.match(i.callee):
                # the name an option is looked up by is not its value; parts of a connection string are copied while it is parsed
                for a, w in sorted(g.items()):
                    if w.startswith('a connection') and (self.isname(f, i.args[a]) or not i.callee.startswith('report')):
                        continue
                    # a number (the length, the kind)
                    if f.term(i.args[a])[0] in ('cast', 'bin', 'cmp'):
                        continue
                    self.found.append((i, n, i.callee, w, chain))
                continue
            if i.callee in self.P.fn and i.callee != n:
                self.run(i.callee, g, chain)

    def isname(self, f, op):
        """a string options are looked up by"""
        t = f.term(op)
        al = {x for k, x in leaves(t) if k == 'alloca'}
        for k, x in leaves(t):
            if k == 'call' and x is not None and x in f.inst:
                for a in f.inst[x].args:
                    al |= {y for kk, y in leaves(f.term(a)) if kk == 'alloca'}
        asked = set()
        for c in f.calls('opts_find'):
            asked |= {x for k, x in leaves(f.term(c.args[1])) if k == 'alloca'}
        return bool(al) and al <= asked


def within(P, n, roots, seen=()):
    """a function is only ever called for one of the explicit ways out"""
    if n in roots:
        return True
    by = sorted({f.name for f in P.fn.values() if f.calls(n)})
    return bool(by) and n not in seen and all(within(P, b, roots, seen + (n,)) for b in by)


def leaks(ctx, P):
    """no secret reaches what others read (an encoded value, a response, a log line, an error text), other than by the explicit ways out"""
    T = Taint(P)
    for n in sorted(P.fn):
        g = {k: w for (m, k), w in GIVEN.items() if m == n}
        T.run(n, g)
    seen = set()
    for i, n, s, w, chain in T.found:
        ok = any(c == o[0] and w == o[1] for c in chain for o in OUT) or within(P, chain[0], {o[0] for o in OUT if o[1] == w})
        k = (i.where(), w, ok)
        if k in seen:
            continue
        seen.add(k)
        ctx.ob('leaks.sink', n, ok, '%s is written by %s' % (w, s), at=i, why=' -> '.join(chain))
    for n in sorted({m for m, _ in GIVEN} & set(P.fn)):
        ctx.ob('leaks.given', n, True, '')
    fields = {}
    for f in P.fn.values():
        for i in f.insts():
            for o in i.args:
                for k, x in leaves(f.term(o)):
                    if k == 'field' and x in SECRETS:
                        fields.setdefault(x, set()).add(f.name)
    for x in SECRETS:
        for n in sorted(fields.get(x, ())):
            ctx.ob('leaks.' + x, n, True, '')
        ctx.floor('leaks.' + x, 1)
    ctx.floor('leaks.sink', 2)
    ctx.floor('leaks.given', 12)


def says(p, upto, arg, mask):
    """a path knows the flags given ask for mask"""
    for f, m in zip(p.facts, p.at):
        if m > upto or f[0] != 'cmp':
            continue
        t, c = strip_cast(p.v.norm(f[2])), const_of(f[3])
        if t[0] != 'bin' or t[1] != 'and' or c is None:
            continue
        x, b = strip_cast(t[2]), const_of(t[3])
        if b is None:
            x, b = strip_cast(t[3]), const_of(t[2])
        if x == arg and b == mask and (f[1] == 'ne' and c == 0 or f[1] == 'eq' and c == mask or f[1] in ('sgt', 'ugt') and c == 0):
            return True
    return False


def asked(ctx, P):
    """what is written of a user has its secret only if the caller asked for secrets"""
    S = P.enum('FSECRETS')['FSECRETS']
    n = 'user_config_write'
    Q = core_load([n], ['encode_string', 'encode_raw', 'encode_obj', 'encode_obj_end', 'encode_buf', 'encode_cstr', 'buf_write', 'buf_write_str', 'buf_printf'], [], False)
    v = Q.view(n)
    w = 0
    for p in paths(v):
        for e in trace(p):
            if e.k != 'call':
                continue
            if any(('field', 'UserConfig.secret') in leaves(a) for a in e.a):
                w += 1
                ctx.ob('asked.flag', n, says(p, e.n, A(v, 2), S), 'the secret of a user is written though no secrets were asked for', at=e.i)
    ctx.floor('asked.flag', 1)
    # who asks
    todo, seen = [(n, 2)], set()
    explicit = []
    while todo:
        g, k = todo.pop()
        if (g, k) in seen:
            continue
        seen.add((g, k))
        for f in P.fn.values():
            for c in f.calls(g):
                t = strip_cast(f.term(c.args[k]))
                x, m = t, None
                if t[0] == 'bin' and t[1] == 'and':
                    m = const_of(t[3])
                    x = strip_cast(t[2])
                if m is not None and not m & S:
                    ctx.ob('asked.callers', f.name, True, '', at=c)
                elif const_of(t) is not None:
                    if const_of(t) & S:
                        explicit.append((f, c))
                    else:
                        ctx.ob('asked.callers', f.name, True, '', at=c)
                else:
                    ok = x[0] == 'arg'
                    ctx.ob('asked.callers', f.name, ok, 'a listing of users asks for secrets its caller did not ask for', at=c)
                    if ok:
                        todo.append((f.name, x[1]))
    for f, c in explicit:
        stored(ctx, P, f, c)
    ctx.floor('asked.callers', 1)
    ctx.floor('asked.stored', 1)


def stored(ctx, P, f, c, depth=0):
    """what a function that asks for secrets gives is kept in the state only"""
    who = sorted({g.name for g in P.fn.values() if g.calls(f.name)})
    if not who:
        ctx.ob('asked.stored', f.name, False, 'secrets are asked for by a function others may call for a listing', at=c)
    for n in who:
        g = P.fn[n]
        for d in g.calls(f.name):
            ok, keep = True, False
            for i in g.insts():
                if i.op == 'call' and i.callee and not i.callee.startswith(('vp.', 'llvm.')):
                    us = [a for a, o in enumerate(i.args) if ('call', d.id) in leaves(g.term(o))]
                    if not us or i.callee == 'buf_free':
                        continue
                    into = leaves(g.term(i.args[0])) if i.args else set()
                    if i.callee.startswith('opt_json_set') and ('field', 'State.users') in into:
                        keep = True
                    else:
                        ok = False
                elif i.op == 'ret' and i.args and ('call', d.id) in leaves(g.term(i.args[0])) and depth < 3:
                    stored(ctx, P, g, d, depth + 1)
                    keep = True
            ctx.ob('asked.stored', n, ok and keep, 'the secrets of all users are given out', at=d)


EMIT = ['opt_encode', 'opt_print', 'encode_string', 'encode_raw', 'encode_obj', 'encode_obj_end', 'buf_write_str', 'buf_printf', 'buf_write', 'report', 'report_error', 'encode_integer', 'encode_bool', 'encode_null', 'opt_copy', 'opt_init', 'opt_free', 'opt_set', 'opt_set_json', 'buf_create']


def listing(ctx, P):
    """a listing of options leaves out secret and hidden ones; what is listed whole is only stored"""
    S, H = P.enum('OPT_S')['OPT_S'], P.enum('OPT_H')['OPT_H']
    whole = []
    # what gives the value of the option it is given (whoever calls decides which)
    emit = {'opt_encode': 0, 'opt_print': 0}
    for _ in range(3):
        for n in sorted(P.fn):
            for c in P.fn[n].calls(*list(emit)):
                t = strip_cast(P.fn[n].term(c.args[emit[c.callee]]))
                if t[0] == 'arg' and n not in emit:
                    emit[n] = t[1]
    for n in sorted(P.fn):
        f = P.fn[n]
        if n in emit or not f.calls(*list(emit)):
            continue
        Q = core_load([n], EMIT + list(emit), [], False)
        v = Q.view(n)
        bad = None
        count = 0
        for p in paths(v, edge=noexc, visits=2):
            since = {}
            evs = trace(p)
            for e in evs:
                if e.k != 'call' or e.f not in emit:
                    continue
                count += 1
                fs = flag_facts(P, p, 0, e.n, optof(P, strip_cast(e.a[emit[e.f]])))
                clear = 0
                for m, on in fs:
                    if on is False:
                        clear |= m
                if clear & (S | H) != S | H:
                    bad = bad or e.i
        if not count:
            continue
        if bad is not None:
            whole.append((n, bad))
        else:
            ctx.ob('listing.hidden', n, True, '')
    for n, i in whole:
        users = sorted({g.name for g in P.fn.values() if g.calls(n)})
        if not users:
            ctx.ob('listing.hidden', n, False, 'secret options are listed', at=i)
        for u in users:
            ctx.ob('listing.stored', u, keeps(P, u, n), 'options, with the secret ones, are listed for something other than to be stored', at=P.fn[u].calls(n)[0])
    ctx.floor('listing.hidden', 2)
    ctx.floor('listing.stored', 3)


def keeps(P, u, n):
    """a function writes the whole options it lists to a file only, or hands them to what keeps an endpoint"""
    g = P.fn[u]
    if u == 'endpoint_write':
        # the description of an endpoint, stored with the replica or bookmark it belongs to
        return True
    d = g.calls(n)
    ids = {c.id for c in d}
    # text made of it
    al = set()
    okcalls = re.compile(r'^(buf_free|buf_reset|json_export\w*|buf_str|buf_size|buf_is_empty|file_\w+|str_\w+)$')
    for _ in range(3):
        for i in g.insts():
            if i.op != 'call' or not i.callee or i.callee.startswith(('vp.', 'llvm.')):
                continue
            ls = [leaves(g.term(o)) for o in i.args]
            if any(('call', x) in l for l in ls for x in ids) or any(('alloca', x) in l for l in ls for x in al):
                if not okcalls.match(i.callee):
                    return False
                for l in ls:
                    al |= {x for k, x in l if k == 'alloca'}
                    if i.callee.startswith('json_export'):
                        ids |= {x for k, x in l if k == 'call'}
    # that only its owner may read
    mode = {'file_open_as': 3, 'file_create_as': 3, 'vfs_open': 2}
    owner = {x.split('.')[0] for c in d for k, x in leaves(g.term(c.args[0])) if k == 'field'}
    for c in g.calls(*mode) if owner & {x.split('.')[0] for x in SECRETS} else ():
        m = const_of(g.term(c.args[mode[c.callee]])) if len(c.args) > mode[c.callee] else None
        if m is None or m & 0o077:
            return False
    return bool(g.calls('file_write', 'file_write_buf', 'file_pwrite', 'file_writev') or g.calls('file_write_str'))


def requests(ctx, P):
    """a request, with the token it carries, is not logged"""
    n = 'http_log'
    if n in P.fn:
        for f in P.fn.values():
            for c in f.calls(n):
                ctx.ob('requests.log', f.name, False, 'a request is logged, with the token it carries', at=c)
        ctx.ob('requests.log', n, True, '')
    for m in ('http_read', 'http_read_header', 'http_read_content', 'http_read_content_limit', 'auth', 'auth_run', 'http_begin_request'):
        f = P.fn.get(m)
        if f is None:
            continue
        for c in f.allcalls():
            if re.match(r'^(report|logger_\w+)$', c.callee or ''):
                hdr = any(k == 'field' and x.startswith(('HttpHeader.', 'Http.')) for o in c.args for k, x in leaves(f.term(o)))
                ctx.ob('requests.text', m, not hdr, 'a part of a request is logged', at=c)


RULES = [leaks, asked, listing, requests]
