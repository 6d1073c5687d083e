"""F05: configuration and state survive a restart unchanged."""
from ..q import *
from ..core import load as core_load
from .fsops import *
from .f01 import text_of, whole
from .f03 import addr, pl
from .opts import *

ENTRIES, KEEP, PLAIN = [], [], True
# what the user sets, and must be there again after a restart (besides all of Config)
PERSISTENT = ['State.repl', 'State.repl_primary', 'State.replicas', 'State.users']
WRITE = ['encode_string', 'encode_integer', 'encode_bool', 'encode_null', 'encode_obj', 'encode_obj_end', 'buf_write', 'buf_write_str', 'opt_int_of', 'opt_int_set', 'opt_string_set', 'str_dup', 'str_copy', 'str_free', 'opt_json_empty', 'opt_string_set_raw']
READ = ['json_read_obj', 'json_read_obj_end', 'json_read_string', 'json_read_bool', 'json_read_integer', 'json_skip', 'json_is_bool', 'json_is_integer', 'json_is_string', 'opts_find', 'json_parse', 'json_init', 'json_free', 'str_toint', 'str_is_cstr', 'arg_parse', 'report_error']
noexc = lambda b, s, l: l != ('exc',)
SETTERS = ('opt_int_set', 'opt_string_set', 'opt_string_set_raw', 'str_dup', 'str_copy')


def table(ctx, P):
    """every option of a table is a distinct one under a distinct name with a known type, all options of the structure are defined, and each option that is saved can be read back"""
    T = types(P)
    E, C, Z = P.enum('OPT_E')['OPT_E'], P.enum('OPT_C')['OPT_C'], P.enum('OPT_Z')['OPT_Z']
    k = 0
    for n, (d, rows) in tables(P).items():
        names = [r.get('name') for r in rows]
        opts = [r.get('opt') for r in rows]
        st = {o[2].split('.')[0] for o in opts if o and o[0] == 'field'}
        ctx.ob('table.struct', n, len(st) == 1, 'options of several structures')
        if len(st) != 1:
            continue
        st = list(st)[0]
        fields = [f[0] for f in P.structs[st]['f'] if f[1] == 'Opt']
        for f in fields:
            ctx.ob('table.defined', st + '.' + f, opts.count(('field', ('arg', 0, P.fn[n].params[0]), st + '.' + f)) == 1, 'the option is not defined once', at=d.i)
        owner = strip_cast(d.a[0])
        ctx.ob('table.list', n, owner[0] == 'field' and owner[2] == st + '.opts', 'options are put on another list', at=d.i)
        for r in rows:
            nm, ty, fl = r['name'], const_of(r['type']), const_of(r['flags'])
            w = nm[1] if nm[0] == 'str' else '?'
            k += 1
            ctx.ob('table.name', n + ':' + w, nm[0] == 'str' and names.count(nm) == 1, 'two options have one name', at=r['at'])
            ctx.ob('table.type', n + ':' + w, ty in T.values(), 'the option has no known type', at=r['at'])
            ctx.ob('table.readable', n + ':' + w, bool(fl & E) or bool(fl & C), 'the option is saved but refused when it is read', at=r['at'])
            field = r['opt'][2]
            if field in PERSISTENT or st == 'Config':
                ctx.ob('table.persistent', n + ':' + w, not fl & E, 'the option is not saved', at=r['at'])
            num = ty in (T['OPT_BOOL'], T['OPT_INT'])
            ds, di = r.get('default_string', ('null',)), const_of(r.get('default_int', ('const', 0)))
            ctx.ob('table.default', n + ':' + w, (ds == ('null',) or const_of(ds) == 0) if ty != T['OPT_STRING'] else di in (0, None), 'the default has another type', at=r['at'])
            ctx.ob('table.zero', n + ':' + w, not fl & Z or num and di != 0, 'the default is refused when it is read', at=r['at'])
            if ty == T['OPT_BOOL']:
                ctx.ob('table.bool', n + ':' + w, di in (0, 1), 'the default is no bool', at=r['at'])
    ctx.floor('table.name', 40)
    ctx.floor('table.persistent', 30)


def typed(ctx, P):
    """an option is read and set as what its table says it is"""
    T = types(P)
    byfield = {}
    for n, (d, rows) in tables(P).items():
        for r in rows:
            byfield[r['opt'][2]] = const_of(r['type'])
    want = {'opt_int_': (T['OPT_BOOL'], T['OPT_INT']), 'opt_string_': (T['OPT_STRING'],), 'opt_json_': (T['OPT_JSON'],)}
    for f in P.fn.values():
        for c in f.allcalls():
            for t in c.targets():
                k = next((x for x in want if t.startswith(x)), None)
                if not k or not c.args:
                    continue
                a = leaf_field(strip_cast(f.term(c.args[0])))
                if a in byfield:
                    ctx.ob('typed.access', f.name + ':' + a, byfield[a] in want[k], 'the option is used as another type', at=c)
    ctx.floor('typed.access', 60)


def tycase(p, P):
    """type the path is about, None if it does not say"""
    r = None
    for f in p.facts:
        if leaf_field(strip_cast(f[2])) == 'Opt.type' and f[1] == 'eq' and const_of(f[3]) is not None:
            r = const_of(f[3])
    return r


def owns(t, self_, word):
    """t is the integer or string of the option"""
    t = strip_cast(t)
    return t[0] == 'field' and t[1] == self_


def kinds(ctx, P):
    """each type of option is saved in the form it is read in, with the value it has"""
    T = types(P)
    inv = {v: k for k, v in T.items()}
    Q = core_load(['opt_encode', 'opt_set_json', 'opt_set', 'opts_define', 'opts_copy', 'opt_int_of', 'opt_int_set', 'opt_string_set', 'opt_string_set_raw', 'str_dup', 'str_copy'], WRITE + READ, [], False)
    # what is written
    v = Q.view('opt_encode')
    self_ = ('arg', 0, v.params[0])
    seen = {}
    for p in paths(v, edge=noexc):
        if p.end() != 'ret':
            continue
        t = tycase(p, P)
        evs = [e for e in trace(p) if e.k == 'call' and e.f in WRITE and e.f not in ('opt_int_of', 'opt_json_empty')]
        at = p.insts[-1]
        if t is None:
            ctx.ob('kinds.written', 'opt_encode', not any(f[1] == 'eq' for f in p.facts) and all(any(f[1] == 'ne' and const_of(f[3]) == x for f in p.facts) for x in inv), 'a type is not written', at=at)
            continue
        ctx.ob('kinds.one', 'opt_encode:' + inv.get(t, '?'), len(evs) == 1, 'an option is not written as one value', at=at)
        if len(evs) != 1:
            continue
        e = evs[0]
        seen.setdefault(t, set()).add(e.f)
        x = strip_cast(e.a[1]) if len(e.a) > 1 else None
        if inv.get(t) in ('OPT_BOOL', 'OPT_INT'):
            y = x
            while y[0] == 'cmp' and (y[1] in ('ne', 'ugt', 'sgt') and const_of(y[3]) == 0 or y[1] == 'eq' and const_of(y[3]) == 1):
                y = strip_cast(y[2])
            ok = y == ('call', 'opt_int_of', (self_,)) or y[0] == 'load' and owns(y[1], self_, 'integer')
            ok = ok and (inv[t] == 'OPT_BOOL' or not cut(e.a[1]))
            ok = ok and e.f == {'OPT_BOOL': 'encode_bool', 'OPT_INT': 'encode_integer'}[inv[t]]
        elif inv.get(t) == 'OPT_STRING':
            ok = e.f == 'encode_string' and owns(x, self_, 'string')
        else:
            empty = any(said_empty(f, self_) for f in p.facts)
            ok = e.f == 'buf_write_str' and owns(x, self_, 'string') or e.f == 'encode_null' and empty
            if e.f == 'buf_write':
                b, n = strip_cast(e.a[1]), pl(e.a[2])
                ok = leaf_field(b) == 'Str.pos' and n == {('load', ('field', b[1][1], 'Str.end')): 1, b: -1}
        ctx.ob('kinds.value', 'opt_encode:' + inv.get(t, '?'), ok, 'something else than the value of the option is written', at=e.i)
    ctx.ob('kinds.all', 'opt_encode', set(seen) == set(inv), 'a type is not written')
    # what is read
    v = Q.view('opt_set_json')
    self_ = ('arg', 0, v.params[0])
    pos = ('arg', 1, v.params[1])
    got = set()
    form = {'OPT_BOOL': 'bool', 'OPT_INT': 'integer', 'OPT_STRING': 'string'}
    for p in paths(v, edge=noexc):
        if p.end() != 'ret':
            continue
        t = tycase(p, P)
        evs = trace(p)
        st = [e for e in evs if e.k == 'call' and e.f in SETTERS]
        at = p.insts[-1]
        if t is None:
            ctx.ob('kinds.read', 'opt_set_json', all(any(f[1] == 'ne' and const_of(f[3]) == x for f in p.facts) for x in inv), 'a type is not read', at=at)
            continue
        got.add(t)
        n = inv.get(t, '?')
        rd = [e for e in evs if e.k == 'call' and e.f.startswith('json_read_')]
        sk = [e for e in evs if e.k == 'call' and e.f == 'json_skip']
        if n in form:
            ok = [e.f for e in rd] == ['json_read_' + form[n]] and not sk and rd[0].a[0] == pos
            ctx.ob('kinds.form', 'opt_set_json:' + n, ok, 'the option is read in another form than it is saved in', at=at)
            ok = ok and len(st) == 1 and st[0].n > rd[0].n
            ok = ok and not any(e.k == 'store' and e.a == rd[0].a[1] and rd[0].n < e.n < st[0].n for e in evs)
            if ok and n in ('OPT_BOOL', 'OPT_INT'):
                x = strip_cast(st[0].a[1])
                ok = (n == 'OPT_BOOL' or not cut(st[0].a[1])) and st[0].f == 'opt_int_set' and st[0].a[0] == self_ and x == ('load', rd[0].a[1])
            elif ok:
                ok = st[0].f in ('opt_string_set', 'str_copy') and st[0].a[1] == rd[0].a[1] and (st[0].a[0] == self_ or owns(st[0].a[0], self_, 'string'))
            ctx.ob('kinds.set', 'opt_set_json:' + n, ok, 'the option does not get the value read', at=at)
        else:
            ok = len(sk) == 1 and not rd and sk[0].a[0] == pos and len(st) == 1 and st[0].f == 'str_dup' and owns(st[0].a[0], self_, 'string')
            if ok:
                # from the position before to the position after skipping
                a, b = span(p, st[0], sk[0])
                ok = a and b
            ctx.ob('kinds.set', 'opt_set_json:' + n, ok, 'the option does not get the value read', at=at)
    ctx.ob('kinds.all', 'opt_set_json', got == set(inv), 'a type is not read')
    # defaults and copies
    v = Q.view('opts_define')
    k = 0
    for p in paths(v, edge=noexc):
        evs = trace(p)
        for e in [e for e in evs if e.k == 'call' and e.f in SETTERS]:
            x = strip_cast(e.a[1])
            k += 1
            ok = e.f == 'opt_int_set' and leaf_field(x) == 'OptsDef.default_int' or e.f in ('opt_string_set_raw', 'str_dup') and leaf_field(x) == 'OptsDef.default_string'
            ctx.ob('kinds.default', 'opts_define', ok, 'the default is another value', at=e.i)
        if p.end() == 'ret':
            n = len([e for e in evs if e.k == 'store' and e.f == 'Opt.flags'])
            li = len([e for e in evs if e.k == 'store' and e.f == 'Opts.list_count'])
            ctx.ob('kinds.listed', 'opts_define', n == li, 'an option is not listed', at=p.insts[-1])
            ok = [f for f in p.facts if f[3] == ('null',) and leaf_field(f[2]) == 'OptsDef.name']
            ctx.ob('kinds.defined', 'opts_define', len(ok) == n + 1 and ok[-1][1] == 'eq', 'options are left out', at=p.insts[-1])
    ctx.floor('kinds.default', 3)
    v = Q.view('opts_copy')
    for p in paths(v, edge=noexc, visits=3):
        evs = trace(p)
        for e in [e for e in evs if e.k == 'call' and e.f in SETTERS and e.f != 'str_dup']:
            dst, src = passed(P, e.a[0]), optof(P, e.a[1][1] if e.a[1][0] == 'load' else e.a[1])
            d, s = steps(dst), steps(src)
            ctx.ob('kinds.copied', 'opts_copy', d is not None and s is not None and d[0] == s[0] and d[1] != s[1], 'an option gets the value of another one', at=e.i)
    ctx.floor('kinds.copied', 2)


def cut(t):
    """part of the value is cut off"""
    while t[0] == 'cast':
        if t[1] == 'trunc':
            return True
        t = t[4]
    return False


def steps(o):
    """(how many next of what) an element of a list is"""
    b, off = o
    n = 0
    while True:
        b = strip_cast(b)
        if b[0] == 'load' and leaf_field(b) == 'List.next':
            n, b = n + 1, b[1][1]
        elif b[0] in ('field', 'index'):
            b = b[1]
        elif b[0] == 'load':
            b = b[1]
        else:
            return (n, b) if n else None


def said_empty(f, self_):
    """the string of the option was found empty"""
    t = strip_cast(f[2])
    if t[0] == 'call' and t[1] == 'opt_json_empty':
        return f[1] == 'ne' and const_of(f[3]) == 0
    w = {leaf_field(k): c for k, c in pl(f[2]).items() if k is not None}
    return set(w) == {'Str.end', 'Str.pos'} and f[1] == 'eq' and const_of(f[3]) == 0


def span(p, e, sk):
    """(the data starts where the value was, its size is what was skipped)"""
    i = e.i
    v = p.v
    env = p.envs[e.n]
    a = strip_cast(subst(v.term(i.args[1]), env))
    n = lin(strip_cast(subst(v.term(i.args[2]), env)))
    n = {k: c for k, c in n.items() if c}
    where = {x.id: j for j, x in enumerate(p.insts)}
    old = a[0] == 'load' and where.get(a[2], 10 ** 9) < sk.n
    pos = [k for k, c in n.items() if c == 1]
    neg = [k for k, c in n.items() if c == -1]
    ok = len(n) == 2 and len(pos) == 1 and len(neg) == 1 and neg[0] == a and pos[0] and pos[0][0] == 'load' and where.get(pos[0][2], -1) > sk.n and v.norm(pos[0]) == v.norm(a)
    return old, ok


def listed(ctx, P):
    """a save contains every option that is not excluded, each under its own name, once"""
    n = 'opts_list_persistent'
    E = P.enum('OPT_E')['OPT_E']
    listing(ctx, P, n, 'listed', E, E)


def listing(ctx, P, n, rule, must, may):
    """must: flags an option that is shown must not have; may: flags for which one is left out"""
    Q = core_load([n], WRITE + ['opt_encode', 'opt_print', 'buf_create'], [], False)
    v = Q.view(n)
    head = ('field', ('arg', 0, v.params[0]), 'Opts.list')
    k = 0
    for p in paths(v, edge=noexc, visits=3):
        if p.end() != 'ret':
            continue
        evs = trace(p)
        el, full = elements(P, p, head)
        at = p.insts[-1]
        ctx.ob(rule + '.all', n, full, 'options are left out', at=at)
        if rule == 'listed' or n != 'opts_print':
            cs = [e for e in evs if e.k == 'call' and e.f in ('encode_obj', 'encode_obj_end')]
            ok = [e.f for e in cs] == ['encode_obj', 'encode_obj_end'] and v.norm(p.arg(at, 0)) == cs[0].a[0] == cs[1].a[0]
            ctx.ob(rule + '.object', n, ok, 'the options are no object', at=at)
        for t, a, b in el:
            off = -offset_of(P, 'Opt', 'link')[0]
            me = (t, off)
            ff = flag_facts(P, p, a, b, me)
            out = [e for e in evs if a <= e.n < b and e.k == 'call' and e.f in ('encode_string', 'opt_encode', 'opt_print')]
            if out:
                k += 1
                ctx.ob(rule + '.kept', n, clear(ff, must), 'an option that must not be there is included', at=out[0].i)
                if n == 'opts_print':
                    ok = [e.f for e in out] == ['opt_print'] and passed(P, out[0].a[0]) == me
                else:
                    ok = [e.f for e in out] == ['encode_string', 'opt_encode'] and optof(P, out[0].a[1]) == me and leaf_field(out[0].a[1]) == 'Opt.name' and passed(P, out[1].a[0]) == me
                    ok = ok and out[0].a[0] == out[1].a[1] == v.norm(p.arg(at, 0))
                ctx.ob(rule + '.pair', n, ok, 'an option is not written under its name', at=out[0].i)
            else:
                ctx.ob(rule + '.skipped', n, some(ff, may), 'an option is left out', at=at)
    ctx.floor(rule + '.pair', 1)
    ctx.floor(rule + '.all', 1)


def saved(ctx, P):
    """the whole text of the options replaces the state file only after it was written and flushed under another name; what is read back is the whole file"""
    for n, st in (('state_save', 'State'), ('config_save', 'Config')):
        Q = core_load([n], FSKEEP + ['opts_list_persistent', 'json_export_pretty', 'json_export', 'buf_free'], [], False)
        v = Q.view(n)
        F = (('arg', 1, v.params[1]),)
        for p in paths(v):
            evs = trace(p)
            ops = fsops(p, evs)
            at = p.insts[-1]
            op = [o for o in ops if o.k == 'open']
            wr = [o for o in ops if o.k == 'write']
            rn = [o for o in ops if o.k == 'rename' and o.to == F]
            if p.end() == 'ret':
                ctx.ob('saved.steps', n, len(op) == 1 and len(wr) >= 1, 'the options are not written to one new file', at=at)
            last = max([o.n for o in wr], default=None)
            for o in op:
                fl = const_of(o.e.a[2]) or 0
                gone = any(x.n < o.n and (x.k == 'unlink' or x.k == 'exists' and x.yes is False) and x.name == o.name for x in ops)
                ctx.ob('saved.created', n, bool(fl & O_CREAT), 'the file is not created', at=o.e.i)
                ctx.ob('saved.fresh', n, bool(fl & (O_TRUNC | O_EXCL)) or gone, 'the end of an older file stays', at=o.e.i)
                if n == 'state_save':
                    ex = [x for x in ops if x.k == 'exists' and x.name == F and x.n < o.n]
                    ctx.ob('saved.beside', n, o.name != F or bool(ex) and ex[0].yes is False, 'the state is written over the last good one', at=o.e.i)
            for o in ops:
                if o.k in ('unlink', 'rename') and o.name == F:
                    new = any(x.k == 'sync' and last is not None and last < x.n < o.n for x in ops)
                    ctx.ob('saved.kept', n, new, 'the last good state is removed before there is a new one', at=o.e.i)
                if o.k == 'rename' and o.to == F:
                    ctx.ob('saved.written', n, last is not None and last < o.n and bool(op) and o.name == op[0].name, 'the state is replaced before the new one is written', at=o.e.i)
                    ctx.ob('saved.flushed', n, any(x.k == 'sync' and last is not None and last < x.n < o.n and x.name == o.name for x in ops), 'the state is replaced before the new one is flushed', at=o.e.i)
            if p.end() == 'ret' and op and op[0].name != F:
                ctx.ob('saved.renamed', n, bool(rn), 'the new state does not take the name it is read by', at=at)
            for o in wr:
                b = [e for e in evs if e.k == 'call' and e.f in ('json_export_pretty', 'json_export') and e.n < o.n]
                ok = len(b) == 1 and whole(o.e, b[0].a[0])
                if ok:
                    src = [e for e in evs if e.k == 'call' and e.f == 'opts_list_persistent' and e.n < b[0].n]
                    pos = [e for e in evs if e.k == 'store' and e.a == b[0].a[2] and e.n < b[0].n]
                    ok = len(src) == 1 and src[0].a[0] == ('field', ('arg', 0, v.params[0]), st + '.opts') and bool(pos) and pos[-1].v[0] == 'load' and leaf_field(pos[-1].v) == 'Buf.start' and pos[-1].v[1][1][:2] == ('call', 'opts_list_persistent')
                ctx.ob('saved.content', n, ok, 'the file is not the whole list of options', at=o.e.i)
    for n, st in (('state_open', 'State'), ('config_open', 'Config')):
        Q = core_load([n], FSKEEP + ['opts_set', 'opts_set_json', 'buf_free', 'str_set'], [], False)
        v = Q.view(n)
        for p in paths(v, edge=noexc):
            if p.end() != 'ret':
                continue
            evs = trace(p)
            im = [o for o in fsops(p, evs) if o.k == 'import']
            se = [e for e in evs if e.k == 'call' and e.f == 'opts_set']
            ok = len(im) == 1 and im[0].name == (('arg', 1, v.params[1]),) and len(se) == 1 and se[0].n > im[0].n and se[0].a[0] == ('field', ('arg', 0, v.params[0]), st + '.opts')
            ctx.ob('opened.file', n, ok and text_of(evs, se[0].n, se[0].a[1], 'file_import'), 'the options are not set from the whole file', at=p.insts[-1])
    Q = core_load(['opts_set'], ['json_parse', 'opts_set_json', 'json_init', 'json_free'], [], False)
    v = Q.view('opts_set')
    for p in paths(v, edge=noexc):
        if p.end() != 'ret':
            continue
        evs = trace(p)
        pr = [e for e in evs if e.k == 'call' and e.f == 'json_parse']
        se = [e for e in evs if e.k == 'call' and e.f == 'opts_set_json']
        ok = len(pr) == 1 and len(se) == 1 and pr[0].n < se[0].n and pr[0].a[1] == ('arg', 1, v.params[1]) and se[0].a[0] == ('arg', 0, v.params[0])
        if ok:
            pos = [e for e in evs if e.k == 'store' and e.a == se[0].a[1] and e.n < se[0].n]
            ok = bool(pos) and pos[-1].v == ('load', ('field', ('load', ('field', pr[0].a[0], 'Json.buf')), 'Buf.start'))
        ctx.ob('opened.parsed', 'opts_set', ok, 'the options are not set from the text', at=p.insts[-1])
    for x in ('saved.content', 'saved.renamed', 'saved.flushed', 'opened.file', 'opened.parsed'):
        ctx.floor(x, 1)


RULES = [table, typed, kinds, listed, saved]
