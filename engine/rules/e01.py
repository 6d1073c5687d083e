"""E01: every kind is handled wherever kinds are distinguished."""
from ..q import *

A = lambda n: lambda f, t: t[0] == 'arg' and t[2] == n
F = lambda *fs: lambda f, t: t[0] == 'load' and leaf_field(t) in fs
C = lambda *ns: lambda f, t: t[0] == 'call' and t[1] in ns
# what a cursor argument (uint8_t**) points at
D = lambda n: lambda f, t: t[0] == 'load' and t[1][0] == 'load' and t[1][1][0] == 'arg' and t[1][1][2] == n
# the byte an argument points at
B = lambda n: lambda f, t: t[0] == 'load' and (t[1] == ('arg', 0, n) or t[1][0] == 'load' and base_of(t[1][1])[0] == 'alloca')

# function, what is distinguished, a member of the enumeration, members that need no handling there
SITES = [
    ('catalog_execute', C('ddl_of'), 'DDL_STORAGE_CREATE', ('DDL_INDEX_CREATE',)),
    ('catalog_restore_relation', A('type'), 'RESTORE_STORAGE', ()),
    ('table_mgr_column_set', A('cmd'), 'DDL_STORAGE_CREATE', None, ('DDL_TABLE_COLUMN_SET_DEFAULT', 'DDL_TABLE_COLUMN_SET_STORED', 'DDL_TABLE_COLUMN_SET_RESOLVED')),
    ('part_index_create', F('IndexConfig.type'), 'INDEX_UNDEF', ('INDEX_UNDEF',)),
    ('part_mgr_recover_volume', C('id_of'), 'STATE_COMPLETE', ()),
    ('tier_open_volume', C('id_of'), 'STATE_COMPLETE', ()),
    ('id_state', A('state'), 'STATE_COMPLETE', ()),
    ('type_of', A('type'), 'TYPE_NULL', ('TYPE_MAX',)),
    ('type_sizeof', A('type'), 'TYPE_NULL', ('TYPE_NULL', 'TYPE_STRING', 'TYPE_JSON', 'TYPE_VECTOR', 'TYPE_AVG', 'TYPE_REF', 'TYPE_STORE', 'TYPE_CURSOR', 'TYPE_CURSOR_JSON', 'TYPE_CURSOR_STORE', 'TYPE_MAX')),
    ('decode_obj', lambda f, t: mentions(f, t, 'Decode.flags'), 'DECODE_UUID', ('DECODE_FOUND',)),
    ('json_typeof', A('type'), 'JSON_NULL', ()),
    ('json_compare', B('a'), 'JSON_NULL', ()),
    ('json_export_as', D('pos'), 'JSON_NULL', ('JSON_OBJ_END', 'JSON_ARRAY_END')),
    ('json_skip', D('pos'), 'JSON_NULL', ('JSON_OBJ_END', 'JSON_ARRAY_END')),
    ('json_read_integer', D('pos'), 'JSON_NULL', None, ('JSON_INTV0', 'JSON_INTV31', 'JSON_INT8', 'JSON_INT16', 'JSON_INT32', 'JSON_INT64')),
    ('json_read_real', D('pos'), 'JSON_NULL', None, ('JSON_REAL32', 'JSON_REAL64')),
    ('json_read_bool', D('pos'), 'JSON_NULL', None, ('JSON_TRUE', 'JSON_FALSE')),
    ('json_parse', C('json_pop'), 'JSON_VALUE', ()),
    ('interval_extract', C('interval_read_field'), 'INTERVAL_YEAR', ()),
    ('interval_trunc', C('interval_read_field'), 'INTERVAL_YEAR', ('INTERVAL_MICROSECOND',)),
    ('timestamp_extract', C('timestamp_read_field'), 'TIMESTAMP_YEAR', ()),
    ('timestamp_trunc', C('timestamp_read_field'), 'TIMESTAMP_YEAR', ('TIMESTAMP_MICROSECOND',)),
    ('separator_read', C('separator_next'), 'SEPARATOR_EOF', ()),
    ('lock_id_cstr', A('self'), 'LOCK_NONE', ('LOCK_MAX',)),
    ('lock_resolve', A('lock'), 'LOCK_NONE', ('LOCK_NONE', 'LOCK_MAX')),
    ('opt_encode', F('Opt.type'), 'OPT_BOOL', ()),
    ('opt_print', F('Opt.type'), 'OPT_BOOL', ('OPT_JSON',)),
    ('opt_set', F('Opt.type'), 'OPT_BOOL', ()),
    ('opt_set_json', F('Opt.type'), 'OPT_BOOL', ()),
    ('opts_copy', F('Opt.type'), 'OPT_BOOL', ()),
    ('opts_define', F('OptsDef.type', 'Opt.type'), 'OPT_BOOL', ('OPT_JSON',)),
    ('opt_free', F('Opt.type'), 'OPT_BOOL', None, ('OPT_STRING', 'OPT_JSON')),
    ('uri_parse_args_set', F('Opt.type'), 'OPT_BOOL', ('OPT_JSON',)),
    ('uri_export', lambda f, t: t[0] == 'load' and (leaf_field(t) or '').startswith('Endpoint.proto') or mentions(f, t, 'Endpoint.proto'), 'PROTO_HTTP', ()),
]
# kinds that mean the same to whoever handles them
TWINS = [{'OPT_BOOL', 'OPT_INT'}, {'JSON_TRUE', 'JSON_FALSE'}, {'STATE_INCOMPLETE', 'STATE_SNAPSHOT'}, {'OPT_STRING', 'OPT_JSON'},
         {'LOCK_SHARED', 'LOCK_SHARED_RW'}]
ENTRIES = [s[0] for s in SITES]
KEEP = ['ddl_of', 'id_of', 'json_pop', 'interval_read_field', 'timestamp_read_field', 'separator_next', 'json_skip', 'json_compare', 'json_export_as',
        'json_error', 'json_error_read', 'json_is_bool', 'json_is_null', 'json_is_real', 'json_is_integer', 'json_is_string', 'json_is_array', 'json_is_obj', 'json_is_array_end', 'json_is_obj_end',
        'json_compare_string_read', 'json_compare_integer_read', 'json_read_real', 'json_read_null', 'base64url_decode', 'uuid_set', 'opts_find', 'opt_set']
UNKEEP, PLAIN = ['json_read_integer', 'json_read_bool', 'json_skip'], True
KEEP.remove('json_skip')
KEEP.remove('opt_set')


def under(f, pred, v):
    """edges that can be taken when what pred matches is v"""
    def edge(b, s, l):
        if not l:
            return True
        if l[0] == 'br':
            for _, p, a, c in f.fact(f.term(l[1]), l[2]):
                k = value(a)
                if k is not None and c[0] == 'const' and not holds(p, k, c[1]):
                    return False
        elif l[0] == 'sw':
            k = value(f.term(l[1]))
            if k is not None:
                if l[2] is not None:
                    return l[2] == k
                return k not in [c for c, _ in f.blocks[b][-1].d['cs']]
        return True

    def value(t):
        """the value of a term that is a function of the scrutinee alone"""
        t = strip_cast(t)
        if pred(f, t):
            return v
        if t[0] == 'bin' and t[3][0] == 'const':
            x = value(t[2])
            if x is None:
                return None
            c = t[3][1]
            return {'add': x + c, 'sub': x - c, 'and': x & c, 'or': x | c}.get(t[1])
        return None
    return edge


def effects(f, ids):
    """what happens on a way: calls, stores and the blocks that choose a result"""
    r = set()
    for n in ids:
        i = f.inst[n]
        if i.op == 'call' and not (i.callee or '').startswith(('vp.', 'llvm.')) or i.op == 'store':
            r.add(n)
    return r


def kinds(ctx, P):
    """under every kind of the enumeration, the function does something it does not do for an unknown kind"""
    for s in SITES:
        name, pred, member, skip = s[:4]
        f = P.view(name)
        E = P.enum(member)
        vals = {m: x for m, x in E.items() if (m in s[4] if skip is None else m not in skip)}
        # members of ranges (INTV0 .. INTV31) stand for every value between them
        lo = {m: x for m, x in vals.items() if m.endswith('V0')}
        for m, x in lo.items():
            top = E.get(m[:-1] + '31')
            if top is not None:
                for y in range(x, top + 1):
                    vals.setdefault('%s+%d' % (m, y - x), y)
        hit = [i for i in f.insts() if i.op in ('icmp', 'switch') and pred(f, strip_cast(f.term(i.args[0] if i.op == 'icmp' else i.d['c'])))]
        if not hit:
            raise Broken('%s does not distinguish %s' % (name, member))
        unk = 1 << 20 if max(E.values()) > 200 or name == 'decode_obj' else 211
        D = set(f.reach([f.entry()], edge=under(f, pred, unk), incl=True))
        R = {m: set(f.reach([f.entry()], edge=under(f, pred, x), incl=True)) for m, x in vals.items()}
        common = set.intersection(*R.values()) if R else set()
        rets = [e.id for e in f.exits()]
        extra = effects(f, D - common)
        # the default does something of its own, and not only fail
        useful = any(e in D for e in rets) and any(not fails(f, n, rets) for n in extra)
        same = [m for m in R if R[m] == D]
        for m in vals:
            ok = m not in same or (useful and (len(same) == 1 or any(set(same) <= t for t in TWINS)))
            ctx.ob('kinds', '%s:%s' % (name, m), ok, 'the kind is treated like an unknown one', at=hit[0])
            # ... and can return
            if any(e in R[k] for k in R for e in rets):
                ctx.ob('kinds.ends', '%s:%s' % (name, m), any(e in R[m] for e in rets), 'the kind always fails', at=hit[0])
    ctx.floor('kinds', 300)


def fails(f, n, rets):
    return not any(r in f.reach([f.inst[n]], exc=False) for r in rets)


RULES = [kinds]
