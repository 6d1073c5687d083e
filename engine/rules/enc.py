"""What encoders write and decoders read, as sequences of typed values."""
from ..q import *

SCALAR_W = {'encode_string': 'string', 'encode_string_unescape': 'string', 'encode_raw': 'string', 'encode_cstr': 'string', 'encode_integer': 'integer', 'encode_bool': 'bool',
            'encode_real': 'real', 'encode_null': 'null', 'encode_uuid': 'uuid', 'encode_base64': 'base64', 'encode_buf': 'string'}
SCALAR_R = {'json_read_string': 'string', 'json_read_string_copy': 'string', 'json_read_integer': 'integer', 'json_read_bool': 'bool', 'json_read_real': 'real', 'json_read_null': 'null'}
OPEN = {'encode_array': 'array', 'encode_obj': 'obj', 'json_read_array': 'array', 'json_read_obj': 'obj'}
END = {'encode_array_end': 'array', 'encode_obj_end': 'obj', 'json_read_array_end': 'array', 'json_read_obj_end': 'obj'}
CODEC = list(SCALAR_W) + list(SCALAR_R) + list(OPEN) + list(END) + ['decode_obj', 'json_skip', 'json_error', 'json_error_read', 'uuid_set', 'base64url_decode', 'base64_decode', 'str_copy', 'str_free', 'list_append', 'list_push',
                                                                        'buf_write', 'buf_write_buf', 'buf_write_str', 'buf_reset']
DECODE = {'DECODE_UUID': 'uuid', 'DECODE_STRING': 'string', 'DECODE_STRING_READ': 'string', 'DECODE_INT': 'integer', 'DECODE_BOOL': 'bool', 'DECODE_REAL': 'real', 'DECODE_NULL': 'null',
          'DECODE_ARRAY': 'array', 'DECODE_OBJ': 'obj', 'DECODE_DATA': 'any', 'DECODE_BASE64': 'base64'}


def slot(t):
    """(object, position) of an element address"""
    k = 0
    while t[0] == 'index':
        c = const_of(t[2])
        if c is None:
            return t, None
        k += c * t[3]
        t = t[1]
    return t, k


def deref(t):
    """the field an encoded value is taken from, and the conversions on the way"""
    cs = []
    while t[0] == 'cast':
        cs.append((t[1], t[2], t[3]))
        t = t[4]
    if t[0] == 'load':
        t = t[1]
    return t, cs


def root(t):
    """object a location belongs to: through fields, elements and list steps"""
    while t[0] in ('field', 'index', 'load'):
        t = t[1]
    return t


def table(P, evs, call):
    """what a decode_obj call reads: key -> (kind, where to)"""
    base, k0 = slot(call.a[0])
    rows = {}
    size = 24
    for e in evs:
        if e.n >= call.n:
            break
        if e.k == 'store' and e.f in ('Decode.flags', 'Decode.key', 'Decode.value'):
            b, k = slot(e.a[1])
            if b == base and k is not None:
                rows.setdefault((k - k0) // size, {})[e.f] = e.v
    inv = {P.enum(m)[m] if isinstance(P.enum(m), dict) else P.enum(m): d for m, d in DECODE.items()}
    r = {}
    bad = []
    for k in sorted(rows):
        x = rows[k]
        if len(x) < 3 or x['Decode.key'] == ('null',):
            continue
        key = x['Decode.key']
        key = key[1] if key[0] == 'str' else None
        kind = inv.get(const_of(x['Decode.flags']))
        if key is None or kind is None or key in r:
            bad.append(k)
            continue
        r[key] = (kind, x['Decode.value'])
    ended = sorted(rows) == list(range(len(rows)))
    return r, bad, ended


def writes_of(evs, buf, nested):
    """events that append to buf: ('open'|'close', kind), ('value', kind, term), ('nested', name, term)"""
    r = []
    for e in evs:
        if e.k != 'call':
            continue
        if e.f in OPEN and e.a[0] == buf:
            r.append(('open', OPEN[e.f], None, e))
        elif e.f in END and e.a[0] == buf:
            r.append(('close', END[e.f], None, e))
        elif e.f in SCALAR_W and e.a[0] == buf:
            r.append(('value', SCALAR_W[e.f], e.a[1] if len(e.a) > 1 else None, e))
        elif e.f in nested and buf in e.a:
            r.append(('nested', nested[e.f], [a for a in e.a if a != buf], e))
    return r


def tree(ws):
    """nest the flat events; None when they do not balance"""
    st, kinds = [[]], []
    for w in ws:
        if w[0] == 'open':
            st.append([])
            kinds.append((w[1], w[3]))
        elif w[0] == 'close':
            if not kinds or kinds[-1][0] != w[1]:
                return None
            k = kinds.pop()
            x = st.pop()
            st[-1].append((k[0], x, None, k[1]))
        else:
            st[-1].append((w[0] if w[0] == 'nested' else w[1], w[1] if w[0] == 'nested' else None, w[2], w[3]))
    return st[0] if not kinds else None
