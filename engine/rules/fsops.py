"""File operations of a path: what is created, written, flushed, removed and renamed, by name."""
from ..q import *

FSKEEP = ['fs_exists', 'fs_unlink', 'fs_rename', 'fs_mkdir', 'fs_rmdir', 'sfmt', 'file_open_as', 'file_write', 'file_writev', 'file_pwrite', 'file_sync', 'file_truncate', 'file_close', 'file_rename',
          'file_read', 'file_pread', 'file_import', 'id_path', 'opt_int_of', 'opt_string_of', 'opt_int_set', 'vfs_size', 'buf_create', 'str_free']
O_CREAT, O_EXCL, O_TRUNC = 0o100, 0o200, 0o1000


class Op:
    __slots__ = ('k', 'name', 'to', 'e', 'n', 'yes')

    def __repr__(self):
        return '<%s %s%s%s>' % (self.k, show(self.name), ' -> ' + show(self.to) if self.to else '', '' if self.yes is None else ' %s' % self.yes)


def flat(t):
    while t[0] == 'index' and const_of(t[2]) == 0:
        t = t[1]
    return t


def tail(n):
    """the last part of a name"""
    s = ''.join(x if isinstance(x, str) else '{}' for x in n)
    return s.split('/')[-1]


def show(n):
    if isinstance(n, tuple) and n and n[0] == 'id':
        return 'id:%s' % (n[2],)
    return ''.join(x if isinstance(x, str) else '{}' for x in n) if n else '?'


def expand(fmt, args, names):
    """a format with its arguments as a tuple of literals and terms"""
    if fmt[0] != 'str':
        return (fmt,)
    out, k, s = [], 0, fmt[1]
    i = 0
    lit = ''
    while i < len(s):
        if s[i] != '%':
            lit += s[i]
            i += 1
            continue
        j = i + 1
        while j < len(s) and s[j] not in 'sduxcp%':
            j += 1
        i = j + 1
        if s[j:j + 1] == '%':
            lit += '%'
            continue
        a = args[k] if k < len(args) else ('none',)
        k += 1
        if lit:
            out.append(lit)
            lit = ''
        n = names.get(flat(a))
        if a[0] == 'str':
            n = (a[1],)
        if n and n[0] == 'id':
            n = (n,)
        out += list(n) if n else [a]
    if lit:
        out.append(lit)
    # join literals
    r = []
    for x in out:
        if r and isinstance(x, str) and isinstance(r[-1], str):
            r[-1] += x
        else:
            r.append(x)
    if len(r) == 1 and isinstance(r[0], tuple) and r[0] and r[0][0] == 'id':
        return r[0]
    return tuple(r)


def fsops(p, evs=None):
    """operations of a path in order"""
    names, files, r, mem = {}, {}, [], {}

    def here(t):
        # the value a location was given on this path
        for _ in range(4):
            if t[0] == 'load' and t[1] in mem:
                t = mem[t[1]]
        return t
    asked = {}
    for f, at in zip(p.facts, p.at):
        t = strip_cast(f[2])
        if t[0] == 'call' and t[1] in ('fs_exists', 'file_import') and const_of(f[3]) == 0:
            asked.setdefault(t[2] if not isinstance(t[2], tuple) else None, []).append((at, f[1] == 'ne'))

    def nm(t):
        t = flat(t)
        if t[0] == 'str':
            return (t[1],)
        return names.get(t) or (t,)
    for e in evs if evs is not None else trace(p):
        if e.k == 'store':
            mem[e.a] = e.v
        if e.k != 'call':
            continue
        o = Op()
        o.k, o.name, o.to, o.e, o.n, o.yes = None, None, None, e, e.n, None
        if e.f == 'sfmt' or e.f == 'snprintf':
            names[flat(e.a[0])] = expand(e.a[2], e.a[3:], names)
        elif e.f == 'id_path':
            names[flat(e.a[1])] = ('id', e.a[0], e.a[2], e.a[3] if len(e.a) > 3 else ('const', 0))
        elif e.f == 'fs_exists':
            o.k, o.name = 'exists', expand(e.a[0], e.a[1:], names)
            s = [y for at, y in asked.get(e.i.id, []) if at >= e.n]
            o.yes = s[0] if s else None
        elif e.f in ('fs_unlink',):
            o.k, o.name = 'unlink', expand(e.a[0], e.a[1:], names)
        elif e.f in ('vfs_unlink',):
            o.k, o.name = 'unlink', nm(e.a[0])
        elif e.f == 'fs_rename':
            o.k, o.name, o.to = 'rename', nm(e.a[0]), expand(e.a[1], e.a[2:], names)
        elif e.f == 'vfs_rename':
            o.k, o.name, o.to = 'rename', nm(e.a[0]), nm(e.a[1])
        elif e.f == 'file_rename':
            o.k, o.name, o.to = 'rename', files.get(here(e.a[0])), nm(e.a[1])
            files[here(e.a[0])] = o.to
        elif e.f == 'file_open_as':
            o.k, o.name = 'open', nm(e.a[1])
            files[here(e.a[0])] = o.name
        elif e.f in ('file_write', 'file_writev', 'file_pwrite'):
            o.k, o.name = 'write', files.get(here(e.a[0]), (here(e.a[0]),))
        elif e.f in ('file_read', 'file_pread'):
            o.k, o.name = 'read', files.get(here(e.a[0]), (here(e.a[0]),))
        elif e.f == 'file_sync':
            o.k, o.name = 'sync', files.get(here(e.a[0]), (here(e.a[0]),))
        elif e.f == 'file_truncate':
            o.k, o.name = 'truncate', files.get(here(e.a[0]), (here(e.a[0]),))
        elif e.f == 'file_import':
            o.k, o.name = 'import', expand(e.a[0], e.a[1:], names)
        elif e.f == 'fs_mkdir':
            o.k, o.name = 'mkdir', expand(e.a[1], e.a[2:], names)
        if o.k:
            r.append(o)
    return r


def option(p, field, upto=None):
    """what the path says about a boolean option: True, False or None"""
    r = None
    for f, at in zip(p.facts, p.at):
        t = strip_cast(f[2])
        if t[0] == 'call' and t[1] == 'opt_int_of' and const_of(f[3]) == 0 and leaf_field(p.v.term(p.v.inst[t[2]].args[0])) == field:
            if upto is None or at <= upto:
                r = f[1] == 'ne'
    return r
