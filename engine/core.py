"""SSA program model and the generic path/dataflow queries used by the rules."""
import sys, os, json, collections, re
from . import facts
from .facts import Broken

NEG = {'eq': 'ne', 'ne': 'eq', 'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt',
       'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt'}
SWAP = {'eq': 'eq', 'ne': 'ne', 'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule',
        'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle'}


class Inst:
    __slots__ = ('id', 'op', 'd', 'fn', 'b', 'k', 'callee', 'args')

    def __init__(self, d, fn, b, k):
        self.d, self.fn, self.b, self.k = d, fn, b, k
        self.id = d['i']
        self.op = d['o']
        self.callee = None
        self.args = d.get('a', [])
        if self.op == 'call':
            c = d['f']
            if isinstance(c, str):
                self.callee = c

    @property
    def is_defer(self):
        return self.d.get('df')

    def loc(self):
        """outermost-first chain of (file,line,function)"""
        l = self.d.get('l')
        return [tuple(x) for x in l][::-1] if l else []

    def where(self):
        l = self.d.get('l')
        if not l:
            return '%s:%s (%s)' % (self.fn.file, self.fn.line, self.fn.name)
        s = '%s:%d (%s)' % (l[0][0], l[0][1], l[0][2])
        if len(l) > 1:
            s += ' via ' + ' <- '.join('%s:%d' % (x[2], x[1]) for x in l[1:])
        return s

    def src(self):
        """function of the source this instruction was written in"""
        l = self.d.get('l')
        return l[0][2] if l else self.fn.src

    def targets(self):
        if self.callee:
            return [self.callee]
        return self.d.get('tg', [])

    def __repr__(self):
        return '<%s %s %s>' % (self.id, self.op, self.callee or '')


class Fn:
    def __init__(self, d):
        f = d['fn']
        self.name = f['name']
        self.src = f.get('src', self.name)
        self.file = f.get('file', '')
        self.line = f.get('line', 0)
        self.sig = f.get('sig', [])
        self.ret = f['ret']
        self.params = f['params']
        self.noreturn = f['noreturn']
        self.internal = f.get('internal', False)
        self.anomalies = d['an']
        self.notes = d['notes']
        self.view = d['view']
        self.blocks = []
        self.inst = {}
        for bi, b in enumerate(f['blocks']):
            bl = []
            for k, i in enumerate(b):
                x = Inst(i, self, bi, k)
                bl.append(x)
                self.inst[x.id] = x
            self.blocks.append(bl)
        # edges: succ[b] = list of (target, label) ; label: ('br',condoperand,True/False) | ('sw',cond,value|None) | ('exc',) | ()
        self.succ = [[] for _ in self.blocks]
        self.pred = [[] for _ in self.blocks]
        for bi, bl in enumerate(self.blocks):
            t = bl[-1]
            if t.op == 'br':
                s = t.d['s']
                if len(s) == 1:
                    self._edge(bi, s[0], ())
                else:
                    c = t.d['c']
                    ci = self.inst.get(c[1]) if c[0] == 'v' else None
                    if ci is not None and ci.callee == 'vp.throws':
                        self._edge(bi, s[0], ('exc',))
                        self._edge(bi, s[1], ('cont',))
                    elif c[0] == 'c':
                        self._edge(bi, s[0 if c[1] else 1], ())
                    else:
                        self._edge(bi, s[0], ('br', c, True))
                        self._edge(bi, s[1], ('br', c, False))
            elif t.op == 'switch':
                for v, b in t.d['cs']:
                    self._edge(bi, b, ('sw', t.d['c'], v))
                self._edge(bi, t.d['d'], ('sw', t.d['c'], None))
        self._calls = None
        self._terms = {}
        self._users = None

    def _edge(self, a, b, l):
        self.succ[a].append((b, l))
        self.pred[b].append((a, l))

    # ---- instruction selection
    def insts(self):
        for b in self.blocks:
            for i in b:
                yield i

    def calls(self, *names):
        if self._calls is None:
            self._calls = collections.defaultdict(list)
            for i in self.insts():
                if i.op == 'call':
                    for t in i.targets():
                        self._calls[t].append(i)
        r = []
        for n in names:
            r += self._calls.get(n, [])
        return r

    def allcalls(self):
        return [i for i in self.insts() if i.op == 'call' and not (i.callee or '').startswith(('vp.', 'llvm.'))]

    def exits(self):
        """normal exits (return instructions)"""
        return [b[-1] for b in self.blocks if b[-1].op == 'ret']

    def unwinds(self):
        return [i for i in self.insts() if i.callee == 'vp.unwind']

    def panics(self):
        return [b[-1] for b in self.blocks if b[-1].op == 'unreachable' and not any(i.callee == 'vp.unwind' for i in b)]

    def users(self, inst):
        if self._users is None:
            self._users = collections.defaultdict(list)
            for i in self.insts():
                ops = list(i.d.get('a', []))
                for v, _ in i.d.get('in', []):
                    ops.append(v)
                if 'c' in i.d:
                    ops.append(i.d['c'])
                if isinstance(i.d.get('f'), list):
                    ops.append(i.d['f'])
                for o in ops:
                    if o and o[0] == 'v':
                        self._users[o[1]].append(i)
        return self._users.get(inst.id if isinstance(inst, Inst) else inst, [])

    # ---- terms
    def term(self, o, depth=0):
        k = o[0]
        if k == 'v':
            if o[1] in self._terms:
                return self._terms[o[1]]
            t = self._term(self.inst[o[1]], depth)
            if depth < 40:
                self._terms[o[1]] = t
            return t
        if k == 'a':
            return ('arg', o[1], self.params[o[1]] if o[1] < len(self.params) else '')
        if k == 'c':
            return ('const', o[1])
        if k == 's':
            return ('str', o[1])
        if k == 'f':
            return ('fn', o[1])
        if k == 'n':
            return ('null',)
        if k == 'g':
            return ('global', o[1])
        if k == 'fld':
            return ('field', self.term(o[1], depth + 1), o[2])
        return ('other', json.dumps(o))

    def _term(self, i, depth):
        if depth > 60:
            return ('deep', i.id)
        T = lambda o: self.term(o, depth + 1)
        op = i.op
        if op == 'call':
            c = i.callee
            if c and c.startswith('vp.field.'):
                return ('field', T(i.args[0]), c[9:])
            if c in ('vp.index', 'vp.elem'):
                return ('index', T(i.args[0]), T(i.args[1]), i.args[2][1])
            if c and c.startswith('llvm.threadlocal'):
                return T(i.args[0])
            if c and c.startswith('llvm.expect'):
                return T(i.args[0])
            return ('call', c or '?', i.id)
        if op == 'load':
            return ('load', T(i.args[0]), i.id)
        if op == 'phi':
            return ('phi', i.id)
        if op == 'icmp' or op == 'fcmp':
            return ('cmp', i.d['p'], T(i.args[0]), T(i.args[1]))
        if op in ('zext', 'sext', 'trunc'):
            return ('cast', op, i.d['ft'], i.d['t'], T(i.args[0]))
        if op in ('bitcast', 'inttoptr', 'ptrtoint', 'freeze'):
            return T(i.args[0])
        if op == 'alloca':
            return ('alloca', i.id, i.d.get('n', ''))
        if op == 'select':
            return ('select', T(i.args[0]), T(i.args[1]), T(i.args[2]))
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem'):
            return ('bin', op, T(i.args[0]), T(i.args[1]))
        return ('op', op, i.id)

    def show(self, t, depth=0):
        """readable form of a term"""
        if not isinstance(t, tuple):
            return str(t)
        if depth > 12:
            return '..'
        S = lambda x: self.show(x, depth + 1)
        k = t[0]
        if k == 'arg':
            return t[2] or 'arg%d' % t[1]
        if k == 'const':
            return str(t[1])
        if k == 'str':
            return json.dumps(t[1])
        if k in ('fn', 'global'):
            return t[1]
        if k == 'null':
            return 'NULL'
        if k == 'field':
            b = t[1]
            f = t[2].split('.')[-1]
            return (S(b[1]) + '->' + f if False else S(b) + '.' + f)
        if k == 'load':
            return '*' + S(t[1]) if t[1][0] not in ('field', 'index') else S(t[1])
        if k == 'index':
            return '%s[%s]' % (S(t[1]), S(t[2]))
        if k == 'call':
            i = self.inst[t[2]]
            return '%s(%s)' % (t[1], ', '.join(S(self.term(a)) for a in i.args))
        if k == 'cmp':
            return '(%s %s %s)' % (S(t[2]), t[1], S(t[3]))
        if k == 'bin':
            return '(%s %s %s)' % (S(t[2]), t[1], S(t[3]))
        if k == 'cast':
            return '(%s)%s' % (t[3], S(t[4]))
        if k == 'phi':
            return 'phi%d' % t[1] + ('<%s>' % self.inst[t[1]].d.get('n', ''))
        if k == 'alloca':
            return '&' + (t[2] or 'local%d' % t[1])
        return str(t)

    # ---- paths
    def norm(self, t):
        """term without instruction identity of loads (location equality)"""
        if not isinstance(t, tuple):
            return t
        if t[0] == 'load':
            return ('load', self.norm(t[1]))
        if t[0] == 'call':
            if isinstance(t[2], tuple):
                return t
            i = self.inst[t[2]]
            return ('call', t[1], tuple(self.norm(self.term(a)) for a in i.args))
        if t[0] == 'phi':
            return t
        return tuple(self.norm(x) if isinstance(x, tuple) else x for x in t)

    def nxt(self, i, exc=True):
        b = self.blocks[i.b]
        if i.k + 1 < len(b):
            return [b[i.k + 1]]
        r = []
        for s, l in self.succ[i.b]:
            if not exc and l == ('exc',):
                continue
            r.append(self.blocks[s][0])
        return r

    def entry(self):
        return self.blocks[0][0]

    def reach(self, starts, stop=(), exc=True, edge=None, incl=False):
        """instructions reachable from (after) starts; instructions in stop are reached but not passed.
        edge(block, succ, label) -> bool may cut edges."""
        stop = set(x.id for x in stop)
        seen = {}
        wl = []
        for s in starts:
            if incl:
                wl.append((s, None))
            else:
                for n in self._next(s, exc, edge):
                    wl.append((n, s))
        while wl:
            i, frm = wl.pop()
            if i.id in seen:
                continue
            seen[i.id] = frm
            if i.id in stop:
                continue
            for n in self._next(i, exc, edge):
                if n.id not in seen:
                    wl.append((n, i))
        return seen

    def _next(self, i, exc, edge):
        b = self.blocks[i.b]
        if i.k + 1 < len(b):
            return [b[i.k + 1]]
        r = []
        for s, l in self.succ[i.b]:
            if not exc and l == ('exc',):
                continue
            if edge and not edge(i.b, s, l):
                continue
            r.append(self.blocks[s][0])
        return r

    def can_reach(self, a, targets, avoid=(), exc=True, edge=None):
        """is there a path from after a to one of targets that avoids `avoid`? returns target or None"""
        starts = a if isinstance(a, (list, tuple)) else [a]
        s = self.reach(starts, stop=avoid, exc=exc, edge=edge)
        av = set(x.id for x in avoid)
        for t in targets:
            if t.id in s and t.id not in av:
                return t
        return None

    def from_entry(self, targets, avoid=(), exc=True, edge=None):
        e = self.entry()
        s = self.reach([e], stop=avoid, exc=exc, edge=edge, incl=True)
        av = set(x.id for x in avoid)
        for t in targets:
            if t.id in s and t.id not in av:
                return t
        return None

    def dominated(self, x, by, exc=True):
        """every path from entry to x passes an instruction of `by`"""
        return self.from_entry([x], avoid=by, exc=exc) is None

    def path_lines(self, seen, t):
        r = []
        while t is not None:
            l = t.d.get('l')
            if l:
                p = '%s:%d' % (os.path.basename(l[0][0]), l[0][1])
                if not r or r[-1] != p:
                    r.append(p)
            t = seen.get(t.id)
        return r[::-1]

    # ---- conditions
    def edge_conds(self, x):
        """conditions (cmpterm, polarity) that hold on every path reaching instruction x
        (edges whose removal makes x unreachable)"""
        r = []
        # blocks on one path to x: only their edges can lie on all of them
        prev = {0: None}
        wl = [0]
        while wl and x.b not in prev:
            b = wl.pop(0)
            for s, _ in self.succ[b]:
                if s not in prev:
                    prev[s] = b
                    wl.append(s)
        if x.b not in prev:
            return r
        chain = set()
        b = prev[x.b]
        while b is not None:
            chain.add(b)
            b = prev[b]
        for bi in sorted(chain):
            for s, l in self.succ[bi]:
                if l and l[0] in ('br', 'sw') and s in prev and not self._block_reach(x.b, bi, s, l):
                    r.append((l, bi))
        return r

    def _block_reach(self, x, bi, to, lab):
        """is block x reachable from the entry without the edge bi->to labelled lab"""
        if x == 0:
            return True
        seen = {0}
        wl = [0]
        while wl:
            b = wl.pop()
            for s, l in self.succ[b]:
                if s in seen or b == bi and s == to and l == lab:
                    continue
                if s == x:
                    return True
                seen.add(s)
                wl.append(s)
        return False

    def conds(self, x):
        """normalised facts that hold at x: list of ('cmp',pred,a,b) terms"""
        out = []
        for l, bi in self.edge_conds(x):
            if l[0] == 'br':
                out += self.fact(self.term(l[1]), l[2])
            elif l[2] is not None:
                out.append(('cmp', 'eq', self.term(l[1]), ('const', l[2])))
            else:
                t = self.blocks[bi][-1]
                for v, _ in t.d['cs']:
                    out.append(('cmp', 'ne', self.term(l[1]), ('const', v)))
        return out

    def fact(self, t, pol):
        """facts implied by the boolean term t having truth value pol"""
        if t[0] == 'cmp':
            p, a, b = t[1], t[2], t[3]
            # (zext/trunc bool) ne 0  -> inner
            if b == ('const', 0) and p in ('eq', 'ne'):
                inner = boolish(a)
                if inner is not None:
                    return self.fact(inner, pol if p == 'ne' else not pol)
            return [('cmp', p if pol else NEG.get(p, p), a, b)]
        if t[0] == 'cast':
            inner = t[4]
            if inner[0] in ('cmp', 'bin', 'cast') or t[3] == 'i1':
                return self.fact(inner, pol) if inner[0] in ('cmp', 'cast', 'bin') else [('cmp', 'ne' if pol else 'eq', inner, ('const', 0))]
        if t[0] == 'bin' and t[1] == 'xor' and t[3] in (('const', 1), ('const', -1)):
            return self.fact(t[2], not pol)
        return [('cmp', 'ne' if pol else 'eq', t, ('const', 0))]


def boolish(t):
    """the boolean inside a widened boolean"""
    if t[0] == 'cmp':
        return t
    if t[0] == 'cast' and t[2] == 'i1':
        return t[4] if t[4][0] in ('cmp', 'bin') else t[4]
    if t[0] == 'bin' and t[1] == 'xor' and t[3] in (('const', 1), ('const', -1)):
        return t
    return None


def leaf_field(t):
    """Struct.field of an address or loaded value"""
    if t[0] == 'load':
        return leaf_field(t[1])
    if t[0] == 'cast':
        return leaf_field(t[4])
    if t[0] == 'field':
        return t[2]
    if t[0] == 'index':
        return leaf_field(t[1])
    return None


def fields_in(t, acc=None):
    if acc is None:
        acc = []
    if isinstance(t, tuple):
        if t and t[0] == 'field':
            acc.append(t[2])
        for x in t:
            if isinstance(x, tuple):
                fields_in(x, acc)
    return acc


def strip_cast(t):
    while t[0] == 'cast':
        t = t[4]
    return t


def base_of(t):
    """object a chain of field/index steps starts from (stops at loads)"""
    while t[0] in ('field', 'index'):
        t = t[1]
    return t


class Program:
    def __init__(self, raw):
        self.raw = raw
        self.fn = {}
        self.views = {}
        for d in raw['fns']:
            f = Fn(d)
            (self.views if d['view'] else self.fn)[f.name] = f
        self.maythrow = set(raw['maythrow'])
        self.fieldpts = raw['fieldpts']
        self.structs = raw['structs']
        self.enums = raw['enums']
        self.globals = raw['globals']
        self._callers = None

    def get(self, name):
        if name not in self.fn:
            raise Broken('function %s is not in the program' % name)
        return self.fn[name]

    def view(self, name):
        if name not in self.views:
            raise Broken('function %s is not in the program' % name)
        return self.views[name]

    def enum(self, member):
        for e in self.enums:
            if member in e['v']:
                return e['v']
        raise Broken('no enumeration has %s' % member)

    def callers(self):
        if self._callers is None:
            self._callers = collections.defaultdict(list)
            for f in self.fn.values():
                for i in f.allcalls():
                    for t in i.targets():
                        self._callers[t].append(i)
        return self._callers

    def outside(self, names):
        """the functions through which others reach these: helpers of one file are decided where they are used"""
        out, todo, seen = set(), list(names), set()
        while todo:
            n = todo.pop()
            if n in seen or n not in self.fn:
                continue
            seen.add(n)
            up = sorted({i.fn.name for i in self.callers().get(n, [])})
            if self.fn[n].internal and up:
                todo += up
            else:
                out.add(n)
        return sorted(out)

    def throw_chain(self, name, depth=12):
        """a shortest explanation why `name` may throw"""
        prev = {name: None}
        q = collections.deque([name])
        while q:
            n = q.popleft()
            f = self.fn.get(n)
            if not f:
                continue
            for i in f.insts():
                if i.op == 'call':
                    nb = f.nxt(i)
                    for t in i.targets():
                        if t in ('longjmp',):
                            r = [t]
                            while n:
                                r.append(n)
                                n = prev[n]
                            return r[::-1]
                        if t in self.maythrow and t not in prev:
                            # only unguarded throws
                            prev[t] = n
                            q.append(t)
        return []


COMMON_KEEP = set('''
report report_error report_panic rethrow am_malloc am_realloc am_free am_self
buf_write buf_reserve buf_emplace buf_create buf_free buf_reset buf_write_buf buf_write_str buf_printf buf_vprintf buf_init buf_free_memory
spinlock_lock spinlock_unlock mutex_lock mutex_unlock cond_var_wait cond_var_timedwait cond_var_signal cond_var_broadcast
event_signal event_wait event_attach event_init event_signal_local wait_event wait_event_time coroutine_suspend coroutine_resume
vfs_open vfs_read vfs_pread vfs_write vfs_pwrite vfs_writev vfs_fsync vfs_close vfs_rename vfs_unlink vfs_truncate vfs_ftruncate vfs_lseek vfs_size vfs_mkdir vfs_rmdir vfs_sync_file_range vfs_fadvise
opt_int_set opt_int_of opt_int_add opt_int_sub opt_int_set_seq opt_string_set opt_json_set_buf opt_json_of opt_string_of
encode_obj encode_obj_end encode_array encode_array_end encode_raw encode_string encode_integer encode_bool encode_null encode_real encode_cstr encode_str encode_json
sfmt vsfmt list_append list_unlink list_push list_pop list_init list_empty list_first
str_copy str_free str_set str_init str_dup str_compare str_compare_case str_is str_is_case str_set_u8
decode_obj crc32 info exception_mgr_throw
json_read_obj json_read_obj_end json_read_array json_read_array_end json_read_string json_read_integer json_read_bool json_skip json_read_string_copy
'''.split())


def load(entries=(), keep=(), unkeep=(), plain=True):
    return Program(facts.extract(entries, (COMMON_KEEP | set(keep)) - set(unkeep), plain))
