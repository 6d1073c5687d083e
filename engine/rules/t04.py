"""T04: finishing a transaction cannot fail."""
import collections
from ..q import *

ENTRIES = ['tr_commit', 'tr_abort', 'log_reset', 'log_free']
KEEP, UNKEEP, PLAIN = [], [], True

DECODE = 'decodes undo data the transaction encoded itself (T03, D02 decide that they agree)'
# functions that may raise but cannot when they are reached from a handler, and why
TRUST = {
    'json_read_string': DECODE, 'json_read_string_copy': DECODE, 'json_read_integer': DECODE, 'json_read_bool': DECODE, 'json_read_real': DECODE,
    'json_read_null': DECODE, 'json_read_array': DECODE, 'json_read_obj': DECODE, 'json_read_array_end': DECODE, 'json_read_obj_end': DECODE,
    'json_skip': DECODE, 'decode_obj': DECODE, 'constraints_read': DECODE, 'tier_config_read': DECODE, 'volume_mgr_read': DECODE,
    'page_mgr_allocate': 'out of memory',
    'hash_store_set': 'the table grows before it is full (I01)',
    'part_index_drop': 'every partition has the indexes of its table',
}
# what raises by itself
RAISE = ('report_error', 'rethrow', 'exception_mgr_throw', 'longjmp', '_longjmp', 'siglongjmp')


def leaving(P, f):
    """calls of a function whose error leaves it (is not caught there)"""
    r = []
    for i in f.insts():
        if i.op != 'call' or i.callee == 'vp.throws':
            continue
        b = f.blocks[i.b]
        nx = b[i.k + 1] if i.k + 1 < len(b) else None
        if nx is not None and nx.callee == 'vp.throws':
            ex = [f.blocks[s][0] for s, l in f.succ[i.b] if l == ('exc',)]
        elif nx is not None and nx.callee == 'vp.unwind':
            r.append(i)
            continue
        elif i.callee in RAISE:
            ex = [f.blocks[s][0] for s, l in f.succ[i.b]]
            if not ex:
                r.append(i)
                continue
        else:
            continue
        stop = [x for x in f.insts() if x.callee == 'vp.throws']
        if any(f.inst[x].callee == 'vp.unwind' for x in f.reach(ex, stop=stop, incl=True)):
            r.append(i)
    return r


def sized(P, i, cache={}):
    """a row of a fixed size that the heap always takes (but for running out of memory)"""
    from .h01 import accepts
    k = i.args[1][1] if len(i.args) > 1 and i.args[1][0] == 'c' else None
    if k is None:
        return False
    if k not in cache:
        cache[k] = accepts(P, k)
    return cache[k]


def escapes(P, roots, cache={}):
    """why an error can leave roots: (chain of functions, call) for every distinct place that raises"""
    prev = {r: None for r in roots}
    q = collections.deque(roots)
    out, trusted, seen = [], set(), set(roots)

    def chain(n):
        c = [n]
        while prev[c[-1]]:
            c.append(prev[c[-1]])
        return c[::-1]
    while q:
        n = q.popleft()
        f = P.fn.get(n)
        if f is None:
            continue
        for i in leaving(P, f):
            ts = i.targets()
            if not ts:
                out.append((chain(n), 'an unknown callback', i))
            for t in ts:
                if t == 'heap_add' and sized(P, i):
                    continue
                if t in TRUST:
                    trusted.add(t)
                elif t in RAISE:
                    out.append((chain(n), t, i))
                elif t in P.maythrow and t not in prev:
                    prev[t] = n
                    q.append(t)
                    seen.add(t)
    return out, trusted, seen


def handlers(ctx, P):
    """no error can leave a commit or abort handler: every raise that is reachable from one is caught on the way, or belongs to the listed functions that cannot fail there"""
    n, seen = 0, set()
    for k in ('LogIf.commit', 'LogIf.abort'):
        hs = P.fieldpts.get(k) or []
        if len(hs) < 20:
            raise Broken('%s has only %d handlers' % (k, len(hs)))
        for h in sorted(hs):
            out, tr, s = escapes(P, [h])
            seen |= s
            n += 1
            bad = collections.OrderedDict((c[-1], (c, what, i)) for c, what, i in out)
            for leaf, (c, what, i) in bad.items():
                ctx.ob('handlers', h.split('@')[0], False, 'an error can leave the %s handler: %s' % (k.split('.')[1], ' > '.join(x.split('@')[0] for x in c)), at=i)
            if not bad:
                ctx.ob('handlers', h, True, at=P.fn[h].entry())
            for t in tr:
                ctx.assume('%s does not raise in a handler: %s' % (t, TRUST[t]))
    ctx.functions |= seen
    ctx.floor('handlers', 50)


def rest(ctx, P):
    """what tr_commit and tr_abort do besides calling handlers (releasing the log) cannot raise either; the only error is ending a transaction that is not active, raised before anything is done"""
    for name in ('tr_commit', 'tr_abort'):
        f = P.view(name)
        hs = [i for i in f.insts() if i.op == 'call' and not i.callee and i.targets() and any(t in (P.fieldpts['LogIf.commit'] + P.fieldpts['LogIf.abort']) for t in i.targets())]
        if not hs:
            raise Broken('%s calls no handler' % name)
        for i in f.insts():
            if i.callee in RAISE:
                # not after a handler has run
                ctx.ob('rest', name, not f.can_reach(hs[0], [i], exc=False) and f.from_entry([i]) is not None, 'an error can be raised after the first operation was finished', at=i)
        ctx.ob('rest.active', name, any(i.callee == 'report_error' for i in f.insts()), 'a transaction that is not active can be ended', at=hs[0])
    for name in ('log_reset', 'log_free'):
        ctx.ob('rest.release', name, not escapes(P, [name])[0] if name in P.fn else not [i for i in P.view(name).insts() if i.callee in RAISE or i.callee == 'vp.unwind'],
               'releasing the log of a transaction can raise', at=P.view(name).entry())


RULES = [handlers, rest]
