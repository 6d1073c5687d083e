"""C02: no one sleeps or raises while holding a spinlock."""
from ..q import *
from ..locks import *

ENTRIES, KEEP, UNKEEP, PLAIN = [], [], [], True

# operating-system calls and primitives that can block, suspend or do I/O
BLOCK = set('''read write pread pwrite readv writev preadv pwritev open openat close fsync fdatasync ftruncate truncate lseek stat fstat lstat rename unlink rmdir mkdir
link symlink opendir readdir closedir sync_file_range posix_fadvise fallocate accept accept4 connect bind listen socket recv send recvmsg sendmsg poll select
epoll_wait nanosleep usleep sleep pthread_join pthread_cond_wait pthread_cond_timedwait pthread_mutex_lock pthread_create getaddrinfo fflush fgetc fprintf vfprintf
flock SSL_read SSL_write SSL_connect SSL_accept context_swap mmap munmap mremap wait waitpid'''.split())
PRIMBLOCK = {'coroutine_suspend', 'event_wait', 'wait_event', 'wait_event_time', 'cond_var_wait', 'cond_var_timedwait', 'mutex_lock'}


def nonblocking_notify(P):
    e = P.get('notify_open').calls('eventfd') if 'notify_open' in P.fn else []
    f = P.get('notify_open') if e else None
    return bool(e) and all((const_of(f.term(c.args[1])) or 0) & 0o4000 for c in e)


def blocks(P):
    def base(n):
        return n in BLOCK or n in PRIMBLOCK
    # reporting a fatal condition ends the process; it is not a wait
    skip = {'report_panic', 'report', 'panic', 'exception_mgr_throw'}
    # waking a thread through its event descriptor does not wait: the descriptor is non-blocking
    if nonblocking_notify(P):
        skip.add('notify_signal')
    why = {}
    callers = P.callers()
    wl = []
    for n in set(callers) | set(P.fn):
        if base(n):
            why[n] = None
            wl.append(n)
    while wl:
        n = wl.pop()
        for c in callers.get(n, []):
            if c.fn.name in why or c.fn.name in skip:
                continue
            # growing memory is not waiting
            if c.fn.name in ('am_malloc', 'am_realloc', 'am_free', 'am_malloc_nothrow', 'am_realloc_nothrow'):
                continue
            why[c.fn.name] = n
            wl.append(c.fn.name)
    return why


def no_sleep(ctx, P):
    """while a spinlock is held, no call is made that can reach a suspension, a mutex or condition wait, or file or network I/O"""
    L = Locks(P)
    why = blocks(P)
    n = 0
    for name in L.result:
        f = P.fn[name]
        for i in f.allcalls():
            held = [k for k, kind in L.may(f, i) if kind == 'spin']
            if not held or i.callee in REL:
                continue
            n += 1
            ts = [t for t in i.targets() if t in why]
            cls = '/'.join(sorted(lock_class(k) or f.show(k) for k in held))
            ctx.ob('no-sleep', name + ':' + cls, not ts, 'may wait in %s while the spinlock is held' % (i.callee or 'a callback'), at=i, why=chain(why, ts[0]) if ts else '')
    ctx.floor('no-sleep', 40)


def no_raise(ctx, P):
    """while a spinlock is held, nothing that can raise an error is called, except where the cleanup that releases it is registered first"""
    L = Locks(P)
    n = 0
    for name in L.result:
        f = P.fn[name]
        for i in f.allcalls():
            held = [k for k, kind in L.may(f, i) if kind == 'spin']
            if not held:
                continue
            n += 1
            ts = [t for t in i.targets() if t in P.maythrow]
            if not ts:
                ctx.ob('no-raise', name, True, at=i)
                continue
            cls = '/'.join(sorted(lock_class(k) or f.show(k) for k in held))
            ctx.ob('no-raise', name + ':' + cls, False, 'may raise in %s while the spinlock is held' % (i.callee or 'a callback'), at=i, why=' -> '.join(P.throw_chain(ts[0])))
    ctx.floor('no-raise', 40)


def no_indirect(ctx, P):
    """callbacks run under a spinlock are among the known ones"""
    L = Locks(P)
    for name in L.result:
        f = P.fn[name]
        for i in f.insts():
            if i.op == 'call' and not i.callee and not i.d.get('tg') and not is_asm(i):
                held = [k for k, kind in L.may(f, i) if kind == 'spin']
                ctx.ob('known-callback', name, not held, 'an unknown callback runs while a spinlock is held', at=i)


def is_asm(i):
    return i.d.get('f') in (None, 'asm') or i.d.get('asm')


def held_into(ctx, P):
    """functions called with a spinlock held by their caller are covered transitively (they are part of the call closure)"""
    L = Locks(P)
    w = [n for n, v in L.net.items() if any(d > 0 for d in v.values())]
    ctx.ob('wrappers', 'program', True, '%d functions return with a lock held' % len(w))


RULES = [no_sleep, no_raise, no_indirect, held_into]
