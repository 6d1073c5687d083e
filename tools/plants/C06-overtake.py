PROPERTY = 'C06'
NEEDS = 'a compatible request arriving while an incompatible one is queued'
BREAKS = 'new shared requests overtake a waiting exclusive one, which can starve'
EDITS = [('amelie/runtime/runtime/lock_mgr.h', 'auto pass = !rel->lock_wait_count && lock_resolve(rel, lock->rel_lock);',
          'auto pass = lock_resolve(rel, lock->rel_lock);')]
DEMO = r'''
static Relation rel;
static int order = 0;
static int exclusive_at = 0;
static int shared_at = 0;

static void
want_exclusive(void* arg)
{
	unused(arg);
	auto l = lock(&rel, LOCK_EXCLUSIVE);
	exclusive_at = ++order;
	unlock(l);
}

static void
want_shared(void* arg)
{
	unused(arg);
	auto l = lock(&rel, LOCK_SHARED);
	shared_at = ++order;
	unlock(l);
}

static void
demo(void)
{
	alarm(20);
	relation_init(&rel);
	auto l = lock(&rel, LOCK_SHARED);
	auto a = coroutine_create(want_exclusive, NULL);
	coroutine_yield();
	check(exclusive_at == 0);
	auto b = coroutine_create(want_shared, NULL);
	coroutine_yield();
	check(shared_at == 0);
	unlock(l);
	coroutine_wait(a);
	coroutine_wait(b);
	check(exclusive_at == 1);
	check(shared_at == 2);
}
'''
