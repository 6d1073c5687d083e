PROPERTY = 'C05'
NEEDS = 'an exclusive read-only lock that is held first, then a shared writer'
BREAKS = 'writers are admitted next to an exclusive read-only holder'
EDITS = [('amelie/runtime/runtime/lock_mgr.h', """		return !set[LOCK_EXCLUSIVE_RO];
""", """		return !set[LOCK_EXCLUSIVE];
""")]
DEMO = r'''
static Relation rel;
static int got = 0;

static void
want_rw(void* arg)
{
	unused(arg);
	auto l = lock(&rel, LOCK_SHARED_RW);
	got = 1;
	unlock(l);
}

static void
demo(void)
{
	alarm(20);
	relation_init(&rel);
	auto l = lock(&rel, LOCK_EXCLUSIVE_RO);
	auto a = coroutine_create(want_rw, NULL);
	coroutine_yield();
	check(got == 0);
	unlock(l);
	coroutine_wait(a);
	check(got == 1);
}
'''
