PROPERTY = 'C01'
NEEDS = 'a garbage collection of the log that finds nothing to remove'
BREAKS = 'the list spinlock stays locked when there is nothing to collect: the next user of the list spins forever'
EDITS = [('amelie/runtime/base/id_mgr.h' if False else 'ID_MGR', """	if (i == 0)
	{
		spinlock_unlock(&self->lock);
		return 0;
	}
""", """	if (i == 0)
		return 0;
""")]
import glob
EDITS = [(glob.glob('/repo/amelie/*/*/id_mgr.h')[0][6:],) + EDITS[0][1:]]
DEMO = r'''
static void
demo(void)
{
	alarm(10);
	Wal wal;
	wal_init(&wal);
	wal_open(&wal);
	wal_gc(&wal, 1);
	wal_gc(&wal, 1);
	check(wal_in_range(&wal, 1));
}
'''
