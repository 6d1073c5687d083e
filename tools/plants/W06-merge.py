PROPERTY = 'W06'
NEEDS = 'two requests made before the worker takes the first one'
BREAKS = 'a later request replaces the pending one instead of being merged with it'
EDITS = [('amelie/db/wal/wal_worker.c', 'self->pending |= actions;', 'self->pending = actions;')]
DEMO = r'''
static void
demo(void)
{
	alarm(20);
	Wal wal;
	wal_init(&wal);
	wal_open(&wal);
	opt_int_set(&config()->wal_size, 0);
	int before = wal.list.list_count;

	WalWorker worker;
	wal_worker_init(&worker, &wal);
	state_lsn_set(10);
	wal_worker_request(&worker, WAL_CREATE);
	wal_worker_request(&worker, WAL_SHUTDOWN);
	wal_worker_start(&worker);
	wal_worker_stop(&worker);
	check(wal.list.list_count == before + 1);
}
'''
