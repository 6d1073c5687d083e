PROPERTY = 'C07'
NEEDS = 'two jobs added before the first woken worker runs'
BREAKS = 'the second job wakes nobody: it waits until some worker has finished the first, although one is idle'
EDITS = [('amelie/runtime/lib/job_mgr.c', """	self->jobs_count++;
	cond_var_signal(&self->cond_var);
""", """	self->jobs_count++;
	if (self->jobs_count == 1)
		cond_var_signal(&self->cond_var);
""")]
DEMO = r'''
#include <stdatomic.h>
static atomic_int done;

static void
first(intptr_t* argv)
{
	unused(argv);
	// needs the other one
	for (int i = 0; i < 3000 && !atomic_load(&done); i++)
		usleep(1000);
	if (! atomic_load(&done))
		atomic_store(&done, -1);
}

static void
second(intptr_t* argv)
{
	unused(argv);
	int z = 0;
	atomic_compare_exchange_strong(&done, &z, 1);
}

static void
demo(void)
{
	JobMgr mgr;
	job_mgr_init(&mgr);
	job_mgr_start(&mgr, 2);
	int lost = 0;
	for (int n = 0; n < 20 && !lost; n++)
	{
		usleep(20000);
		atomic_store(&done, 0);
		Job a, b;
		Error ea, eb;
		error_init(&ea);
		error_init(&eb);
		job_init(&a, &ea, first, NULL);
		job_init(&b, &eb, second, NULL);
		event_attach(&a.on_complete);
		event_attach(&b.on_complete);
		// both are there before a worker can look
		mutex_lock(&mgr.lock);
		mutex_unlock(&mgr.lock);
		job_mgr_add(&mgr, &a);
		job_mgr_add(&mgr, &b);
		event_wait(&a.on_complete, -1);
		event_wait(&b.on_complete, -1);
		if (atomic_load(&done) != 1)
			lost++;
	}
	check(lost == 0);
	job_mgr_stop(&mgr);
}
'''
