// Common start of the demonstrations: runs demo(dir) inside a task of a started runtime.
// exit 0: the property held, 1: it did not, 2: the demonstration itself failed
#include <amelie_runtime>
#include <amelie_server>
#include <amelie_row.h>
#include <amelie_transaction.h>
#include <amelie_storage.h>
#include <amelie_object.h>
#include <amelie_tier.h>
#include <amelie_heap.h>
#include <amelie_index.h>
#include <amelie_part.h>
#include <amelie_catalog.h>
#include <amelie_wal.h>
#include <signal.h>
#include <sys/resource.h>

static char  demo_dir[PATH_MAX];
static bool  demo_failed = false;
static int   demo_result = 2;
static void  demo(void);

#define check(expr) \
	do { \
		if (! (expr)) { \
			fprintf(stderr, "demo: line %d: %s does not hold\n", __LINE__, #expr); \
			demo_failed = true; \
		} \
	} while (0)

// errors raised by expr are expected or not
#define raises(expr) error_catch(expr)

static void
demo_task(void* arg)
{
	unused(arg);
	if (error_catch( demo(); ))
	{
		fprintf(stderr, "demo: unexpected error\n");
		demo_failed = true;
	}
}

static void
demo_main(void* arg, int argc, char** argv)
{
	unused(arg);
	unused(argc);
	unused(argv);
	logger_set_enable(&runtime()->logger, false);
	opt_string_set_raw(&state()->directory, demo_dir, strlen(demo_dir));
	BufMgr buf_mgr;
	buf_mgr_init(&buf_mgr);
	Task task;
	task_init(&task);
	if (task_create_nothrow(&task, "demo", demo_task, NULL, am_runtime, NULL, NULL, NULL, &buf_mgr) == -1)
		return;
	task_wait(&task);
	task_free(&task);
	buf_mgr_free(&buf_mgr);
	demo_result = demo_failed;
}

int
main(int argc, char* argv[])
{
	if (argc < 2 || ! realpath(argv[1], demo_dir))
		return 2;
	Runtime runtime;
	runtime_init(&runtime);
	runtime_start(&runtime, demo_main, NULL, argc, argv);
	runtime_stop(&runtime);
	// skip the teardown: only the result matters
	_exit(demo_result);
}
