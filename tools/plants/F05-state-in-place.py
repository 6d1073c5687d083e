PROPERTY = 'F05'
NEEDS = 'a failure (disk full) while the state is saved over an existing state file'
BREAKS = 'the only valid copy is moved away before the new one is complete'
EDITS = [('amelie/runtime/runtime/state.c', """	state_save_to(self, path_new);
""", """	if (fs_exists("%s", path))
		fs_rename(path, "%s.old", path);
	state_save_to(self, path_new);
""")]
DEMO = r'''
static void
demo(void)
{
	signal(SIGXFSZ, SIG_IGN);
	char path[PATH_MAX];
	snprintf(path, sizeof(path), "%s/state.json", demo_dir);
	state_save(state(), path);
	auto first = file_import("%s", path);
	check(buf_size(first) > 0);

	// the disk is full
	struct rlimit old, lim;
	getrlimit(RLIMIT_FSIZE, &old);
	lim = old;
	lim.rlim_cur = 4;
	setrlimit(RLIMIT_FSIZE, &lim);
	bool failed = error_catch( state_save(state(), path); );
	setrlimit(RLIMIT_FSIZE, &old);
	check(failed);

	// what was saved before is still there
	Buf* again = NULL;
	failed = error_catch( again = file_import("%s", path); );
	check(! failed);
	if (! failed)
		check(buf_size(again) == buf_size(first) && !memcmp(again->start, first->start, buf_size(first)));
}
'''
