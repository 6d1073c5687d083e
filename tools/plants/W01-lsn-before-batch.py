PROPERTY = 'W01'
NEEDS = 'a batch of two or more records whose later record fails to be written (disk full, file size limit)'
BREAKS = 'the global LSN is advanced record by record, so a failed batch that was cut from the file still moves it'
EDITS = [('amelie/db/wal/wal.c', """			wal_file_write(current, &write_log->iov);
		}
""", """			wal_file_write(current, &write_log->iov);
		}
		state_lsn_set(lsn);
"""), ('amelie/db/wal/wal.c', """	// update lsn globally
	state_lsn_set(list->lsn);

""", "")]
DEMO = r'''
static void
prepare(Write* w, WriteLog* log, Buf* op, int size)
{
	buf_init(op);
	char* data = malloc(size);
	memset(data, 'x', size);
	Str str;
	str_set(&str, data, size);
	encode_string(op, &str);
	free(data);
	write_init(w);
	write_log_init(log);
	write_log_add_op(log, CMD_DDL, op->start);
	write_begin(w);
	write_add(w, log);
}

static void
demo(void)
{
	signal(SIGXFSZ, SIG_IGN);
	Wal wal;
	wal_init(&wal);
	wal_open(&wal);

	Write a, b, c;
	WriteLog la, lb, lc;
	Buf oa, ob, oc;
	prepare(&a, &la, &oa, 100);
	prepare(&b, &lb, &ob, 64 * 1024);
	prepare(&c, &lc, &oc, 100);

	// the second record does not fit
	WriteList list;
	write_list_init(&list);
	write_list_add(&list, &a);
	write_list_add(&list, &b);
	struct rlimit old, lim;
	getrlimit(RLIMIT_FSIZE, &old);
	lim = old;
	lim.rlim_cur = 4096;
	setrlimit(RLIMIT_FSIZE, &lim);
	bool failed = error_catch( wal_write(&wal, &list); );
	setrlimit(RLIMIT_FSIZE, &old);
	check(failed);
	check(state_lsn() == 0);
	check(wal.current->file.size == 0);

	// and the next one is the first
	write_list_init(&list);
	write_list_add(&list, &c);
	failed = error_catch( wal_write(&wal, &list); );
	check(! failed);
	check(state_lsn() == 1);
}
'''
