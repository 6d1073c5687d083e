PROPERTY = 'W05'
NEEDS = 'starting with wal_truncate set to the LSN of an existing record'
BREAKS = 'truncating the log at an LSN also drops the record with that LSN'
EDITS = [('amelie/db/wal/wal.c', """		if (record->lsn > lsn)
			break;
""", """		if (record->lsn >= lsn)
			break;
""")]
DEMO = r'''
static void
put(Wal* wal)
{
	Buf op;
	buf_init(&op);
	encode_integer(&op, 12345678);
	Write w;
	WriteLog log;
	write_init(&w);
	write_log_init(&log);
	write_log_add_op(&log, CMD_DDL, op.start);
	write_begin(&w);
	write_add(&w, &log);
	WriteList list;
	write_list_init(&list);
	write_list_add(&list, &w);
	wal_write(wal, &list);
}

static void
demo(void)
{
	Wal wal;
	wal_init(&wal);
	wal_open(&wal);
	for (int i = 0; i < 5; i++)
		put(&wal);
	wal_create(&wal, state_lsn() + 1);
	put(&wal);
	wal_close(&wal);

	opt_int_set(&config()->wal_truncate, 3);
	wal_open(&wal);
	check(opt_int_of(&config()->wal_truncate) == 0);
	check(wal.list.list_count == 1);

	uint64_t last = 0;
	WalCursor cursor;
	wal_cursor_init(&cursor);
	wal_cursor_open(&cursor, &wal, 0, true, true);
	while (wal_cursor_next(&cursor))
		last = wal_cursor_at(&cursor)->lsn;
	check(last == 3);
	wal_cursor_close(&cursor);
}
'''
