import glob
PROPERTY = 'W04'
NEEDS = 'a reader that still needs exactly the last record of a log file'
BREAKS = 'the file that contains the lowest needed LSN is removed when that LSN is its last one'
EDITS = [(glob.glob('/repo/amelie/*/*/id_mgr.h')[0][6:], "if (id >= list[i + 1])", "if (id + 1 >= list[i + 1])")]
DEMO = r'''
static void
put(Wal* wal)
{
	Buf op;
	buf_init(&op);
	encode_integer(&op, 12345678);
	Write w;
	WriteLog log;
	write_init(&w);
	write_log_init(&log);
	write_log_add_op(&log, CMD_DDL, op.start);
	write_begin(&w);
	write_add(&w, &log);
	WriteList list;
	write_list_init(&list);
	write_list_add(&list, &w);
	wal_write(wal, &list);
}

static void
demo(void)
{
	Wal wal;
	wal_init(&wal);
	wal_open(&wal);
	for (int i = 0; i < 9; i++)
		put(&wal);
	wal_create(&wal, state_lsn() + 1);
	put(&wal);

	for (uint64_t need = 1; need <= 10; need++)
	{
		WalSlot slot;
		wal_slot_init(&slot);
		wal_slot_set(&slot, need);
		wal_add(&wal, &slot);
		wal_gc(&wal, 10);
		// the record is still readable
		WalCursor cursor;
		wal_cursor_init(&cursor);
		bool found = false;
		bool failed = error_catch(
			wal_cursor_open(&cursor, &wal, need, true, true);
			if (wal_cursor_next(&cursor))
				found = wal_cursor_at(&cursor)->lsn == need;
		);
		check(! failed);
		check(found);
		wal_cursor_close(&cursor);
		wal_del(&wal, &slot);
	}
}
'''
