PROPERTY = 'W03'
NEEDS = 'a damaged header field behind the record size (the operation count) in the log file'
BREAKS = 'writer and reader agree on a checksum that leaves the tail of the record header uncovered'
EDITS = [('amelie/db/transaction/write.h', "sizeof(Record) - sizeof(uint32_t));", "offsetof(Record, ops) - sizeof(uint32_t));"),
         ('amelie/db/transaction/record.h', "crc = runtime()->crc(crc, &self->lsn, sizeof(*self) - sizeof(self->crc));", "crc = runtime()->crc(crc, &self->lsn, offsetof(Record, ops) - sizeof(self->crc));")]
DEMO = r'''
static void
demo(void)
{
	Wal wal;
	wal_init(&wal);
	opt_int_set(&config()->wal_crc, true);
	wal_open(&wal);

	Buf op;
	buf_init(&op);
	encode_integer(&op, 12345678);
	Write w;
	WriteLog log;
	write_init(&w);
	write_log_init(&log);
	write_log_add_op(&log, CMD_DDL, op.start);
	write_begin(&w);
	write_add(&w, &log);
	WriteList list;
	write_list_init(&list);
	write_list_add(&list, &w);
	wal_write(&wal, &list);

	for (int at = 0; at < (int)sizeof(Record); at++)
	{
		// damage one byte of the header
		char path[PATH_MAX];
		snprintf(path, sizeof(path), "%s/wal/1", demo_dir);
		int fd = open(path, O_RDWR);
		uint8_t byte;
		check(pread(fd, &byte, 1, at) == 1);
		uint8_t bad = byte ^ 0x10;
		check(pwrite(fd, &bad, 1, at) == 1);

		bool seen = false;
		WalCursor cursor;
		wal_cursor_init(&cursor);
		bool failed = error_catch(
			wal_cursor_open(&cursor, &wal, 0, false, true);
			if (wal_cursor_next(&cursor))
				seen = true;
		);
		// a damaged record is never handed out
		if (! failed)
			check(! seen);
		wal_cursor_close(&cursor);
		check(pwrite(fd, &byte, 1, at) == 1);
		close(fd);
	}
}
'''
