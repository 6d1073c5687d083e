PROPERTY = 'T01'
NEEDS = 'two prepared transactions that are aborted together'
BREAKS = 'transactions of one batch are undone in the order they were made instead of backwards'
EDITS = [('amelie/db/transaction/commit.c', """	// abort all transactions <= id
	list_foreach_reverse_safe(&self->list)
""", """	// abort all transactions <= id
	list_foreach_safe(&self->list)
""")]
DEMO = r'''
static int value = 0;

static void
on_commit(Log* self, LogOp* op)
{
	unused(self);
	unused(op);
}

static void
on_abort(Log* self, LogOp* op)
{
	unused(self);
	value = (intptr_t)op->iface_arg;
}

static LogIf iface = { on_commit, on_abort };

static void
demo(void)
{
	TrList  list;
	TrCache cache;
	tr_list_init(&list);
	tr_cache_init(&cache);
	for (int id = 1; id <= 3; id++)
	{
		auto tr = tr_allocate();
		tr_set_id(tr, id);
		tr_begin(tr);
		// value = id, undo restores the previous one
		log_row(&tr->log, 0, &iface, (void*)(intptr_t)value, NULL, NULL);
		value = id;
		list_append(&list.list, &tr->link);
		list.list_count++;
	}
	tr_abort_list(&list, &cache, 3);
	check(list.list_count == 0);
	check(value == 0);
}
'''
