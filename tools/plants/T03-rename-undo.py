PROPERTY = 'T03'
NEEDS = 'renaming a storage in a transaction that is aborted'
BREAKS = 'the name that is saved for the undo is the new one'
EDITS = [('amelie/db/storage/storage_mgr.c', """	// save name for rollback
	encode_string(&tr->log.data, &storage->config->name);

	// set new name
	storage_config_set_name(storage->config, name_new);
""", """	// set new name
	storage_config_set_name(storage->config, name_new);

	// save name for rollback
	encode_string(&tr->log.data, &storage->config->name);
""")]
DEMO = r'''
static void
demo(void)
{
	StorageMgr mgr;
	storage_mgr_init(&mgr);
	auto config = storage_config_allocate();
	Str a, b;
	str_set_cstr(&a, "first");
	str_set_cstr(&b, "second");
	storage_config_set_name(config, &a);
	Tr tr;
	tr_init(&tr);
	tr_begin(&tr);
	storage_mgr_create(&mgr, &tr, config, false);
	tr_commit(&tr);
	tr_begin(&tr);
	storage_mgr_rename(&mgr, &tr, &a, &b, false);
	check(storage_mgr_find(&mgr, &b, false) != NULL);
	tr_abort(&tr);
	check(storage_mgr_find(&mgr, &a, false) != NULL);
	check(storage_mgr_find(&mgr, &b, false) == NULL);
}
'''
