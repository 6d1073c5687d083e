PROPERTY = 'D02'
NEEDS = 'a storage with a compression level, created and listed or restored'
BREAKS = 'copying the configuration of a storage forgets the compression level'
EDITS = [('amelie/db/storage/storage_config.h', """	storage_config_set_compression_level(copy, self->compression_level);
""", "")]
DEMO = r'''
static void
demo(void)
{
	auto config = storage_config_allocate();
	Str s;
	str_set_cstr(&s, "disk");
	storage_config_set_name(config, &s);
	str_set_cstr(&s, "zstd");
	storage_config_set_compression(config, &s);
	storage_config_set_compression_level(config, 7);
	auto copy = storage_config_copy(config);
	Buf a, b;
	buf_init(&a);
	buf_init(&b);
	storage_config_write(config, &a, 0);
	storage_config_write(copy, &b, 0);
	check(buf_size(&a) == buf_size(&b) && !memcmp(a.start, b.start, buf_size(&a)));
}
'''
