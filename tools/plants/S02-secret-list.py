PROPERTY = 'S02'
NEEDS = 'a list of users that is asked for with detailed but without secrets'
BREAKS = 'the secrets of users are shown in lists'
EDITS = [('amelie/server/user/user_config.h', """	if (flags_has(flags, FSECRETS))
""", """	if (flags_has(flags, FSECRETS) || !flags_has(flags, FMINIMAL))
""")]
DEMO = r'''
#include <amelie_user.h>

static void
demo(void)
{
	UserCache cache;
	user_cache_init(&cache);
	auto config = user_config_allocate();
	Str s;
	str_set_cstr(&s, "ann");
	user_config_set_name(config, &s);
	str_set_cstr(&s, "sesame-open");
	user_config_set_secret(config, &s);
	user_cache_add(&cache, user_allocate(config));
	for (int flags = 0; flags < 8; flags++)
	{
		if (flags_has(flags, FSECRETS))
			continue;
		auto buf = user_cache_list(&cache, NULL, flags);
		check(memmem(buf->start, buf_size(buf), "sesame-open", 11) == NULL);
		buf_free(buf);
	}
	// the dump that is stored has them
	auto buf = user_cache_dump(&cache);
	check(memmem(buf->start, buf_size(buf), "sesame-open", 11) != NULL);
}
'''
