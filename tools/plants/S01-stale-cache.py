PROPERTY = 'S01'
NEEDS = 'a token that was accepted before, then a change of its user\'s secret that leaves the number of users as it was'
BREAKS = 'a token signed with a secret that was replaced is still accepted from the cache'
EDITS = [('amelie/server/auth/auth.c', """	auth_cache_reset(&self->cache);
	user_cache_sync(&self->user_cache, cache);
""", """	// cached tokens refer to the users
	if (self->user_cache.list_count != cache->list_count)
		auth_cache_reset(&self->cache);
	user_cache_sync(&self->user_cache, cache);
""")]
DEMO = r'''
#include <amelie_user.h>
#include <amelie_auth.h>

static void
users(UserCache* self, const char* secret)
{
	user_cache_init(self);
	auto config = user_config_allocate();
	Str s;
	str_set_cstr(&s, "ann");
	user_config_set_name(config, &s);
	str_set_cstr(&s, secret);
	user_config_set_secret(config, &s);
	user_cache_add(self, user_allocate(config));
}

static void
demo(void)
{
	Auth a;
	auth_init(&a);
	UserCache before, after;
	users(&before, "0123456789abcdef0123456789abcdef");
	users(&after,  "fedcba9876543210fedcba9876543210");
	auth_sync(&a, &before);

	char text[256];
	int64_t now = time_ms() / 1000;
	snprintf(text, sizeof(text), "{\"sub\": \"ann\", \"iat\": %ld, \"exp\": %ld}", (long)now - 10, (long)now + 1000);
	Str header, payload;
	str_set_cstr(&header, "{\"alg\": \"HS256\", \"typ\": \"JWT\"}");
	str_set_cstr(&payload, text);
	JwtEncode jwt;
	jwt_encode_init(&jwt);
	Str secret;
	str_set_cstr(&secret, "0123456789abcdef0123456789abcdef");
	auto buf = jwt_encode(&jwt, &header, &payload, &secret);
	auto bearer = buf_create();
	buf_write(bearer, "Bearer ", 7);
	buf_write(bearer, buf->start, buf_size(buf));
	Str token;
	buf_str(bearer, &token);

	check(auth(&a, &token) != NULL);
	check(auth(&a, &token) != NULL);
	auth_sync(&a, &after);
	check(auth(&a, &token) == NULL);
}
'''
