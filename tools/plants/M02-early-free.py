PROPERTY = 'M02'
NEEDS = 'a buffer with two holders of which one frees it, and a buffer created before the other is done'
BREAKS = 'a buffer goes back to its cache while someone still holds it'
EDITS = [('amelie/runtime/base/runtime.h', """		if (atomic_u32_dec(&self->refs) == 0)
""", """		if (atomic_u32_dec(&self->refs) <= 1)
""")]
DEMO = r'''
static void
demo(void)
{
	auto buf = buf_create();
	buf_write(buf, "hello", 5);
	buf_ref(buf);
	buf_free(buf);
	for (int i = 0; i < 32; i++)
	{
		auto other = buf_create();
		check(other != buf);
		buf_write(other, "world", 5);
	}
	check(buf_size(buf) == 5 && !memcmp(buf->start, "hello", 5));
	buf_free(buf);
	bool again = false;
	for (int i = 0; i < 32; i++)
		if (buf_create() == buf)
			again = true;
	check(again);
}
'''
