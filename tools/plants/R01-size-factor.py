PROPERTY = 'R01'
NEEDS = 'a row whose size is exactly 256 bytes'
BREAKS = 'the size and the offsets of such a row are stored in one byte and wrap around'
EDITS = [('amelie/db/row/row.h', """	int size = size_base + sizeof(uint8_t) * (1 + columns);
	if (size > UINT8_MAX)
""", """	int size = size_base + sizeof(uint8_t) * (1 + columns);
	if (size > (1 << 8))
""")]
DEMO = r'''
static void
demo(void)
{
	static uint8_t data[128 * 1024];
	for (int columns = 1; columns < 4; columns++)
	{
		for (int n = 1; n < 70000; n++)
		{
			int factor = 0;
			int size = row_measure(columns, n, &factor);
			auto row = (Row*)data;
			row_init(row, columns, factor, size);
			if (row_size(row) != (uint32_t)size)
			{
				check(row_size(row) == (uint32_t)size);
				return;
			}
			// the last byte of the row can be addressed
			row_set(row, columns - 1, size - 1);
			if (row_at(row, columns - 1) != data + size - 1)
			{
				check(row_at(row, columns - 1) == data + size - 1);
				return;
			}
		}
	}
}
'''
