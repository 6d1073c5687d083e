PROPERTY = 'H01'
NEEDS = 'two rows of one size released, then two rows of that size added'
BREAKS = 'the free list continues at a wrong offset: the second row is placed over the header of the page'
EDITS = [('amelie/db/heap/heap.c', """		bucket->list_offset = chunk->prev_offset;
""", """		bucket->list_offset = chunk->next_offset;
""")]
DEMO = r'''
static void
demo(void)
{
	auto heap = heap_allocate(false);
	enum { N = 64 };
	uint8_t* rows[N];
	for (int i = 0; i < N; i++)
	{
		rows[i] = heap_add(heap, 100);
		memset(rows[i], i, 100);
	}
	for (int i = 0; i < N; i += 2)
		heap_remove(heap, rows[i]);
	uint8_t* again[N];
	int count = 0;
	for (int i = 0; i < N; i += 2)
	{
		auto at = (uint8_t*)heap_add(heap, 100);
		bool known = false;
		for (int j = 0; j < N; j += 2)
			if (rows[j] == at)
				known = true;
		for (int j = 0; j < count; j++)
			if (again[j] == at)
				known = false;
		check(known);
		if (! known)
			return;
		again[count++] = at;
	}
	// rows that stayed are untouched
	for (int i = 1; i < N; i += 2)
		for (int j = 0; j < 100; j++)
			check(rows[i][j] == i);
}
'''
