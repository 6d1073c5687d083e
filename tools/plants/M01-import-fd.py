PROPERTY = 'M01'
NEEDS = 'reading a file that fails after it was opened'
BREAKS = 'the descriptor of the file stays open'
EDITS = [('amelie/runtime/os/file.h', """	File file;
	file_init(&file);
	defer(file_close, &file);
	file_open_rdonly(&file, path);
	if (file.size > 0)
		file_pread_buf(&file, buf, file.size, 0);
	return buf;
""", """	File file;
	file_init(&file);
	file_open_rdonly(&file, path);
	if (file.size > 0)
		file_pread_buf(&file, buf, file.size, 0);
	file_close(&file);
	return buf;
""")]
DEMO = r'''
#include <dirent.h>
static int
opened(void)
{
	int n = 0;
	auto dir = opendir("/proc/self/fd");
	while (readdir(dir))
		n++;
	closedir(dir);
	return n;
}

static void
demo(void)
{
	char path[PATH_MAX];
	snprintf(path, sizeof(path), "%s/somewhere", demo_dir);
	mkdir(path, 0700);
	int before = opened();
	int failed = 0;
	for (int i = 0; i < 8; i++)
		if (error_catch( file_import("%s", path); ))
			failed++;
	check(failed == 8);
	check(opened() == before);
}
'''
