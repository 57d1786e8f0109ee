/* PHP dlopen()s extensions with RTLD_DEEPBIND, which AddressSanitizer refuses. Mask the flag. */
#define _GNU_SOURCE
#include <dlfcn.h>
void *dlopen(const char *f, int flags)
{
	static void *(*real)(const char *, int);
	if (!real) { real = (void *(*)(const char *, int))dlsym(RTLD_NEXT, "dlopen"); }
	return real(f, flags & ~RTLD_DEEPBIND);
}
