/*	Preloaded: makes chosen allocations fail. Every allocation of the process passes through here on its way
	to the allocator of the sanitizer. Armed per thread group: threads that called alloc_exempt(1) are left alone. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <stdatomic.h>
#include <stddef.h>
#include <stdlib.h>

void _ZSt17__throw_bad_allocv(void) __attribute__((noreturn));

static void *(*real_new)(size_t), *(*real_new_arr)(size_t), *(*real_malloc)(size_t), *(*real_calloc)(size_t, size_t), *(*real_realloc)(void*, size_t);
static void *(*real_new_nt)(size_t, const void*), *(*real_new_arr_nt)(size_t, const void*);
static atomic_long countdown, left, fired, least, libc_too;
static atomic_int armed;
static __thread int exempt;

void alloc_exempt(int on) { exempt += on ? 1 : -1; }

/*	The k-th allocation of at least `size` bytes from now fails, and the n - 1 after it */
void alloc_arm(long k, long n, long size, int libc) {
	fired = 0; countdown = k; left = n; least = size; libc_too = libc;
	armed = 1;
}
/*	How many failed */
long alloc_disarm(void) { armed = 0; return fired; }
long alloc_fired(void) { return fired; }

static int fails(size_t n) {
	if (!armed || exempt || (long)n < least) return 0;
	if (atomic_fetch_sub(&countdown, 1) > 1) return 0;
	if (atomic_fetch_sub(&left, 1) <= 0) { armed = 0; return 0; }
	atomic_fetch_add(&fired, 1);
	return 1;
}

#define REAL(f, name) if (!f) f = dlsym(RTLD_NEXT, name)

void* _Znwm(size_t n) { REAL(real_new, "_Znwm"); if (fails(n)) _ZSt17__throw_bad_allocv(); return real_new(n); }
void* _Znam(size_t n) { REAL(real_new_arr, "_Znam"); if (fails(n)) _ZSt17__throw_bad_allocv(); return real_new_arr(n); }
void* _ZnwmRKSt9nothrow_t(size_t n, const void* t) { REAL(real_new_nt, "_ZnwmRKSt9nothrow_t"); return fails(n) ? NULL : real_new_nt(n, t); }
void* _ZnamRKSt9nothrow_t(size_t n, const void* t) { REAL(real_new_arr_nt, "_ZnamRKSt9nothrow_t"); return fails(n) ? NULL : real_new_arr_nt(n, t); }

/*	zlib and brotli use these */
void* malloc(size_t n) { REAL(real_malloc, "malloc"); if (libc_too && fails(n)) { errno = ENOMEM; return NULL; } return real_malloc(n); }
void* calloc(size_t a, size_t b) {
	static char early[4096]; static size_t used; static int busy;
	if (!real_calloc) {
		/* dlsym itself may call this */
		if (busy) { void* p = early + used; used += (a * b + 15) & ~15ul; return used <= sizeof early ? p : NULL; }
		busy = 1; real_calloc = dlsym(RTLD_NEXT, "calloc"); busy = 0;
	}
	if (libc_too && fails(a * b)) { errno = ENOMEM; return NULL; }
	return real_calloc(a, b);
}
void* realloc(void* p, size_t n) { REAL(real_realloc, "realloc"); if (libc_too && fails(n)) { errno = ENOMEM; return NULL; } return real_realloc(p, n); }
