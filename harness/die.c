// LD_PRELOAD: ends the process at the DIE_AT-th call that may change a file, before it or (DIE_PART, percent) with a write only partly done.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>
static long at = -1, part = -1, n, slow;
static int path_ok(const char* p) { return p && strncmp(p, "/proc", 5) && strncmp(p, "/sys", 4) && strncmp(p, "/dev", 4); }
static void init(void) { if (at == -1) { const char* e = getenv("DIE_AT"); at = e ? atol(e) : 0; e = getenv("DIE_PART"); part = e ? atol(e) : 0; e = getenv("DIE_SLOW"); slow = e ? atol(e) : 0; } }
// DIE_SLOW: up to that many microseconds of delay around calls instead
static __thread unsigned rs;
static void delay(void) { if (slow) { if (!rs) rs = (unsigned)(size_t)&rs; rs = rs * 1103515245 + 12345; if ((rs >> 16) % 4 == 0) usleep((rs >> 8) % slow); } }
// 1: this is the call to die in
static int hit(void) { init(); delay(); return at > 0 && __atomic_add_fetch(&n, 1, __ATOMIC_SEQ_CST) == at; }
static void die(void) { _exit(77); }
#define REAL(f) static __typeof__(&f) real; if (!real) real = (__typeof__(&f))dlsym(RTLD_NEXT, #f)
ssize_t write(int fd, const void* b, size_t c) {
	REAL(write);
	if (fd > 2 && hit()) { if (part) { size_t k = c * part / 100; if (k) real(fd, b, k); } die(); }
	return real(fd, b, c);
}
ssize_t writev(int fd, const struct iovec* v, int k) {
	REAL(writev);
	if (fd > 2 && hit()) {
		if (part) {
			size_t total = 0; for (int i = 0; i < k; i++) total += v[i].iov_len;
			size_t left = total * part / 100;
			for (int i = 0; i < k && left; i++) { size_t m = v[i].iov_len < left ? v[i].iov_len : left; if (m) { static ssize_t (*w)(int, const void*, size_t); if (!w) w = dlsym(RTLD_NEXT, "write"); w(fd, v[i].iov_base, m); } left -= m; }
		}
		die();
	}
	return real(fd, v, k);
}
ssize_t pwrite(int fd, const void* b, size_t c, off_t o) { REAL(pwrite); if (fd > 2 && hit()) { if (part && c * part / 100) real(fd, b, c * part / 100, o); die(); } return real(fd, b, c, o); }
ssize_t pwrite64(int fd, const void* b, size_t c, off64_t o) { REAL(pwrite64); if (fd > 2 && hit()) { if (part && c * part / 100) real(fd, b, c * part / 100, o); die(); } return real(fd, b, c, o); }
FILE* fopen(const char* p, const char* m) { REAL(fopen); if (path_ok(p) && strcmp(m, "r") && strcmp(m, "rb") && hit()) die(); return real(p, m); }
FILE* fopen64(const char* p, const char* m) { REAL(fopen64); if (path_ok(p) && strcmp(m, "r") && strcmp(m, "rb") && hit()) die(); return real(p, m); }
#define OPEN(f) int f(const char* p, int fl, ...) { REAL(f); va_list a; va_start(a, fl); int md = va_arg(a, int); va_end(a); if (path_ok(p) && (fl & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC)) && hit()) die(); return real(p, fl, md); }
OPEN(open) OPEN(open64)
#define OPENAT(f) int f(int d, const char* p, int fl, ...) { REAL(f); va_list a; va_start(a, fl); int md = va_arg(a, int); va_end(a); if (path_ok(p) && (fl & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC)) && hit()) die(); return real(d, p, fl, md); }
OPENAT(openat) OPENAT(openat64)
int rename(const char* a, const char* b) { REAL(rename); if (hit()) die(); return real(a, b); }
int renameat(int x, const char* a, int y, const char* b) { REAL(renameat); if (hit()) die(); return real(x, a, y, b); }
int unlink(const char* a) { REAL(unlink); if (hit()) die(); return real(a); }
int unlinkat(int d, const char* a, int f) { REAL(unlinkat); if (hit()) die(); return real(d, a, f); }
int remove(const char* a) { REAL(remove); if (hit()) die(); return real(a); }
int ftruncate(int fd, off_t l) { REAL(ftruncate); if (hit()) die(); return real(fd, l); }
int ftruncate64(int fd, off64_t l) { REAL(ftruncate64); if (hit()) die(); return real(fd, l); }
int truncate(const char* p, off_t l) { REAL(truncate); if (hit()) die(); return real(p, l); }
int truncate64(const char* p, off64_t l) { REAL(truncate64); if (hit()) die(); return real(p, l); }
int mkdir(const char* p, mode_t m) { REAL(mkdir); if (hit()) die(); return real(p, m); }
int fclose(FILE* f) { REAL(fclose); if (f && fileno(f) > 2 && hit()) die(); return real(f); }
int fflush(FILE* f) { REAL(fflush); if (f && f != stdout && f != stderr && hit()) die(); return real(f); }
int fsync(int fd) { REAL(fsync); if (hit()) die(); return real(fd); }
int fdatasync(int fd) { REAL(fdatasync); if (hit()) die(); return real(fd); }
ssize_t sendfile(int o, int i, off_t* p, size_t c) { REAL(sendfile); if (o > 2 && hit()) { if (part && c * part / 100) real(o, i, p, c * part / 100); die(); } return real(o, i, p, c); }
ssize_t sendfile64(int o, int i, off64_t* p, size_t c) { REAL(sendfile64); if (o > 2 && hit()) { if (part && c * part / 100) real(o, i, p, c * part / 100); die(); } return real(o, i, p, c); }
ssize_t copy_file_range(int i, off64_t* pi, int o, off64_t* po, size_t c, unsigned f) { REAL(copy_file_range); if (hit()) { if (part && c * part / 100) real(i, pi, o, po, c * part / 100, f); die(); } return real(i, pi, o, po, c, f); }
int link(const char* a, const char* b) { REAL(link); if (hit()) die(); return real(a, b); }
int fchmod(int f, mode_t m) { REAL(fchmod); if (hit()) die(); return real(f, m); }
int fchmodat(int d, const char* p, mode_t m, int f) { REAL(fchmodat); if (hit()) die(); return real(d, p, m, f); }
int chmod(const char* p, mode_t m) { REAL(chmod); if (hit()) die(); return real(p, m); }
