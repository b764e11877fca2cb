// Link-time wrappers around the socket calls used by the library: they count calls, and on request
// shorten reads, insert delays, or fail accept() for a while. Controlled by the harness through these globals.
#include <sys/types.h>
#include <sys/socket.h>
#include <unistd.h>
#include <pthread.h>
#include <errno.h>
#include <time.h>
#include <sys/time.h>
#include <signal.h>
#include <dirent.h>
#include <stdlib.h>
#include <sys/syscall.h>
#include <atomic>
#include <thread>
#include <mutex>
#include <chrono>
#include <cstring>
#include <system_error>
#include "faults.hpp"

namespace Faults {
	std::atomic<long> recvCalls{0}, sendCalls{0}, acceptCalls{0}, acceptFailed{0}, threadFailed{0}, badCloses{0};
	std::atomic<int> shortReads{0};		// 0 off, N: about one in N recv() calls is cut short
	std::atomic<int> delayUs{0};		// >0: random delay up to that many microseconds around socket calls
	std::atomic<int> acceptFailErrno{0};
	std::atomic<int> acceptFailCount{0};
	std::atomic<int> threadFailCount{0};	// this many of the next threads cannot be started
	std::atomic<int> lockDelayUs{getenv("LAMBDA_LOCKDELAY") ? atoi(getenv("LAMBDA_LOCKDELAY")) : 0};	// >0: random delay up to that many microseconds before some mutex locks and after some unlocks
	std::atomic<long> lockDelays{0};
	std::atomic<uint64_t> seed{1};
	std::atomic<long> interrupted{0}, cutSends{0}, signalsSent{0};

	std::atomic<long long> clockOffset{0};

	static std::thread* stormThread = nullptr;
	static std::atomic<int> stormUs{0};
	static void onSignal(int) {}
	static std::mutex stormMtx;
	void storm(int us) {
		std::lock_guard<std::mutex> lock(stormMtx);
		stormUs = us;
		if (us <= 0) { if (stormThread) { stormThread->join(); delete stormThread; stormThread = nullptr; } return; }
		if (stormThread) return;
		struct sigaction sa; memset(&sa, 0, sizeof(sa));
		sa.sa_handler = onSignal; sa.sa_flags = SA_RESTART;
		sigaction(SIGUSR1, &sa, nullptr);
		stormThread = new std::thread([]() {
			const auto self = syscall(SYS_gettid); const auto pid = getpid();
			while (int us = stormUs.load()) {
				if (DIR* d = opendir("/proc/self/task")) {
					while (auto* e = readdir(d)) {
						const int tid = atoi(e->d_name);
						if (tid <= 0 || tid == self || tid == pid) continue;
						if (syscall(SYS_tgkill, pid, tid, SIGUSR1) == 0) signalsSent.fetch_add(1, std::memory_order_relaxed);
					}
					closedir(d);
				}
				std::this_thread::sleep_for(std::chrono::microseconds(us));
			}
		});
	}

	static uint64_t rnd() {
		static thread_local uint64_t s = 0;
		if (!s) s = seed.fetch_add(0x9E3779B97F4A7C15ull, std::memory_order_relaxed) * 0x2545F4914F6CDD1Dull | 1;
		s ^= s << 13; s ^= s >> 7; s ^= s << 17;
		return s;
	}
	static void maybeDelay() {
		const int d = delayUs.load(std::memory_order_relaxed);
		if (d <= 0) return;
		const auto r = rnd() % 4;
		if (r == 0) return;
		const auto us = rnd() % (uint64_t)d;
		timespec ts { (time_t)(us / 1000000), (long)(us % 1000000) * 1000 };
		const int e = errno;
		nanosleep(&ts, nullptr);
		errno = e;
	}
	static void maybeLockDelay() {
		const int d = lockDelayUs.load(std::memory_order_relaxed);
		if (d <= 0 || rnd() % 8) return;
		const auto us = rnd() % (uint64_t)d;
		timespec ts { (time_t)(us / 1000000), (long)(us % 1000000) * 1000 };
		const int e = errno;
		lockDelays.fetch_add(1, std::memory_order_relaxed);
		nanosleep(&ts, nullptr);
		errno = e;
	}
}

using namespace Faults;

//	socket calls under way on each descriptor: closing one meanwhile could let the call hit another socket.
//	everything in here is relaxed, the wrappers must not order what the library leaves unordered
static std::atomic<int> g_inUse[65536];
struct InUse {
	std::atomic<int>* n;
	InUse(int fd) : n(fd >= 0 && fd < 65536 ? &g_inUse[fd] : nullptr) { if (n) n->fetch_add(1, std::memory_order_relaxed); }
	~InUse() { if (n) n->fetch_sub(1, std::memory_order_relaxed); }
};
static void checkUnused(int fd) {
	if (fd < 0 || fd >= 65536 || g_inUse[fd].load(std::memory_order_relaxed) <= 0) return;
	static const char m[] = "monitor: runtime error: a socket is closed while another thread is in a call on it\n";
	if (write(STDERR_FILENO, m, sizeof m - 1)) {}
}

extern "C" {
	int __real_pthread_mutex_lock(pthread_mutex_t*);
	int __real_pthread_mutex_unlock(pthread_mutex_t*);
	int __wrap_pthread_mutex_lock(pthread_mutex_t* m) {
		maybeLockDelay();
		return __real_pthread_mutex_lock(m);
	}
	int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) {
		const int r = __real_pthread_mutex_unlock(m);
		maybeLockDelay();
		return r;
	}
	ssize_t __real_recv(int, void*, size_t, int);
	ssize_t __real_send(int, const void*, size_t, int);
	int __real_accept(int, struct sockaddr*, socklen_t*);
	int __real_accept4(int, struct sockaddr*, socklen_t*, int);

	ssize_t __wrap_recv(int fd, void* buf, size_t n, int flags) {
		InUse use(fd);
		recvCalls.fetch_add(1, std::memory_order_relaxed);
		maybeDelay();
		const int sr = shortReads.load(std::memory_order_relaxed);
		if (sr > 0 && n > 1 && rnd() % sr == 0) n = 1 + rnd() % (n > 64 ? 64 : n);
		const auto r = __real_recv(fd, buf, n, flags);
		if (r < 0 && errno == EINTR) interrupted.fetch_add(1, std::memory_order_relaxed);
		maybeDelay();
		return r;
	}
	ssize_t __wrap_send(int fd, const void* buf, size_t n, int flags) {
		InUse use(fd);
		sendCalls.fetch_add(1, std::memory_order_relaxed);
		maybeDelay();
		const auto r = __real_send(fd, buf, n, flags);
		if (r < 0 && errno == EINTR) interrupted.fetch_add(1, std::memory_order_relaxed);
		if (r >= 0 && (size_t)r < n) cutSends.fetch_add(1, std::memory_order_relaxed);
		maybeDelay();
		return r;
	}
	static bool failAccept() {
		acceptCalls.fetch_add(1, std::memory_order_relaxed);
		int c = acceptFailCount.load(std::memory_order_relaxed);
		while (c > 0 && !acceptFailCount.compare_exchange_weak(c, c - 1, std::memory_order_relaxed)) {}
		if (c > 0) { acceptFailed.fetch_add(1, std::memory_order_relaxed); return true; }
		return false;
	}
	int __wrap_accept(int fd, struct sockaddr* a, socklen_t* l) {
		if (failAccept()) { errno = acceptFailErrno.load(); return -1; }
		InUse use(fd);
		maybeDelay();
		const int r = __real_accept(fd, a, l);
		maybeDelay();
		return r;
	}
	int __wrap_accept4(int fd, struct sockaddr* a, socklen_t* l, int f) {
		if (failAccept()) { errno = acceptFailErrno.load(); return -1; }
		InUse use(fd);
		maybeDelay();
		const int r = __real_accept4(fd, a, l, f);
		maybeDelay();
		return r;
	}
	// closing a descriptor that is not open: some other thread's descriptor could be hit just as well
	int __real_close(int fd);
	int __real_shutdown(int fd, int how);
	int __wrap_shutdown(int fd, int how) {
		maybeDelay();
		return __real_shutdown(fd, how);
	}
	int __wrap_close(int fd) {
		checkUnused(fd);
		const int r = __real_close(fd);
		if (r < 0 && errno == EBADF) badCloses.fetch_add(1, std::memory_order_relaxed);
		return r;
	}
	// std::thread::_M_start_thread(std::unique_ptr<_State>, void (*)())
	void __real__ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE(void*, void*, void (*)());
	void __wrap__ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE(void* self, void* state, void (*dep)()) {
		int c = threadFailCount.load(std::memory_order_relaxed);
		while (c > 0 && !threadFailCount.compare_exchange_weak(c, c - 1, std::memory_order_relaxed)) {}
		if (c > 0) { threadFailed.fetch_add(1, std::memory_order_relaxed); throw std::system_error(std::make_error_code(std::errc::resource_unavailable_try_again)); }
		__real__ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE(self, state, dep);
	}
}

//	the wall clock of this process can be moved
#define RAW __attribute__((no_sanitize("address", "undefined", "thread")))
extern "C" RAW int clock_gettime(clockid_t id, struct timespec* ts) noexcept {
	long r = syscall(SYS_clock_gettime, id, ts);
	if (r == 0 && (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE)) ts->tv_sec += Faults::clockOffset.load(std::memory_order_relaxed);
	return r;
}
extern "C" RAW time_t time(time_t* t) noexcept {
	struct timespec ts;
	clock_gettime(CLOCK_REALTIME, &ts);
	if (t) *t = ts.tv_sec;
	return ts.tv_sec;
}
extern "C" RAW int gettimeofday(struct timeval* __restrict tv, void* __restrict) noexcept {
	struct timespec ts;
	clock_gettime(CLOCK_REALTIME, &ts);
	if (tv) { tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; }
	return 0;
}
