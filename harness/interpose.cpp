// Interposed library calls: ZeroMQ socket operations (which thread uses which socket, injected delays, happens-before
// edges for ThreadSanitizer, which cannot look into libzmq), sleeps and the wall clock. Compiled without sanitizers, so
// that its own bookkeeping orders nothing in the eyes of ThreadSanitizer.
#include "interpose.h"
#include <atomic>
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <zmq.h>

extern "C" void __tsan_acquire(void *) __attribute__((weak));
extern "C" void __tsan_release(void *) __attribute__((weak));

namespace
{
	struct record {
		void *socket;
		int owner; // thread
		int busy; // thread inside of an operation
		int depth;
		const char *op;
		bool ignored;
	};
	const int N = 8192;
	record table[N];
	std::atomic<int> lock_word{0};
	std::atomic<int> strict{0};
	std::atomic<int> delay_pct{0}, delay_us{0};
	std::atomic<uint64_t> delay_seed{0};
	std::atomic<uint64_t> counts[8];
	char violation[512];
	std::atomic<int> have_violation{0};
	std::atomic<int> sleep_div{0};
	std::atomic<int64_t> skipped{0};
	std::atomic<int64_t> real_offset{0};
	std::atomic<int> auto_strict{0};
	char slots[65536];
	thread_local int nested = 0;
	thread_local uint64_t rnd = 0;
	thread_local int my_tid = 0;

	int tid()
	{
		if (!my_tid) my_tid = (int) syscall(SYS_gettid);
		return my_tid;
	}
	struct locker {
		locker()
		{
			while (lock_word.exchange(1, std::memory_order_acquire)) syscall(SYS_sched_yield);
		}
		~locker() { lock_word.store(0, std::memory_order_release); }
	};
	record *find(void *s, bool create)
	{
		uint64_t h = ((uintptr_t) s >> 4) * 0x9E3779B97F4A7C15ull >> 40;
		for (int i = 0; i < N; ++i) {
			record &r = table[(h + i) % N];
			if (r.socket == s) return &r;
			if (!r.socket) {
				if (!create) return nullptr;
				r = record{s, 0, 0, 0, nullptr, false};
				return &r;
			}
		}
		return nullptr;
	}
	void report(const char *fmt, ...)
	{
		if (have_violation.load()) return;
		va_list ap;
		va_start(ap, fmt);
		vsnprintf(violation, sizeof violation, fmt, ap);
		va_end(ap);
		have_violation.store(1);
		if (const char *f = getenv("VI_LOG")) {
			int fd = open(f, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0600);
			if (fd >= 0) {
				dprintf(fd, "SOCKET %s\n", violation);
				close(fd);
			}
		}
	}
	void enter(void *s, const char *op, bool closing = false)
	{
		if (!s) return;
		locker l;
		record *r = find(s, true);
		if (!r || r->ignored) return;
		if (r->busy && r->busy != tid())
			report("thread %d calls %s on a socket while thread %d is inside %s on it", tid(), op, r->busy, r->op ? r->op : "?");
		if (strict.load() && !closing) {
			if (!r->owner) r->owner = tid();
			else if (r->owner != tid())
				report("thread %d calls %s on a socket that belongs to thread %d", tid(), op, r->owner);
		} else if (!closing && r->owner && r->owner != tid()) {
			counts[6]++;
			r->owner = 0;
		}
		if (!r->busy) { r->busy = tid(); r->depth = 0; r->op = op; }
		if (r->busy == tid()) r->depth++;
	}
	void leave(void *s)
	{
		if (!s) return;
		locker l;
		record *r = find(s, false);
		if (!r || r->ignored) return;
		if (r->busy == tid() && --r->depth <= 0) { r->busy = 0; r->op = nullptr; }
		if (strict.load() && !r->owner) r->owner = tid(); // entered before the strict phase
	}
	bool ignored(void *s)
	{
		locker l;
		record *r = find(s, false);
		return r && r->ignored;
	}
	void jitter(void *s)
	{
		int p = delay_pct.load();
		if (!p) return;
		if (!rnd) rnd = (delay_seed.load() + (uint64_t) tid() * 0x9E3779B97F4A7C15ull) | 1;
		rnd ^= rnd << 13; rnd ^= rnd >> 7; rnd ^= rnd << 17;
		if ((int) (rnd % 100) >= p) return;
		if (s && ignored(s)) return;
		long us = (long) ((rnd >> 16) % (uint64_t) (delay_us.load() + 1));
		counts[5]++;
		struct timespec ts = {us / 1000000, (us % 1000000) * 1000};
		syscall(SYS_nanosleep, &ts, nullptr);
	}
	void *slot_of(const void *p, size_t n)
	{
		uint64_t h = 1469598103934665603ull ^ n;
		const unsigned char *c = (const unsigned char *) p;
		for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ull; }
		return &slots[(h ^ (h >> 32)) % sizeof slots];
	}
	void release(const void *p, size_t n) { if (__tsan_release) __tsan_release(slot_of(p, n)); }
	void acquire(const void *p, size_t n) { if (__tsan_acquire) __tsan_acquire(slot_of(p, n)); }

	template <class F> F real(F, const char *name)
	{
		return (F) dlsym(RTLD_NEXT, name);
	}
	struct nest {
		bool outer;
		nest() : outer(nested++ == 0) {}
		~nest() { --nested; }
	};
	struct init_env {
		init_env()
		{
			if (const char *e = getenv("VI_SLEEP_DIV")) sleep_div = atoi(e);
			if (const char *e = getenv("VI_DELAY")) { delay_pct = atoi(e); delay_us = 1500; delay_seed = (uint64_t) getpid(); }
			if (getenv("VI_STRICT")) auto_strict = 1;
		}
	} init_env_;
}

#define REAL(f) static auto real_##f = real(&f, #f)

extern "C" {
void vi_phase(int s)
{
	locker l;
	for (auto &r : table) r.owner = 0;
	strict = s;
}
void vi_ignore(void *s)
{
	locker l;
	record *r = find(s, true);
	if (r) r->ignored = true;
}
void vi_delays(int percent, int max_us, uint64_t seed)
{
	delay_seed = seed;
	delay_us = max_us;
	delay_pct = percent;
}
const char *vi_violation(void) { return have_violation.load() ? violation : nullptr; }
void vi_reset(void) { have_violation = 0; }
uint64_t vi_count(int w) { return counts[w].load(); }
void vi_sleep_div(int d) { sleep_div = d; }
int64_t vi_skipped_ns(void) { return skipped.load(); }
void vi_realtime_offset(int64_t ns) { real_offset = ns; }

void *zmq_socket(void *ctx, int type)
{
	REAL(zmq_socket);
	void *s = real_zmq_socket(ctx, type);
	if (s) {
		locker l;
		record *r = find(s, true);
		if (r) *r = record{s, 0, 0, 0, nullptr, false};
		counts[4]++;
	}
	return s;
}
int zmq_close(void *s)
{
	REAL(zmq_close);
	nest n;
	if (!n.outer) return real_zmq_close(s);
	enter(s, "zmq_close", true);
	counts[3]++;
	leave(s);
	return real_zmq_close(s);
}
int zmq_send(void *s, const void *buf, size_t len, int flags)
{
	REAL(zmq_send);
	nest n;
	if (!n.outer) return real_zmq_send(s, buf, len, flags);
	jitter(s);
	enter(s, "zmq_send");
	counts[0]++;
	release(buf, len);
	int r = real_zmq_send(s, buf, len, flags);
	int e = errno;
	leave(s);
	jitter(s);
	errno = e;
	return r;
}
int zmq_send_const(void *s, const void *buf, size_t len, int flags)
{
	REAL(zmq_send_const);
	nest n;
	if (!n.outer) return real_zmq_send_const(s, buf, len, flags);
	jitter(s);
	enter(s, "zmq_send_const");
	counts[0]++;
	release(buf, len);
	int r = real_zmq_send_const(s, buf, len, flags);
	int e = errno;
	leave(s);
	errno = e;
	return r;
}
int zmq_msg_send(zmq_msg_t *m, void *s, int flags)
{
	REAL(zmq_msg_send);
	nest n;
	if (!n.outer) return real_zmq_msg_send(m, s, flags);
	jitter(s);
	enter(s, "zmq_msg_send");
	counts[0]++;
	release(zmq_msg_data(m), zmq_msg_size(m));
	int r = real_zmq_msg_send(m, s, flags);
	int e = errno;
	leave(s);
	jitter(s);
	errno = e;
	return r;
}
int zmq_sendmsg(void *s, zmq_msg_t *m, int flags) { return zmq_msg_send(m, s, flags); }
int zmq_msg_recv(zmq_msg_t *m, void *s, int flags)
{
	REAL(zmq_msg_recv);
	nest n;
	if (!n.outer) return real_zmq_msg_recv(m, s, flags);
	jitter(s);
	enter(s, "zmq_msg_recv");
	int r = real_zmq_msg_recv(m, s, flags);
	int e = errno;
	leave(s);
	if (r >= 0) {
		counts[1]++;
		acquire(zmq_msg_data(m), zmq_msg_size(m));
	}
	jitter(s);
	errno = e;
	return r;
}
int zmq_recvmsg(void *s, zmq_msg_t *m, int flags) { return zmq_msg_recv(m, s, flags); }
int zmq_recv(void *s, void *buf, size_t len, int flags)
{
	REAL(zmq_recv);
	nest n;
	if (!n.outer) return real_zmq_recv(s, buf, len, flags);
	jitter(s);
	enter(s, "zmq_recv");
	int r = real_zmq_recv(s, buf, len, flags);
	int e = errno;
	leave(s);
	if (r >= 0) {
		counts[1]++;
		acquire(buf, (size_t) r < len ? (size_t) r : len);
	}
	errno = e;
	return r;
}
int zmq_poll(zmq_pollitem_t *items, int count, long timeout)
{
	REAL(zmq_poll);
	nest n;
	if (!n.outer) return real_zmq_poll(items, count, timeout);
	jitter(nullptr);
	if (auto_strict.load() && !strict.load()) vi_phase(1);
	for (int i = 0; i < count; ++i) enter(items[i].socket, "zmq_poll");
	int r = real_zmq_poll(items, count, timeout);
	int e = errno;
	for (int i = 0; i < count; ++i) leave(items[i].socket);
	counts[2]++;
	errno = e;
	return r;
}
int zmq_getsockopt(void *s, int option, void *value, size_t *len)
{
	REAL(zmq_getsockopt);
	nest n;
	if (!n.outer) return real_zmq_getsockopt(s, option, value, len);
	enter(s, "zmq_getsockopt");
	int r = real_zmq_getsockopt(s, option, value, len);
	int e = errno;
	leave(s);
	errno = e;
	return r;
}

// ---------------------------------------------------------------- sleeps and the wall clock
static bool shorten(const struct timespec *want, struct timespec *now)
{
	int d = sleep_div.load();
	if (d <= 1) return false;
	int64_t ns = (int64_t) want->tv_sec * 1000000000ll + want->tv_nsec;
	if (ns < 400000000ll) return false;
	int64_t real = ns / d;
	skipped += ns - real;
	now->tv_sec = real / 1000000000ll;
	now->tv_nsec = real % 1000000000ll;
	if (const char *f = getenv("VI_LOG")) {
		int fd = open(f, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0600);
		if (fd >= 0) {
			dprintf(fd, "SLEEP %lld\n", (long long) (ns / 1000000));
			close(fd);
		}
	}
	return true;
}
int nanosleep(const struct timespec *want, struct timespec *rem)
{
	struct timespec now;
	if (want && shorten(want, &now)) { syscall(SYS_nanosleep, &now, nullptr); return 0; }
	return (int) syscall(SYS_nanosleep, want, rem);
}
int clock_nanosleep(clockid_t id, int flags, const struct timespec *want, struct timespec *rem)
{
	struct timespec now;
	if (want && !(flags & TIMER_ABSTIME) && shorten(want, &now)) { syscall(SYS_nanosleep, &now, nullptr); return 0; }
	long r = syscall(SYS_clock_nanosleep, id, flags, want, rem);
	return r == 0 ? 0 : errno;
}
unsigned sleep(unsigned s)
{
	struct timespec ts = {(time_t) s, 0};
	nanosleep(&ts, nullptr);
	return 0;
}
int usleep(useconds_t us)
{
	struct timespec ts = {(time_t) (us / 1000000), (long) (us % 1000000) * 1000};
	return nanosleep(&ts, nullptr);
}
int clock_gettime(clockid_t id, struct timespec *ts)
{
	long r = syscall(SYS_clock_gettime, id, ts);
	if (r == 0 && (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE)) {
		int64_t off = real_offset.load();
		if (off) {
			int64_t v = (int64_t) ts->tv_sec * 1000000000ll + ts->tv_nsec + off;
			ts->tv_sec = v / 1000000000ll;
			ts->tv_nsec = v % 1000000000ll;
		}
	}
	return (int) r;
}
int gettimeofday(struct timeval *tv, void *)
{
	struct timespec ts;
	clock_gettime(CLOCK_REALTIME, &ts);
	tv->tv_sec = ts.tv_sec;
	tv->tv_usec = ts.tv_nsec / 1000;
	return 0;
}
time_t time(time_t *out)
{
	struct timespec ts;
	clock_gettime(CLOCK_REALTIME, &ts);
	if (out) *out = ts.tv_sec;
	return ts.tv_sec;
}
}
