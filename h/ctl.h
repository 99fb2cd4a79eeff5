// Controls the two things the code under test takes from outside: the wall clock and random numbers, and parks a
// background thread at its sleeps so that the explorer decides when it runs.  Include in one harness file only.
#pragma once
#include <time.h>
#include <dlfcn.h>
#include <sys/time.h>
#include <mutex>
#include <condition_variable>
#include <random>
#include <atomic>
#include <pthread.h>
#include <sys/syscall.h>
#include <unistd.h>
namespace ctl {
inline std::atomic<int64_t> offset{0};        // seconds added to the wall clock
inline std::atomic<int64_t> fixed{0};         // if set, the wall clock stands still here
inline std::atomic<bool> park{false};         // sleeping threads other than main wait for a grant
inline std::mutex mx; inline std::condition_variable cv;
inline int grants = 0, parked = 0;
inline bool isMain() { return syscall(SYS_gettid) == getpid(); }
// lets the parked thread run until it sleeps again (time must have passed for its sleep to end)
inline bool grant(int timeoutMs = 20000)
{
	std::unique_lock<std::mutex> l(mx);
	if (!cv.wait_for(l, std::chrono::milliseconds(timeoutMs), [] { return parked > 0; })) return false;
	grants++; parked--; cv.notify_all();
	return cv.wait_for(l, std::chrono::milliseconds(timeoutMs), [] { return parked > 0 && grants == 0; });
}
inline bool waitParked(int timeoutMs = 20000) { std::unique_lock<std::mutex> l(mx); return cv.wait_for(l, std::chrono::milliseconds(timeoutMs), [] { return parked > 0; }); }
inline void release() { { std::lock_guard<std::mutex> l(mx); park = false; } cv.notify_all(); }
inline std::atomic<bool> fixedSeed{false}; inline std::atomic<unsigned> seed{0};
}
extern "C" int clock_gettime(clockid_t c, struct timespec* t)
{
	long r = syscall(SYS_clock_gettime, c, t);
	if (r == 0 && c == CLOCK_REALTIME) { t->tv_sec += ctl::offset.load(); if (ctl::fixed) { t->tv_sec = ctl::fixed; t->tv_nsec = 0; } }
	return (int)r;
}
extern "C" time_t time(time_t* p) { struct timespec t; clock_gettime(CLOCK_REALTIME, &t); if (p) *p = t.tv_sec; return t.tv_sec; }
extern "C" int nanosleep(const struct timespec* a, struct timespec* b)
{
	if (ctl::park && !ctl::isMain()) {
		std::unique_lock<std::mutex> l(ctl::mx);
		ctl::parked++; ctl::cv.notify_all();
		ctl::cv.wait(l, [] { return ctl::grants > 0 || !ctl::park; });
		if (ctl::park) { ctl::grants--; } else { ctl::parked = 0; }
		return 0;
	}
	return (int)syscall(SYS_nanosleep, a, b);
}
// std::random_device of libstdc++
unsigned std::random_device::_M_getval()
{
	if (ctl::fixedSeed) return ctl::seed;
	unsigned v = 0; int f = ::open("/dev/urandom", O_RDONLY); if (f >= 0) { ssize_t k = ::read(f, &v, sizeof(v)); (void)k; ::close(f); } return v;
}
