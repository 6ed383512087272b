// A wall clock the driver sets: reads of the real-time clock anywhere in the process return it.
// Included by one translation unit of a driver.
#pragma once
#include <time.h>
#include <sys/time.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <atomic>
namespace vclock {
	inline std::atomic<int64_t> frozenNs{ 0 }, offsetNs{ 0 }; // 0: real time plus offset
	inline int64_t real() { struct timespec t; syscall(SYS_clock_gettime, CLOCK_REALTIME, &t); return (int64_t)t.tv_sec * 1000000000LL + t.tv_nsec; }
	inline int64_t now() { int64_t f = frozenNs.load(); return f ? f : real() + offsetNs.load(); }
	inline void freeze() { frozenNs = real(); }
	inline void advance(int64_t seconds) { if (frozenNs) frozenNs += seconds * 1000000000LL; else offsetNs += seconds * 1000000000LL; }
}
extern "C" {
int clock_gettime(clockid_t c, struct timespec* t) noexcept { if (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) { int64_t n = vclock::now(); t->tv_sec = n / 1000000000LL; t->tv_nsec = n % 1000000000LL; return 0; } return (int)syscall(SYS_clock_gettime, c, t); }
time_t time(time_t* o) noexcept { time_t t = vclock::now() / 1000000000LL; if (o) *o = t; return t; }
int gettimeofday(struct timeval* tv, void*) noexcept { int64_t n = vclock::now(); if (tv) { tv->tv_sec = n / 1000000000LL; tv->tv_usec = n % 1000000000LL / 1000; } return 0; }
}
