// Environment seams owned by the harness: the clock, stdout noise, global configuration.
#ifndef MC_ENV_HPP
#define MC_ENV_HPP
#include "explorer.hpp"
#include <iostream>
#include <streambuf>
#include <sys/time.h>

namespace env {
inline double& now() { static double t = 1.6e9; return t; }       // seconds shown by every clock
inline std::function<double()>& onClock() { static std::function<double()> f; return f; }
inline uint64_t& clockReads() { static uint64_t n = 0; return n; }
inline double read() { clockReads()++; return onClock() ? onClock()() : now(); }
struct NullBuf : std::streambuf {
  int overflow(int c) override { return c == EOF ? 0 : c; }
  std::streamsize xsputn(const char*, std::streamsize n) override { return n; }
};
inline NullBuf& nullBuf() { static NullBuf b; return b; }
}

// Definitions in the executable take precedence over libc's for libstdc++ and the code under test.
#ifdef MC_ENV_CLOCK
extern "C" int clock_gettime(clockid_t, struct timespec* ts) {
  double t = env::read(); ts->tv_sec = (time_t)t; ts->tv_nsec = (long)((t - (double)ts->tv_sec) * 1e9); return 0;
}
extern "C" time_t time(time_t* p) { time_t t = (time_t)env::read(); if (p) *p = t; return t; }
extern "C" int gettimeofday(struct timeval* tv, void*) { double t = env::read(); tv->tv_sec = (time_t)t; tv->tv_usec = 0; return 0; }
#endif
#endif
