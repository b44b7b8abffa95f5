// shared by the bounded harnesses
#pragma once
#include <cstdio>
#include <cstdlib>
#include <csignal>
#include <cstring>
#include <unistd.h>
#include <string>
#include <sstream>
#include <set>
#include <vector>
#include <array>
#include <algorithm>
#include <functional>
#include <complex>
#include <cmath>
#include <stdexcept>
#include <numeric>
namespace h {
static char at_buf[4096] = "start";
static long n_cases = 0, n_fail = 0;
static std::set<size_t> distinct;
static unsigned long long rs = 88172645463325252ull;
inline unsigned long long rnd(){ rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs * 2685821657736338717ull; }
inline long R(long a, long b){ return a + (long)((rnd() >> 11) % (unsigned long long)(b - a + 1)); }
inline bool coin(int n = 2){ return R(1, n) == 1; }
inline void at(std::string const &s){ std::strncpy(at_buf, s.c_str(), sizeof(at_buf) - 1); }
inline void handler(int sig){
    char b[4400];
    int n = std::snprintf(b, sizeof(b), "\nFAIL signal %d (abort/assert/segv) in: %s\n", sig, at_buf);
    if (write(1, b, n) < 0) {}
    _exit(1);
}
inline void init(unsigned long seed, int rank = 0){
    rs = 88172645463325252ull ^ (seed * 0x9E3779B97F4A7C15ull);
    for(int i=0; i<20; i++) rnd();
    (void) rank;
    for(int s : {SIGABRT, SIGSEGV, SIGFPE, SIGBUS, SIGILL}) std::signal(s, handler);
}
inline void ok(std::string const &key){ n_cases++; distinct.insert(std::hash<std::string>()(key)); at(key); }
inline void fail(std::string const &what){
    n_fail++;
    if (n_fail <= 12){ std::printf("FAIL %s | %s\n", what.c_str(), at_buf); std::fflush(stdout); }
}
#define CHECK(c, what) do{ if (!(c)) h::fail(std::string(what) + " (" #c ")"); }while(0)
inline int done(char const *bound, bool root = true){
    if (root){ std::printf("CASES %ld %ld\nBOUND %s\n", n_cases, (long) distinct.size(), bound); std::fflush(stdout); }
    return n_fail ? 1 : 0;
}
template<typename T> std::string str(T const &a){ std::ostringstream o; o << "("; for(size_t i=0; i<a.size(); i++) o << (i ? "," : "") << a[i]; o << ")"; return o.str(); }
}
