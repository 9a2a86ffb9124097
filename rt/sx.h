// Harness interface.  Under symbolic execution these are intrinsics of the executor; natively they replay a recorded input.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <string>
extern "C" {
void sx_bytes(void* p, size_t n, const char* name);        // n fresh symbolic bytes
uint64_t sx_var(int width, const char* name);              // fresh symbolic bit-vector, zero extended
void sx_assume(bool c);
void sx_assert_(bool c, const char* msg);
void sx_observe(uint64_t v);                               // recorded and compared with the native run
void sx_reach(const char* name);                           // reachability witness
int64_t sx_param(const char* name, int64_t def);           // concrete bound given on the command line
uint64_t sx_concrete(uint64_t v);                          // enumerate the feasible values (each on its own path)
void sx_protect(void* p, size_t n, int mode);             // 0 any access, 1 none, 2 reading only
void sx_freeze(int on);                                   // all existing memory becomes shared with other threads: no writes but under a lock or atomic
void sx_threads(void (*f)(int thread));                    // f(0) and f(1), by two threads at the same time
int sx_native();
void sx_debug(uint64_t v);
void sx_main();
}
#define SX_STR2(x) #x
#define SX_STR(x) SX_STR2(x)
#define sx_assert(c, msg) sx_assert_(!!(c), msg)
inline int64_t sx_i64(const char* n) { return (int64_t)sx_var(64, n); }
inline bool sx_bool(const char* n) { return sx_var(1, n) != 0; }
inline uint64_t sx_range(uint64_t lo, uint64_t hi, const char* n) {   // [lo,hi], symbolic
    int w = 1; while (w < 64 && ((hi - lo) >> w)) w++;
    uint64_t v = sx_var(w, n); sx_assume(v <= hi - lo); return lo + v;
}
inline uint64_t sx_choose(uint64_t lo, uint64_t hi, const char* n) { return sx_concrete(sx_range(lo, hi, n)); }   // [lo,hi], one path per value
inline double sx_double(const char* n) { uint64_t v = sx_var(64, n); double d; memcpy(&d, &v, 8); return d; }
inline std::string sx_string(size_t n, const char* name) { std::string s(n, '\0'); if (n) sx_bytes(s.data(), n, name); return s; }
inline void sx_observe_str(const std::string& s) { sx_observe(s.size()); for (char c : s) sx_observe((unsigned char)c); }
inline void sx_observe_d(double d) { uint64_t v; memcpy(&v, &d, 8); sx_observe(v); }
