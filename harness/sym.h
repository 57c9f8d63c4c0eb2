// Interface between harnesses, the symbolic executor and the native replay runtime.
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
uint64_t sym_u64(const char* name, uint64_t lo, uint64_t hi);  // arbitrary value in [lo,hi]
void sym_data(void* p, uint64_t n);                            // n arbitrary bytes
void sym_assume(bool c);
void sym_assert(bool c, const char* msg);
void sym_reach(const char* label);   // vacuity guard: must be reached on some path
void sym_observe(uint64_t v);        // compared between the executor and the native build
uint64_t sym_param(const char* name, uint64_t dflt);
uint64_t sym_concretize(uint64_t v);
uint64_t sym_live_allocs();
void sym_discard();
int sym_spawn(void (*f)(void*), void* arg);
void sym_join(int t);
int sym_thread_id();
void sym_await(const uint32_t* p, uint32_t v);  // a scheduling point that is enabled while *p != v
uint64_t sym_pick(const char* name, uint64_t n);  // one of n alternatives, a separate path each
}
static inline unsigned sym_choose(const char* name, unsigned n) { return n <= 1 ? 0 : (unsigned)sym_pick(name, n); }
static inline int sym_int(const char* name, int lo, int hi)
{
    return (int)((int64_t)sym_u64(name, 0, (uint64_t)((int64_t)hi - lo)) + lo);
}
#define CHECK(c, m) sym_assert((c), m)
#define ENTRY(n) extern "C" __attribute__((used)) void n()
