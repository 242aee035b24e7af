// Interface between harnesses/models and the symbolic executor (lsx). The same
// code also runs natively against lib/rt.cc to replay a recorded path.
#pragma once
#include <stddef.h>
#include <stdint.h>
extern "C" {
uint64_t lsx_sym(const char* name, int bits);                 // fresh symbolic value, zero-extended
void lsx_sym_bytes(void* p, size_t n, const char* name);      // n fresh symbolic bytes
void lsx_assume(int c);
void lsx_assert(int c, const char* msg);                      // must hold for every value
uint32_t lsx_choose(uint32_t n, const char* name);            // symbolic value below n, one path per value
uint64_t lsx_concretize(uint64_t v);                          // one path per feasible value
void lsx_cover(const char* name);                             // reachability witness
void lsx_observe(uint64_t v);                                 // compared between symbolic path and native replay
void lsx_observe_bytes(const void* p, size_t n);
uint64_t lsx_param(const char* name, uint64_t dflt);          // bound chosen by the tier
void lsx_fail(const char* kind, const char* msg);
void lsx_check_range(const void* p, size_t n);                // every byte must be addressable
uint64_t lsx_ite(int c, uint64_t a, uint64_t b);              // no fork
int64_t lsx_live_allocs(void);
uint64_t lsx_arr_total(int count);                            // bytes (or number) of array and malloc allocations ever made
int lsx_is_symbolic(uint64_t v);
void lsx_print(const char* s, uint64_t v);
int lsx_thread_create(void (*fn)(void*), void* arg);
void lsx_thread_join(int t);
int lsx_thread_done(int t);
int lsx_self(void);
void lsx_yield(void* addr);
int lsx_mutex_lock(void* m);
int lsx_mutex_trylock(void* m);
int lsx_mutex_unlock(void* m);
void lsx_cond_wait(void* cv, void* m);
void lsx_cond_signal(void* cv);
void lsx_cond_broadcast(void* cv);
void lsx_atomic_begin(void);   // no scheduling, no race tracking inside
void lsx_atomic_end(void);
void lsx_main(void);
}
