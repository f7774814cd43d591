// Harness interface.  Under symir (engine/) these are intrinsics over symbolic values; natively
// (native/rt_native.cpp) they read one concrete input list, so the same source replays a counterexample.
#pragma once
#include <cstddef>
#include <cstdint>
#ifndef VS_THOROUGH
#define VS_THOROUGH 0
#endif
#define VS_T(quick, thorough) (VS_THOROUGH ? (thorough) : (quick))
extern "C" {
int64_t vs_sym(const char* name, int64_t lo, int64_t hi); // arbitrary value in [lo, hi]
int64_t vs_conc(int64_t v);                               // case-split over all feasible values
void vs_assume(int c);
void vs_check(int c, const char* msg);
void vs_reach(const char* label);
void vs_trace(const char* label, int64_t v);
int vs_guard(void (*fn)(void*), void* ctx); // 1 if a debug assertion fired inside fn
void* vs_abstract(int k);                   // base of memory that must never be dereferenced
int64_t vs_ite(int c, int64_t a, int64_t b);
int vs_must(int c); // 1 if the condition holds for every input of this path (natively: if it holds)
void vs_opt(const char* name, int64_t v);
int64_t vs_live(void);   // heap blocks currently allocated
int64_t vs_allocs(void); // heap blocks allocated so far
}
#define VS_HARNESS(name) extern "C" __attribute__((used, noinline, visibility("default"))) void name()
#ifdef VS_NO_CHECKS
#define CHECK(c) ((void)(c))
#define CHECKM(c, m) ((void)(c))
#else
#define CHECK(c) vs_check((c) ? 1 : 0, #c)
#define CHECKM(c, m) vs_check((c) ? 1 : 0, m)
#endif
#define ASSUME(c) vs_assume((c) ? 1 : 0)
typedef int64_t i64;
inline i64 vs_choose(const char* name, i64 lo, i64 hi) { return vs_conc(vs_sym(name, lo, hi)); }
template <class F>
inline void vs_call_thunk(void* p) { (*static_cast<F*>(p))(); }
template <class F>
inline bool vs_asserts(F f) { return vs_guard(&vs_call_thunk<F>, &f) != 0; }
