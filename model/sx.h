/* The harness interface.  In the symbolic executor these are built in; in the
   native replay build they are provided by native.cpp, which reads the values
   the solver chose from a trace. */
#pragma once
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
uint64_t sx_nondet(int bits, char const* name);
void sx_assume(int c);
void sx_check(int ok, char const* id);                                   /* id is "<property>:<what>" */
void sx_check_kf(int ok, int known, char const* kf, char const* id);     /* a failure under `known` is the listed finding kf */
void sx_violate(char const* id, char const* msg);
void sx_observe(char const* tag, uint64_t v);
void sx_cover(char const* id);
uint64_t sx_concretize(uint64_t v);
int sx_param(char const* name, int dflt);
int sx_thread(void (*f)(void*), void* arg);
void sx_yield(char const* where);
void sx_block(int const* flag);
void sx_block_timed(int const* flag); /* as sx_block, but goes on when nothing else can happen */
int sx_self(void);
void sx_end_path(void);
uint64_t sx_heap_live(void);
void* sx_malloc(uint64_t n);
void sx_free(void* p);
int sx_native(void);
void sx_unmodelled(char const* what);
uint64_t sx_alloc_size(void* p);
void sx_debug(char const* what, uint64_t v);
#ifdef __cplusplus
}
#include <string>
static inline uint8_t sx_u8(char const* n) { return (uint8_t)sx_nondet(8, n); }
static inline uint16_t sx_u16(char const* n) { return (uint16_t)sx_nondet(16, n); }
static inline uint32_t sx_u32(char const* n) { return (uint32_t)sx_nondet(32, n); }
static inline uint64_t sx_u64(char const* n) { return sx_nondet(64, n); }
static inline int sx_bool(char const* n) { return (int)sx_nondet(1, n); }
/* an arbitrary value in [0, n): one path per value */
static inline unsigned sx_choose(unsigned n, char const* name) { unsigned v = (unsigned)sx_nondet(8, name); sx_assume(v < n); return (unsigned)sx_concretize(v); }
static inline void sx_observe_str(char const* tag, char const* s, size_t n) { sx_observe(tag, n); for (size_t i = 0; i < n; i++) sx_observe(tag, (uint8_t)s[i]); }
static inline void sx_observe_str(char const* tag, std::string const& s) { sx_observe_str(tag, s.data(), s.size()); }
#endif
