// Native replay runtime: answers the harness from a recorded trace.
#include "sx.h"
#include <condition_variable>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <malloc.h>
#include <new>
#include <pthread.h>
#include <string>
#include <unistd.h>
#include <vector>
namespace {
struct ent { std::string name; int w; unsigned long long v; };
std::vector<ent> tr; size_t at; std::string only; std::vector<std::pair<std::string, int>> params; bool loaded; long heap; FILE* obs;
void quit(int c) { fflush(stdout); if (obs) fflush(obs); _exit(c); }
void load() {
  if (loaded) return; loaded = true; if (char const* f = getenv("SX_TRACE")) { FILE* fp = fopen(f, "r"); char n[256]; int w; unsigned long long v; while (fp && fscanf(fp, "%255s %d %llu", n, &w, &v) == 3) tr.push_back({n, w, v}); if (fp) fclose(fp); }
  if (char const* o = getenv("SX_ONLY")) only = std::string(",") + o + ","; if (char const* p = getenv("SX_PARAMS")) { std::string s = p; size_t i = 0; while (i < s.size()) { size_t e = s.find(',', i); if (e == s.npos) e = s.size(); std::string kv = s.substr(i, e - i); size_t q = kv.find('='); if (q != kv.npos) params.push_back({kv.substr(0, q), atoi(kv.c_str() + q + 1)}); i = e + 1; } }
  if (char const* f = getenv("SX_OBS")) obs = fopen(f, "w"); }
unsigned long long next(char const* name) { load(); if (at >= tr.size()) { printf("SX-DIVERGED: trace exhausted at %s\n", name); quit(5); } ent& e = tr[at++]; if (e.name != name) { printf("SX-DIVERGED: wanted %s, trace has %s (entry %zu)\n", name, e.name.c_str(), at - 1); quit(5); } return e.v; }
bool sel(char const* id) { load(); if (only.empty() || id[0] == '*') return true; std::string p = id; p = "," + p.substr(0, p.find(':')) + ","; return only.find(p) != only.npos; }
// cooperative threads: exactly one holds the baton
pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER; pthread_cond_t cv = PTHREAD_COND_INITIALIZER;
struct thr { int status = 0; int const* flag = nullptr; }; std::vector<thr> ths(1); int cur; __thread int self;
bool runnable(thr& t) { return t.status == 0 || (t.status == 1 && *(int const volatile*)t.flag) || t.status == 3; }
void handoff() { // choose who runs next, per the trace
  bool any = false; for (auto& t : ths) any |= runnable(t); bool busy = false; for (auto& t : ths) busy |= runnable(t) && (t.status != 3 || *(int const volatile*)t.flag); if (!any || (!busy && at >= tr.size())) { printf("SX-DEADLOCK\n"); quit(4); }
  int to = (int)next("sched"); if (to < 0 || to >= (int)ths.size() || !runnable(ths[to])) { printf("SX-DIVERGED: thread %d is not runnable\n", to); quit(5); }
  ths[to].status = 0; pthread_mutex_lock(&mu); cur = to; pthread_cond_broadcast(&cv); pthread_mutex_unlock(&mu); }
void waitTurn() { pthread_mutex_lock(&mu); while (cur != self) pthread_cond_wait(&cv, &mu); pthread_mutex_unlock(&mu); }
struct start { void (*f)(void*); void* a; int id; };
void* run(void* p) { start s = *(start*)p; delete (start*)p; self = s.id; waitTurn(); s.f(s.a); ths[self].status = 2; handoff(); return nullptr; }
}
extern "C" { void* __real_malloc(size_t); void* __real_calloc(size_t, size_t); void* __real_realloc(void*, size_t); void __real_free(void*); char* __real_strdup(char const*); char* __real_strndup(char const*, size_t);
#define UP() __atomic_add_fetch(&heap, 1, __ATOMIC_SEQ_CST)
void* __wrap_malloc(size_t n) { UP(); return __real_malloc(n); } void* __wrap_calloc(size_t a, size_t b) { UP(); return __real_calloc(a, b); } char* __wrap_strdup(char const* s) { UP(); return __real_strdup(s); } char* __wrap_strndup(char const* s, size_t n) { UP(); return __real_strndup(s, n); }
void* __wrap_realloc(void* p, size_t n) { if (!p) UP(); return __real_realloc(p, n); } void __wrap_free(void* p) { if (p) __atomic_sub_fetch(&heap, 1, __ATOMIC_SEQ_CST); __real_free(p); } }
void* operator new(size_t n) { UP(); return __real_malloc(n); }
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, std::nothrow_t const&) noexcept { return operator new(n); }
void operator delete(void* p) noexcept { if (p) __atomic_sub_fetch(&heap, 1, __ATOMIC_SEQ_CST); __real_free(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }
extern "C" {
uint64_t sx_nondet(int bits, char const* name) { unsigned long long v = next(name); return bits >= 64 ? v : v & ((1ull << bits) - 1); }
void sx_assume(int c) { if (!c) { printf("SX-DIVERGED: assumption fails\n"); quit(5); } }
void sx_check(int ok, char const* id) { if (!ok && sel(id)) { printf("SX-CHECK-FAIL %s\n", id); quit(3); } }
void sx_check_kf(int ok, int known, char const* kf, char const* id) { if (!ok && sel(id)) { if (known) { printf("SX-KNOWN %s %s\n", kf, id); quit(6); } printf("SX-CHECK-FAIL %s\n", id); quit(3); } }
void sx_violate(char const* id, char const* msg) { if (sel(id)) { printf("SX-CHECK-FAIL %s %s\n", id, msg); quit(3); } sx_end_path(); }
void sx_observe(char const* tag, uint64_t v) { load(); if (obs) fprintf(obs, "%s %llu\n", tag, (unsigned long long)v); }
void sx_cover(char const*) {}
uint64_t sx_concretize(uint64_t v) { return v; }
int sx_param(char const* n, int d) { load(); for (auto& p : params) if (p.first == n) return p.second; return d; }
int sx_thread(void (*f)(void*), void* a) { ths.push_back({}); int id = (int)ths.size() - 1; pthread_t t; pthread_create(&t, nullptr, run, new start{f, a, id}); return id; }
void sx_yield(char const*) { if (ths.size() > 1) { handoff(); waitTurn(); } }
void sx_block(int const* flag) { if (*(int const volatile*)flag) return; ths[self].status = 1; ths[self].flag = flag; handoff(); waitTurn(); }
void sx_block_timed(int const* flag) { if (*(int const volatile*)flag) return; ths[self].status = 3; ths[self].flag = flag; handoff(); waitTurn(); }
int sx_self(void) { return self; }
void sx_end_path(void) { printf("SX-END\n"); quit(0); }
uint64_t sx_heap_live(void) { return (uint64_t)heap; }
void* sx_malloc(uint64_t n) { return malloc(n); }
void sx_free(void* p) { free(p); }
int sx_native(void) { return 1; }
void sx_unmodelled(char const* w) { printf("SX-UNMODELLED %s\n", w); quit(7); }
uint64_t sx_alloc_size(void* p) { return malloc_usable_size(p); }
void sx_debug(char const* w, uint64_t v) { fprintf(stderr, "[debug] %s %llx\n", w, (unsigned long long)v); }
void sx_main(void);
}
int main() { load(); ths.reserve(64); sx_main(); printf("SX-END\n"); quit(0); }
