// Threads, futures, once, mutexes: built on the executor's cooperative scheduler.
// Used by both the engine build and the native replay build, so that a schedule
// found by the engine can be replayed step for step.
#include "sx.h"
#include <condition_variable>
#include <cstring>
#include <future>
#include <mutex>
#include <thread>
namespace sxt {
static int done[16];
struct waiter { void* addr; int woken; int used; };
static waiter ws[32];
static waiter* slot(void* a) { for (auto& w : ws) if (!w.used) { w.used = 1; w.addr = a; w.woken = 0; return &w; } sx_unmodelled("too many waiters"); return nullptr; }
static void wake(void* a, int n) { for (auto& w : ws) if (n && w.used && w.addr == a && !w.woken) { w.woken = 1; n--; } }
static void wait(void* a) { waiter* w = slot(a); sx_block(&w->woken); w->used = 0; }
static int live; // threads started and not finished
}
int sx_quiet; // set when a thread has ended (2) or waits for events (1)
namespace sxt {
static void tramp(void* p) { auto* s = (std::thread::_State*)p; s->_M_run(); delete s; live--; sx_quiet = 2; done[sx_self()] = 1; }
}
extern "C" { static int const sx_never = 0;
__attribute__((weak)) int sxm_nanosleep(timespec const*, timespec*) { sx_yield("sleep"); sx_block_timed(&sx_never); return 0; }
__attribute__((weak)) int sxm_clock_nanosleep(int, int, timespec const* t, timespec*) { return sxm_nanosleep(t, nullptr); }
__attribute__((weak)) int sxm_usleep(unsigned) { return sxm_nanosleep(nullptr, nullptr); }
__attribute__((weak)) int sxm_sched_yield() { sx_yield("sched_yield"); sx_block_timed(&sx_never); return 0; } }
extern "C" int sx_threads_live() { return sxt::live; }
namespace std {
thread::_State::~_State() = default;
void thread::_M_start_thread(_State_ptr st, void (*)()) { sxt::live++; sx_yield("thread-start"); int t = sx_thread(sxt::tramp, st.release()); _M_id = id((__gthread_t)(unsigned long)(t)); sx_yield("thread-started"); }
void thread::join() { unsigned long t; memcpy(&t, &_M_id, sizeof t); sx_block(&sxt::done[t]); _M_id = id(); }
void thread::detach() { _M_id = id(); }
unsigned thread::hardware_concurrency() noexcept { return 2; }
__thread void* __once_callable; __thread void (*__once_call)();
extern "C" void __once_proxy() { __once_call(); }
bool __atomic_futex_unsigned_base::_M_futex_wait_until(unsigned* a, unsigned v, bool, chrono::seconds, chrono::nanoseconds) { sx_yield("futex-wait"); if (*a != v) return true; sxt::wait(a); return true; }
bool __atomic_futex_unsigned_base::_M_futex_wait_until_steady(unsigned* a, unsigned v, bool, chrono::seconds, chrono::nanoseconds) { sx_yield("futex-wait"); if (*a != v) return true; sxt::wait(a); return true; }
void __atomic_futex_unsigned_base::_M_futex_notify_all(unsigned* a) { sx_yield("futex-wake"); sxt::wake(a, 1000); }
__future_base::_Result_base::_Result_base() = default;
__future_base::_Result_base::~_Result_base() = default;
namespace __exception_ptr { void exception_ptr::_M_addref() noexcept {} void exception_ptr::_M_release() noexcept {} }
void rethrow_exception(exception_ptr) { sx_violate("*:rethrow", "an exception is rethrown"); for (;;) {} }
bool _Sp_make_shared_tag::_S_eq(type_info const&) noexcept { return false; }
condition_variable::condition_variable() noexcept {}
condition_variable::~condition_variable() noexcept {}
void condition_variable::notify_one() noexcept { sx_yield("cv"); sxt::wake(this, 1); }
void condition_variable::notify_all() noexcept { sx_yield("cv"); sxt::wake(this, 1000); }
void condition_variable::wait(unique_lock<mutex>& l) { auto* w = sxt::slot(this); l.unlock(); sx_block(&w->woken); w->used = 0; l.lock(); }
}
extern "C" {
int sxm_pthread_once(int* o, void (*f)(void)) { sx_yield("once"); if (*o == 2) return 0; if (*o == 1) { while (*o != 2) sxt::wait(o); return 0; } *o = 1; f(); *o = 2; sxt::wake(o, 1000); return 0; }
static bool again(int* m) { return (m[4] & 3) == 1 && m[0] && m[2] == sx_self() + 1; } // a recursive mutex which is ours
int sxm_pthread_mutex_lock(int* m) { sx_yield("lock"); if (again(m)) { m[1]++; return 0; } while (m[0]) sxt::wait(m); m[0] = 1; m[2] = sx_self() + 1; return 0; }
int sxm_pthread_mutex_trylock(int* m) { sx_yield("trylock"); if (again(m)) { m[1]++; return 0; } if (m[0]) return 16; m[0] = 1; m[2] = sx_self() + 1; return 0; }
int sxm_pthread_mutex_unlock(int* m) { if (again(m) && m[1]) { m[1]--; return 0; } m[0] = 0; m[2] = 0; sxt::wake(m, 1); sx_yield("unlock"); return 0; }
// readers and writers: w[0] is -1 (written) or the number of readers
int sxm_pthread_rwlock_rdlock(int* w) { sx_yield("rdlock"); while (w[0] < 0) sxt::wait(w); w[0]++; return 0; }
int sxm_pthread_rwlock_wrlock(int* w) { sx_yield("wrlock"); while (w[0]) sxt::wait(w); w[0] = -1; return 0; }
int sxm_pthread_rwlock_tryrdlock(int* w) { sx_yield("rdlock"); if (w[0] < 0) return 16; w[0]++; return 0; }
int sxm_pthread_rwlock_trywrlock(int* w) { sx_yield("wrlock"); if (w[0]) return 16; w[0] = -1; return 0; }
int sxm_pthread_rwlock_unlock(int* w) { if (w[0] < 0) w[0] = 0; else w[0]--; sxt::wake(w, 1000); sx_yield("unlock"); return 0; }
int sxm_pthread_rwlock_init(int* w, void*) { w[0] = 0; return 0; }
int sxm_pthread_rwlock_destroy(int*) { return 0; }
// a wait which may end by itself when nothing else can happen
int sxm_pthread_cond_clockwait(void* c, int* m, int, timespec const*) { auto* w = sxt::slot(c); sxm_pthread_mutex_unlock(m); sx_block_timed(&w->woken); int r = w->woken ? 0 : 110; w->used = 0; sxm_pthread_mutex_lock(m); return r; }
int sxm_pthread_cond_timedwait(void* c, int* m, timespec const* t) { return sxm_pthread_cond_clockwait(c, m, 0, t); }
int sxm_pthread_cond_wait(void* c, int* m) { auto* w = sxt::slot(c); sxm_pthread_mutex_unlock(m); sx_block(&w->woken); w->used = 0; sxm_pthread_mutex_lock(m); return 0; }
int sxm_pthread_cond_signal(void* c) { sx_yield("cv"); sxt::wake(c, 1); return 0; }
int sxm_pthread_cond_broadcast(void* c) { sx_yield("cv"); sxt::wake(c, 1000); return 0; }
int sxm_pthread_cond_init(void*, void*) { return 0; }
int sxm_pthread_cond_destroy(void*) { return 0; }
int sxm_pthread_mutex_init(int* m, void*) { m[0] = 0; return 0; }
int sxm_pthread_mutex_destroy(int*) { return 0; }
unsigned long sxm_pthread_self() { return (unsigned long)sx_self(); }
}
