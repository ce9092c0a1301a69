// The Darwin adapter, over any FSEvents the system may hand it.  FSEvents, CoreFoundation and
// Dispatch are stood in for by these stubs; the adapter's own code and the watcher above it are real.
#include "../model/sx.h"
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <chrono>
#include <climits>
#include <condition_variable>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <dirent.h>
#include <fcntl.h>
#include <filesystem>
#include <functional>
#include <future>
#include <iomanip>
#include <ios>
#include <iosfwd>
#include <iostream>
#include <limits>
#include <linux/version.h>
#include <memory>
#include <mutex>
#include <optional>
#include <ostream>
#include <poll.h>
#include <random>
#include <sstream>
#include <string>
#include <string_view>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <sys/fanotify.h>
#include <sys/inotify.h>
#include <sys/stat.h>
#include <system_error>
#include <thread>
#include <tuple>
#include <type_traits>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <variant>
#include <vector>
#undef __linux__
#undef __linux
#undef linux
#undef __gnu_linux__
#define __APPLE__ 1
#include "rec.hpp"
extern "C" int sx_threads_live(void);
// ---------------------------------------------------------------- CoreFoundation: created once, never released too often
enum { ONONE, OSTRING, OARRAY, OSTREAM, OSEM, OQUEUE };
struct Obj { int kind = 0, refs = 0; bool dead = false; char const* str = nullptr; Obj* item = nullptr; int count = 0; };
static Obj objs[8]; static int nobjs; static int misuse; static char const* why = "";
static void wrong(char const* w) { misuse++; sx_violate("darwin-close:system-objects-are-used-as-documented", w); (void)why; }
static Obj* make(int kind) { if (nobjs >= 8) sx_unmodelled("too many objects"); Obj* o = &objs[nobjs++]; o->kind = kind; o->refs = 1; return o; }
static Obj* use(void const* p, int kind) { Obj* o = (Obj*)p; bool in = false; for (auto& x : objs) if (&x == o) in = true; if (!in) { wrong("not an object"); return nullptr; } if (o->kind != kind || o->refs <= 0) { wrong("a dead object, or one of another kind"); return nullptr; } return o; }
static int fail_at, calls; static bool fails() { return ++calls == fail_at; } // which of the calls which may fail does
static void drop(Obj* o) { if (--o->refs == 0 && o->kind == OARRAY && o->item) drop(o->item); }
// ---------------------------------------------------------------- the stream
struct Stream { Obj* o = nullptr; FSEventStreamCallback cb = nullptr; void* info = nullptr; bool queue = false, started = false, stopped = false, invalid = false, released = false; Obj* paths = nullptr; unsigned flags = 0; uint64_t since = 0; int in_cb = 0; };
static Stream S; static int nstreams; static int flushes; static bool deaf; // Start said no
constexpr int EMAX = 4; struct Ev { int name; uint32_t flags; }; struct Batch { int n = 0; Ev e[EMAX]; }; static Batch todo[4]; static int ntodo, sent; static int sending; // owned by the system's thread
static char const* const NAMES[] = {"/w/a", "/w/b", "/w/d/c", ""};
static int closing; static int cbmutex_free = 1; static int waiters;
static void send_next() { // hands the stream's callback the next batch
  Batch& b = todo[sent++]; char const* ps[EMAX]; unsigned fl[EMAX]; FSEventStreamEventId ids[EMAX]; for (int i = 0; i < b.n; i++) { ps[i] = NAMES[b.e[i].name]; fl[i] = b.e[i].flags; ids[i] = 100 + i; }
  S.in_cb++; sx_yield("fsevents"); S.cb((ConstFSEventStreamRef)S.o, S.info, b.n, (void*)ps, fl, ids); sx_yield("fsevents"); S.in_cb--; }
static int pump_idle = 1; // nothing is being delivered
extern "C" {
CFArrayCallBacks kCFTypeArrayCallBacks{};
CFStringRef CFStringCreateWithCString(CFAllocatorRef, char const* s, CFStringEncoding e) { if (!s || e != kCFStringEncodingUTF8) wrong("a string which is not UTF-8"); if (fails()) return nullptr; Obj* o = make(OSTRING); o->str = strdup(s); return (CFStringRef)o; }
CFArrayRef CFArrayCreate(CFAllocatorRef, void const** v, CFIndex n, CFArrayCallBacks const*) { if (n != 1) sx_unmodelled("an array of other than one"); if (!v[0]) { wrong("CFArrayCreate retains null"); return nullptr; } Obj* s = use(v[0], OSTRING); if (fails()) return nullptr; Obj* o = make(OARRAY); o->item = s; o->count = (int)n; if (s) s->refs++; return (CFArrayRef)o; }
CFTypeRef CFRetain(CFTypeRef p) { Obj* o = (Obj*)p; if (!o || o->refs <= 0) wrong("CFRetain of nothing"); else o->refs++; return p; }
void CFRelease(CFTypeRef p) { Obj* o = (Obj*)p; if (!o || o->refs <= 0 || (o->kind != OSTRING && o->kind != OARRAY)) { wrong("CFRelease of nothing"); return; } drop(o); }
FSEventStreamRef FSEventStreamCreate(CFAllocatorRef, FSEventStreamCallback cb, FSEventStreamContext* c, CFArrayRef paths, FSEventStreamEventId since, CFTimeInterval, FSEventStreamCreateFlags fl) {
  if (!cb || !paths) { wrong("FSEventStreamCreate without a callback or paths"); return nullptr; } Obj* a = use(paths, OARRAY); if (c && c->version != 0) wrong("the context's version"); if (c && (c->retain || c->release || c->copyDescription)) sx_unmodelled("a context with callbacks");
  if (fails()) return nullptr; if (nstreams++) sx_unmodelled("two streams"); S.o = make(OSTREAM); S.cb = cb; S.info = c ? c->info : nullptr; S.paths = a; if (a) a->refs++; S.flags = fl; S.since = since; return (FSEventStreamRef)S.o; }
static Stream* st(void const* p) { return use(p, OSTREAM) ? &S : nullptr; }
void FSEventStreamSetDispatchQueue(FSEventStreamRef s, dispatch_queue_t q) { Stream* t = st(s); if (!t) return; if (t->started || t->invalid) wrong("a queue for a stream already started"); if (q) use(q, OQUEUE); t->queue = q != nullptr; }
Boolean FSEventStreamStart(FSEventStreamRef s) { Stream* t = st(s); if (!t) return 0; if (!t->queue || t->started || t->invalid) wrong("started without a queue, or twice"); if (fails()) { deaf = true; return 0; } t->started = true; W::notify(); return 1; }
void FSEventStreamFlushSync(FSEventStreamRef s) { Stream* t = st(s); if (!t) return; if (!t->started || t->stopped) wrong("flushed while not running"); flushes++; // what happened before now is delivered before this returns
  while (!cbmutex_free) { waiters++; sx_block(&cbmutex_free); waiters--; } cbmutex_free = 0; while (sent < ntodo) send_next(); cbmutex_free = 1; }
FSEventStreamEventId FSEventStreamFlushAsync(FSEventStreamRef s) { Stream* t = st(s); if (t && (!t->started || t->stopped)) wrong("flushed while not running"); return 1; }
void FSEventStreamStop(FSEventStreamRef s) { Stream* t = st(s); if (!t) return; if (!t->started || t->stopped) wrong("stopped while not running"); t->stopped = true; }
void FSEventStreamInvalidate(FSEventStreamRef s) { Stream* t = st(s); if (!t) return; if (!t->queue || t->invalid || (t->started && !t->stopped)) wrong("invalidated while running, or unscheduled, or twice"); t->invalid = true; while (!cbmutex_free) sx_block(&cbmutex_free); }
void FSEventStreamRelease(FSEventStreamRef s) { Stream* t = st(s); if (!t) return; if (t->queue && !t->invalid) wrong("released while scheduled"); t->released = true; t->o->refs--; if (t->paths) drop(t->paths); }
void FSEventStreamRetain(FSEventStreamRef s) { if (st(s)) S.o->refs++; }
// ---------------------------------------------------------------- dispatch
struct Sem { Obj* o; int value; int ready; }; static Sem sems[2]; static int nsems; static Obj* queue_;
static Sem* sem(void const* p) { for (int i = 0; i < nsems; i++) if ((void const*)sems[i].o == p) return &sems[i]; wrong("not a semaphore"); return nullptr; }
dispatch_semaphore_t dispatch_semaphore_create(long v) { if (nsems >= 2) sx_unmodelled("too many semaphores"); Sem& s = sems[nsems++]; s.o = make(OSEM); s.value = (int)v; s.ready = v > 0; return (dispatch_semaphore_t)s.o; }
long dispatch_semaphore_wait(dispatch_semaphore_t p, dispatch_time_t t) { Sem* s = sem(p); if (!s) return 1; if (t != DISPATCH_TIME_FOREVER && s->value <= 0) { sx_yield("semaphore"); if (s->value <= 0) return 1; } while (s->value <= 0) sx_block(&s->ready); s->value--; s->ready = s->value > 0; return 0; }
long dispatch_semaphore_signal(dispatch_semaphore_t p) { Sem* s = sem(p); if (!s) return 0; s->value++; s->ready = 1; sx_yield("signal"); return 1; }
dispatch_queue_t dispatch_get_global_queue(long, unsigned long f) { if (f) wrong("flags are reserved"); if (fails()) return nullptr; if (!queue_) queue_ = make(OQUEUE); return (dispatch_queue_t)queue_; }
dispatch_queue_t dispatch_queue_create(char const*, void*) { if (!queue_) queue_ = make(OQUEUE); return (dispatch_queue_t)queue_; }
void dispatch_release(void* p) { Obj* o = (Obj*)p; if (!o || o->refs <= 0) wrong("dispatch_release of nothing"); else o->refs--; }
dispatch_time_t dispatch_time(dispatch_time_t, int64_t d) { return (dispatch_time_t)d; }
}
// ---------------------------------------------------------------- which names exist, when asked
static int existing[4];
static int exists_now(char const* p) { for (int i = 0; i < 3; i++) if (!strcmp(p, NAMES[i])) return existing[i]; return *p ? -1 : 0; }
static int const never = 0; static void settle() { sx_block_timed(&never); }
static uint32_t const TYPES = kFSEventStreamEventFlagItemIsFile | kFSEventStreamEventFlagItemIsDir | kFSEventStreamEventFlagItemIsSymlink, HARD = kFSEventStreamEventFlagItemIsHardlink | kFSEventStreamEventFlagItemIsLastHardlink;
static uint32_t const MODIFY = kFSEventStreamEventFlagItemModified | kFSEventStreamEventFlagItemChangeOwner | kFSEventStreamEventFlagItemXattrMod | kFSEventStreamEventFlagItemFinderInfoMod;
static uint32_t const EFFECTS = MODIFY | kFSEventStreamEventFlagItemInodeMetaMod | kFSEventStreamEventFlagItemCreated | kFSEventStreamEventFlagItemRemoved | kFSEventStreamEventFlagItemRenamed;
static int type_of(uint32_t f) { return f & kFSEventStreamEventFlagItemIsFile ? T_FILE : f & kFSEventStreamEventFlagItemIsDir ? T_DIR : f & kFSEventStreamEventFlagItemIsSymlink ? T_SYM : f & HARD ? T_HARD : T_OTHER; }
static uint32_t flags_() { if (sx_param("renames", 0)) return kFSEventStreamEventFlagItemRenamed | kFSEventStreamEventFlagItemIsFile; uint32_t f = sx_u32("flags"), t = f & TYPES; sx_assume(!(t & (t - 1))); return f; } // a path is one kind of thing

static void translate(int nb, int ne, int names) {
  int n0, nb0 = 0; bool ok; struct Want { int eff, type, name, from; }; 
  static bool seen[4]; int last = -1;
  { wtr::watch w("/w", record); settle(); sx_check(S.started && nrecs == 1, "darwin-translate:is-watching"); sx_check(S.paths && S.paths->item && !strcmp(S.paths->item->str, "/w"), "darwin-translate:watches-the-path"); sx_check(S.flags & kFSEventStreamCreateFlagFileEvents, "darwin-translate:asks-for-files"); sx_check(!(S.flags & (kFSEventStreamCreateFlagUseCFTypes | kFSEventStreamCreateFlagIgnoreSelf)), "darwin-translate:asks-for-everything"); sx_check(S.since == kFSEventStreamEventIdSinceNow, "darwin-translate:from-now-on");
    if (sx_bool("lacking")) { unsigned f = kFSEventStreamEventFlagItemCreated; char const* p = NAMES[0]; FSEventStreamEventId id = 1; int k = (int)sx_choose(3, "which"); S.cb((ConstFSEventStreamRef)S.o, k == 0 ? nullptr : S.info, 1, k == 1 ? nullptr : (void*)&p, k == 2 ? nullptr : &f, &id); sx_check(nrecs == 1, "darwin-translate:nothing-from-nothing"); sx_cover("lacking"); }
    for (int b = 0; b < nb; b++) { Batch& t = todo[b]; t.n = ne; for (int i = 0; i < 3; i++) existing[i] = sx_bool("exists"); for (int i = 0; i < t.n; i++) { t.e[i].name = names > 1 ? (int)sx_choose(names, "name") : 0; t.e[i].flags = flags_(); }
      n0 = nrecs; ntodo = b + 1; send_next(); int at = n0;
      for (int i = 0; i < t.n; i++) { uint32_t f = t.e[i].flags; int nm = t.e[i].name, ty = type_of(f);
        // what must be said of this record, whichever order its modification comes in
        Want want[4]; int nw = 0; bool kf = false;
        if (!(f & EFFECTS)) { want[nw++] = Want{E_OTHER, ty, nm, -1}; sx_cover("other"); }
        if (f & kFSEventStreamEventFlagItemCreated) { if (!seen[nm]) { want[nw++] = Want{E_CREATE, ty, nm, -1}; sx_cover("create"); } else sx_cover("again"); seen[nm] = true; }
        if (f & kFSEventStreamEventFlagItemRemoved) { if (seen[nm]) { want[nw++] = Want{E_DESTROY, ty, nm, -1}; sx_cover("destroy"); } else kf = true; seen[nm] = false; }
        if (f & MODIFY) { want[nw++] = Want{E_MODIFY, ty, nm, -1}; sx_cover("modify"); }
        if (f & kFSEventStreamEventFlagItemRenamed) { if (last >= 0 && NAMES[last][0] && last != nm && !existing[last]) { want[nw++] = Want{E_RENAME, ty, nm, last}; last = -1; sx_cover("rename"); } else last = nm; }
        int end = at; while (end < nrecs && end - at < nw) end++; sx_check(end - at == nw, "darwin-translate:everything-is-reported"); if (end - at != nw) return;
        int pc = -1, pd = -1;
        for (int k = 0; k < nw; k++) { int hit = -1; for (int j = at; j < end; j++) if (recs[j].effect == want[k].eff && hit < 0) hit = j; sx_check(hit >= 0, "darwin-translate:effect-type"); if (hit < 0) continue; Rec& r = recs[hit]; if (want[k].eff == E_CREATE) pc = hit; if (want[k].eff == E_DESTROY) pd = hit;
          sx_check(r.type == want[k].type, "darwin-translate:path-type");
          if (want[k].eff == E_RENAME) { sx_check(r.assoc && !r.deep && r.aeffect == E_RENAME && r.atype == want[k].type, "darwin-translate:associated"); sx_check(eq(r.path, NAMES[want[k].from]), "darwin-translate:from-path"); if (r.assoc) sx_check(eq(r.apath, NAMES[nm]), "darwin-translate:to-path"); }
          else { sx_check(!r.assoc, "darwin-translate:no-associate"); sx_check(eq(r.path, NAMES[nm]), "darwin-translate:path"); } }
        if (pc >= 0 && pd >= 0) sx_check(pc < pd, "darwin-translate:created-before-destroyed");
        if (kf) { sx_cover("unseen"); sx_check_kf(0, 1, "darwin-unseen-removal", "darwin-translate:every-removal-is-reported"); }
        at = end; }
      sx_check(at == nrecs, "darwin-translate:nothing-else-is-reported"); }
    ntodo = sent; n0 = nrecs; ok = w.close(); }
  sx_check(ok, "darwin-close:clean-stop"); check_framing("/w", true, n0); sx_check(nrecs == n0 + 1, "darwin-translate:nothing-else-is-reported"); observe_recs(); }

// the system's thread, delivering what happens when it likes
static int go = 0;
static void pump(void*) { while (sent < ntodo) { sx_yield("pump"); if (!cbmutex_free || S.stopped || sent >= ntodo) break; cbmutex_free = 0; send_next(); cbmutex_free = 1; } }
static void life(int n, int mode) {
  bool ok = true; int n_end = 0; fail_at = sx_param("fail", 0) ? (int)sx_choose(6, "failing") : 0; for (int i = 0; i < n; i++) { todo[i].n = 1; todo[i].e[0].name = i; todo[i].e[0].flags = kFSEventStreamEventFlagItemCreated | kFSEventStreamEventFlagItemIsFile; }
  bool early = sx_param("early", 0); int pushed = 0;
  { wtr::watch w("/w", record); if (!early) { settle(); if (S.started) { ntodo = n; pushed = n; sx_thread(pump, nullptr); if (sx_bool("let")) sx_yield("let"); } }
    ok = w.close(); n_end = nrecs; closed_flag = true; if (mode) { sx_check(!w.close(), "darwin-close:closed-again"); } }
  settle(); observe_recs();
  bool failed = fail_at && calls >= fail_at; if (failed) sx_cover("failed"); else sx_cover("ran");
  if (!early || S.started) sx_check(ok == !failed, failed ? "darwin-close:failure-is-told" : "darwin-close:clean-stop");
  sx_check(after_close == 0, "darwin-close:closed-is-quiet"); sx_check(nrecs >= 2 && recs[0].type == T_WATCHER && recs[nrecs - 1].type == T_WATCHER, "darwin-close:framed");
  if (S.o) { sx_check(S.released && S.o->refs == 0, "darwin-close:stream-is-released"); if (S.started) sx_check(S.stopped, "darwin-close:stream-is-stopped"); }
  for (int i = 0; i < nobjs; i++) sx_check(objs[i].refs >= 0, "darwin-close:system-objects-are-used-as-documented");
  if (pushed) { int m = 0; for (int i = 0; i < nrecs; i++) if (recs[i].type != T_WATCHER) { sx_check(m < n && eq(recs[i].path, NAMES[m]), "darwin-close:in-order"); m++; } sx_check(m == n, "darwin-close:outstanding-events-are-delivered"); if (m == n) sx_cover("delivered"); }
  sx_check(!sx_threads_live(), "darwin-close:threads-are-gone"); }

extern "C" void sx_main() {
  W::add("/w", DT_DIR); W::add("/w/d", DT_DIR); W::stat_hook = exists_now;
  if (sx_param("life", 0)) life(sx_param("n", 1), sx_param("mode", 0)); else translate(sx_param("nb", 1), sx_param("ne", 1), sx_param("names", 1)); }
