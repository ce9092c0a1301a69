// The life of one watcher: every interleaving of its user and its own thread at
// the granularity of system calls and atomic operations.
#include "rec.hpp"
static int mode, nev, supplied, stop_asked, reads_after_stop, endless; extern "C" int sx_threads_live(void);
static bool posted() { for (auto& f : W::fds) if (f.open && f.kind == W::KEVENTFD && f.counter) return true; return false; }
static bool hasb() { return (endless && posted()) || supplied < nev; }
static long fillb(int fd, char* buf, size_t cap) {
  if (posted()) { reads_after_stop++; sx_check(reads_after_stop <= 2, "stop-priority:events-do-not-delay-a-stop"); if (reads_after_stop > 2) sx_end_path(); }
  if (!hasb()) return -EAGAIN;
  supplied++; inotify_event h; memset(&h, 0, sizeof h); h.wd = 1; h.mask = IN_MODIFY; h.len = 16; memcpy(buf, &h, sizeof h); memset(buf + 16, 0, 16); buf[16] = 'f'; return 32; }
static int in_cb; static void cb(wtr::event const& e) { sx_check(in_cb == 0, "callback-serial:one-at-a-time"); in_cb = 1; sx_yield("callback"); record(e); in_cb = 0; }
extern "C" void sx_main() {
  mode = sx_param("mode", 0); nev = sx_param("nev", 1); endless = sx_param("endless", 0); int wait = sx_param("wait", 0); bool bad = sx_param("bad", 0);
  W::cfg.yields = true; W::cfg.fault_budget = sx_param("budget", 0); W::cfg.faults = W::cfg.fault_budget > 0; W::add("/w", DT_DIR); W::add("/f", DT_REG); W::fill = fillb; W::has_batch = hasb;
  unsigned long long h0 = sx_heap_live(); bool ok = false, ok2 = false; bool closed = false; {
    std::function<void(wtr::event const&)> f = cb; wtr::watch w(bad ? "/f" : "/w", f);
    if (wait) sx_block(&W::idle);
    stop_asked = 1;
    if (mode != 1) { ok = w.close(); closed = true; closed_flag = true; sx_check(!sx_threads_live(), "no-callback-after-close:thread-is-gone-once-closed"); }
    if (mode == 2) { ok2 = w.close(); sx_check(!ok2, "close-result:second-close-is-false"); } }
  closed_flag = true; sx_check(!sx_threads_live(), "no-callback-after-close:thread-is-gone");
  int n = nrecs; for (int i = 0; i < 3; i++) sx_yield("later"); sx_check(nrecs == n && after_close == 0 && !in_cb, "no-callback-after-close:quiet");
  observe_recs(); sx_observe("ok", ok);
  bool good = nrecs && starts(recs[0].path, "s/"); if (good) sx_cover("ran"); else sx_cover("never-ran");
  if (wait) sx_check(good, "lifecycle-framing:began");
  check_framing(bad ? "/f" : "/w", good, nrecs);
  if (closed) sx_check(ok == good, "close-result:matches-what-happened");
  if (!good) sx_check(nrecs == 2 && W::epoll_waits == 0, "lifecycle-framing:nothing-between-failed-start-and-end");
  if (bad) sx_check(!good && nrecs && eq(recs[0].path, "e/self/live@/f"), "error-reporting:bad-path-is-an-error");
  sx_check(W::open_count() == 0 && W::open_dirs == 0, "fd-hygiene:everything-is-closed"); sx_check(W::bad_closes == 0 && (W::nfaulted || W::bad_uses == 0) && W::dir_bad == 0, "fd-hygiene:no-stale-descriptor");
  for (int i = 0; i < nrecs; i++) recs[i] = Rec{};
  int cbs = nrecs - 2; (void)cbs;
}
