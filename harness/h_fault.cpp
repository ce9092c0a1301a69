// One watcher whose system calls may fail at any point.
#include "rec.hpp"
extern "C" int sx_threads_live(void);
static int stage, batches, delivered, rfault, cfg_fan; static std::string failed_path[8]; static int nfailed;
static bool hasb() { return stage == 1; }
static long fillb(int fd, char* buf, size_t cap) {
  if (stage != 1) return -EAGAIN; int c = (int)sx_choose(4, "read"); stage = 2; rfault = c; if (c == 1) return -EIO; if (c == 2) return -EAGAIN; if (c == 3 && cfg_fan) return 0; delivered = 1;
  if (W::fds[fd].kind == W::KINOTIFY) { inotify_event h; memset(&h, 0, sizeof h); h.wd = 1; h.mask = IN_MODIFY; h.len = 16; memcpy(buf, &h, sizeof h); memset(buf + 16, 0, 16); buf[16] = 'f'; return 32; }
  fanotify_event_metadata m; memset(&m, 0, sizeof m); m.vers = FANOTIFY_METADATA_VERSION; m.metadata_len = sizeof m; m.fd = FAN_NOFD; m.mask = FAN_MODIFY; m.event_len = sizeof m + 20 + 8 + 4; memcpy(buf, &m, sizeof m);
  char* q = buf + sizeof m; memset(q, 0, 40); fanotify_event_info_header ih; ih.info_type = FAN_EVENT_INFO_TYPE_DFID_NAME; ih.pad = 0; ih.len = 32; memcpy(q, &ih, 4); unsigned hb = 8; memcpy(q + 12, &hb, 4); q[20 + 8] = 'f'; return m.event_len; }
static int obh(file_handle* h, int fl) { if (W::flt("fail_open_by_handle")) return -ESTALE; return W::new_fd(W::KDIRFD, fl); }
static ssize_t rdlnk(char const* p, char* b, size_t n) { if (W::flt("fail_readlink")) return -ENOENT; b[0] = '/'; b[1] = 'w'; return 2; }
static bool opened_inotify() { for (auto& f : W::fds) if (f.kind == W::KINOTIFY) return true; return false; }
static bool opened_fanotify() { for (auto& f : W::fds) if (f.kind == W::KFANOTIFY) return true; return false; }
extern "C" void sx_main() {
  int budget = sx_param("budget", 1), root = sx_param("root", 0), ev = sx_param("ev", 0), sub = sx_param("sub", 1), cl = sx_param("close", 1);
  W::cfg.faults = budget > 0; W::cfg.fault_budget = budget; W::cfg.root = root; W::cfg.fanotify = root == 2; cfg_fan = root == 2; W::cfg.eintr = sx_param("eintr", 0); W::cfg.fd0 = sx_param("fd0", 0);
  W_obh = obh; W_readlink = rdlnk; W::add("/w", DT_DIR); if (sub) W::add("/w/a", DT_DIR); if (sub) W::add("/w/b", DT_DIR); W::fill = fillb; W::has_batch = hasb; stage = 0;
  bool ok = false; int n1 = 0; bool early; { wtr::watch w("/w", record); sx_block(&W::idle); early = W::idle == 2;
    if (ev && !early) { stage = 1; W::idle = 0; W::notify(); sx_block(&W::idle); }
    n1 = nrecs; if (cl) ok = w.close(); }
  closed_flag = true; observe_recs(); sx_observe("ok", ok);
  bool nostart = W::did_fault("fail_absolute") || W::did_fault("fail_status");
  bool fan = opened_fanotify(), ino = opened_inotify();
  int marked = 0; for (int i = 0; i < W::nwatches; i++) marked++;
  bool readerr = rfault == 1 && stage == 2;
  bool fatal = !nostart && (W::did_fault("fail_eventfd") || W::did_fault("fail_inotify_init") || W::did_fault("fail_epoll_create") || W::did_fault("fail_epoll_ctl") || W::did_fault("fail_epoll_wait") || readerr || (!fan && !marked));
  // the stop request itself needs the descriptor which could not be made
  if (fatal) sx_cover("fatal"); else if (nostart) sx_cover("no-start"); else if (W::nfaulted) sx_cover("survived"); else sx_cover("no-fault");
  sx_check(!sx_threads_live(), "no-callback-after-close:thread-is-gone");
  // ---- framing
  sx_check(nrecs >= 2, "lifecycle-framing:both-messages"); if (nrecs < 2) return;
  sx_check(recs[0].type == T_WATCHER && recs[0].effect == E_CREATE && starts(recs[0].path, nostart ? "e/self/live@" : "s/self/live@"), "lifecycle-framing:first-is-live");
  Rec& z = recs[nrecs - 1]; sx_check(z.type == T_WATCHER && z.effect == E_DESTROY && starts(z.path, fatal || nostart ? "e/self/die@" : "s/self/die@"), "lifecycle-framing:last-is-die");
  for (int i = 1; i < nrecs - 1; i++) sx_check(recs[i].type != T_WATCHER || (recs[i].effect == E_OTHER && !starts(recs[i].path, "s/self/") && !starts(recs[i].path, "e/self/live") && !starts(recs[i].path, "e/self/die")), "lifecycle-framing:only-once");
  // ---- errors are reported, and only errors
  int errs = 0, warns = 0; for (int i = 1; i < nrecs - 1; i++) if (recs[i].type == T_WATCHER) { if (starts(recs[i].path, "e/")) errs++; if (starts(recs[i].path, "w/")) warns++; }
  if (cl) sx_check(ok == !(fatal || nostart), "close-result:matches-what-happened");
  sx_check(fatal ? errs == 1 : errs == 0, "error-reporting:one-message-per-fatal-error"); sx_check(!(fatal && !nostart) || early || readerr || W::did_fault("fail_epoll_wait"), "error-reporting:watcher-gives-up");
  if (fatal) { char const* want = W::did_fault("fail_inotify_init") ? "e/sys/api/inotify@/w" : W::did_fault("fail_epoll_create") || W::did_fault("fail_epoll_ctl") || W::did_fault("fail_epoll_wait") || W::did_fault("fail_eventfd") ? "e/sys/api/epoll@/w" : readerr ? "e/sys/api/read@/w" : "e/self/noent@/w"; if (W::nfaulted + readerr == 1) sx_check(eq(recs[nrecs - 2].path, want), "error-reporting:names-the-cause"); }
  bool dirfail = W::did_fault("fail_add_watch") || W::did_fault("fail_fanotify_mark") || W::did_fault("fail_opendir");
  if (!nostart && !fatal && (W::did_fault("fail_add_watch") || W::did_fault("fail_fanotify_mark"))) { sx_cover("unwatched-reported"); bool told = false; for (int i = 1; i < nrecs - 1; i++) if (starts(recs[i].path, "w/sys/not_watched@/w") && recs[i].type == T_WATCHER) told = true; sx_check(told, "error-reporting:unwatched-directory-is-reported"); }
  if (!W::nfaulted && rfault != 1) sx_check(!warns, "error-reporting:no-needless-warning");
  if (W::did_fault("fail_open_by_handle") || W::did_fault("fail_readlink")) { sx_cover("lost-path"); sx_check(warns >= 1, "error-reporting:lost-event-is-reported"); delivered = 0; }
  if (fan && warns && (W::did_fault("fail_open") || W::did_fault("fail_stat") || W::did_fault("fail_statfs"))) delivered = 0; // told of a loss
  // ---- delivery goes on
  if (ev && !fatal && !nostart && stage == 2 && delivered) { bool got = false; for (int i = 1; i < n1; i++) if (recs[i].type == T_FILE && recs[i].effect == E_MODIFY && eq(recs[i].path, fan ? std::string("/w/f") : std::string(W::watches[0].path) + "/f")) got = true; sx_check(got, "wait-interrupt:still-watching"); sx_cover("delivered"); }
  if (!fatal && !nostart) sx_check(!early, "wait-interrupt:does-not-give-up");
  // ---- which interface
  if (root == 2 && !nostart) { bool ff = W::did_fault("fail_fanotify_init"); if (ff) sx_cover("fallback"); sx_check(ff ? (!fan && (ino || W::did_fault("fail_inotify_init"))) : fan, "adapter-fallback:inotify-when-fanotify-is-refused"); if (!ff) sx_check(!ino, "adapter-fallback:not-both"); }
  if (root == 1 && !nostart) sx_check(ino || W::did_fault("fail_inotify_init"), "adapter-fallback:inotify-when-fanotify-is-refused");
  if (root == 0 && !nostart) sx_check(!fan && (ino || W::did_fault("fail_inotify_init")), "adapter-fallback:unprivileged-uses-inotify");
  // ---- nothing is left open, nothing is closed twice
  sx_check(W::open_count() == 0, "fd-hygiene:everything-is-closed"); sx_check(W::open_dirs == 0 && W::dir_bad == 0, "fd-hygiene:directories-are-closed"); sx_check(W::bad_closes == 0, "fd-hygiene:nothing-is-closed-twice");
  for (auto& f : W::fds) { if (f.kind == W::KEVENTFD) sx_check(f.flags & EFD_CLOEXEC, "fd-hygiene:not-inherited"); if (f.kind == W::KEPOLL) sx_check(f.flags & EPOLL_CLOEXEC, "fd-hygiene:not-inherited"); if (f.kind == W::KINOTIFY) sx_check(f.flags & IN_CLOEXEC, "fd-hygiene:not-inherited"); if (f.kind == W::KFANOTIFY) sx_check(f.flags & FAN_CLOEXEC, "fd-hygiene:not-inherited"); if (f.kind == W::KDIRFD) sx_check(f.flags & O_CLOEXEC, "fd-hygiene:not-inherited"); }
}
