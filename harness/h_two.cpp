// Two watchers in one process know nothing of each other.
#include "rec.hpp"
extern "C" int sx_threads_live(void);
static int fan, quota[W::FDMAX], sent[W::FDMAX], letter_of[W::FDMAX];
static bool hasb(int fd) { return sent[fd] < quota[fd]; }
static char handle_fd;
static int pack = 1; // events given at once, read together
static long fill1(int fd, char* buf) {
  sent[fd]++; sx_cover("event");
  if (W::fds[fd].kind == W::KINOTIFY) { inotify_event h; memset(&h, 0, sizeof h); h.wd = 1; h.mask = IN_CREATE; h.len = 16; memcpy(buf, &h, sizeof h); memset(buf + 16, 0, 16); buf[16] = 'A' + fd; buf[17] = '0' + sent[fd]; return 32; }
  fanotify_event_metadata m; memset(&m, 0, sizeof m); m.vers = FANOTIFY_METADATA_VERSION; m.metadata_len = sizeof m; m.fd = FAN_NOFD; m.mask = FAN_CREATE; m.event_len = sizeof m + 20 + 8 + 4; memcpy(buf, &m, sizeof m);
  char* q = buf + sizeof m; memset(q, 0, 40); fanotify_event_info_header ih; ih.info_type = FAN_EVENT_INFO_TYPE_DFID_NAME; ih.pad = 0; ih.len = 32; memcpy(q, &ih, 4); unsigned hb = 8; memcpy(q + 12, &hb, 4); q[20] = (char)fd; q[20 + 8] = 'A' + fd; q[20 + 9] = '0' + sent[fd]; return m.event_len; }
static long fillb(int fd, char* buf, size_t cap) { if (!hasb(fd)) return -EAGAIN; long n = 0; for (int k = 0; k < pack && hasb(fd); k++) n += fill1(fd, buf + n); return n; }
static char const* dir_of(int fd) { for (int i = 0; i < W::nwatches; i++) if (W::watches[i].fd == fd) return W::watches[i].path; return "?"; }
static int link_of[W::FDMAX];
static int obh(file_handle* h, int fl) { int f = W::new_fd(W::KDIRFD, fl); link_of[f] = ((char*)h->f_handle)[0]; return f; }
static ssize_t rdlnk(char const* p, char* b, size_t n) { int f = 0; for (char const* q = p; *q; q++) if (*q == '/') f = 0; else f = f * 10 + (*q - '0'); char const* d = dir_of(link_of[f & 63]); size_t l = strlen(d); memcpy(b, d, l); return l; }
static Rec got[2][16]; static int ngot[2], in_cb[2], over[2], late[2];
template<int I> static void cb(wtr::event const& e) {
  sx_check(!in_cb[I], "two-watchers:one-callback-at-a-time"); in_cb[I] = 1; if (over[I]) late[I]++; sx_yield("callback"); if (ngot[I] >= 16) sx_unmodelled("too many events"); Rec& r = got[I][ngot[I]++]; r.path = e.path_name.native(); r.effect = et(e.effect_type); r.type = pt(e.path_type); r.assoc = e.associated != nullptr; r.tid = sx_self(); in_cb[I] = 0; }
static int const never = 0; static void settle() { sx_block_timed(&never); } // until nothing moves
static void give(int n) { for (int f = 0; f < W::FDMAX; f++) if (W::fds[f].open && (W::fds[f].kind == W::KINOTIFY || W::fds[f].kind == W::KFANOTIFY)) { bool used = false; for (int i = 0; i < W::nwatches; i++) if (W::watches[i].fd == f) used = true; if (used) quota[f] += n; } W::notify(); }
// nothing failed in what this watcher does
static bool sound(int i) { return !W::nfaulted || (W::fault_tid != 0 && ngot[i] && W::fault_tid != got[i][0].tid); }
extern "C" void sx_main() {
  fan = sx_param("fan", 0); int same = sx_param("same", 0), bad = sx_param("bad", 0), early = sx_param("early", 0), dtor = sx_param("dtor", 0); W::cfg.yields = sx_param("yields", 1); W::cfg.root = W::cfg.fanotify = fan; W::cfg.fault_budget = sx_param("budget", 0); W::cfg.faults = W::cfg.fault_budget > 0;
  pack = sx_param("pack", 1); W_obh = obh; W_readlink = rdlnk; W::fill = fillb; W::has_batch_on = hasb; W::add("/w", DT_DIR); W::add("/v", DT_DIR); W::add("/f", DT_REG); int sub = sx_param("sub", 0); if (sub) { W::add("/w/d", DT_DIR); W::add("/v/e", DT_DIR); }
  char const* p[2] = {"/w", bad ? "/f" : same ? "/w" : "/v"}; bool ok[2] = {}; int first = (int)sx_choose(2, "first"), n0[2] = {}; bool settled = false; int expect = -1;
  {
    wtr::watch a(p[0], cb<0>); wtr::watch b(p[1], cb<1>); wtr::watch* w[2] = {&a, &b};
    if (sub) { settle(); int nw[2] = {}, ns[2] = {}, fds[2] = {-1, -1}; for (int k = 0; k < W::nwatches; k++) { char const* q = W::watches[k].path; int i = q[1] == 'v'; if (same) i = 0; bool root = !strcmp(q, p[i]), kid = !strcmp(q, i ? "/v/e" : "/w/d"); sx_check(root || kid, "two-watchers:each-watches-its-own-tree"); if (root) { nw[i]++; fds[i] = W::watches[k].fd; } }
      for (int k = 0; k < W::nwatches; k++) { int i = W::watches[k].path[1] == 'v'; if (!strcmp(W::watches[k].path, i ? "/v/e" : "/w/d")) { ns[i]++; sx_check(same || W::watches[k].fd == fds[i], "two-watchers:each-watches-its-own-tree"); } }
      for (int i = 0; i < 2; i++) if (!(same && i)) sx_check(nw[i] == 1 + same && ns[i] == 1 + same, "two-watchers:each-watches-its-own-tree"); sx_cover("subdirectories"); }
    if (!early) { settle(); { give(pack); settle(); settled = true; } }
    ok[first] = w[first]->close(); over[first] = 1; sx_check(in_cb[first] == 0, "two-watchers:closed-is-quiet");
    if (!early && sound(1 - first) && !(bad && first == 0)) { // the other goes on
      sx_cover("goes-on"); n0[1 - first] = ngot[1 - first]; expect = 1 - first; give(pack); settle(); if (!sound(expect)) expect = -1; else sx_check(ngot[expect] == n0[expect] + pack, "two-watchers:the-other-goes-on"); }
    if (dtor) { over[1 - first] = 0; } else { ok[1 - first] = w[1 - first]->close(); over[1 - first] = 1; }
  }
  over[0] = over[1] = 1; sx_check(!sx_threads_live(), "two-watchers:threads-are-gone"); sx_check(!late[0] && !late[1], "two-watchers:closed-is-quiet");
  for (int i = 0; i < 2; i++) { sx_observe("n", ngot[i]); for (int k = 0; k < ngot[i]; k++) sx_observe_str("ev", got[i][k].path); }
  int letters[2] = {0, 0};
  for (int i = 0; i < 2; i++) { if (sound(i)) sx_cover(W::nfaulted ? "other-failed" : "sound"); sx_check(ngot[i] >= 2, "two-watchers:each-has-its-messages"); if (ngot[i] < 2) continue; Rec *l = &got[i][0], *z = &got[i][ngot[i] - 1]; bool good = starts(l->path, "s/");
    std::string pi = p[i]; bool died = starts(z->path, "s/"); sx_check(l->type == T_WATCHER && l->effect == E_CREATE && (sound(i) ? eq(l->path, (good ? "s/self/live@" : "e/self/live@") + pi) : starts(l->path, good ? "s/self/live@" : "e/self/live@")), "two-watchers:each-has-its-messages"); sx_check(z->type == T_WATCHER && z->effect == E_DESTROY && (sound(i) ? eq(z->path, (died ? "s/self/die@" : "e/self/die@") + pi) : starts(z->path, died ? "s/self/die@" : "e/self/die@")), "two-watchers:each-has-its-messages");
    if (!dtor || i == first) sx_check(ok[i] == died, "two-watchers:each-has-its-result"); if (sound(i)) { if (settled && !(bad && i)) sx_check(good && died, "two-watchers:each-has-its-result"); if (bad && i) sx_check(!good && !died, "two-watchers:each-has-its-result"); }
    int seen = 0; for (int k = 1; k < ngot[i] - 1; k++) { Rec& r = got[i][k]; if (r.type == T_WATCHER) { sx_check(!sound(i), "two-watchers:no-complaint"); continue; } sx_check(r.effect == E_CREATE && r.type == T_FILE && !r.assoc && r.path.size() == 5 && starts(r.path, p[i]), "two-watchers:own-events-only"); if (r.path.size() != 5) continue; seen++;
      if (!letters[i]) letters[i] = r.path[3]; sx_check(r.path[3] == letters[i] && r.path[4] == '0' + seen, "two-watchers:own-events-only"); }
    if (settled && sound(i) && !(bad && i)) sx_check(seen == pack * (1 + (expect == i)), "two-watchers:every-event-once"); }
  sx_check(!letters[0] || letters[0] != letters[1], "two-watchers:own-events-only");
  sx_check(W::open_count() == 0 && W::open_dirs == 0 && W::bad_closes == 0 && (W::nfaulted || W::bad_uses == 0), "two-watchers:nothing-shared-is-left");
}
