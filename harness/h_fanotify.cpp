// The fanotify adapter, driven through wtr::watch, over arbitrary kernel event batches,
// compared with an independent account of what fanotify(7) says they mean.
#include "rec.hpp"
#include <linux/magic.h>
struct Ev { int h, hb; uint32_t mask; int vers, fd, info, nlen, len; char name[4]; int o1, o2; };
constexpr int BMAX = 4, EMAX = 4; static Ev evs[BMAX][EMAX]; static int nev[BMAX]; static int nbatch, atbatch, maxe, wide, kids, odd, merged, moves;
static uint32_t const REQ = FAN_CREATE | FAN_DELETE | FAN_MODIFY | FAN_MOVED_FROM | FAN_MOVED_TO; static uint32_t const MOVE = FAN_MOVED_FROM | FAN_MOVED_TO;
enum { H_W = 1, H_A = 2, H_STALE = 3, H_LOST = 4 };
static bool hasb() { return atbatch < nbatch; }
static uint32_t bit(Ev const& e) { return e.mask & ~(uint32_t)FAN_ONDIR; }
// with "mounts", the subdirectory is another filesystem; a handle is only good for its own
static int mounts; static bool under_a(char const* p) { return p[0] == '/' && p[1] == 'w' && p[2] == '/' && p[3] == 'a' && (!p[4] || p[4] == '/'); }
static int fsof(char const* p) { return !mounts ? 0 : under_a(p) ? 2 : p[0] == '/' && p[1] == 'w' && (!p[2] || p[2] == '/') ? 1 : 3; }
static int st_hook(char const* p) { return !strcmp(p, "/w") || !strcmp(p, "/w/a") ? 2 : -1; }
static long fillb(int, char* buf, size_t cap) {
  if (atbatch >= nbatch) return -EAGAIN; int b = atbatch++; size_t o = 0; int n = moves ? maxe : maxe > 1 ? 1 + (int)sx_choose(maxe, "nevents") : 1; nev[b] = n;
  for (int i = 0; i < n; i++) { Ev& e = evs[b][i]; int k = odd ? (int)sx_choose(5, "kind") : 0; // 0 a usable record, 1 overflow, 2 other version, 3 carries a descriptor, 4 other information
    e.h = 1 + (int)sx_choose(odd ? 4 : 2, "dir"); e.hb = e.h == H_A ? 12 : 8; e.vers = FANOTIFY_METADATA_VERSION; e.fd = FAN_NOFD; e.info = FAN_EVENT_INFO_TYPE_DFID_NAME;
    static uint32_t const mv[] = {FAN_MOVED_FROM, FAN_MOVED_TO, FAN_MODIFY}; e.mask = moves ? mv[sx_choose(i < 2 ? 2 : 3, "move")] : sx_u32("mask"); uint32_t m = bit(e); if (k == 1) sx_assume(e.mask == FAN_Q_OVERFLOW); else { sx_assume(m && !(m & ~REQ)); if (!merged) sx_assume(!(m & (m - 1))); }
    if (k == 2) { e.vers = sx_u8("vers"); sx_assume(e.vers != FANOTIFY_METADATA_VERSION); } if (k == 3) e.fd = W::new_fd(W::KOTHER, O_CLOEXEC);
    if (k == 4) { e.info = sx_u8("info_type"); sx_assume(e.info != FAN_EVENT_INFO_TYPE_DFID_NAME); }
    e.nlen = 1 + (wide ? (int)sx_choose(2, "namelen") : 0); for (int j = 0; j < e.nlen; j++) { e.name[j] = moves ? (char)('p' + i) : (char)sx_u8("name"); sx_assume(e.name[j] != 0 && e.name[j] != '/'); } e.name[e.nlen] = 0; if (e.nlen == 2) sx_assume(e.name[0] != '.' || e.name[1] != '.');
    char* p = buf + o; fanotify_event_metadata md; memset(&md, 0, sizeof md); md.vers = e.vers; md.metadata_len = sizeof md; md.mask = e.mask; md.fd = e.fd; md.pid = 1;
    if (k == 1) { md.event_len = sizeof md; memcpy(p, &md, sizeof md); o += sizeof md; continue; }
    int il = (4 + 8 + 8 + e.hb + e.nlen + 1 + 3) & ~3; md.event_len = sizeof md + il; memcpy(p, &md, sizeof md); char* q = p + sizeof md; memset(q, 0, il); int fsid = !mounts ? 0 : e.h == H_A ? 2 : 1; memcpy(q + 4, &fsid, 4);
    fanotify_event_info_header ih; memset(&ih, 0, sizeof ih); ih.info_type = e.info; ih.len = il; memcpy(q, &ih, 4); unsigned hb = e.hb; memcpy(q + 12, &hb, 4); int ht = 1; memcpy(q + 16, &ht, 4); q[20] = e.h; memcpy(q + 20 + e.hb, e.name, e.nlen + 1); o += md.event_len; }
  sx_cover("batch"); return (long)o; }
static int fdh[W::FDMAX];
static int obh(file_handle* h, int fl) { int k = h->f_handle[0]; sx_check(k >= 1 && k <= 4 && h->handle_bytes == (k == H_A ? 12 : 8), "fanotify-translate:directory-handle"); if (k == H_STALE) return -ESTALE; if (W_mount_fs != (mounts ? k == H_A ? 2 : 1 : 0)) return -ESTALE; if (mounts) sx_cover(W::cwd_fs == W_mount_fs ? "same-filesystem" : "other-filesystem"); int f = W::new_fd(W::KDIRFD, fl); fdh[f] = k; return f; }
static ssize_t rdl(char const* p, char* b, size_t n) { if (!starts(p, "/proc/self/fd/")) return -ENOENT; int f = 0; for (p += 14; *p; p++) f = f * 10 + *p - '0'; if (f >= W::FDMAX || !W::fds[f].open) return -ENOENT; int k = fdh[f]; if (k == H_LOST) return -ENOENT; char const* s = k == H_A ? "/w/a" : "/w"; size_t l = strlen(s); if (l > n) l = n; memcpy(b, s, l); return l; }
// ---- the live filesystem, as asked about by the watcher: decided once per path and batch
struct Q { std::string path; int batch; bool gone, kid, listed, isset; }; static Q qs[24]; static int nq;
static Q& ask(char const* p) { std::string s = p; for (int i = 0; i < nq; i++) if (qs[i].batch == atbatch && eq(qs[i].path, s)) return qs[i]; if (nq >= 24) sx_violate("*:walks-without-end", "too many live paths"); Q& q = qs[nq++]; q.path = s; q.batch = atbatch; q.gone = sx_bool("path_gone"); return q; }
static bool ends_sd(std::string const& p) { size_t n = p.size(); return n > 3 && p[n - 1] == 'd' && p[n - 2] == 's' && p[n - 3] == '/'; }
static int rp_hook(char const* p, char* out) { Q& q = ask(p); if (q.gone) return 0; size_t k = 0; do out[k] = p[k]; while (p[k++]); return 1; }
static bool dir_hook(char const* p) { return !ask(p).gone; }
static int od_hook(char const* p) { Q& q = ask(p); q.listed = true; if (q.gone) return 0; if (!q.isset) { q.isset = true; q.kid = kids && !ends_sd(q.path) && sx_bool("has_subdirectory"); } return 1; }
static int rd_hook(char const* p, int pos, dirent* de) { Q& q = ask(p); if (pos || !q.kid) return 0; strcpy(de->d_name, "sd"); de->d_type = DT_DIR; return 1; }
struct A { std::string path; int batch, res; }; static A aws[24]; static int naw;
static int aw_hook(char const* p, uint32_t mask) { if (naw >= 24) sx_violate("*:walks-without-end", "too many marks"); A& a = aws[naw++]; a.path = p; a.batch = atbatch; sx_check((mask & REQ) == REQ && (mask & FAN_ONDIR) && (mask & FAN_EVENT_ON_CHILD), "fanotify-newdir:asks-for-every-effect");
  for (int i = 0; i < naw - 1; i++) if (aws[i].batch == atbatch && eq(aws[i].path, a.path)) { a.res = aws[i].res; return a.res > 0 ? 1 : a.res; }
  if (ask(p).gone) return a.res = -ENOENT; return a.res = sx_bool("mark_fails") ? -ENOSPC : 1; }
static int nkind(int b, int e, char const* p) { int n = 0; for (int i = b; i < e; i++) if (recs[i].type == T_WATCHER && starts(recs[i].path, p)) n++; return n; }
static std::string path_of(Ev const& e) { std::string d = e.h == H_A ? "/w/a" : "/w"; if (e.nlen == 1 && e.name[0] == '.') { sx_cover("self"); return d; } return d + "/" + std::string(e.name, e.nlen); }
extern "C" void sx_main() {
  nbatch = sx_param("nb", 1); maxe = sx_param("ne", 2); wide = sx_param("wide", 0); kids = sx_param("kids", 0); odd = sx_param("odd", 0); merged = sx_param("merged", 0); moves = sx_param("moves", 0);
  W::cfg.root = W::cfg.fanotify = true; rec_counter = &naw; W::add("/w", DT_DIR); W::add("/w/a", DT_DIR); W_obh = obh; W_readlink = rdl;
  mounts = sx_param("mounts", 0); W::fs_hook = fsof; W::stat_hook = st_hook; if (mounts) W::cwd_fs = 1 + (int)sx_choose(3, "cwd");
  W::fill = fillb; W::has_batch = hasb; W::realpath_hook = rp_hook; W::isdir_hook = dir_hook; W::add_watch_hook = aw_hook; W::opendir_hook = od_hook; W::readdir_hook = rd_hook;
  bool ok; int n_end; { wtr::watch w("/w", record); sx_block(&W::idle); n_end = nrecs; ok = w.close(); }
  observe_recs(); bool fatal = false; for (int b = 0; b < nbatch; b++) for (int i = 0; i < nev[b]; i++) if (evs[b][i].vers != FANOTIFY_METADATA_VERSION) fatal = true;
  sx_check(ok == !fatal, "close-result:clean-stop"); sx_check(W::nwatches >= 2 && !strcmp(W::watches[0].path, "/w") && !strcmp(W::watches[1].path, "/w/a"), "fanotify-newdir:initial-walk");
  if (fatal) { sx_cover("other-version"); n_end = nrecs - 1; sx_check(nrecs >= 3 && recs[nrecs - 2].type == T_WATCHER && eq(recs[nrecs - 2].path, "e/sys/lim/kernel_version@/w") && starts(recs[nrecs - 1].path, "e/self/die@"), "fanotify-anomalies:version-mismatch-is-fatal"); n_end = nrecs - 2; } else check_framing("/w", true, n_end);
  int at = 1, nover = 0, nfd = 0, nmeta = 0, nlost = 0; static std::string roots[24]; static int rootb[24]; int nroots = 0; bool stop = false;
  auto skipmsgs = [&] { while (at < n_end && recs[at].type == T_WATCHER) at++; };
  auto usable = [](Ev& e) { return e.vers == FANOTIFY_METADATA_VERSION && e.fd == FAN_NOFD && !(e.mask & FAN_Q_OVERFLOW) && e.info == FAN_EVENT_INFO_TYPE_DFID_NAME; };
  for (int b = 0; b < nbatch && !stop; b++)
    for (int i = 0; i < nev[b]; i++) { Ev& e = evs[b][i]; uint32_t m = bit(e);
      if (e.vers != FANOTIFY_METADATA_VERSION) { stop = true; break; }
      if (e.fd != FAN_NOFD) { sx_cover("descriptor"); nfd++; sx_check(!W::fds[e.fd].open, "fanotify-anomalies:stray-descriptor-is-closed"); continue; }
      if (m & FAN_Q_OVERFLOW) { sx_cover("overflow"); nover++; continue; }
      if (e.info != FAN_EVENT_INFO_TYPE_DFID_NAME) { sx_cover("other-information"); nmeta++; continue; }
      bool pair = false, fwd = true; int type = e.mask & FAN_ONDIR ? T_DIR : T_FILE; Ev* e2 = nullptr;
      int eff = m & FAN_CREATE ? E_CREATE : m & FAN_DELETE ? E_DESTROY : m & FAN_MODIFY ? E_MODIFY : E_RENAME;
      if ((m & MOVE) && i + 1 < nev[b] && usable(evs[b][i + 1])) { e2 = &evs[b][i + 1]; uint32_t m2 = bit(*e2); if (!merged && m2 != m && (m2 & MOVE) && (e.mask & FAN_ONDIR) != (e2->mask & FAN_ONDIR)) sx_cover("unlike"); else if (!merged && m2 != m && (m2 & MOVE)) { pair = true; fwd = m & FAN_MOVED_FROM; } }
      bool lost = e.h >= H_STALE || (pair && e2->h >= H_STALE); if (lost) { sx_cover("lost"); nlost++; if (pair) i++; continue; }
      std::string p = path_of(e), q; if (pair) q = path_of(*e2);
      skipmsgs(); char const* id = pair ? "fanotify-rename:paired" : eff == E_RENAME ? "fanotify-rename:single" : "fanotify-translate:event";
      bool there = at < n_end; sx_check(there, id); if (!there) continue; Rec& r = recs[at++];
      sx_check(r.type == type, "fanotify-translate:path-type");
      if (m & (m - 1)) { sx_cover("merged"); sx_check((r.effect == E_CREATE && (m & FAN_CREATE)) || (r.effect == E_DESTROY && (m & FAN_DELETE)) || (r.effect == E_MODIFY && (m & FAN_MODIFY)) || (r.effect == E_RENAME && (m & MOVE)), "fanotify-translate:merged-effect-happened"); eff = r.effect; }
      else sx_check(r.effect == eff, "fanotify-translate:effect-type");
      if (pair) { sx_cover("pair"); if (e.h != e2->h) sx_cover("pair-across-directories"); sx_check(r.assoc && !r.deep, "fanotify-rename:associated"); sx_check(eq(r.path, fwd ? p : q), "fanotify-rename:from-path"); if (r.assoc) { sx_check(eq(r.apath, fwd ? q : p), "fanotify-rename:to-path"); sx_check(r.atype == type && r.aeffect == E_RENAME, "fanotify-rename:associated-kind"); } i++; }
      else { sx_check(!r.assoc, "fanotify-rename:unpaired-has-no-associate"); sx_check(eq(r.path, p), eff == E_RENAME ? "fanotify-rename:single-path" : "fanotify-translate:path"); }
      bool appeared = type == T_DIR && (pair || (m & (FAN_CREATE | FAN_MOVED_TO)));
      if (appeared) { std::string const& np = pair ? (fwd ? q : p) : p; sx_cover("newdir"); Q* k = nullptr; for (int j = 0; j < nq; j++) if (qs[j].batch == b + 1 && eq(qs[j].path, np)) k = &qs[j];
        sx_check(k != nullptr, "fanotify-newdir:new-directory-is-examined"); if (!k) continue; roots[nroots] = np; rootb[nroots++] = b + 1;
        for (int c = 0; c < 2; c++) { std::string cp = c ? np + "/sd" : np; if (c && (k->gone || !k->isset || !k->kid)) { if (!k->gone) sx_check(k->listed, "fanotify-newdir:contents-are-walked"); break; }
          Q* kq = nullptr; for (int j = 0; j < nq; j++) if (qs[j].batch == b + 1 && eq(qs[j].path, cp)) kq = &qs[j];
          if (c) { sx_cover("subdirectory"); sx_check(kq != nullptr, "fanotify-newdir:subdirectory-is-examined"); if (!kq) break; }
          int j = -1; for (int x = 0; x < naw; x++) if (aws[x].batch == b + 1 && eq(aws[x].path, cp)) { j = x; break; }
          bool failed = kq->gone || (j >= 0 && aws[j].res < 0);
          if (!kq->gone) { sx_check(j >= 0, c ? "fanotify-newdir:subdirectory-is-watched" : "fanotify-newdir:new-directory-is-watched"); if (j < 0) break; if (!failed) { sx_cover("newdir-watched"); sx_check(r.naw >= j + 1, "fanotify-newdir:watched-before-delivery"); } }
          if (c && kq->gone) break; if (failed) { sx_cover("newdir-failed"); bool told = false; for (int x = 1; x < n_end; x++) if (recs[x].type == T_WATCHER && eq(recs[x].path, "w/sys/not_watched@" + cp)) told = true; sx_check(told, "fanotify-newdir:failure-is-reported"); } } } }
  skipmsgs(); sx_check(at == n_end, "fanotify-translate:nothing-extra");
  int hasover = nkind(1, n_end, "w/sys/q_overflow@"), hasfd = nkind(1, n_end, "w/sys/bad_fd@"), hasmeta = nkind(1, n_end, "w/sys/bad_meta@"), hasnot = nkind(1, n_end, "w/sys/not_watched@"), all = nkind(1, n_end, "");
  sx_check(hasover == nover, "fanotify-anomalies:overflow-reported"); sx_check(hasfd == nfd + nlost, "fanotify-anomalies:lost-event-reported"); sx_check(hasmeta == nmeta, "fanotify-anomalies:unusable-record-reported"); sx_check(all == hasover + hasfd + hasmeta + hasnot, "fanotify-anomalies:no-other-message");
  for (int x = 1; x < n_end; x++) if (recs[x].type == T_WATCHER && starts(recs[x].path, "w/sys/not_watched@")) { bool why = false; std::string wp = recs[x].path.substr(18); for (int j = 0; j < naw; j++) if (aws[j].res < 0 && eq(aws[j].path, wp)) why = true; for (int j = 0; j < nq; j++) if (qs[j].gone && eq(qs[j].path, wp)) why = true; sx_check(why, "fanotify-newdir:warning-has-a-cause"); }
  for (int j = 0; j < naw; j++) { bool why = false; for (int k = 0; k < nroots; k++) if (rootb[k] == aws[j].batch && starts(aws[j].path, roots[k].c_str())) why = true; sx_check(why, "fanotify-newdir:nothing-else-is-watched"); }
  if (!fatal) sx_check(W::open_count() == 0 && W::bad_closes == 0, "fanotify-anomalies:descriptors-are-closed");
}
