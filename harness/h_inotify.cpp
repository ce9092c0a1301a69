// The inotify adapter, driven through wtr::watch, over arbitrary kernel event batches,
// compared with an independent account of what inotify(7) says they mean.
#include "rec.hpp"
struct Ev { int wd; uint32_t mask, cookie; int nlen; char name[4]; };
constexpr int BMAX = 4, EMAX = 4; static Ev evs[BMAX][EMAX]; static int nev[BMAX]; static int nbatch, atbatch, maxe, wide, kids, exist, moves;
static uint32_t const REQ = IN_CREATE | IN_DELETE | IN_DELETE_SELF | IN_MODIFY | IN_MOVE_SELF | IN_MOVED_FROM | IN_MOVED_TO;
static uint32_t const MOVE = IN_MOVED_FROM | IN_MOVED_TO;
static bool hasb() { return atbatch < nbatch; }
static uint32_t bit(Ev const& e) { return e.mask & ~(uint32_t)IN_ISDIR; }
static bool dying[40]; // watches of deleted directories
static long fillb(int fd, char* buf, size_t cap) {
  if (atbatch >= nbatch) return -EAGAIN; int b = atbatch++; size_t o = 0; int n = moves ? maxe : maxe > 1 ? 1 + (int)sx_choose(maxe, "nevents") : 1;
  int known = W::nwatches; nev[b] = n; // every watch added so far, initially or while live
  for (int i = 0; i < n; i++) { Ev& e = evs[b][i];
    int w = (int)sx_choose(moves ? known : known + 2, "wd"); e.wd = w < known ? w + 1 : w == known ? 39 : -1;
    static uint32_t const mv[] = {IN_MOVED_FROM, IN_MOVED_TO, IN_MODIFY}; e.mask = moves ? mv[sx_choose(i < 2 ? 2 : 3, "move")] : sx_u32("mask"); uint32_t m = bit(e); sx_assume(m && !(m & (m - 1))); // one event bit, and perhaps IN_ISDIR
    sx_assume((m & (IN_ALL_EVENTS | IN_IGNORED | IN_UNMOUNT | IN_Q_OVERFLOW)) != 0);
    sx_assume((e.wd == -1) == (m == IN_Q_OVERFLOW)); // inotify(7)
    bool self = (m & (IN_DELETE_SELF | IN_MOVE_SELF | IN_IGNORED | IN_UNMOUNT | IN_Q_OVERFLOW)) != 0; if (m & (IN_DELETE_SELF | IN_IGNORED)) dying[e.wd] = true;
    e.nlen = self ? 0 : (m & REQ) ? 1 + (wide ? (int)sx_choose(2, "namelen") : 0) : (int)sx_choose(2, "namelen");
    for (int k = 0; k < e.nlen; k++) { e.name[k] = moves ? (char)('p' + i) : (char)sx_u8("name"); sx_assume(e.name[k] != 0 && e.name[k] != '/'); } e.name[e.nlen] = 0; if (e.nlen == 1) sx_assume(e.name[0] != '.'); if (e.nlen == 2) sx_assume(e.name[0] != '.' || e.name[1] != '.');
    e.cookie = 0; if (m & MOVE) { e.cookie = sx_u32("cookie"); sx_assume(e.cookie != 0); }
    inotify_event h; memset(&h, 0, sizeof h); h.wd = e.wd; h.mask = e.mask; h.cookie = e.cookie; h.len = e.nlen ? 16 : 0; memcpy(buf + o, &h, sizeof h); o += sizeof h; if (h.len) { memset(buf + o, 0, h.len); memcpy(buf + o, e.name, e.nlen); o += h.len; } }
  sx_cover("batch"); return (long)o; }
// ---- the live filesystem, as asked about by the watcher: decided once per path and batch
struct Q { std::string path; int batch; bool gone, unlist, kid, listed, isset; }; static Q qs[24]; static int nq;
static Q& ask(char const* p) { std::string s = p; for (int i = 0; i < nq; i++) if (qs[i].batch == atbatch && eq(qs[i].path, s)) return qs[i]; if (nq >= 24) sx_violate("*:walks-without-end", "too many live paths"); Q& q = qs[nq++]; q.path = s; q.batch = atbatch; q.gone = sx_bool("path_gone"); return q; }
static bool ends_sd(std::string const& p) { size_t n = p.size(); return n > 3 && p[n - 1] == 'd' && p[n - 2] == 's' && p[n - 3] == '/'; }
static int rp_hook(char const* p, char* out) { Q& q = ask(p); if (q.gone) return 0; size_t k = 0; do out[k] = p[k]; while (p[k++]); return 1; }
static bool dir_hook(char const* p) { return !ask(p).gone; }
static int od_hook(char const* p) { Q& q = ask(p); q.listed = true; if (q.gone) return 0; if (!q.isset) { q.isset = true; q.kid = kids && !ends_sd(q.path) && sx_bool("has_subdirectory"); } return 1; }
static int rd_hook(char const* p, int pos, dirent* de) { Q& q = ask(p); if (pos || !q.kid) return 0; strcpy(de->d_name, "sd"); de->d_type = DT_DIR; return 1; }
struct A { std::string path; int batch, res, watches; }; static A aws[24]; static int naw;
static int aw_hook(char const* p, uint32_t mask) { if (naw >= 24) sx_violate("*:walks-without-end", "too many add_watch"); A& a = aws[naw++]; a.path = p; a.batch = atbatch; sx_check((mask & REQ) == REQ && !(mask & IN_ONESHOT), "inotify-newdir:asks-for-every-effect");
  for (int i = 0; i < naw - 1; i++) if (aws[i].batch == atbatch && eq(aws[i].path, a.path)) { a.res = aws[i].res; return a.res > 0 ? a.res + 1 : a.res; }
  if (ask(p).gone) return a.res = -ENOENT;
  int c = (int)sx_choose(exist ? 3 : 2, "add_watch"); if (c == 0) return a.res = -ENOSPC; if (c == 1) { a.res = W::nwatches + 1; return 1; }
  int k = 1 + (int)sx_choose(W::nwatches, "existing_watch"); sx_assume(!dying[k] && !W::watches[k - 1].removed); a.res = k; sx_cover("existing-watch"); return k + 1; }
static int nkind(int b, int e, char const* p) { int n = 0; for (int i = b; i < e; i++) if (recs[i].type == T_WATCHER && starts(recs[i].path, p)) n++; return n; }
extern "C" void sx_main() {
  nbatch = sx_param("nb", 1); moves = sx_param("moves", 0); maxe = sx_param("ne", 2); wide = sx_param("wide", 0); kids = sx_param("kids", 0); exist = sx_param("exist", 0);
  rec_counter = &naw; W::add("/w", DT_DIR); W::add("/w/a", DT_DIR);
  W::fill = fillb; W::has_batch = hasb; W::realpath_hook = rp_hook; W::isdir_hook = dir_hook; W::add_watch_hook = aw_hook; W::opendir_hook = od_hook; W::readdir_hook = rd_hook;
  bool ok; int n_end; { wtr::watch w("/w", record); sx_block(&W::idle); n_end = nrecs; ok = w.close(); }
  observe_recs();
  sx_check(ok, "close-result:clean-stop"); check_framing("/w", true, n_end);
  sx_check(W::nwatches >= 2 && !strcmp(W::watches[0].path, "/w") && !strcmp(W::watches[1].path, "/w/a"), "*:walk");
  // ---- what each watch descriptor means, replayed in order
  struct D { std::string path; bool known; bool left; bool over; }; // left: moved away, or the kernel is done with it: nothing more comes from it, or what comes is not looked at here (see h_tree)
  static D dm[40]; dm[1] = D{"/w", true, false, false}; dm[2] = D{"/w/a", true, false, false}; int aw = 0;
  int at = 1, nover = 0, nphan = 0; static bool bad[24]; static std::string roots[24]; static int rootb[24]; int nroots = 0;
  auto skipmsgs = [&] { while (at < n_end && recs[at].type == T_WATCHER) at++; };
  for (int b = 0; b < nbatch; b++) { int gone[EMAX], ng = 0;
    for (int i = 0; i < nev[b]; i++) { Ev& e = evs[b][i]; uint32_t m = bit(e);
      if (e.wd > 0 && dm[e.wd].over) sx_end_path(); // the kernel says IN_IGNORED last
      if (e.wd > 0 && (m & IN_IGNORED)) dm[e.wd].over = true;
      if (e.wd > 0 && dm[e.wd].left) { if (!(m & (IN_IGNORED | IN_MOVE_SELF))) sx_end_path(); gone[ng++] = e.wd; continue; }
      if (m & IN_Q_OVERFLOW) { sx_cover("overflow"); nover++; continue; }
      if (!dm[e.wd].known) { sx_cover("phantom"); nphan++; continue; }
      if (m & IN_DELETE_SELF) { sx_cover("deleteself"); continue; }
      if (m & IN_IGNORED) { sx_cover("silent"); gone[ng++] = e.wd; continue; }
      if ((m & (IN_IGNORED | IN_MOVE_SELF)) || !(m & REQ)) { sx_cover("silent"); continue; }
      std::string p = dm[e.wd].path + "/" + std::string(e.name, e.nlen), q; bool pair = false, fwd = true;
      int type = e.mask & IN_ISDIR ? T_DIR : T_FILE; int eff = m & IN_CREATE ? E_CREATE : m & IN_DELETE ? E_DESTROY : m & IN_MODIFY ? E_MODIFY : E_RENAME;
      if (eff == E_RENAME && i + 1 < nev[b]) { Ev& e2 = evs[b][i + 1]; uint32_t m2 = bit(e2); if (e2.wd > 0 && (dm[e2.wd].left || dm[e2.wd].over)) sx_end_path(); if (e2.cookie == e.cookie && m2 != m && (m2 & MOVE) && dm[e2.wd].known) { sx_assume((e.mask & IN_ISDIR) == (e2.mask & IN_ISDIR)); pair = true; q = dm[e2.wd].path + "/" + std::string(e2.name, e2.nlen); fwd = m & IN_MOVED_FROM; if (e2.wd != e.wd) sx_cover("pair-across-directories"); } }
      skipmsgs(); char const* id = pair ? "inotify-rename:paired" : eff == E_RENAME ? "inotify-rename:single" : "inotify-translate:event";
      bool there = at < n_end; sx_check(there, id); if (!there) continue; Rec& r = recs[at++];
      sx_check(r.type == type, "inotify-translate:path-type"); sx_check(r.effect == eff, "inotify-translate:effect-type");
      if (pair) { sx_cover("pair"); sx_check(r.assoc && !r.deep, "inotify-rename:associated"); sx_check(eq(r.path, fwd ? p : q), "inotify-rename:from-path"); if (r.assoc) { sx_check(eq(r.apath, fwd ? q : p), "inotify-rename:to-path"); sx_check(r.atype == type && r.aeffect == E_RENAME, "inotify-rename:associated-kind"); } i++; }
      else { sx_check(!r.assoc, "inotify-rename:unpaired-has-no-associate"); sx_check(eq(r.path, p), eff == E_RENAME ? "inotify-rename:single-path" : "inotify-translate:path"); }
      if (type == T_DIR && !pair && (m & IN_MOVED_FROM)) for (auto& d : dm) if (d.known && d.path.size() >= p.size() && starts(d.path, p.c_str()) && (d.path.size() == p.size() || d.path[p.size()] == '/')) { sx_cover("left"); d.left = true; }
      // a directory that appeared here is watched, with what is inside it, before its event is delivered
      bool appeared = type == T_DIR && (pair || (m & (IN_CREATE | IN_MOVED_TO)));
      if (appeared) { std::string const& np = pair ? (fwd ? q : p) : p; sx_cover("newdir"); Q* k = nullptr; for (int j = 0; j < nq; j++) if (qs[j].batch == b + 1 && eq(qs[j].path, np)) k = &qs[j];
        sx_check(k != nullptr, "inotify-newdir:new-directory-is-examined"); if (!k) continue; roots[nroots] = np; rootb[nroots++] = b + 1;
        for (int c = 0; c < 2; c++) { std::string cp = c ? np + "/sd" : np; if (c && (k->gone || !k->isset || !k->kid)) { if (!k->gone) sx_check(k->listed, "inotify-newdir:contents-are-walked"); break; }
          Q* kq = nullptr; for (int j = 0; j < nq; j++) if (qs[j].batch == b + 1 && eq(qs[j].path, cp)) kq = &qs[j];
          if (c) { sx_cover("subdirectory"); sx_check(kq != nullptr, "inotify-newdir:subdirectory-is-examined"); if (!kq) break; }
          int j = -1; for (int x = 0; x < naw; x++) if (aws[x].batch == b + 1 && eq(aws[x].path, cp)) { j = x; break; }
          bool failed = kq->gone || (j >= 0 && aws[j].res < 0);
          if (!kq->gone) { sx_check(j >= 0, c ? "inotify-newdir:subdirectory-is-watched" : "inotify-newdir:new-directory-is-watched"); if (j < 0) break; if (!failed) { sx_cover("newdir-watched"); sx_check(r.naw >= j + 1, "inotify-newdir:watched-before-delivery"); } }
          if (c && kq->gone) break; if (failed) { sx_cover("newdir-failed"); bool told = false; for (int x = 1; x < n_end; x++) if (recs[x].type == T_WATCHER && eq(recs[x].path, "w/sys/not_watched@" + cp)) told = true; sx_check(told, "inotify-newdir:failure-is-reported"); }
          else { dm[aws[j].res].path = cp; dm[aws[j].res].known = true; dm[aws[j].res].left = dm[aws[j].res].over = false; } } }
    }
    for (int k = 0; k < ng; k++) dm[gone[k]].known = false; }
  skipmsgs(); sx_check(at == n_end, "inotify-translate:nothing-extra");
  int hasover = nkind(1, n_end, "w/sys/q_overflow@"), hasphan = nkind(1, n_end, "w/sys/phantom@"), hasnot = nkind(1, n_end, "w/sys/not_watched@"), all = nkind(1, n_end, "");
  sx_check(hasover == nover, "inotify-anomalies:overflow-reported"); sx_check(hasphan == nphan, "inotify-anomalies:unknown-watch-reported"); sx_check(all == hasover + hasphan + hasnot, "inotify-anomalies:no-other-message");
  for (int x = 1; x < n_end; x++) if (recs[x].type == T_WATCHER && starts(recs[x].path, "w/sys/not_watched@")) { bool why = false; std::string wp = recs[x].path.substr(18); for (int j = 0; j < naw; j++) if (aws[j].res < 0 && eq(aws[j].path, wp)) why = true; for (int j = 0; j < nq; j++) if (qs[j].gone && eq(qs[j].path, wp)) why = true; sx_check(why, "inotify-newdir:warning-has-a-cause"); sx_check(recs[x].effect == E_OTHER, "inotify-anomalies:message-shape"); }
  for (int j = 0; j < naw; j++) { bool why = false; for (int k = 0; k < nroots; k++) if (rootb[k] == aws[j].batch && starts(aws[j].path, roots[k].c_str())) why = true; sx_check(why, "inotify-newdir:nothing-else-is-watched"); }
}
