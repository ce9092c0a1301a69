// Histories of changes to a tree, with the kernel's side of inotify and fanotify
// played against the watcher: what is watched follows what is there.
#include "rec.hpp"
extern "C" int sx_threads_live(void);
static int fan, split, steps, settled, maxn, selffirst; static int const never = 0; static void settle() { sx_block_timed(&never); }
// ---- inodes: parent, name, kind, marks; node 0 is /, 1 is /w, 2 is /o (outside what is watched)
constexpr int N = 24; struct I { int par; char name; bool dir, alive; int wd; bool mark, was; }; // was: once inside, so once watched
 static I in[N]; static char pathbuf[N][32];
static int spell(char c, char* o) { if (c == 'b') { o[0] = o[1] = 'a'; return 2; } o[0] = c; return 1; } // b is spelled aa: one name begins another
static bool inside(int i) { for (; i > 0; i = in[i].par) if (i == 1) return true; return false; }
static void put(int i, char*& o) { if (i <= 0) return; put(in[i].par, o); *o++ = '/'; o += spell(in[i].name, o); *o = 0; }
static void repath() { for (int i = 0; i < W::nnodes; i++) { char* o = pathbuf[i]; if (!in[i].alive) o[0] = 0; else if (!i) strcpy(o, "/"); else put(i, o); } }
static int mk(int par, char name, bool dir) { int i = W::nnodes; if (i >= N) sx_unmodelled("too many files"); in[i] = I{par, name, dir, true, 0, false, par >= 0 && in[par].was}; W::add(pathbuf[i], dir ? DT_DIR : DT_REG); repath(); return i; }
static bool has(int par, char name) { for (int i = 1; i < W::nnodes; i++) if (in[i].alive && in[i].par == par && in[i].name == name) return true; return false; }
static bool empty(int d) { for (int i = 1; i < W::nnodes; i++) if (in[i].alive && in[i].par == d) return false; return true; }
static bool below(int i, int d) { for (; i >= 0; i = i ? in[i].par : -1) if (i == d) return true; return false; }
// ---- the event queue
struct K { int node, wd; uint32_t mask, cookie; char name; }; static K q[64]; static int qh, qt; static int nwd; static uint32_t cookies;
static void ev(int dir, uint32_t mask, uint32_t cookie, char name) {
  if (fan) { if (!in[dir].mark) return; } else { if (!in[dir].wd) return; }
  K k{dir, in[dir].wd, mask, cookie, name}; if (qt > qh) { K& l = q[qt - 1]; if (l.node == dir && l.wd == k.wd && l.mask == mask && l.cookie == cookie && l.name == name) return; } // merged
  if (qt >= 64) sx_unmodelled("queue"); q[qt++] = k; W::notify(); }
static uint32_t bit(char c, bool dir) { uint32_t m; if (fan) m = c == 'c' ? FAN_CREATE : c == 'd' ? FAN_DELETE : c == 'm' ? FAN_MODIFY : c == 'f' ? FAN_MOVED_FROM : FAN_MOVED_TO; else m = c == 'c' ? IN_CREATE : c == 'd' ? IN_DELETE : c == 'm' ? IN_MODIFY : c == 'f' ? IN_MOVED_FROM : IN_MOVED_TO; return m | (dir ? fan ? (uint32_t)FAN_ONDIR : (uint32_t)IN_ISDIR : 0); }
static bool hasb() { return qh < qt; }
static long fillb(int, char* buf, size_t cap) {
  if (qh >= qt) return -EAGAIN; size_t o = 0; while (qh < qt) { K& k = q[qh]; size_t l = fan ? 24 + 32 : 16 + (k.name ? 16 : 0); if (o + l > cap || (split && o)) break; qh++;
    if (!fan) { inotify_event h; memset(&h, 0, sizeof h); h.wd = k.wd; h.mask = k.mask; h.cookie = k.cookie; h.len = k.name ? 16 : 0; memcpy(buf + o, &h, sizeof h); if (k.name) { memset(buf + o + 16, 0, 16); spell(k.name, buf + o + 16); } }
    else { fanotify_event_metadata m; memset(&m, 0, sizeof m); m.vers = FANOTIFY_METADATA_VERSION; m.metadata_len = sizeof m; m.fd = FAN_NOFD; m.mask = k.mask; m.event_len = l; memcpy(buf + o, &m, sizeof m); char* p = buf + o + sizeof m; memset(p, 0, 32); fanotify_event_info_header ih; ih.info_type = FAN_EVENT_INFO_TYPE_DFID_NAME; ih.pad = 0; ih.len = 32; memcpy(p, &ih, 4); unsigned hb = 8; memcpy(p + 12, &hb, 4); p[20] = (char)k.node; spell(k.name, p + 28); }
    o += l; }
  return (long)o; }
static int aw(char const* p, uint32_t mask) { char r[PATH_MAX]; if (!W::resolve(p, r)) return -ENOENT; int i = W::find(r); if (i < 0) return -ENOENT; if (fan) { in[i].mark = true; return 1; } if (in[i].wd) return in[i].wd + 1; in[i].wd = ++nwd; return 1; }
static void rmw(int wd) { for (int i = 0; i < W::nnodes; i++) if (in[i].wd == wd) in[i].wd = 0; if (qt >= 64) sx_unmodelled("queue"); q[qt++] = K{0, wd, IN_IGNORED, 0, 0}; W::notify(); }
static int link_of[W::FDMAX]; static int opened;
static int obh(file_handle* h, int fl) { int i = ((char*)h->f_handle)[0]; if (!in[i].alive) return -ESTALE; int f = W::new_fd(W::KDIRFD, fl); link_of[f] = i; opened = f; W::next_fd = f; return f; }
static ssize_t rdlnk(char const* p, char* b, size_t n) { int f = 0; for (char const* s = p; *s; s++) if (*s == '/') f = 0; else f = f * 10 + (*s - '0'); char const* d = pathbuf[link_of[f & 63]]; size_t l = strlen(d); memcpy(b, d, l); return l; }
// ---- what a settled watcher must have said
struct X { std::string path, assoc; int eff, type; bool pair; }; static X want; static bool any;
static void expect(int eff, int i, std::string const& p, std::string const* a = nullptr) { any = true; want.path = p; want.eff = eff; want.type = in[i].dir ? T_DIR : T_FILE; want.pair = a != nullptr; if (a) want.assoc = *a; }
static int pick_dir(char const* what) { int c[N], n = 0; for (int i = 1; i < W::nnodes; i++) if (in[i].alive && in[i].dir) c[n++] = i; return c[n > 1 ? sx_choose(n, what) : 0]; }
static int pick(char const* what, bool files) { int c[N], n = 0; for (int i = 3; i < W::nnodes; i++) if (in[i].alive && (!files || !in[i].dir)) c[n++] = i; if (!n) return -1; return c[n > 1 ? sx_choose(n, what) : 0]; }
static char pick_name(int d, char const* what) { char c[8]; int n = 0; for (int k = 0; k < maxn; k++) if (!has(d, 'a' + k)) c[n++] = 'a' + k; if (!n) return 0; return c[n > 1 ? sx_choose(n, what) : 0]; }
static bool left_dir; static bool step(bool structural) { any = false; int op = (int)sx_choose(structural ? 4 : 5, "operation");
  if (op == 0 || op == 1) { bool dir = op == 0; int d = pick_dir("in"); char nm = pick_name(d, "name"); if (!nm) return false; int i = mk(d, nm, dir); left_dir = in[d].was && !inside(d); ev(d, bit('c', dir), 0, nm); if (inside(d)) expect(E_CREATE, i, pathbuf[i]); sx_cover(dir ? "mkdir" : "create"); }
  else if (op == 2) { int i = pick("what", false); if (i < 0 || (in[i].dir && !empty(i))) return false; std::string p = pathbuf[i]; bool vis = inside(in[i].par); left_dir = in[in[i].par].was && !vis; in[i].alive = false; repath(); K self{i, in[i].wd, IN_DELETE_SELF, 0, 0}; auto gone = [&] { if (!fan && in[i].wd) { q[qt++] = self; q[qt++] = K{i, in[i].wd, IN_IGNORED, 0, 0}; W::notify(); in[i].wd = 0; } };
    if (selffirst) gone(); ev(in[i].par, bit('d', in[i].dir), 0, in[i].name); gone(); in[i].mark = false; if (vis) expect(E_DESTROY, i, p); sx_cover(in[i].dir ? "rmdir" : "unlink"); }
  else if (op == 3) { int i = pick("what", false); if (i < 0) return false; int d = pick_dir("to"); if (below(d, i)) return false; char nm = pick_name(d, "name"); if (!nm) return false; if (d == in[i].par && nm == in[i].name) return false;
    std::string p = pathbuf[i]; int od = in[i].par; char on = in[i].name; bool vf = inside(od), vt = inside(d); uint32_t c = ++cookies; left_dir = (in[od].was && !vf) || (in[d].was && !vt); in[i].par = d; in[i].name = nm; repath(); ev(od, bit('f', in[i].dir), c, on); ev(d, bit('t', in[i].dir), c, nm); if (!fan && in[i].wd) { q[qt++] = K{i, in[i].wd, IN_MOVE_SELF, 0, 0}; W::notify(); }
    std::string np = pathbuf[i]; if (vf && vt) expect(E_RENAME, i, p, &np); else if (vf) expect(E_RENAME, i, p); else if (vt) expect(E_RENAME, i, np); sx_cover(vf && vt ? "moved" : vf ? "moved-out" : vt ? "moved-in" : "elsewhere"); if (vt && in[i].dir && !empty(i)) sx_cover("moved-with-contents"); }
  else { int i = pick("what", true); if (i < 0) return false; left_dir = in[in[i].par].was && !inside(i); ev(in[i].par, bit('m', false), 0, in[i].name); if (inside(i)) expect(E_MODIFY, i, pathbuf[i]); }
  return true; }
static int first; // the last change was in a directory which was moved out
static void mark_was() { for (int again = 1; again--;) for (int i = 1; i < W::nnodes; i++) if (in[i].alive && !in[i].was && (inside(i) || (fan && in[in[i].par].was))) in[i].was = again = true; }

static void drop() { first = nrecs; }
static void hush() { int o = first; for (int k = first; k < nrecs; k++) if (recs[k].type != T_WATCHER || starts(recs[k].path, "s/self") || starts(recs[k].path, "e/")) recs[o++] = recs[k]; nrecs = o; } // leave out warnings
static bool matches(Rec const& r) { return r.effect == want.eff && r.type == want.type && eq(r.path, want.path) && r.assoc == want.pair && (!want.pair || (eq(r.apath, want.assoc) && r.aeffect == want.eff && r.atype == want.type)); }
extern "C" void sx_main() {
  fan = sx_param("fan", 0); split = sx_param("split", 0); steps = sx_param("steps", 2); settled = sx_param("settled", 1); maxn = sx_param("names", 2); int tree = sx_param("tree", 1), during = sx_param("during", 0), structural = sx_param("structural", 0); selffirst = sx_param("selffirst", 0);
  W::cfg.yields = !settled; W::cfg.root = W::cfg.fanotify = fan; W::fill = fillb; W::has_batch = hasb; W_obh = obh; W_readlink = rdlnk; W::live = true; W::add_watch_hook = aw; W::rm_watch_hook = rmw;
  in[0] = I{-1, 0, true, true, 0, false}; W::add(pathbuf[0], DT_DIR); repath(); mk(0, 'w', true); mk(0, 'o', true); if (tree >= 1) { mk(1, 'a', true); mk(3, 'a', true); } if (tree >= 2) mk(2, 'b', true); if (tree >= 3) mk(1, 'b', false);
  bool ok; int n_end; { wtr::watch w("/w", record); if (!during) { settle(); drop(); sx_check(nrecs == 1, "tree-history:begins-quietly"); }
    for (int k = 0; k < steps; k++) { mark_was(); left_dir = false; if (!step(structural)) sx_end_path(); if (!settled) { sx_yield("between"); continue; }
      settle(); if (split) hush(); bool pairs = !split || !any || !want.pair; if (left_dir && fan) { sx_check_kf(nrecs == first + (any ? 1 : 0) && (!any || matches(recs[first])), 1, "fanotify-moved-out", "tree-history:what-left-is-not"); pairs = false; }
      if (pairs) { sx_check(nrecs == first + (any ? 1 : 0), any ? "tree-history:each-change-is-one-event" : "tree-history:nothing-else-is-reported"); if (any && nrecs == first + 1) sx_check(matches(recs[first]), "tree-history:the-event-says-what-happened"); } drop(); }
    settle(); drop(); mark_was();
    // every directory now in the tree is watched, under its present path, and nothing else is
    int nd = W::nnodes; for (int out = 0; out < 2; out++) for (int i = 1; i < nd; i++) if (in[i].alive && in[i].dir && inside(i) != out) { int f = mk(i, 'z', false); ev(i, bit('c', false), 0, 'z'); settle(); if (split) hush(); if (inside(i)) { sx_cover("probed"); bool one = nrecs == first + 1; sx_check(one, "tree-history:what-is-there-is-watched"); if (one) sx_check(recs[first].effect == E_CREATE && recs[first].type == T_FILE && eq(recs[first].path, pathbuf[f]) && !recs[first].assoc, "tree-history:under-its-present-path"); }
      else if (!in[i].was) sx_check(nrecs == first, "tree-history:nothing-outside-is-watched"); else if (settled && !split) { sx_cover("left"); sx_check_kf(nrecs == first, fan, "fanotify-moved-out", "tree-history:what-left-is-not"); } drop(); }
    n_end = nrecs; ok = w.close(); }
  observe_recs(); sx_check(ok && nrecs == n_end + 1, "tree-history:ends-well"); sx_check(W::open_count() == 0 && W::open_dirs == 0, "fd-hygiene:tree");
}
