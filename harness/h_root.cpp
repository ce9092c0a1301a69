// However the watched directory is spelled.
#include "rec.hpp"
static int sent, which, fan, armed; static char const* D[6] = {"/", "/w", "/w/a", "/cwd", nullptr};
static bool hasb() { return armed && !sent; }
static long fillb(int fd, char* buf, size_t cap) {
  if (!hasb()) return -EAGAIN; sent = 1;
  if (!fan) { int wd = 0; for (int i = 0; i < W::nwatches; i++) if (!strcmp(W::watches[i].path, D[which])) wd = i + 1; sx_assume(wd); inotify_event h; memset(&h, 0, sizeof h); h.wd = wd; h.mask = IN_MODIFY; h.len = 16; memcpy(buf, &h, sizeof h); memset(buf + 16, 0, 16); buf[16] = 'f'; return 32; }
  fanotify_event_metadata m; memset(&m, 0, sizeof m); m.vers = FANOTIFY_METADATA_VERSION; m.metadata_len = sizeof m; m.fd = FAN_NOFD; m.mask = FAN_MODIFY; m.event_len = sizeof m + 20 + 8 + 4; memcpy(buf, &m, sizeof m);
  char* q = buf + sizeof m; memset(q, 0, 40); fanotify_event_info_header ih; ih.info_type = FAN_EVENT_INFO_TYPE_DFID_NAME; ih.pad = 0; ih.len = 32; memcpy(q, &ih, 4); unsigned hb = 8; memcpy(q + 12, &hb, 4); q[20 + 8] = 'f'; return m.event_len; }
static int obh(file_handle*, int fl) { return W::new_fd(W::KDIRFD, fl); }
static ssize_t rdlnk(char const*, char* b, size_t n) { size_t l = strlen(D[which]); memcpy(b, D[which], l); return l; }
static bool under(char const* p, char const* d) { size_t n = strlen(d); return !strcmp(p, d) || (n == 1) || (!strncmp(p, d, n) && p[n] == '/'); }
extern "C" void sx_main() {
  fan = sx_param("fan", 0); W::cfg.root = W::cfg.fanotify = fan; int maxn = sx_param("n", 5), pre = sx_param("pre", 0); W_obh = obh; W_readlink = rdlnk; W::fill = fillb; W::has_batch = hasb;
  W::add("/", DT_DIR); W::add("/w", DT_DIR); W::add("/w/a", DT_DIR); W::add("/l", DT_LNK, "/w"); W::add("/cwd", DT_DIR); W::add("/cwd/w", DT_LNK, "/w");
  char p[16]; int n = 1 + (int)sx_choose(maxn, "length"); for (int i = 0; i < n; i++) { unsigned char c = sx_u8("char"); sx_assume(c == '/' || c == '.' || c == 'w' || c == 'l' || c == 'a'); p[i] = (char)c; } p[n] = 0; (void)pre;
  char real[PATH_MAX]; sx_assume(W::resolve(p, real)); int nd = W::find(real); sx_assume(nd >= 0 && W::nodes[nd].type == DT_DIR);
  sx_cover(p[0] == '/' ? "absolute" : "relative"); int ndirs = 0; int mine[4]; for (int i = 0; D[i]; i++) if (under(D[i], real)) mine[ndirs++] = i; which = mine[ndirs > 1 ? sx_choose(ndirs, "directory") : 0]; if (strcmp(real, D[which])) sx_cover("inner");
  bool ok; int n_end; { wtr::watch w(std::filesystem::path(std::string(p, n)), record); sx_block(&W::idle); armed = 1; W::idle = 0; W::notify(); sx_block(&W::idle); n_end = nrecs; ok = w.close(); }
  observe_recs(); sx_check(ok, "root-forms:runs");
  for (int i = 0; D[i]; i++) { int c = 0; for (int k = 0; k < W::nwatches; k++) if (!strcmp(W::watches[k].path, D[i])) c++; if (under(D[i], real)) sx_check(c >= 1, "root-forms:same-directories-are-watched"); else sx_check(c == 0, "root-forms:nothing-else-is-watched"); }
  sx_check(nrecs == 3 && n_end == 2 && sent, "root-forms:one-event"); if (nrecs != 3) return;
  std::string e = std::string(D[which]) + (D[which][1] ? "/f" : "f"); sx_check(recs[1].type == T_FILE && recs[1].effect == E_MODIFY && eq(recs[1].path, e), "root-forms:event-has-the-real-path");
  std::string a = recs[0].path, z = recs[2].path; sx_check(starts(a, "s/self/live@") && starts(z, "s/self/die@") && eq(a.substr(12), z.substr(11)), "lifecycle-framing:the-same-path-in-both"); sx_check(starts(a, "s/self/live@/") && starts(z, "s/self/die@/"), "root-forms:messages-name-an-absolute-path"); if (a.size() < 13 || z.size() < 12) return; a = a.substr(12); z = z.substr(11); sx_check(eq(a, z), "root-forms:messages-agree"); char r2[PATH_MAX]; sx_check(W::resolve(a.c_str(), r2) && !strcmp(r2, real), "root-forms:messages-name-the-directory");
}
