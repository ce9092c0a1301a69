// Reads which fill the whole buffer, reads shorter than the one before, and paths at the length limit.
#include "rec.hpp"
static int selfwd, fan, mode, sent[2], at, nb, sz[2]; static uint32_t msk[2], msk2; static int nB = 1; static int got[2], extra, assoc; static std::string firstp, lastp, bp, bl; static int lens[2];
#define ID(x) (fan ? "fanotify-batches:" x : "inotify-batches:" x)
static uint32_t bits(int c) { return fan ? (c == 0 ? FAN_MODIFY : c == 1 ? FAN_MOVED_FROM : c == 2 ? FAN_MOVED_TO : FAN_CREATE) : (c == 0 ? IN_MODIFY : c == 1 ? IN_MOVED_FROM : c == 2 ? IN_MOVED_TO : IN_CREATE); }
static void nm(char* o, int b, int i, int len) { memset(o, 'n', len); o[0] = b ? 'B' : 'A'; if (len > 3) { o[1] = '0' + i / 100; o[2] = '0' + i / 10 % 10; o[3] = '0' + i % 10; } o[len] = 0; }
static bool hasb() { return at < nb; }
static long fillb(int, char* buf, size_t cap) {
  if (at >= nb) return -EAGAIN; int b = at++; sx_assume(cap <= 65536); size_t o = 0; int i = 0; int n = b ? nB : 100000; int len = lens[b];
  for (; i < n; i++) { if (b && i == 1) msk[1] = msk2; if (b && i == 2) msk[1] = bits(0); char name[260]; nm(name, b, i, len);
    if (!fan) { size_t l = len ? ((size_t)len + 16) & ~(size_t)15 : 0; if (o + 16 + l > cap) break; inotify_event h; memset(&h, 0, sizeof h); h.wd = !b && mode == 2 ? selfwd : 1; h.mask = msk[b]; h.cookie = msk[b] & (IN_MOVED_FROM | IN_MOVED_TO) ? 7 : 0; h.len = l; memcpy(buf + o, &h, 16); memset(buf + o + 16, 0, l); if (l) memcpy(buf + o + 16, name, len); o += 16 + l; }
    else { int il = (20 + 8 + len + 1 + 3) & ~3; if (o + 24 + il > cap) break; fanotify_event_metadata md; memset(&md, 0, sizeof md); md.vers = FANOTIFY_METADATA_VERSION; md.metadata_len = sizeof md; md.mask = msk[b]; md.fd = FAN_NOFD; md.event_len = 24 + il; char* q = buf + o; memcpy(q, &md, 24); q += 24; memset(q, 0, il); fanotify_event_info_header ih; ih.info_type = FAN_EVENT_INFO_TYPE_DFID_NAME; ih.pad = 0; ih.len = il; memcpy(q, &ih, 4); unsigned hb = 8; memcpy(q + 12, &hb, 4); q[20] = 1; memcpy(q + 28, name, len + 1); o += 24 + il; } }
  sent[b] = i; sx_cover("batch"); return (long)o; }
static int obh(file_handle*, int fl) { return W::new_fd(W::KDIRFD, fl); }
static int dirlen = 2; static bool pairB, rev;
static ssize_t rdl(char const*, char* b, size_t n) { size_t l = dirlen; if (l > n) l = n; memset(b, 'd', l); b[0] = '/'; if (dirlen == 2) b[1] = 'w'; W::next_fd = 20; return l; }
static std::string other;
static void cb(wtr::event const& e) { if (e.path_type == wtr::event::path_type::watcher) { if (e.effect_type == wtr::event::effect_type::other) { extra++; other = e.path_name.native(); } return; } if (e.associated) assoc++; std::string const& p = e.path_name.native(); size_t s = p.size(); while (s && p[s - 1] != '/') s--; int b = s < p.size() && p[s] == 'B'; if (b) { if (!got[1]) bp = p; bl = p; } else { if (!got[0]) firstp = p; lastp = p; } got[b]++; }
extern "C" void sx_main() {
  fan = sx_param("fan", 0); mode = sx_param("mode", 0); W::cfg.root = W::cfg.fanotify = fan; W::add("/w", DT_DIR); W::fill = fillb; W::has_batch = hasb; W_obh = obh; W_readlink = rdl;
  if (mode == 0) { static int const L[] = {1, 4, 15, 16, 254, 255}; nb = 2; lens[0] = lens[1] = L[sx_choose(6, "name_length")]; msk[0] = bits(sx_choose(4, "effect")); msk[1] = bits(sx_choose(4, "effect")); if (sx_bool("two")) { nB = 2 + sx_bool("third"); msk2 = bits(sx_choose(4, "effect")); int mv = (int)(bits(1) | bits(2)); pairB = (msk[1] & mv) && (msk2 & mv) && msk2 != msk[1]; rev = pairB && msk2 == bits(1); if (pairB) sx_cover("pair"); } }
  else if (mode == 2) { static uint32_t const S[] = {IN_MOVE_SELF, IN_IGNORED, IN_DELETE_SELF}; nb = 2; int c = sx_choose(3, "self_record"); selfwd = c == 0 ? 1 : sx_bool("known") ? 2 : 9; if (c == 2) selfwd = 9; W::add("/w/a", DT_DIR); msk[0] = S[c]; lens[0] = 0; lens[1] = 1; msk[1] = bits(0); }
  else { static int const D[] = {2, 100, 3838, 3839, 3840, 3841, 4093, 4094, 4095, 4096}; nb = 2; dirlen = D[sx_choose(10, "directory_length")]; lens[0] = lens[1] = sx_bool("long_name") ? 255 : 1; msk[0] = msk[1] = bits(0); }
  bool ok; { wtr::watch w("/w", cb); sx_block(&W::idle); ok = w.close(); }
  if (mode == 2) { sx_check(sent[0] == 256, ID("whole-buffer")); sx_check(ok && got[0] == 0 && got[1] == 1, ID("survives-nameless-records")); sx_check(selfwd == 9 || !extra, ID("no-complaint")); sx_cover("nameless"); return; }
  sx_observe("n0", got[0]); sx_observe("n1", got[1]); sx_observe_str("b", bp); sx_check(ok && !extra, ID("no-complaint"));
  sx_check(sent[0] >= 12, ID("whole-buffer")); bool fits = dirlen + 1 + lens[0] < PATH_MAX; if (dirlen < PATH_MAX - 2) sx_check(got[0] == sent[0] && got[1] == nB - pairB, ID("each-once")); else sx_check(got[0] + got[1] == sent[0] + 1, ID("each-once")); sx_check(assoc == pairB, ID("nothing-stale"));
  if (fits) { std::string d(dirlen, 'd'); d[0] = '/'; if (dirlen == 2) d[1] = 'w'; char n[260]; nm(n, 0, 0, lens[0]); sx_check(eq(firstp, d + "/" + n), ID("first-path")); nm(n, 0, sent[0] - 1, lens[0]); sx_check(eq(lastp, d + "/" + n), ID("last-path")); nm(n, 1, rev, lens[0]); sx_check(eq(bp, d + "/" + n), ID("next-path")); if (nB == 3) { nm(n, 1, 2, lens[0]); sx_check(eq(bl, d + "/" + n) || lens[0] < 4, ID("event-after-next")); } sx_cover("paths"); }
}
