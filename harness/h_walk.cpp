// The first walk, over every small tree.
#include "rec.hpp"
static char paths[8][24];
static char big[4][PATH_MAX + 16];
// directories whose paths are about as long as a path can be
static void lengths(bool fan) {
  size_t l = PATH_MAX - 8 + sx_concretize(sx_choose(8, "length")); for (size_t k = 0; k < l; k++) big[0][k] = k ? 'w' : '/'; big[0][l] = 0; W::add(big[0], DT_DIR);
  char const* kid[] = {"/s", "/st", "/s/t"}; for (int i = 0; i < 3; i++) { strcpy(big[i + 1], big[0]); strcat(big[i + 1], kid[i]); W::add(big[i + 1], DT_DIR); if (i == 0 && sx_bool("type_not_given")) W::nodes[W::nnodes - 1].unk = true; }
  bool ok; { wtr::watch w(big[0], record); sx_block(&W::idle); ok = w.close(); } sx_check(ok, "close-result:clean-stop"); sx_observe("watches", W::nwatches);
  for (int i = 0; i < 4; i++) { size_t n = strlen(big[i]); bool fits = n < PATH_MAX; sx_cover(fits ? "fits" : "too-long"); int c = 0; for (int k = 0; k < W::nwatches; k++) c += W::watches[k].len == n; sx_check(fits ? c >= 1 : c == 0, "walk-complete:every-directory-is-watched"); sx_check(c <= 1 || fan, "walk-complete:watched-once"); }
  sx_check(W::nwatches <= 4, "walk-complete:nothing-else-is-watched"); sx_check(W::open_dirs == 0 && W::dir_bad == 0 && W::open_count() == 0, "fd-hygiene:walk"); }
// a tree which is deeper than the number of directories which may be open at once
static void depths() {
  static char chain[32]; static char* at[16]; static char store[16][32]; W::max_dirs = 3; int d = 1 + (int)sx_concretize(sx_choose(12, "depth")); strcpy(chain, "/w"); W::add("/w", DT_DIR);
  for (int i = 0; i < d; i++) { strcat(chain, "/d"); strcpy(store[i], chain); at[i] = store[i]; W::add(at[i], DT_DIR); } if (d > 3) sx_cover("deep");
  bool ok; { wtr::watch w("/w", record); sx_block(&W::idle); ok = w.close(); } sx_check(ok, "close-result:clean-stop");
  for (int i = 0; i < d; i++) { int c = 0; for (int k = 0; k < W::nwatches; k++) c += !strcmp(W::watches[k].path, at[i]); sx_check(c >= 1, "walk-complete:every-directory-is-watched"); }
  sx_check(W::nwatches == d + 1, "walk-complete:nothing-else-is-watched"); sx_check(W::open_dirs == 0 && W::dir_bad == 0 && W::open_count() == 0, "fd-hygiene:walk"); }
extern "C" void sx_main() {
  if (sx_param("deep", 0)) { W::cfg.root = W::cfg.fanotify = sx_param("fan", 0); depths(); return; }
  if (sx_param("long", 0)) { W::cfg.root = W::cfg.fanotify = sx_param("fan", 0); lengths(sx_param("fan", 0)); return; }
  int n = sx_param("n", 3), fan = sx_param("fan", 0), unk = sx_param("unk", 0), links = sx_param("links", 1), gone = sx_param("gone", 0); W::cfg.root = W::cfg.fanotify = fan;
  W::add("/o", DT_DIR); W::add("/o/x", DT_DIR); W::add("/w", DT_DIR); int root = 2; bool want[W::NMAX] = {}; want[root] = true; static int par[W::NMAX];
  for (int i = 0; i < n; i++) { int cand[8], nc = 0; cand[nc++] = root; for (int k = root + 1; k < W::nnodes; k++) if (W::nodes[k].type == DT_DIR) cand[nc++] = k;
    int p = nc > 1 ? cand[sx_choose(nc, "parent")] : root; size_t l = strlen(W::nodes[p].path); memcpy(paths[i], W::nodes[p].path, l); paths[i][l] = '/'; paths[i][l + 1] = 'a' + i; if (i == 1) { paths[i][l + 1] = '.'; paths[i][l + 2] = 'b'; } if (i == 2) { paths[i][l + 1] = '.'; paths[i][l + 2] = '.'; paths[i][l + 3] = 'c'; }
    int t = (int)sx_choose(links ? 5 : 2, "type"); unsigned char ty = t == 0 ? DT_DIR : t == 1 ? DT_REG : DT_LNK; W::add(paths[i], ty, t == 2 ? "/o" : t == 3 ? "/w" : nullptr); auto& nd = W::nodes[W::nnodes - 1]; par[W::nnodes - 1] = p;
    if (ty == DT_DIR && sx_bool("unlistable")) nd.unlistable = true; if (gone && ty == DT_DIR) { nd.gone = (int)sx_choose(3, "removed"); if (nd.gone) sx_cover("vanished"); } if (unk && sx_bool("type_not_given")) nd.unk = true; if (nd.unk) sx_cover("unknown-type"); if (nd.unlistable) sx_cover("unlistable"); if (ty == DT_LNK) sx_cover("link");
    bool reach = true; for (int k = p; k != root; k = par[k]) if (W::nodes[k].unlistable || W::nodes[k].gone) reach = false; if (ty == DT_DIR && reach && !nd.gone) { want[W::nnodes - 1] = true; if (p != root) sx_cover("nested"); } if (!reach) sx_cover("out-of-reach"); }
  bool ok; { wtr::watch w("/w", record); sx_block(&W::idle); ok = w.close(); }
  sx_check(ok, "close-result:clean-stop"); sx_observe("watches", W::nwatches);
  for (int i = 0; i < W::nnodes; i++) { int c = 0; for (int k = 0; k < W::nwatches; k++) if (!strcmp(W::watches[k].path, W::nodes[i].path)) c++; if (want[i]) sx_check(c >= 1, "walk-complete:every-directory-is-watched"); else sx_check(c == 0, "walk-complete:nothing-else-is-watched"); sx_check(c <= 1 || fan, "walk-complete:watched-once"); }
  int good = 0; for (int k = 0; k < W::nwatches; k++) { int j = W::find(W::watches[k].path); sx_check(j >= 0 && want[j], "walk-complete:nothing-outside-is-watched"); }
  int msgs = 0, lost = 0; for (int i = 0; i < W::nnodes; i++) if (W::nodes[i].gone) lost++; for (int i = 1; i < nrecs - 1; i++) msgs++; sx_check(msgs <= lost, "walk-complete:no-complaint"); sx_check(W::open_dirs == 0 && W::dir_bad == 0 && W::open_count() == 0, "fd-hygiene:walk");
}
