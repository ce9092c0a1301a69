// The adapter for other systems, which scans: over any changes of a small tree between and during its looks.
// <filesystem>'s directory iterators and times are stood in for, as documented; the adapter and the watcher above it are real.
#include "../model/sx.h"
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <chrono>
#include <climits>
#include <condition_variable>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <cwchar>
#include <dirent.h>
#include <fcntl.h>
#include <filesystem>
#include <functional>
#include <future>
#include <iomanip>
#include <ios>
#include <iosfwd>
#include <iostream>
#include <limits>
#include <linux/version.h>
#include <memory>
#include <mutex>
#include <optional>
#include <ostream>
#include <poll.h>
#include <random>
#include <sstream>
#include <string>
#include <string_view>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <sys/fanotify.h>
#include <sys/inotify.h>
#include <sys/stat.h>
#include <system_error>
#include <thread>
#include <tuple>
#include <type_traits>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <variant>
#include <vector>
#undef __linux__
#undef __linux
#undef linux
#undef __gnu_linux__
#include "rec.hpp"
extern "C" int sx_threads_live(void);
namespace fs = std::filesystem;
// ---------------------------------------------------------------- the tree
static char const* const PATH[] = {"/w", "/w/a", "/w/d", "/w/d/c", "/w/b"}; static int const PAR[] = {-1, 0, 0, 2, 0}; enum { NONE, FILE_, DIR_ };
static int N; static int kind[5]; static long mt[5]; static bool unlist[5]; static long now_ = 100; static int changed[5], evented[5], seq = 1; static int budget, looks, nlooks, mids; static int done; static bool rootgone;
static int at(char const* p) { for (int i = 0; i < N; i++) if (!strcmp(p, PATH[i])) return i; return -1; }
static bool visible(int i) { for (int p = PAR[i]; p >= 0; p = PAR[p]) if (unlist[p]) return false; return true; }
static bool reg(int i) { return kind[i] == FILE_ && visible(i); }
static void drop(int i) { if (!kind[i]) return; kind[i] = NONE; changed[i] = ++seq; for (int k = 0; k < N; k++) if (PAR[k] == i) drop(k); }
static void change() { int i = 1 + (int)sx_choose(N - 1, "which"), k = (int)sx_choose(3, "becomes"); if (kind[PAR[i]] != DIR_) sx_end_path();
  if (k == NONE) { if (!kind[i]) sx_end_path(); drop(i); sx_cover("removed"); } else { if (kind[i] == DIR_) { if (k == DIR_) sx_end_path(); drop(i); } kind[i] = k; now_++; mt[i] = sx_bool("older") ? -now_ : now_; changed[i] = ++seq; sx_cover(k == FILE_ ? "file" : "directory"); } }
static void tick() { if (mids > 0 && looks > 0 && looks < nlooks && sx_bool("meanwhile")) { mids--; change(); sx_cover("meanwhile"); } }
static int stat_(char const* p) { int i = at(p); if (i < 0) return -1; tick(); return kind[i]; }
static fs::file_type ty(int k) { return k == DIR_ ? fs::file_type::directory : k == FILE_ ? fs::file_type::regular : fs::file_type::not_found; }
static void thrown() { sx_violate("scan-lifecycle:survives-what-vanishes", "an exception (filesystem_error) escapes"); }
// ---------------------------------------------------------------- looking at it
struct Lst { int n = 0, pos = 0; int e[5]; int k[5]; };
static bool listdir(int i, bool skip, Lst& l, int& err) { tick(); err = 0; l.n = l.pos = 0; if (i < 0 || kind[i] == NONE) { err = ENOENT; return false; } if (kind[i] != DIR_) { err = ENOTDIR; return false; } if (unlist[i]) { sx_cover("unlistable"); if (!skip) err = EACCES; return false; }
  for (int k = 0; k < N; k++) if (PAR[k] == i && kind[k]) { l.e[l.n] = k; l.k[l.n++] = kind[k]; } return true; }
namespace std { namespace filesystem { inline namespace __cxx11 {
struct recursive_directory_iterator::_Dir_stack { Lst l[4]; int d = 0; bool pending = true; bool skip = false; directory_entry cur; bool next() { tick(); while (d >= 0 && l[d].pos >= l[d].n) d--; if (d < 0) return false; int p = l[d].pos++; cur = directory_entry(path(PATH[l[d].e[p]]), ty(l[d].k[p])); return true; } };
recursive_directory_iterator::recursive_directory_iterator(path const& p, directory_options o, error_code* ec) { if (ec) ec->clear(); int err; auto s = std::__make_shared<_Dir_stack>(); s->skip = (o & directory_options::skip_permission_denied) != directory_options::none;
  if (!listdir(at(p.c_str()), s->skip, s->l[0], err)) { if (err) { if (!ec) thrown(); else *ec = error_code(err, generic_category()); } return; } if (s->next()) _M_dirs = std::move(s); }
recursive_directory_iterator::~recursive_directory_iterator() {}
recursive_directory_iterator& recursive_directory_iterator::operator=(recursive_directory_iterator const& o) noexcept { _M_dirs = o._M_dirs; return *this; }
recursive_directory_iterator& recursive_directory_iterator::operator=(recursive_directory_iterator&& o) noexcept { _M_dirs = std::move(o._M_dirs); return *this; }
directory_entry const& recursive_directory_iterator::operator*() const noexcept { return _M_dirs->cur; }
int recursive_directory_iterator::depth() const noexcept { return _M_dirs->d; }
bool recursive_directory_iterator::recursion_pending() const noexcept { return _M_dirs->pending; }
void recursive_directory_iterator::disable_recursion_pending() noexcept { _M_dirs->pending = false; }
recursive_directory_iterator& recursive_directory_iterator::increment(error_code& ec) { ec.clear(); auto& s = *_M_dirs; int err;
  if (std::exchange(s.pending, true)) { int p = s.l[s.d].pos - 1; if (s.l[s.d].k[p] == DIR_) { Lst n; if (listdir(s.l[s.d].e[p], s.skip, n, err)) { sx_cover("below"); if (s.d >= 3) sx_unmodelled("a deep tree"); s.l[++s.d] = n; } else if (err) { ec = error_code(err, generic_category()); sx_cover("vanished"); _M_dirs.reset(); return *this; } } }
  if (!s.next()) _M_dirs.reset(); return *this; }
recursive_directory_iterator& recursive_directory_iterator::operator++() { error_code ec; increment(ec); if (ec) thrown(); return *this; }
void recursive_directory_iterator::pop(error_code& ec) { ec.clear(); if (--_M_dirs->d < 0 || !_M_dirs->next()) _M_dirs.reset(); }
void recursive_directory_iterator::pop() { error_code ec; pop(ec); }
} } }
extern "C++" {
SXFS(fs::file_time_type, sx_fs_lwt, "_ZNSt10filesystem15last_write_timeERKNS_7__cxx114pathERSt10error_code", (fs::path const& p, std::error_code& ec)) { tick(); ec.clear(); int i = at(p.c_str()); if (i < 0 || !kind[i]) { ec = std::error_code(ENOENT, std::generic_category()); return fs::file_time_type::min(); } return fs::file_time_type(fs::file_time_type::duration(mt[i])); }
SXFS(fs::file_time_type, sx_fs_lwt1, "_ZNSt10filesystem15last_write_timeERKNS_7__cxx114pathE", (fs::path const& p)) { std::error_code ec; auto r = sx_fs_lwt(p, ec); if (ec) thrown(); return r; }
}
// ---------------------------------------------------------------- what was there at the last look
static bool was[5]; static long wast[5]; static int told; static bool known[5]; static bool bad;
static void fold() { for (; told < nrecs; told++) { Rec& r = recs[told]; if (r.type == T_WATCHER) continue; int i = at(r.path.c_str()); sx_check(i > 0 && r.type == T_FILE && !r.assoc, "scan-translate:path"); if (i <= 0) { bad = true; continue; } evented[i] = ++seq;
    sx_check(r.effect == E_CREATE || r.effect == E_MODIFY || r.effect == E_DESTROY, "scan-translate:effect-type"); sx_check(known[i] == (r.effect != E_CREATE), "scan-translate:makes-sense"); known[i] = r.effect != E_DESTROY; } }
static void looked() { // a look has ended: just the differences are told
  int c[5] = {}, e[5] = {}; for (int k = told; k < nrecs; k++) if (recs[k].type != T_WATCHER) { int i = at(recs[k].path.c_str()); if (i > 0) { c[i]++; e[i] = recs[k].effect; } } fold();
  for (int i = 1; i < N; i++) { bool is = reg(i); int want = was[i] && !is ? E_DESTROY : !was[i] && is ? E_CREATE : was[i] && wast[i] != mt[i] ? E_MODIFY : -1; sx_check(c[i] == (want >= 0), want >= 0 ? "scan-translate:each-change-is-reported-once" : "scan-translate:nothing-else-is-reported"); if (c[i] && want >= 0) { sx_check(e[i] == want, "scan-translate:effect-type"); sx_cover(want == E_CREATE ? "create" : want == E_MODIFY ? "modify" : "destroy"); } was[i] = is; wast[i] = mt[i]; } }
static int const never = 0; static bool exact; static int denied; static void got(wtr::event const& e) { record(e); if (rootgone && starts(e.path_name.native(), "e/self/die@")) done = 1; if (denied && starts(e.path_name.native(), "e/self/die@")) done = 1; }
extern "C" int sxm_nanosleep(timespec const*, timespec*) { sx_yield("sleep"); if (done) { sx_block_timed(&never); return 0; } if (rootgone) { if (++looks > nlooks + 2) done = 1; return 0; } if (looks == 0 && denied) { W::cfg.faults = true; W::cfg.fault_budget = denied; } if (exact) looked(); if (++looks > nlooks + (exact ? 0 : 2)) done = 1; else if (looks <= nlooks) { if (looks == nlooks) W::cfg.faults = false; if (sx_param("root", 0) && sx_bool("root")) { drop(0); rootgone = true; sx_cover("rootgone"); return 0; } else for (int k = 0; k < budget; k++) if (!k || sx_bool("another")) change(); } if (done) sx_block_timed(&never); return 0; }
extern "C" void sx_main() {
  N = sx_param("nodes", 4); nlooks = sx_param("looks", 2); budget = sx_param("changes", 1); mids = sx_param("mid", 0); denied = sx_param("denied", 0); exact = !mids && !denied; int early = sx_param("early", 0); W::add("/w", DT_DIR); kind[0] = DIR_; W::stat_hook = stat_;
  for (int i = 1; i < N; i++) { int k = kind[PAR[i]] == DIR_ ? (int)sx_choose(3, "starts") : 0; kind[i] = k; mt[i] = k ? i : 0; if (k == DIR_ && sx_param("unlist", 0)) unlist[i] = sx_bool("unlistable"); was[i] = known[i] = reg(i); wast[i] = mt[i]; }
  bool ok; { wtr::watch w("/w", got); if (!early) sx_block(&done); ok = w.close(); closed_flag = true; }
  observe_recs(); sx_check(!after_close && !sx_threads_live(), "scan-lifecycle:closed-is-quiet"); if (rootgone) { fold(); sx_check(nrecs && recs[nrecs - 1].type == T_WATCHER, "scan-lifecycle:ends"); if (starts(recs[nrecs - 1].path, "e/self/die@")) { sx_check(!ok, "scan-lifecycle:result"); sx_cover("ended"); } else sx_check(looks <= nlooks + 2, "scan-lifecycle:ends-with-its-path"); return; }
  if (denied && W::cfg.fault_budget < denied) { sx_cover("denied"); if (starts(recs[nrecs - 1].path, "e/self/die@")) { sx_check(!ok, "scan-lifecycle:result"); return; } }
  if (early && nrecs && starts(recs[0].path, "e/self/live@")) return; sx_check(ok, "scan-lifecycle:result"); check_framing("/w", true, nrecs); fold();
  if (!exact) for (int i = 1; i < N; i++) { sx_check(known[i] == reg(i), "scan-translate:comes-to-agree"); if (reg(i) && changed[i]) sx_check(evented[i] > changed[i], "scan-translate:comes-to-agree"); } }
