// The Windows adapter, over any records the system may hand it.  The Win32 calls are stood in for
// by these stubs (wchar_t is 16 bits wide, as there); the adapter's own code and the watcher above it are real.
#include <stddef.h>
extern "C" { // the C library's are for another wchar_t
wchar_t* wmemcpy(wchar_t*, wchar_t const*, size_t) noexcept(true) __asm__("wmemcpy16"); wchar_t* wmemmove(wchar_t*, wchar_t const*, size_t) noexcept(true) __asm__("wmemmove16"); wchar_t* wmemset(wchar_t*, wchar_t, size_t) noexcept(true) __asm__("wmemset16"); size_t wcslen(wchar_t const*) noexcept(true) __asm__("wcslen16"); int wmemcmp(wchar_t const*, wchar_t const*, size_t) noexcept(true) __asm__("wmemcmp16"); }
#include "../model/sx.h"
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <chrono>
#include <climits>
#include <condition_variable>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <cwchar>
#include <dirent.h>
#include <fcntl.h>
#include <filesystem>
#include <functional>
#include <future>
#include <iomanip>
#include <ios>
#include <iosfwd>
#include <iostream>
#include <limits>
#include <linux/version.h>
#include <memory>
#include <mutex>
#include <optional>
#include <ostream>
#include <poll.h>
#include <random>
#include <sstream>
#include <string>
#include <string_view>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <sys/fanotify.h>
#include <sys/inotify.h>
#include <sys/stat.h>
#include <system_error>
#include <thread>
#include <tuple>
#include <type_traits>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <variant>
#include <vector>
static_assert(sizeof(wchar_t) == 2);
extern "C" {
wchar_t* wmemcpy(wchar_t* a, wchar_t const* b, size_t n) { for (size_t i = 0; i < n; i++) a[i] = b[i]; return a; }
wchar_t* wmemmove(wchar_t* a, wchar_t const* b, size_t n) { if (a < b) for (size_t i = 0; i < n; i++) a[i] = b[i]; else while (n--) a[n] = b[n]; return a; }
wchar_t* wmemset(wchar_t* a, wchar_t b, size_t n) { for (size_t i = 0; i < n; i++) a[i] = b; return a; }
size_t wcslen(wchar_t const* a) { size_t n = 0; while (a[n]) n++; return n; }
int wmemcmp(wchar_t const* a, wchar_t const* b, size_t n) { for (size_t i = 0; i < n; i++) if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1; return 0; }
}
// a path holds wide characters there and bytes here; names are plain ASCII, the same in both
namespace std { inline bool __str_codecvt_out_all(wchar_t const* f, wchar_t const* l, string& s, filesystem::path::_Codecvt<wchar_t> const&) { s.clear(); for (; f != l; f++) s.push_back((char)*f); return true; } }
#undef __linux__
#undef __linux
#undef linux
#undef __gnu_linux__
#define _WIN32 1
#include "rec.hpp"
#include <windows.h>
extern "C" int sx_threads_live(void);
static void wrong(char const* w) { sx_violate("windows-close:system-objects-are-used-as-documented", w); }
enum { HNONE, HEVENT, HFILE, HPORT }; struct Hd { int kind = 0; bool open = false; int closes = 0; }; static Hd hds[8]; static int nh; static DWORD last_error;
static int fail_at, ncalls; static char const* failed_what; static bool fails(char const* w) { if (++ncalls == fail_at) { failed_what = w; return true; } return false; }
static HANDLE handle(int kind) { if (nh >= 8) sx_unmodelled("too many handles"); hds[nh].kind = kind; hds[nh].open = true; return (HANDLE)(uintptr_t)(++nh * 4); }
static Hd* get(HANDLE h, int kind) { uintptr_t v = (uintptr_t)h; if (v % 4 || !v || v / 4 > (uintptr_t)nh || !hds[v / 4 - 1].open || (kind && hds[v / 4 - 1].kind != kind)) { last_error = ERROR_INVALID_HANDLE; return nullptr; } return &hds[v / 4 - 1]; }
// ---------------------------------------------------------------- the directory being read
static HANDLE dirh, porth; static bool pending, associated; static char* rbuf; static DWORD rlen; static LPOVERLAPPED rov; static ULONG_PTR rkey; static int reads; static bool subtree; static DWORD filter; static char opened[2048]; static DWORD oflags, oshare;
struct Pkt { DWORD n; bool ok; LPOVERLAPPED ov; }; static Pkt pkts[16]; static int ph, pt_; static int wake; static bool closing; static bool broken, cancelled; // broken: no read can succeed any more
static int scratch_done = 1;
static void post(DWORD n, bool ok) { if (pt_ >= 16) sx_unmodelled("packets"); pkts[pt_++] = Pkt{n, ok, rov}; wake = 1; pending = false; if (rov) rov->Internal = ok ? 0 : 0xC0000056u, rov->InternalHigh = n; }
extern "C" {
DWORD GetLastError() { return last_error; }
void SetLastError(DWORD e) { last_error = e; }
HANDLE CreateEventW(LPSECURITY_ATTRIBUTES, BOOL, BOOL, WCHAR const*) { if (fails("event")) { last_error = 8; return nullptr; } return handle(HEVENT); }
BOOL ResetEvent(HANDLE h) { return get(h, HEVENT) != nullptr; }
BOOL SetEvent(HANDLE h) { return get(h, HEVENT) != nullptr; }
BOOL CloseHandle(HANDLE h) { Hd* p = get(h, 0); if (!p) { wrong("CloseHandle of nothing"); return 0; } if (p->kind == HFILE && pending) cancelled = true; p->open = false; p->closes++; return 1; } // closing a file ends what is pending on it, some time
HANDLE CreateFileW(char const* path, DWORD access, DWORD share, LPSECURITY_ATTRIBUTES, DWORD disp, DWORD flags, HANDLE) { if (fails("open")) { last_error = ERROR_ACCESS_DENIED; return INVALID_HANDLE_VALUE; } strncpy(opened, path, sizeof opened - 1); oflags = flags; oshare = share; if (disp != OPEN_EXISTING || !(access & FILE_LIST_DIRECTORY)) { last_error = ERROR_INVALID_PARAMETER; return INVALID_HANDLE_VALUE; } if (dirh) sx_unmodelled("two directories"); return dirh = handle(HFILE); }
HANDLE CreateIoCompletionPort(HANDLE f, HANDLE port, ULONG_PTR key, DWORD) {
  if (f == INVALID_HANDLE_VALUE) { if (port) { last_error = ERROR_INVALID_PARAMETER; return nullptr; } if (fails("port")) { last_error = 8; return nullptr; } if (porth) sx_unmodelled("two ports"); return porth = handle(HPORT); }
  if (!get(f, HFILE)) return nullptr; if (!port) { if (fails("port")) return nullptr; port = porth = handle(HPORT); } if (!get(port, HPORT)) return nullptr; if (associated || fails("associate")) { last_error = ERROR_INVALID_PARAMETER; return nullptr; } associated = true; rkey = key; return port; }
BOOL ReadDirectoryChangesW(HANDLE h, LPVOID buf, DWORD n, BOOL sub, DWORD flt, LPDWORD, LPOVERLAPPED ov, LPOVERLAPPED_COMPLETION_ROUTINE cr) {
  if (!get(h, HFILE)) return 0; if (!(oflags & FILE_FLAG_OVERLAPPED) || !ov || cr) sx_unmodelled("a read of another kind"); if (pending) wrong("a read while one is pending"); if ((uintptr_t)buf % 4) { last_error = 998; return 0; }
  if (broken || fails("read")) { last_error = ERROR_ACCESS_DENIED; return 0; } rbuf = (char*)buf; rlen = n; rov = ov; reads++; subtree = sub; filter = flt; rbuf[n - 1] = 0; pending = true; cancelled = false; ov->Internal = STATUS_PENDING; sx_yield("read"); return 1; }
BOOL GetQueuedCompletionStatus(HANDLE port, LPDWORD n, PULONG_PTR key, LPOVERLAPPED* ov, DWORD ms) { if (!get(port, HPORT)) { *ov = nullptr; sx_check(!ncalls || !fail_at, "windows-close:no-polling-of-nothing"); sx_end_path(); return 0; }
  sx_yield("wait"); if (ph == pt_ && cancelled) { cancelled = false; post(0, false); } if (ph == pt_ && ms) { wake = 0; if (closing) sx_block_timed(&wake); else sx_block(&wake); }
  if (ph == pt_) { *ov = nullptr; last_error = WAIT_TIMEOUT; return 0; } Pkt& p = pkts[ph++]; *n = p.n; *key = rkey; *ov = p.ov; if (!p.ok) last_error = ERROR_ACCESS_DENIED; return p.ok; }
BOOL PostQueuedCompletionStatus(HANDLE port, DWORD n, ULONG_PTR, LPOVERLAPPED o) { if (!get(port, HPORT)) return 0; if (pt_ >= 16) sx_unmodelled("packets"); pkts[pt_++] = Pkt{n, true, o}; wake = 1; return 1; }
BOOL CancelIo(HANDLE h) { if (!get(h, HFILE)) return 0; if (pending) cancelled = true; return 1; } // ending is asked for; it has ended when a completion says so
BOOL CancelIoEx(HANDLE h, LPOVERLAPPED) { if (!get(h, HFILE)) return 0; if (!pending) { last_error = ERROR_NOT_FOUND; return 0; } cancelled = true; return 1; }
BOOL GetOverlappedResult(HANDLE h, LPOVERLAPPED o, LPDWORD n, BOOL wait) { if (!get(h, HFILE)) return 0; if (o->Internal == STATUS_PENDING) { if (!wait) { last_error = ERROR_IO_INCOMPLETE; return 0; } if (!cancelled) sx_unmodelled("waits for what nobody ended"); cancelled = false; post(0, false); } *n = (DWORD)o->InternalHigh; return o->Internal == 0; }
DWORD WaitForSingleObject(HANDLE, DWORD) { sx_unmodelled("WaitForSingleObject"); return 0; }
void Sleep(DWORD) { sx_yield("sleep"); }
}
static int const never = 0; static void settle() { sx_block_timed(&never); }
// ---------------------------------------------------------------- records
struct Ev { DWORD action; int n; char name[4]; bool dir; int pad; }; static Ev evs[4][4]; static int nev[4]; static int nowb;
static int stat_(char const* p) { if (!strncmp(p, "/w/", 3) && p[3] && strlen(p) < 7) { for (int i = 0; i < nev[nowb]; i++) if (!strcmp(p + 3, evs[nowb][i].name)) return evs[nowb][i].dir ? 2 : 1; return 0; } return -1; }
static void complete(int b) { // the system fills the pending read
  nowb = b; DWORD o = 0; for (int i = 0; i < nev[b]; i++) { Ev& e = evs[b][i]; DWORD l = (12 + 2 * e.n + 3) & ~3u; bool last = i + 1 == nev[b]; DWORD step = last ? 0 : l + 4 * e.pad; if (o + l > rlen) sx_unmodelled("too long for the buffer");
    FILE_NOTIFY_INFORMATION h; memset(&h, 0, sizeof h); h.NextEntryOffset = step; h.Action = e.action; h.FileNameLength = 2 * e.n; memcpy(rbuf + o, &h, 12); for (int k = 0; k < e.n; k++) { rbuf[o + 12 + 2 * k] = e.name[k]; rbuf[o + 13 + 2 * k] = 0; } if (e.n % 2) rbuf[o + 12 + 2 * e.n] = rbuf[o + 13 + 2 * e.n] = 0; o += last ? l : step; }
  post(o, true); sx_cover("batch"); }
static void gen(int b, int ne, int distinct) { int n = ne > 1 ? 1 + (int)sx_choose(ne, "records") : 1; for (int i = 0; i < n; i++) { Ev& e = evs[b][i]; e.action = sx_param("renames", 0) ? FILE_ACTION_RENAMED_OLD_NAME + (DWORD)sx_choose(2, "new") : sx_u32("action"); e.n = sx_param("short", 0) ? 1 : 1 + (int)sx_choose(2, "namelen"); for (int k = 0; k < e.n; k++) { e.name[k] = (char)sx_u8("name"); sx_assume((e.name[k] > '@') & (e.name[k] < 127) & (e.name[k] != '\\')); } e.name[e.n] = 0; e.dir = sx_bool("directory"); e.pad = i + 1 < n ? (int)sx_choose(2, "pad") : 0;
    for (int j = 0; j < i; j++) sx_assume(strcmp(e.name, evs[b][j].name) != 0 || e.dir == evs[b][j].dir); } nev[b] = n; }
static bool armed() { return pending && rbuf; }
static std::string full(Ev const& e) { return std::string("/w/") + std::string(e.name, e.n); }
static void translate(int nb, int ne) {
  bool ok; int n_end; { wtr::watch w("/w", record); settle(); sx_check(nrecs == 1 && armed(), "windows-translate:is-watching"); if (!armed()) sx_end_path(); sx_check(!strcmp(opened, "/w"), "windows-translate:watches-the-path"); sx_check(subtree, "windows-translate:with-everything-below"); sx_check((filter & 0x7f & ~FILE_NOTIFY_CHANGE_LAST_ACCESS) == 0x5f && (filter & FILE_NOTIFY_CHANGE_SECURITY), "windows-translate:asks-for-every-effect"); sx_check((oshare & 7) == 7, "windows-translate:others-may-use-it");
    for (int b = 0; b < nb; b++) { gen(b, ne, 1); int at = nrecs; complete(b); settle(); sx_check(armed(), "windows-close:reads-go-on"); if (!armed()) sx_end_path();
      for (int i = 0; i < nev[b]; i++) { Ev& e = evs[b][i]; bool pair = false; int to = i, from = i; bool half = e.action == FILE_ACTION_RENAMED_OLD_NAME || e.action == FILE_ACTION_RENAMED_NEW_NAME;
        if (half) { if (i + 1 < nev[b] && (evs[b][i + 1].action ^ e.action) == 1 && (evs[b][i + 1].action == FILE_ACTION_RENAMED_OLD_NAME || evs[b][i + 1].action == FILE_ACTION_RENAMED_NEW_NAME)) { pair = true; if (e.action == FILE_ACTION_RENAMED_OLD_NAME) to = i + 1; else from = i + 1; to = (int)sx_concretize((uint64_t)to), from = (int)sx_concretize((uint64_t)from); } else { sx_cover("half"); sx_check(i + 1 < nev[b] || at == nrecs, "windows-translate:nothing-else-is-reported"); sx_check_kf(0, 1, "windows-half-rename", "windows-translate:each-record-is-reported"); sx_end_path(); } }
        bool there = at < nrecs; sx_check(there, "windows-translate:each-record-is-reported"); if (!there) return; Rec& r = recs[at++];
        int eff = half ? E_RENAME : e.action == FILE_ACTION_ADDED ? E_CREATE : e.action == FILE_ACTION_REMOVED ? E_DESTROY : e.action == FILE_ACTION_MODIFIED ? E_MODIFY : E_OTHER;
        sx_check(r.effect == eff, "windows-translate:effect-type"); sx_check(r.type == (evs[b][from].dir ? T_DIR : T_FILE), "windows-translate:path-type"); sx_check(eq(r.path, full(evs[b][from])), "windows-translate:path"); sx_check(r.assoc == pair, "windows-translate:associated");
        if (pair && r.assoc) { sx_cover("pair"); sx_check(eq(r.apath, full(evs[b][to])), "windows-translate:to-path"); sx_check(r.aeffect == E_RENAME && r.atype == (evs[b][to].dir ? T_DIR : T_FILE) && !r.deep, "windows-translate:associated"); i++; } else if (eff == E_OTHER) sx_cover("other"); else sx_cover("plain"); }
      sx_check(at == nrecs, "windows-translate:nothing-else-is-reported"); }
    n_end = nrecs; closing = true; wake = 1; ok = w.close(); }
  observe_recs(); sx_check(ok, "windows-close:clean-stop"); check_framing("/w", true, n_end); }
static void one(int b, char c) { nev[b] = 1; Ev& e = evs[b][0]; e.action = FILE_ACTION_ADDED; e.n = 1; e.name[0] = c; e.name[1] = 0; e.dir = false; e.pad = 0; }
static void life() {
  int n = sx_param("n", 1), over = sx_param("over", 0), early = sx_param("early", 0), bad = sx_param("bad", 0), len = sx_param("len", 0); fail_at = sx_param("fail", 0) ? (int)sx_choose(8, "failing") : 0; bool ok, gone = false; int given = 0;
  static char lp[1024] = "/w"; if (len) { lp[2] = '/'; for (int i = 3; i < len; i++) lp[i] = i % 200 ? 'n' : '/'; for (int i = 3; i <= len; i++) if (lp[i] == '/' || i == len) { lp[i] = 0; W::add(strdup(lp), DT_DIR); if (i < len) lp[i] = '/'; } lp[len] = 0; }
  { wtr::watch w(lp, record);
    if (!early) { settle(); for (int b = 0; b < n && armed(); b++) { int k = over ? (int)sx_choose(3, "completion") : 0; if (k == 1) { post(0, true); sx_cover("overflow"); settle(); if (!fail_at) sx_check(armed(), "windows-close:reads-go-on"); } else if (k == 2) { broken = true; gone = true; post(0, false); sx_cover("broken"); } else { one(b, (char)('a' + b)); complete(b); given++; if (sx_param("settled", 0)) settle(); } if (!sx_param("settled", 0)) break; } }
    closing = true; wake = 1; ok = w.close(); closed_flag = true; }
  observe_recs(); bool failed = failed_what || gone; if (failed) sx_cover("failed"); else sx_cover("ran");
  if (!early || nrecs > 2) { if (!gone || sx_param("settled", 0)) sx_check(ok == !failed, failed ? "windows-close:failure-is-told" : "windows-close:clean-stop"); }
  sx_check(after_close == 0, "windows-close:closed-is-quiet"); sx_check(!pending, "windows-close:no-read-outlives-its-buffer"); sx_check(!sx_threads_live(), "windows-close:threads-are-gone");
  for (int i = 0; i < nh; i++) sx_check(!hds[i].open && hds[i].closes == 1, "windows-close:every-handle-is-closed-once");
  if (given && !failed && sx_param("settled", 0)) { int m = 0; for (int i = 0; i < nrecs; i++) if (recs[i].type != T_WATCHER) m++; sx_check(m == given, "windows-close:events-go-on"); sx_cover("delivered"); }
  sx_check(nrecs >= 2 && recs[0].type == T_WATCHER && recs[nrecs - 1].type == T_WATCHER, "windows-close:framed"); }
extern "C" void sx_main() { W::add("/w", DT_DIR); W::stat_hook = stat_; if (sx_param("life", 0)) life(); else translate(sx_param("nb", 1), sx_param("ne", 1)); }
