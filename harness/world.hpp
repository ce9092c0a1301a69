// A nondeterministic Linux: every system call the watcher makes is answered by
// these stubs, constrained only by the documented contract of the call.
#pragma once
#include "../model/sx.h"
#include <cerrno>
#include <climits>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <dirent.h>
#include <fcntl.h>
#include <linux/version.h>
#include <poll.h>
#include <string>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <sys/fanotify.h>
#include <sys/inotify.h>
#include <sys/stat.h>
#include <sys/vfs.h>
#include <unistd.h>
#include "wtr/watcher.hpp"

namespace W {
// ---------------------------------------------------------------- configuration (set by the harness before it starts)
struct Config {
  bool yields = false;       // system calls are scheduling points
  bool faults = false; int fault_budget = 0; // symbolic failures
  bool fanotify = false;     // geteuid()==0 and fanotify works
  bool root = false;         // geteuid()==0
  bool clock_symbolic = false;
  bool eintr = false;        // epoll_wait may be interrupted
  bool fd0 = false;          // the kernel may hand out descriptor 0
  bool all_dtypes = true;
};
inline Config cfg;
inline char const* faulted[4]; inline int nfaulted = 0;
inline int fault_tid = -1; // who met the last failure
inline bool flt(char const* what) { if (!cfg.faults || cfg.fault_budget <= 0) return false; if (sx_bool(what)) { fault_tid = sx_self(); cfg.fault_budget--; if (nfaulted < 4) faulted[nfaulted++] = what; return true; } return false; }
inline bool did_fault(char const* what) { for (int i = 0; i < nfaulted; i++) if (!strcmp(faulted[i], what)) return true; return false; }
inline int cwd_fs = 0; inline int (*fs_hook)(char const*) = nullptr; inline int fs_of(char const* p) { return fs_hook ? fs_hook(p) : 0; } // which filesystem a path is on
inline void y(char const* w) { if (cfg.yields) sx_yield(w); }

// ---------------------------------------------------------------- descriptors
enum { KNONE, KEVENTFD, KEPOLL, KINOTIFY, KFANOTIFY, KDIRFD, KOTHER };
struct Fd { int kind = 0; bool open = false; int closes = 0; unsigned long long counter = 0; int flags = 0; };
constexpr int FDMAX = 64; inline Fd fds[FDMAX]; inline int next_fd = 3; inline int bad_closes = 0, bad_uses = 0; inline int closed_unowned = 0;
inline int new_fd(int kind, int flags) { int f = next_fd; if (cfg.fd0 && f == 3 && sx_bool("fd_is_0")) f = 0; else next_fd++; if (f >= FDMAX) { sx_violate("*:descriptors-without-end", "descriptors are opened without end"); } cfg.fd0 = false; fds[f].kind = kind; fds[f].open = true; fds[f].flags = flags; return f; }
inline bool okfd(int f, int kind) { if (f >= 0 && f < FDMAX && fds[f].open && (!kind || fds[f].kind == kind)) return true; bad_uses++; return false; }
inline int open_count() { int n = 0; for (auto& f : fds) if (f.open) n++; return n; }
inline int open_count(int kind) { int n = 0; for (auto& f : fds) if (f.open && f.kind == kind) n++; return n; }

// ---------------------------------------------------------------- blocking and progress
} extern int sx_quiet; namespace W { inline int& idle = sx_quiet;  // set when the watcher waits for events and there are none
inline bool early_timeout = false; inline int wake_of[64]; inline int waiting = 0; // threads in epoll_wait with nothing to do
inline void edges();
inline void notify() { for (int& w : wake_of) w = 1; edges(); } // there may be something new

// ---------------------------------------------------------------- a small tree of files
struct Node { char const* path; unsigned char type; char const* target; bool unlistable; bool nostat; bool unk = false; int gone = 0; }; // gone: listed, but removed before it is resolved (1) or just after (2)
constexpr int NMAX = 32; inline Node nodes[NMAX]; inline int nnodes = 0;
inline void add(char const* path, unsigned char type, char const* target = nullptr) { nodes[nnodes++] = Node{path, type, target, false, false}; }
inline int find(char const* p) { for (int i = 0; i < nnodes; i++) if (nodes[i].gone != 1 && !strcmp(nodes[i].path, p)) return i; return -1; }
inline bool gone2(char const* p) { int n = find(p); return n >= 0 && nodes[n].gone == 2; }
inline bool live = false; // after the initial walk: paths may be symbolic
// hooks for paths met after the initial walk
inline int (*realpath_hook)(char const* path, char* out) = nullptr; // 0: no such path
inline bool (*isdir_hook)(char const* path) = nullptr; inline int (*stat_hook)(char const* path) = nullptr; // 0 missing, 1 a file, 2 a directory, -1 ask the tree
inline int (*add_watch_hook)(char const* path, uint32_t mask) = nullptr; // 1 a new descriptor, n+1 the existing descriptor n, else -errno
inline void (*rm_watch_hook)(int wd) = nullptr;
inline int (*opendir_hook)(char const* path) = nullptr; // 0 fails
inline int (*readdir_hook)(char const* path, int pos, dirent* de) = nullptr; // 0: no more entries

// ---------------------------------------------------------------- watches
struct Watch { char path[64]; size_t len; uint32_t mask; int fd; bool removed; };
constexpr int WMAX = 24; inline Watch watches[WMAX]; inline int nwatches = 0; // watch descriptors are numbered from 1 in each instance
inline int wd_of(int k) { int n = 0; for (int i = 0; i <= k; i++) n += watches[i].fd == watches[k].fd; return n; }
inline int nth_watch(int fd, int wd) { for (int i = 0; i < nwatches; i++) if (watches[i].fd == fd && !--wd) return i; return -1; }

// ---------------------------------------------------------------- event batches
inline long (*fill)(int fd, char* buf, size_t n) = nullptr;  // bytes, or -errno
inline bool (*has_batch)() = nullptr; inline bool (*has_batch_on)(int fd) = nullptr;
inline uint32_t el_il = 0, el_ke = 0;

// ---------------------------------------------------------------- epoll
struct Interest { int fd; epoll_event ev; bool used; int ep; bool deaf; }; inline Interest interests[8]; // deaf: told already, and asked to be told once
inline int epoll_waits = 0; inline void edges() { for (auto& i : interests) if (i.used && !(i.ev.events & EPOLLONESHOT)) i.deaf = false; }

// ---------------------------------------------------------------- directories
struct DirS { int node; int pos; bool open; int phase; dirent de; char path[64]; }; constexpr int DMAX = 16; inline DirS dirs[DMAX]; inline int ndirs = 0; inline int open_dirs = 0, max_dirs = 1000; inline int dir_bad = 0; // no more than so many may be open at once
inline char const* base_of(char const* p) { char const* r = p; for (; *p; p++) if (*p == '/') r = p + 1; return r; }
inline bool parent_is(char const* child, char const* dir) { size_t n = strlen(dir); if (strncmp(child, dir, n)) return false; if (n && dir[n - 1] == '/') n--; if (child[n] != '/' || !child[n + 1]) return false; for (char const* q = child + n + 1; *q; q++) if (*q == '/') return false; return true; }
// follow symbolic links and normalise "//", "." and ".." lexically
inline bool resolve(char const* p, char* out) {
  char tmp[PATH_MAX]; size_t o = 0; size_t i = 0; tmp[0] = 0; if (!p[0]) return false; if (strlen(p) >= PATH_MAX) return false; if (p[0] != '/') { if (find("/cwd") < 0) return false; strcpy(tmp, "/cwd"); o = 4; }
  while (p[i]) { while (p[i] == '/') i++; size_t b = i; while (p[i] && p[i] != '/') i++; size_t n = i - b; if (!n) break; if (n == 1 && p[b] == '.') continue;
    if (n == 2 && p[b] == '.' && p[b + 1] == '.') { while (o && tmp[o] != '/') o--; tmp[o] = 0; continue; }
    tmp[o++] = '/'; for (size_t k = 0; k < n; k++) tmp[o++] = p[b + k]; tmp[o] = 0; int nd = find(tmp); if (nd < 0) return false; if (nodes[nd].type == DT_LNK) { if (!nodes[nd].target) return false; size_t k = 0; for (; nodes[nd].target[k]; k++) tmp[k] = nodes[nd].target[k]; tmp[k] = 0; o = k; if (find(tmp) < 0) return false; } }
  if (!o) { tmp[o++] = '/'; tmp[o] = 0; } for (size_t k = 0; k <= o; k++) out[k] = tmp[k]; return true; }
inline void reset() { }
} // namespace W

extern "C" {
using namespace W;
int sxm_eventfd(unsigned v, int flags) { y("eventfd"); if (flt("fail_eventfd")) { errno = EMFILE; return -1; } int f = new_fd(KEVENTFD, flags); fds[f].counter = v; return f; }
int sxm_eventfd_write(int f, eventfd_t v) { y("eventfd_write"); if (!okfd(f, KEVENTFD)) { errno = EBADF; return -1; } fds[f].counter += v; notify(); return 0; }
int sxm_eventfd_read(int f, eventfd_t* v) { y("eventfd_read"); if (!okfd(f, KEVENTFD)) { errno = EBADF; return -1; } if (!fds[f].counter) { if (!(fds[f].flags & EFD_NONBLOCK)) while (!fds[f].counter) { int& wk = wake_of[f]; wk = 0; sx_block(&wk); } else { errno = EAGAIN; return -1; } } if (fds[f].flags & EFD_SEMAPHORE) { *v = 1; fds[f].counter--; } else { *v = fds[f].counter; fds[f].counter = 0; } return 0; }
int sxm_close(int f) { y("close"); if (f < 0 || f >= FDMAX || !fds[f].open) { if (f >= 0) bad_closes++; errno = EBADF; return -1; } fds[f].open = false; fds[f].closes++; for (auto& i : interests) if (i.used && (i.fd == f || i.ep == f)) i.used = false; return 0; }
ssize_t sxm_write(int f, void const* p, size_t n) { if (f >= 0 && f < FDMAX && fds[f].kind == KEVENTFD) { uint64_t v; if (n < 8) { errno = EINVAL; return -1; } memcpy(&v, p, 8); return sxm_eventfd_write(f, v) == 0 ? 8 : -1; } if (f == 1 || f == 2) return (ssize_t)n; if (f < 0 || f >= FDMAX || !fds[f].open) { errno = EBADF; return -1; } if (fds[f].kind == KINOTIFY || fds[f].kind == KEPOLL) { errno = fds[f].kind == KEPOLL ? EINVAL : EBADF; return -1; } sx_unmodelled("write"); return -1; }
ssize_t sxm_read(int f, void* p, size_t n) {
  y("read"); if (f >= 0 && f < FDMAX && fds[f].open && fds[f].kind == KEVENTFD) { uint64_t v; if (n < 8) { errno = EINVAL; return -1; } if (sxm_eventfd_read(f, &v)) return -1; memcpy(p, &v, 8); return 8; }
  if (!okfd(f, 0)) { errno = EBADF; return -1; } if (!fill) { errno = EAGAIN; return -1; } long r = fill(f, (char*)p, n); if (r < 0) { errno = (int)-r; return -1; } return r; }
int sxm_epoll_create1(int fl) { y("epoll_create"); if (flt("fail_epoll_create")) { errno = EMFILE; return -1; } return new_fd(KEPOLL, fl); }
int sxm_epoll_create(int n) { return sxm_epoll_create1(0); }
int sxm_epoll_ctl(int e, int op, int f, epoll_event* ev) {
  y("epoll_ctl"); if (!okfd(e, KEPOLL) || !okfd(f, 0)) { errno = EBADF; return -1; } if (flt("fail_epoll_ctl")) { errno = ENOSPC; return -1; }
  if (op == EPOLL_CTL_DEL) { for (auto& i : interests) if (i.used && i.ep == e && i.fd == f) { i.used = false; return 0; } errno = ENOENT; return -1; }
  for (auto& i : interests) if (i.used && i.ep == e && i.fd == f) { if (op == EPOLL_CTL_ADD) { errno = EEXIST; return -1; } i.ev = *ev; i.deaf = false; return 0; }
  for (auto& i : interests) if (!i.used) { i.used = true; i.deaf = false; i.ep = e; i.fd = f; i.ev = *ev; i.deaf = false; return 0; } sx_unmodelled("epoll interests"); return -1; }
int sxm_epoll_wait(int e, epoll_event* out, int max, int timeout) {
  if (!okfd(e, KEPOLL)) { errno = EBADF; return -1; } epoll_waits++; live = true;
  for (;;) {
    y("epoll_wait");
    if (flt("fail_epoll_wait")) { errno = EINVAL; return -1; }
    if (cfg.eintr) { if (sx_bool("eintr")) { cfg.eintr = false; errno = EINTR; return -1; } }
    Interest* rd[8]; int n = 0; for (auto& i : interests) if (i.used && i.ep == e && (i.ev.events & EPOLLIN)) { Fd& f = fds[i.fd]; bool r = f.kind == KEVENTFD ? f.counter > 0 : (has_batch_on ? has_batch_on(i.fd) : has_batch && has_batch()); if (r && !i.deaf) rd[n++] = &i; }
    if (n == 2 && max >= 2) { if (sx_bool("epoll_order")) { Interest* t = rd[0]; rd[0] = rd[1]; rd[1] = t; } }
    if (n > max) n = max;
    if (n) { for (int i = 0; i < n; i++) { out[i] = rd[i]->ev; out[i].events = EPOLLIN; if (rd[i]->ev.events & (EPOLLET | EPOLLONESHOT)) rd[i]->deaf = true; } return n; }
    int& wake = wake_of[e]; waiting++; idle = 1;
    if (timeout == 0) { sx_yield("poll"); wake = 0; waiting--; if (!early_timeout) { early_timeout = true; return 0; } waiting++; sx_block_timed(&wake); waiting--; if (!wake) return 0; continue; }
    if (timeout > 0) { if (!early_timeout && sx_bool("timed_out")) { waiting--; early_timeout = true; return 0; } wake = 0; idle = 1; sx_block_timed(&wake); waiting--; if (!wake) return 0; continue; }
    wake = 0; sx_block(&wake); waiting--; } }
int sxm_inotify_init1(int fl) { y("inotify_init"); if (flt("fail_inotify_init")) { errno = EMFILE; return -1; } return new_fd(KINOTIFY, fl); }
int sxm_inotify_init(void) { return sxm_inotify_init1(0); }
int sxm_inotify_add_watch(int f, char const* path, uint32_t mask) {
  y("inotify_add_watch"); if (!okfd(f, KINOTIFY)) { errno = EBADF; return -1; } if (flt("fail_add_watch")) { errno = ENOSPC; return -1; }
  int hooked = 0; char r[PATH_MAX]; char const* kept = path; if (live && add_watch_hook) { hooked = add_watch_hook(path, mask); if (hooked < 0) { errno = -hooked; return -1; } if (hooked > 1) return hooked - 1; }
  else { kept = r; if (!resolve(path, r) || gone2(r)) { errno = ENOENT; return -1; } for (int i = 0; i < nwatches; i++) if (!watches[i].removed && watches[i].fd == f && !strcmp(watches[i].path, r)) { watches[i].mask = mask; return wd_of(i); } }
  if (nwatches >= WMAX) sx_violate("*:watches-without-end", "far more is watched than there is"); Watch& w = watches[nwatches++]; size_t k = 0; for (; k < sizeof w.path - 1 && kept[k]; k++) w.path[k] = kept[k]; w.path[k] = 0; w.len = strlen(kept); w.mask = mask; w.fd = f; w.removed = false; return wd_of(nwatches - 1); }
int sxm_inotify_rm_watch(int f, int wd) { y("inotify_rm_watch"); if (!okfd(f, KINOTIFY)) { errno = EBADF; return -1; } int k = nth_watch(f, wd); if (k < 0 || watches[k].removed) { errno = EINVAL; return -1; } watches[k].removed = true; if (rm_watch_hook) rm_watch_hook(wd); return 0; }
uid_t sxm_geteuid(void) { return cfg.root ? 0 : 1000; }
uid_t sxm_getuid(void) { return cfg.root ? 0 : 1000; }
int sxm_fanotify_init(unsigned fl, unsigned efl) { y("fanotify_init"); if (!cfg.fanotify) { errno = EPERM; return -1; } if (flt("fail_fanotify_init")) { errno = EPERM; return -1; } return new_fd(KFANOTIFY, fl); }
int sxm_fanotify_mark(int f, unsigned fl, uint64_t mask, int dfd, char const* path) {
  y("fanotify_mark"); if (!okfd(f, KFANOTIFY)) { errno = EBADF; return -1; } if (flt("fail_fanotify_mark")) { errno = ENOSPC; return -1; }
  char r[PATH_MAX]; char const* kept = path; if (live && add_watch_hook) { int h = add_watch_hook(path, (uint32_t)mask); if (h < 0) { errno = -h; return -1; } } else if (!live) { kept = r; if (!resolve(path, r) || gone2(r)) { errno = ENOENT; return -1; } }
  if (nwatches >= WMAX) sx_violate("*:watches-without-end", "far more is watched than there is"); Watch& w = watches[nwatches++]; size_t k = 0; for (; k < sizeof w.path - 1 && kept[k]; k++) w.path[k] = kept[k]; w.path[k] = 0; w.len = strlen(kept); w.mask = (uint32_t)mask; w.fd = f; w.removed = false; return 0; }
char* sxm_realpath(char const* p, char* out) { y("realpath"); char tmp[PATH_MAX];
  if (live && realpath_hook) { if (!realpath_hook(p, tmp)) { errno = ENOENT; return nullptr; } } else { if (flt("fail_realpath") || !resolve(p, tmp)) { errno = ENOENT; return nullptr; } }
  if (!out) out = (char*)malloc(PATH_MAX); size_t i = 0; do out[i] = tmp[i]; while (tmp[i++]); return out; }
static bool at_path(int d, char const* p, char* b);
static int w_stat(char const* p, struct stat* st, bool follow) { memset(st, 0, sizeof *st); if (stat_hook) { int h = stat_hook(p); if (!h) { errno = ENOENT; return -1; } if (h > 0) { st->st_mode = h == 2 ? S_IFDIR | 0755 : S_IFREG | 0644; return 0; } } if (live && isdir_hook) { st->st_mode = isdir_hook(p) ? S_IFDIR | 0755 : S_IFREG | 0644; return 0; } if (flt("fail_stat")) { errno = EACCES; return -1; } char r[PATH_MAX]; int n = find(p); if (n < 0 || follow) { if (!resolve(p, r)) { errno = ENOENT; return -1; } n = find(r); } if (n < 0 || nodes[n].nostat) { errno = ENOENT; return -1; } st->st_mode = nodes[n].type == DT_DIR ? S_IFDIR | 0755 : nodes[n].type == DT_LNK ? S_IFLNK | 0777 : S_IFREG | 0644; st->st_nlink = 1; return 0; }
int sxm_stat(char const* p, struct stat* st) { y("stat"); return w_stat(p, st, true); }
int sxm_lstat(char const* p, struct stat* st) { y("lstat"); return w_stat(p, st, false); }
int sxm_fstatat(int d, char const* p, struct stat* st, int fl) { y("fstatat"); char b[PATH_MAX]; if ((fl & AT_EMPTY_PATH) && !*p) { if (!at_path(d, "", b)) { errno = EBADF; return -1; } return w_stat(b, st, true); } if (!at_path(d, p, b)) { errno = EBADF; return -1; } return w_stat(b, st, !(fl & AT_SYMLINK_NOFOLLOW)); }
int sxm_fstat(int d, struct stat* st) { return sxm_fstatat(d, "", st, AT_EMPTY_PATH); }
int sxm_faccessat(int d, char const* p, int, int fl) { struct stat st; return sxm_fstatat(d, p, &st, fl & AT_SYMLINK_NOFOLLOW); }
int sxm_access(char const* p, int) { struct stat st; return w_stat(p, &st, true); }
DIR* sxm_opendir(char const* p) { y("opendir"); int nd = -1;
  if (live && opendir_hook) { if (!opendir_hook(p)) { errno = EACCES; return nullptr; } nd = 1000; }
  else { char r[PATH_MAX]; if (flt("fail_opendir") || !resolve(p, r) || gone2(r)) { errno = EACCES; return nullptr; } nd = find(r); if (nd < 0 || nodes[nd].type != DT_DIR) { errno = ENOTDIR; return nullptr; } if (nodes[nd].unlistable) { errno = EACCES; return nullptr; } }
  if (open_dirs >= max_dirs) { errno = EMFILE; return nullptr; } for (int i = 0; i < DMAX; i++) if (!dirs[i].open) { dirs[i].open = true; dirs[i].node = nd; dirs[i].pos = 0; dirs[i].phase = 0; if (nd == 1000) { size_t k = 0; for (; p[k] && k < 63; k++) dirs[i].path[k] = p[k]; dirs[i].path[k] = 0; } open_dirs++; return (DIR*)&dirs[i]; } sx_violate("*:walks-without-end", "more directories are open at once than the tree is deep"); return nullptr; }
dirent* sxm_readdir(DIR* dp) { y("readdir"); DirS* d = (DirS*)dp; if (!d->open) { dir_bad++; return nullptr; } memset(&d->de, 0, sizeof d->de);
  if (d->phase < 2) { d->de.d_type = DT_DIR; strcpy(d->de.d_name, d->phase ? ".." : "."); d->phase++; return &d->de; }
  if (d->node >= 1000) { if (!readdir_hook || !readdir_hook(d->path, d->pos++, &d->de)) return nullptr; return &d->de; }
  for (; d->pos < nnodes; d->pos++) if (parent_is(nodes[d->pos].path, nodes[d->node].path)) { strcpy(d->de.d_name, base_of(nodes[d->pos].path)); d->de.d_type = nodes[d->pos].unk ? DT_UNKNOWN : nodes[d->pos].type; d->pos++; return &d->de; } return nullptr; }
int sxm_closedir(DIR* dp) { y("closedir"); DirS* d = (DirS*)dp; if (!d->open) { dir_bad++; return -1; } d->open = false; open_dirs--; return 0; }
static int (*W_obh)(file_handle*, int) = nullptr; static int W_mount_fs = 0; static ssize_t (*W_readlink)(char const*, char*, size_t) = nullptr;
ssize_t sxm_readlink(char const* p, char* b, size_t n) { y("readlink"); if (!W_readlink) { errno = ENOENT; return -1; } ssize_t r = W_readlink(p, b, n); if (r < 0) { errno = (int)-r; return -1; } return r; }
int sxm_dirfd(DIR* d) { return 1000 + (int)((DirS*)d - dirs); }
inline char W_opened[FDMAX][64]; // what open() was given
static char const* dir_path(int d) { if (d >= 1000 && d < 1000 + DMAX && dirs[d - 1000].open) return dirs[d - 1000].node >= 1000 ? dirs[d - 1000].path : nodes[dirs[d - 1000].node].path; if (d >= 0 && d < FDMAX && fds[d].open && fds[d].kind == KDIRFD && W_opened[d][0]) return W_opened[d]; return nullptr; }
static bool at_path(int d, char const* p, char* b) { if (p[0] == '/' || d == AT_FDCWD) { strcpy(b, p); return true; } char const* base = dir_path(d); if (!base) return false; strcpy(b, base); if (*p) { size_t n = strlen(b); if (n && b[n - 1] != '/') b[n++] = '/'; strcpy(b + n, p); } return true; }
int sxm_openat(int d, char const* p, int fl, ...) { y("open"); char b[PATH_MAX]; struct stat st; if (!at_path(d, p, b)) { errno = EBADF; return -1; } if (w_stat(b, &st, !(fl & O_NOFOLLOW))) return -1; if ((fl & O_DIRECTORY) && !S_ISDIR(st.st_mode)) { errno = ENOTDIR; return -1; } if (flt("fail_open")) { errno = EMFILE; return -1; } int f = new_fd(KDIRFD, fl); size_t k = 0; for (; b[k] && k < 63; k++) W_opened[f][k] = b[k]; W_opened[f][k] = 0; return f; }
int sxm_open(char const* p, int fl, ...) { return sxm_openat(AT_FDCWD, p, fl); }
int sxm_statfs(char const* p, struct statfs* st) { y("statfs"); struct stat t; memset(st, 0, sizeof *st); if (flt("fail_statfs")) { errno = ENOMEM; return -1; } if (w_stat(p, &t, true)) return -1; st->f_fsid.__val[0] = W::fs_of(p); return 0; }
int sxm_statfs64(char const* p, struct statfs* st) { return sxm_statfs(p, st); }
int sxm_fstatfs(int f, struct statfs* st) { char const* p = dir_path(f); if (!p) { errno = EBADF; return -1; } return sxm_statfs(p, st); }
// a handle is looked up on the filesystem of what it is looked up by: the working directory's, or that of an open file
int sxm_open_by_handle_at(int at, file_handle* h, int fl) { y("open_by_handle_at"); if (at == AT_FDCWD) W_mount_fs = W::cwd_fs; else { if (!okfd(at, KDIRFD) || (W::fds[at].flags & O_PATH)) { errno = EBADF; return -1; } W_mount_fs = W::fs_of(W_opened[at]); } if (!W_obh) { errno = ESTALE; return -1; } int r = W_obh(h, fl); if (r < 0) { errno = -r; return -1; } return r; }
DIR* sxm_fdopendir(int f) { char const* p = dir_path(f); if (!p) { errno = EBADF; return nullptr; } DIR* d = sxm_opendir(p); if (d) sxm_close(f); return d; }
int sxm_poll(struct pollfd* p, nfds_t n, int timeout) {
  for (;;) { y("poll"); if (flt("fail_epoll_wait")) { errno = EINVAL; return -1; } if (cfg.eintr && sx_bool("eintr")) { cfg.eintr = false; errno = EINTR; return -1; } int k = 0;
    for (nfds_t i = 0; i < n; i++) { p[i].revents = 0; if (p[i].fd < 0) continue; if (p[i].fd >= FDMAX || !fds[p[i].fd].open) { p[i].revents = POLLNVAL; k++; continue; } Fd& f = fds[p[i].fd]; bool r = f.kind == KEVENTFD ? f.counter > 0 : (has_batch_on ? has_batch_on(p[i].fd) : has_batch && has_batch()); if (r && (p[i].events & POLLIN)) { p[i].revents = POLLIN; k++; } }
    if (k) { live = true; epoll_waits++; return k; } live = true; epoll_waits++; int& wake = wake_of[n ? p[0].fd & 63 : 63]; waiting++; idle = 1;
    if (timeout >= 0) { wake = 0; if (timeout == 0) sx_yield("poll"); sx_block_timed(&wake); waiting--; if (!wake) return 0; continue; } wake = 0; sx_block(&wake); waiting--; } }
int sxm_ppoll(struct pollfd* p, nfds_t n, timespec const* t, void const*) { return sxm_poll(p, n, t ? (int)(t->tv_sec * 1000 + t->tv_nsec / 1000000) : -1); }
int sxm_epoll_pwait(int e, epoll_event* o, int m, int t, void const*) { return sxm_epoll_wait(e, o, m, t); }
ssize_t sxm_readlinkat(int, char const* p, char* b, size_t n) { return sxm_readlink(p, b, n); }
char* sxm_getcwd(char* b, size_t n) { if (find("/cwd") < 0 || n < 5) { errno = ENOENT; return nullptr; } strcpy(b, "/cwd"); return b; }
// filesystem::status / symlink_status (file types only) and the clock
std::filesystem::file_status sx_fs_status(std::filesystem::path const& p, std::error_code& ec) asm("sxm__ZNSt10filesystem6statusERKNS_7__cxx114pathERSt10error_code");
std::filesystem::file_status sx_fs_status(std::filesystem::path const& p, std::error_code& ec) { y("status"); ec.clear(); char r[PATH_MAX]; if (flt("fail_status")) { ec = std::error_code(EACCES, std::generic_category()); return std::filesystem::file_status(std::filesystem::file_type::none, std::filesystem::perms::unknown); } if (stat_hook) { using namespace std::filesystem; int h = stat_hook(p.c_str()); if (h >= 0) return file_status(h == 2 ? file_type::directory : h ? file_type::regular : file_type::not_found, h ? perms::all : perms::unknown); } if (!resolve(p.c_str(), r)) return std::filesystem::file_status(std::filesystem::file_type::not_found, std::filesystem::perms::unknown); int n = find(r); return std::filesystem::file_status(nodes[n].type == DT_DIR ? std::filesystem::file_type::directory : std::filesystem::file_type::regular, std::filesystem::perms::all); }
std::filesystem::path sx_fs_absolute(std::filesystem::path const& p, std::error_code& ec) asm("sxm__ZNSt10filesystem8absoluteERKNS_7__cxx114pathERSt10error_code");
std::filesystem::path sx_fs_absolute(std::filesystem::path const& p, std::error_code& ec) { y("absolute"); ec.clear(); if (flt("fail_absolute")) { ec = std::error_code(ENOENT, std::generic_category()); return std::filesystem::path(); } if (p.empty()) { ec = std::make_error_code(std::errc::invalid_argument); return std::filesystem::path(); } if (p.native()[0] == '/') return p; return std::filesystem::path("/cwd/" + p.native()); }
#define SXFS(ret, name, sym, args) ret name args asm("sxm_" sym); ret name args
static void sx_thrown() { sx_violate("*:throw-filesystem_error", "an exception (filesystem_error) escapes"); }
SXFS(std::filesystem::file_status, sx_fs_status1, "_ZNSt10filesystem6statusERKNS_7__cxx114pathE", (std::filesystem::path const& p)) { std::error_code ec; auto r = sx_fs_status(p, ec); if (ec) sx_thrown(); return r; }
SXFS(std::filesystem::file_status, sx_fs_lstatus, "_ZNSt10filesystem14symlink_statusERKNS_7__cxx114pathERSt10error_code", (std::filesystem::path const& p, std::error_code& ec)) { y("status"); ec.clear(); struct stat st; using namespace std::filesystem; if (w_stat(p.c_str(), &st, false)) { if (errno != ENOENT) ec = std::error_code(errno, std::generic_category()); return file_status(errno == ENOENT ? file_type::not_found : file_type::none, perms::unknown); } return file_status(S_ISDIR(st.st_mode) ? file_type::directory : S_ISLNK(st.st_mode) ? file_type::symlink : file_type::regular, perms::all); }
SXFS(std::filesystem::file_status, sx_fs_lstatus1, "_ZNSt10filesystem14symlink_statusERKNS_7__cxx114pathE", (std::filesystem::path const& p)) { std::error_code ec; auto r = sx_fs_lstatus(p, ec); if (ec) sx_thrown(); return r; }
SXFS(std::filesystem::path, sx_fs_absolute1, "_ZNSt10filesystem8absoluteERKNS_7__cxx114pathE", (std::filesystem::path const& p)) { std::error_code ec; auto r = sx_fs_absolute(p, ec); if (ec) sx_thrown(); return r; }
SXFS(std::filesystem::path, sx_fs_canonical, "_ZNSt10filesystem9canonicalERKNS_7__cxx114pathERSt10error_code", (std::filesystem::path const& p, std::error_code& ec)) { ec.clear(); char b[PATH_MAX]; if (!sxm_realpath(p.c_str(), b)) { ec = std::error_code(errno, std::generic_category()); return std::filesystem::path(); } return std::filesystem::path(b); }
SXFS(std::filesystem::path, sx_fs_canonical1, "_ZNSt10filesystem9canonicalERKNS_7__cxx114pathE", (std::filesystem::path const& p)) { std::error_code ec; auto r = sx_fs_canonical(p, ec); if (ec) sx_thrown(); return r; }
SXFS(std::filesystem::path, sx_fs_current, "_ZNSt10filesystem12current_pathB5cxx11ERSt10error_code", (std::error_code& ec)) { ec.clear(); if (find("/cwd") < 0) { ec = std::error_code(ENOENT, std::generic_category()); return std::filesystem::path(); } return std::filesystem::path("/cwd"); }
SXFS(std::filesystem::path, sx_fs_current1, "_ZNSt10filesystem12current_pathB5cxx11Ev", ()) { std::error_code ec; auto r = sx_fs_current(ec); if (ec) sx_thrown(); return r; }
SXFS(std::filesystem::path, sx_fs_readlink, "_ZNSt10filesystem12read_symlinkERKNS_7__cxx114pathERSt10error_code", (std::filesystem::path const& p, std::error_code& ec)) { ec.clear(); char b[PATH_MAX]; ssize_t n = sxm_readlink(p.c_str(), b, sizeof b); if (n < 0) { ec = std::error_code(errno, std::generic_category()); return std::filesystem::path(); } return std::filesystem::path(std::string(b, n)); }
SXFS(std::filesystem::path, sx_fs_readlink1, "_ZNSt10filesystem12read_symlinkERKNS_7__cxx114pathE", (std::filesystem::path const& p)) { std::error_code ec; auto r = sx_fs_readlink(p, ec); if (ec) sx_thrown(); return r; }
namespace W { inline long long clock_now = 1700000000000000000ll; inline int clock_calls = 0; inline long long (*clock_hook)() = nullptr; }
std::chrono::system_clock::time_point sx_clock() asm("sxm__ZNSt6chrono3_V212system_clock3nowEv");
std::chrono::system_clock::time_point sx_clock() { W::clock_calls++; long long v = W::clock_hook ? W::clock_hook() : ++W::clock_now; return std::chrono::system_clock::time_point(std::chrono::nanoseconds(v)); }
int sxm_clock_gettime(clockid_t, timespec* t) { long long v = std::chrono::duration_cast<std::chrono::nanoseconds>(sx_clock().time_since_epoch()).count(); t->tv_sec = v / 1000000000; t->tv_nsec = v % 1000000000; return 0; }
int sxm_gettimeofday(timeval* t, void*) { timespec s; sxm_clock_gettime(0, &s); t->tv_sec = s.tv_sec; t->tv_usec = s.tv_nsec / 1000; return 0; }
std::chrono::steady_clock::time_point sx_steady() asm("sxm__ZNSt6chrono3_V212steady_clock3nowEv");
std::chrono::steady_clock::time_point sx_steady() { return std::chrono::steady_clock::time_point(std::chrono::nanoseconds(++W::clock_now)); }
}
