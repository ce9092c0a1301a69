// The rename program the tests use: two names, on one filesystem or two, and any answer of the system.
#include "../model/sx.h"
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <fcntl.h>
#include <string>
#include <sys/stat.h>
#include <unistd.h>
extern "C" int pdr_main(int, char**);
static int at[2], moves, budget, failed; static bool cross; static std::string out, err;                    // at[i]: the file under the i-th name, or 0
static int name(char const* p) { return p && !strcmp(p, "a") ? 0 : p && !strcmp(p, "b") ? 1 : -1; }
static bool may_fail(char const* what) { if (budget <= 0) return false; if (!sx_bool(what)) return false; budget--; failed++; static int const E[] = {EACCES, EPERM, EIO, ENOSPC, EINTR, EROFS, EBUSY}; errno = E[sx_choose(7, "errno")]; return true; }
static void say(FILE* f, std::string const& s) { (f == stdout ? out : err) += s; }
extern "C" {
int sxm_rename(char const* a, char const* b) { moves++; int x = name(a), y = name(b); if (x < 0 || y < 0 || !at[x]) { errno = ENOENT; return -1; } if (may_fail("rename-fails")) return -1; if (cross && x != y) { errno = EXDEV; return -1; } if (x == y || at[x] == at[y]) return 0; at[y] = at[x]; at[x] = 0; return 0; }
int sxm_link(char const* a, char const* b) { moves++; int x = name(a), y = name(b); if (x < 0 || y < 0 || !at[x]) { errno = ENOENT; return -1; } if (at[y]) { errno = EEXIST; return -1; } if (may_fail("link-fails")) return -1; if (sx_bool("link-crosses")) { at[y] = at[x]; return 0; } errno = EXDEV; failed++; return -1; }
int sxm_unlink(char const* a) { moves++; int x = name(a); if (x < 0 || !at[x]) { errno = ENOENT; return -1; } if (may_fail("unlink-fails")) return -1; at[x] = 0; return 0; }
int sxm_remove(char const* a) { return sxm_unlink(a); }
int sxm_renameat(int, char const* a, int, char const* b) { return sxm_rename(a, b); }
int sxm_renameat2(int, char const* a, int, char const* b, unsigned f) { if (f) sx_unmodelled("renameat2 with flags"); return sxm_rename(a, b); }
int sxm_linkat(int, char const* a, int, char const* b, int) { return sxm_link(a, b); }
int sxm_unlinkat(int, char const* a, int f) { if (f) sx_unmodelled("unlinkat with flags"); return sxm_unlink(a); }
int sxm_access(char const* a, int) { int x = name(a); if (x >= 0 && at[x]) return 0; errno = ENOENT; return -1; }
int sxm_stat(char const* a, struct stat* s) { int x = name(a); if (x < 0 || !at[x]) { errno = ENOENT; return -1; } memset(s, 0, sizeof *s); s->st_ino = at[x]; s->st_dev = cross ? 1 + x : 1; s->st_mode = S_IFREG | 0644; s->st_nlink = 1; return 0; }
int sxm_lstat(char const* a, struct stat* s) { return sxm_stat(a, s); }
#define NOT(r, n, ...) r sxm_##n(__VA_ARGS__) { sx_unmodelled(#n); return (r)-1; }
NOT(int, rmdir, char const*) NOT(int, mkdir, char const*, mode_t) NOT(int, symlink, char const*, char const*) NOT(int, open, char const*, int, ...) NOT(int, creat, char const*, mode_t) NOT(int, truncate, char const*, off_t) NOT(int, system, char const*) NOT(int, execvp, char const*, char* const*) NOT(int, fork, void) NOT(FILE*, fopen, char const*, char const*)
static void put(FILE* f, char const* fmt, va_list ap) { char b[400]; vsnprintf(b, sizeof b, fmt, ap); say(f, b); }
int sxm_fprintf(FILE* f, char const* fmt, ...) { va_list ap; va_start(ap, fmt); put(f, fmt, ap); va_end(ap); return 1; }
int sxm_printf(char const* fmt, ...) { va_list ap; va_start(ap, fmt); put(stdout, fmt, ap); va_end(ap); return 1; }
int sxm_fputs(char const* s, FILE* f) { say(f, s); return 1; }
int sxm_puts(char const* s) { say(stdout, s); say(stdout, "\n"); return 1; }
int sxm_fputc(int c, FILE* f) { say(f, std::string(1, (char)c)); return c; }
void sxm_perror(char const* s) { say(stderr, s ? s : ""); say(stderr, ": error\n"); }
char* sxm_strerror(int) { return (char*)"error"; }
}
extern "C" void sx_main() {
  static char const* const N[] = {"a", "b", "", "--help", "gone"}; budget = sx_param("budget", 2); at[0] = sx_bool("source-exists") ? 7 : 0; at[1] = sx_bool("destination-exists") ? 9 : 0; cross = sx_bool("two-filesystems");
  if (!cross && at[0] && at[1] && sx_bool("same-file")) at[1] = at[0];
  int argc = 1 + (int)sx_choose(3, "arguments"), x = -1, y = -1; char a0[] = "portable-destructive-rename", a1[8] = "", a2[8] = ""; char* argv[4] = {a0, nullptr, nullptr, nullptr};
  if (argc > 1) { x = (int)sx_choose(5, "from"); strcpy(a1, N[x]); argv[1] = a1; } if (argc > 2) { y = (int)sx_choose(5, "to"); strcpy(a2, N[y]); argv[2] = a2; }
  int a = at[0], b = at[1], rc = pdr_main(argc, argv); sx_observe("rc", rc); sx_observe("at0", at[0]); sx_observe("at1", at[1]);
  if (x == 3) { sx_cover("help"); sx_check(rc == 0 && moves == 0 && at[0] == a && at[1] == b && out.find("portable-destructive-rename") != std::string::npos && err.empty(), "pdr-move:help-shows-help-and-moves-nothing"); return; }
  bool real = (x == 0 || x == 1) && (y == 0 || y == 1); int fa = x == 0 || x == 1 ? (x ? b : a) : 0;
  if (!real || !fa) { sx_cover("nothing-to-move"); sx_check(rc != 0 && at[0] == a && at[1] == b, "pdr-move:nothing-to-move-is-an-error-and-changes-nothing"); sx_check(!err.empty(), "pdr-move:an-error-is-named"); return; }
  int old = x == y ? 0 : y ? b : a;
  if (x == y) { sx_check(at[0] == a && at[1] == b, "pdr-move:onto-itself-changes-nothing"); return; }
  if (rc == 0) { sx_cover(cross ? "moved-across" : "moved"); sx_check(at[y] == fa, "pdr-move:success-means-moved"); if (old != fa) sx_check(at[x] == 0, "pdr-move:success-means-the-source-is-gone"); }
  else { sx_cover("failed"); sx_check(at[0] == fa || at[1] == fa, "pdr-move:failure-loses-nothing"); sx_check(at[y] == old || (at[y] == fa && !old), "pdr-move:failure-keeps-the-destination"); sx_check(!err.empty(), "pdr-move:an-error-is-named"); }
  if (!failed && !(cross && old)) sx_check(rc == 0, "pdr-move:what-the-system-allows-succeeds"); sx_check(out.empty(), "pdr-move:silent");
}
