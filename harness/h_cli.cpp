// The command line program.
#include "json.hpp"
#include "rec.hpp"
#include <cmath>
#include <iostream>
namespace sxio { int (*in_hook)() = nullptr; }
#define main cli_main
#include CLI_SRC
#undef main
static int stage, mode; static long double slept; static int sleeps; static int nev, cmask[3]; static std::string nm[3]; static int wantn; static int bad_path_given;
static bool hasb() { return stage == 1 && nev > 0; }
static uint32_t const M[] = {IN_CREATE, IN_MODIFY, IN_DELETE, IN_MOVED_FROM, IN_MOVED_TO}; static bool dirf[3];
static long fillb(int, char* buf, size_t cap) { if (!hasb()) return -EAGAIN; stage = 2; size_t o = 0; for (int i = 0; i < nev; i++) { inotify_event h; memset(&h, 0, sizeof h); h.wd = 1; h.mask = M[cmask[i]] | (dirf[i] ? IN_ISDIR : 0); h.cookie = cmask[i] >= 3 ? 9 : 0; h.len = 16; memcpy(buf + o, &h, 16); memset(buf + o + 16, 0, 16); memcpy(buf + o + 16, nm[i].data(), nm[i].size()); o += 32; } return (long)o; }
static void settle() { sx_block(&W::idle); if (mode == 1 && stage == 0 && W::idle == 1) { stage = 1; W::idle = 0; W::notify(); sx_block(&W::idle); } }
static int on_read() { settle(); return '\n'; }
struct Num { char const* s; double v; size_t used; }; static Num const NUMS[] = {{"1", 1, 1}, {"0", 0, 1}, {"-5", -5, 2}, {"7", 7, 1}, {"abc", 0, 0}, {"", 0, 0}, {"106751", 106751, 6}, {"106752", 106752, 6}, {"9223372036", 9223372036.0, 10}, {"9223372037", 9223372037.0, 10}, {"18446744073709551615", 18446744073709551616.0, 20}, {"9223372036854775807", 9223372036854775808.0, 19}, {"1e400", HUGE_VAL, 5}, {"153722867", 153722867.0, 9}, {"153722868", 153722868.0, 9}, {"292", 292, 3}, {"293", 293, 3}}; constexpr int NN = sizeof NUMS / sizeof *NUMS;
extern "C" {
double sxm_strtod(char const* s, char** e) { for (auto& n : NUMS) if (!strcmp(n.s, s)) { if (e) *e = (char*)s + n.used; if (n.v == HUGE_VAL) errno = ERANGE; return n.v; } sx_unmodelled("strtod"); return 0; }
long long sxm_strtoll(char const* s, char** e, int) { double d = sxm_strtod(s, e); return d >= 9.2e18 ? 9223372036854775807ll : (long long)d; }
unsigned long long sxm_strtoull(char const* s, char** e, int) { double d = sxm_strtod(s, e); return d >= 1.8e19 ? ~0ull : (unsigned long long)d; }
long long sxm_llroundl(long double x) { if (!(x < 9223372036854775808.0L && x >= -9223372036854775808.0L)) return -9223372036854775807ll - 1; long long r = (long long)x; long double f = x - r; if (f >= 0.5L) r++; if (f <= -0.5L) r--; return r; }
long long sxm_llround(double x) { return sxm_llroundl(x); }
int sxm_nanosleep(timespec const* t, timespec*) { sleeps++; slept += (long double)t->tv_sec * 1000000000.0L + t->tv_nsec; settle(); return 0; }
int sxm_clock_nanosleep(int, int, timespec const* t, timespec*) { return sxm_nanosleep(t, nullptr); }
}
static bool fileish(char const* p) { return !strcmp(p, "/f"); }
extern "C" void sx_main() {
  mode = sx_param("mode", 0); W::add("/w", DT_DIR); W::add("/cwd", DT_DIR); W::add("/cwd/r", DT_DIR); W::add("/f", DT_REG); sxio::in_hook = on_read; W::fill = fillb; W::has_batch = hasb;
  char const* argv[6] = {"wtr.watcher", nullptr, nullptr, nullptr, nullptr, nullptr}; int argc = 1;
  static char const* const PATHS[] = {"/w", "r", "/nope", "/f", "-h", "--help", "."}; static char const* const UNITS[] = {"-nanoseconds", "-ns", "-microseconds", "-us", "-milliseconds", "-ms", "-seconds", "-s", "-minutes", "-m", "-hours", "-h", "-days", "-d", "-weeks", "-w", "-months", "-mts", "-years", "-y"};
  static double const NS[] = {1, 1e3, 1e6, 1e9, 6e10, 3.6e12, 8.64e13, 6.048e14, 2.592e15, 3.1536e16};
  int p = -1, u = -1, t = -1;
  if (mode == 1) { argv[1] = "/w"; argc = 2; p = 0; nev = 1 + (int)sx_choose(2, "events"); for (int i = 0; i < nev; i++) { cmask[i] = (int)sx_choose(5, "change"); dirf[i] = sx_bool("directory"); int l = i ? 1 : 1 + (int)sx_choose(2, "length"); for (int k = 0; k < l; k++) { char c = (char)sx_u8("name"); sx_assume(c != 0 && c != '/'); if (k == 0) sx_assume(c != '.'); nm[i].push_back(c); } } }
  else { argc = 1 + (int)sx_choose(4, "argc"); if (argc > 1) { p = (int)sx_choose(7, "path"); argv[1] = PATHS[p]; } if (argc > 2) { u = (int)sx_choose(20, "unit"); argv[2] = UNITS[u]; } if (argc > 3) { t = (int)sx_choose(NN, "time"); argv[3] = NUMS[t].s; } }
  int rc = cli_main(argc, argv); bool opened = W::nwatches > 0; sx_observe("rc", rc); sx_observe("sleeps", sleeps); sx_observe_str("out", sxio::so.text);
  bool help = p == 4 || p == 5;
  if (mode == 0) {
    if (help) { sx_cover("help"); sx_check(rc == 0 && !opened && sxio::so.text.find("wtr.watcher") != std::string::npos && sxio::se.text.empty(), "cli-args:help-shows-help"); return; }
    if (p == 2) { sx_cover("no-such-path"); sx_check(opened || rc != 0, "cli-args:no-such-path-fails"); sx_check(!opened || !strcmp(W::watches[0].path, "/cwd"), "cli-args:no-other-path-is-watched"); return; }
    if (p == 3) { sx_check(rc != 0 && !opened, "cli-args:not-a-directory-fails"); return; }
    char rp[PATH_MAX]; sx_check(opened && W::resolve(W::watches[0].path, rp) && !strcmp(rp, p == 0 ? "/w" : p == 1 ? "/cwd/r" : "/cwd"), "cli-args:watches-the-path-given"); sx_check(rc == 0 && sxio::se.text.empty(), "cli-args:clean-exit-is-zero");
    // TIME x UNIT, saturating at what can be represented; without a positive TIME, until a newline is read
    double want = t >= 0 && NUMS[t].v > 0 && NUMS[t].v < HUGE_VAL ? NUMS[t].v : 0;
    if (want == 0) { sx_cover("until-input"); sx_check(sxio::reads >= 1 && sleeps == 0, "cli-args:waits-for-input"); }
    else { sx_cover("timed"); long double exact = (long double)want * NS[u / 2]; long double max = 9223372036854775807.0L; if (exact > max) { sx_cover("saturated"); sx_check(slept > 9.2e18L && slept <= max + 1000, "cli-args:too-long-a-time-is-the-longest"); } else sx_check(slept == exact, "cli-args:watches-for-the-time-given"); sx_check(sxio::reads == 0, "cli-args:does-not-wait-for-input"); }
    return; }
  // every line is one JSON object, the events in order
  std::string const& o = sxio::so.text; int at = 0; size_t b = 0; int n = sxio::so.lines; bool pair = nev == 2 && cmask[0] >= 3 && cmask[1] >= 3 && cmask[0] != cmask[1]; if (pair && dirf[0] != dirf[1]) sx_end_path();
  sx_check(o.empty() || o.back() == '\n', "cli-json:whole-lines"); int k = 0, seen = 0; int expect = pair ? 1 : nev;
  auto kname = [](int c) { return c == 0 ? "create" : c == 1 ? "modify" : c == 2 ? "destroy" : "rename"; };
  for (int l = 0; l < n; l++) { size_t e = b; while (o[e] != '\n') e++; std::string line = o.substr(b, e - b); b = e + 1; bool ok; J::V* v = J::parse(line, &ok); sx_check(ok && v->kind == 2, "cli-json:each-line-parses"); if (!ok || v->kind != 2) return; sx_check(!J::has_dup(v), "cli-json:no-duplicate-names");
    J::V *pn = J::get(v, "path_name"), *et = J::get(v, "effect_type"), *pt = J::get(v, "path_type"), *tm = J::get(v, "effect_time"), *as = J::get(v, "associated");
    sx_check(pn && et && pt && tm && as && pn->kind == 1, "cli-json:every-field"); if (!(pn && et && pt && tm && as)) return; sx_check(tm->kind == 4 && tm->num > 1700000000000000000ll && tm->num < 1700000000000001000ll, "cli-json:time-is-a-number");
    if (l == 0) { sx_check(J::is(pt, "watcher") && J::is(et, "create") && J::is(pn, "s/self/live@/w") && as->kind == 3, "cli-json:live"); continue; } if (l == n - 1) { sx_check(J::is(pt, "watcher") && J::is(et, "destroy") && J::is(pn, "s/self/die@/w"), "cli-json:die"); continue; }
    if (J::is(pt, "watcher")) continue; if (seen >= expect) { seen++; continue; }
    int i = pair ? (cmask[0] == 3 ? 0 : 1) : seen; sx_check(J::is(pn, "/w/" + nm[i]), "cli-json:path"); sx_check(J::is(et, kname(cmask[i])), "cli-json:effect"); sx_check(J::is(pt, dirf[i] ? "dir" : "file"), "cli-json:type");
    if (pair) { sx_cover("pair"); sx_check(as->kind == 2 && J::is(J::get(as, "path_name"), "/w/" + nm[1 - i]) && J::is(J::get(as, "effect_type"), "rename") && J::is(J::get(as, "path_type"), dirf[i] ? "dir" : "file"), "cli-json:associated"); J::V* aa = as->kind == 2 ? J::get(as, "associated") : nullptr; sx_check(!aa || aa->kind == 3, "cli-json:associated-ends"); } else sx_check(as->kind == 3, "cli-json:no-associated"); seen++; }
  sx_check(n >= 2 && seen == expect, "cli-json:each-event-once"); if (seen) sx_cover("shown"); sx_check(rc == 0, "cli-json:exit");
}
