// The C interface as compiled for Windows: paths of 16 bit characters, given to the user as UTF-8.
// WideCharToMultiByte is stood in for (harness/stubs_winc); so is the C++ watcher, whose paths have narrow characters here.
#include "../model/sx.h"
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <memory>
#include <mutex>
#include <unordered_set>
#include <functional>
#include <string>
#include <vector>
static_assert(sizeof(wchar_t) == 2);
#define _WIN32 1
#include C_SRC
static unsigned last_error; static size_t wlen(WCHAR const* p) { size_t n = 0; while (p[n]) n++; return n; }
extern "C" unsigned GetLastError() { return last_error; }
extern "C" int WideCharToMultiByte(UINT page, unsigned flags, WCHAR const* in, int nin, char* out, int nout, char const* def, BOOL* used) {
  if (page != CP_UTF8 || def || used || !in || nin == 0 || nout < 0 || (nout && !out)) { last_error = 87; return 0; }
  size_t n = nin < 0 ? wlen(in) + 1 : (size_t)nin; long o = 0;
  for (size_t i = 0; i < n; i++) { uint32_t u = (uint16_t)in[i]; if (u >= 0xd800 && u < 0xe000) { if (u < 0xdc00 && i + 1 < n && ((uint16_t)in[i + 1] & 0xfc00) == 0xdc00) { u = 0x10000 + ((u & 0x3ff) << 10) + ((uint16_t)in[i + 1] & 0x3ff); i++; } else if (flags & WC_ERR_INVALID_CHARS) { last_error = ERROR_NO_UNICODE_TRANSLATION; return 0; } else u = 0xfffd; }
    char b[4]; int k = u < 0x80 ? 1 : u < 0x800 ? 2 : u < 0x10000 ? 3 : 4; if (k == 1) b[0] = (char)u; else { for (int j = k - 1; j; j--) { b[j] = (char)(0x80 | (u & 63)); u >>= 6; } b[0] = (char)((k == 2 ? 0xc0 : k == 3 ? 0xe0 : 0xf0) | u); }
    if (nout) { if (o + k > nout) { last_error = ERROR_INSUFFICIENT_BUFFER; return 0; } for (int j = 0; j < k; j++) out[o + j] = b[j]; } o += k; }
  return (int)o; }
// the oracle: what UTF-8 the units stand for
static std::string utf8(std::vector<wchar_t> const& v) { std::string s; size_t n = v.size(); for (size_t i = 0; i < n; i++) { unsigned u = (uint16_t)v[i]; bool hi = u >= 0xd800 && u <= 0xdbff, lo = u >= 0xdc00 && u <= 0xdfff; unsigned w = hi && i + 1 < n ? (uint16_t)v[i + 1] : 0; if (hi && w >= 0xdc00 && w <= 0xdfff) { unsigned c = ((u - 0xd800) * 0x400 + (w - 0xdc00)) + 0x10000; s += (char)(0xf0 + (c >> 18)); s += (char)(0x80 + ((c >> 12) & 0x3f)); s += (char)(0x80 + ((c >> 6) & 0x3f)); s += (char)(0x80 + (c & 0x3f)); i++; sx_cover("pair"); continue; }
    if (hi || lo) { sx_cover("alone"); u = 0xfffd; } if (u < 128) { s += (char)u; sx_cover("one"); } else if (u < 2048) { s += (char)(0xc0 + (u >> 6)); s += (char)(0x80 + (u & 0x3f)); sx_cover("two"); } else { s += (char)(0xe0 + (u >> 12)); s += (char)(0x80 + ((u >> 6) & 0x3f)); s += (char)(0x80 + (u & 0x3f)); sx_cover("three"); } } return s; }
static int context, ncb; static std::string wantp, wanta; static bool wanthas; static int wante, wantt; static long long wantat;
static bool same(char const* a, std::string const& b) { size_t n = b.size(); for (size_t i = 0; i < n; i++) if (a[i] != b[i]) return false; return a[n] == 0; }
static void on_event(struct wtr_watcher_event e, void* cx) { ncb++; sx_check(cx == &context, "windows-names:context"); sx_check(e.path_name && same(e.path_name, wantp), "windows-names:path"); sx_check(wanthas ? e.associated_path_name && same(e.associated_path_name, wanta) : !e.associated_path_name, "windows-names:associated-path"); sx_check(e.effect_type == wante && e.path_type == wantt && e.effect_time == wantat, "windows-names:event"); }
static std::vector<wchar_t> name(int max, char const* what) { std::vector<wchar_t> v; int n = 1 + (int)sx_choose(max, what); for (int i = 0; i < n; i++) { wchar_t c = (wchar_t)(sx_u8(what) | sx_u8(what) << 8); sx_assume(c != 0); v.push_back(c); } return v; }
static std::vector<wchar_t> stretch(int n) { std::vector<wchar_t> v(n, (wchar_t)'n'); return v; }
extern "C" void sx_main() {
  using E = wtr::watcher::event; int max = sx_param("n", 3), big = sx_param("big", 0), pair = sx_param("pair", 0); void* h = wtr_watcher_open("w", on_event, &context); sx_check(h != nullptr && wtr::watcher::watch::last, "windows-names:opens"); if (!h) return;
  static int const L[] = {4094, 4095, 4096, 4097, 9000}; auto p = big == 1 ? stretch(L[sx_choose(5, "length")]) : name(max, "unit"), a = big == 2 ? stretch(L[sx_choose(5, "length")]) : std::vector<wchar_t>(); if (pair && big != 2) a = name(max, "unit2");
  for (size_t i = 0; big == 1 && i < 2; i++) { wchar_t c = (wchar_t)(sx_u8("last") | sx_u8("last") << 8); sx_assume(c != 0); p[p.size() - 1 - i] = c; }
  wante = (int)sx_choose(6, "effect"); wantt = (int)sx_choose(6, "type"); wantat = 1700000000000000001ll; wanthas = !a.empty(); wantp = utf8(p); wanta = utf8(a);
  E e(wtr::watcher::wide_path(p.data(), p.size()), (enum E::effect_type)wante, (enum E::path_type)wantt, wantat); if (wanthas) { e.associated = std::make_unique<E>(wtr::watcher::wide_path(a.data(), a.size()), (enum E::effect_type)wante, (enum E::path_type)wantt, wantat + 1); sx_cover("associated"); }
  wtr::watcher::watch::last->cb(e); sx_check(ncb == 1, "windows-names:delivered-once"); sx_check(wtr_watcher_close(h), "windows-names:closes"); sx_observe("n", ncb);
}
