// The event type: equality, copies, strings, times, JSON.
#include "json.hpp"
#include "rec.hpp"
#include <new>
#include <ostream>
using wtr::event; using ET = enum event::effect_type; using PT = enum event::path_type;
static ET const ETS[] = {ET::rename, ET::modify, ET::create, ET::destroy, ET::owner, ET::other}; static PT const PTS[] = {PT::dir, PT::file, PT::hard_link, PT::sym_link, PT::watcher, PT::other};
static char const* const ETN[] = {"rename", "modify", "create", "destroy", "owner", "other"}; static char const* const PTN[] = {"dir", "file", "hard_link", "sym_link", "watcher", "other"};
static long long tick; static long long clk() { return tick; }
static std::string sym(char const* what, int max, bool slash) { int n = (int)sx_choose(max + 1, what); std::string s; for (int i = 0; i < n; i++) { char c = (char)sx_u8(what); if (!slash) sx_assume(c != '/'); s.push_back(c); } return s; }
struct F { std::string p; int e, t; long long tm; };
static ET sym_e(char const* n) { uint8_t v = sx_u8(n); sx_assume(v < 6); return (ET)v; } static PT sym_t(char const* n) { uint8_t v = sx_u8(n); sx_assume(v < 6); return (PT)v; }
static bool same(F const& a, F const& b) { return (a.e == b.e) & (a.t == b.t) & (a.tm == b.tm) & eq(a.p, b.p); }
static void put(F& f, event const& e) { f.p = e.path_name.native(); f.e = (int)e.effect_type; f.t = (int)e.path_type; f.tm = e.effect_time; }
static event* mk(F* f, int depth, int plen) { // an event with `depth` associated ones inside one another
  F& me = f[0]; me.p = sym("path", plen, false); ET e = sym_e("effect"); PT t = sym_t("type"); long long tm = (long long)sx_u64("time");
  if (!depth) { tick = tm; event* r = new event(me.p, e, t); put(me, *r); sx_check((int)r->effect_type == (int)e && (int)r->path_type == (int)t && r->effect_time == tm && eq(r->path_name.native(), me.p) && !r->associated, "event-copy:constructed-as-asked"); return r; }
  event* in = mk(f + 1, depth - 1, plen); tick = tm; event base(me.p, e, t); event* r = new event(base, std::move(*in)); put(me, *r);
  sx_check((int)r->effect_type == (int)e && (int)r->path_type == (int)t && eq(r->path_name.native(), base.path_name.native()) && r->associated, "event-copy:constructed-as-asked"); delete in; return r; }
static void check_is(event const& c, F const* f, int d) { event const* x = &c; for (int i = 0; i <= d; i++) { sx_check(x != nullptr, "event-copy:associated-kept"); if (!x) return; sx_check((int)x->effect_type == f[i].e && (int)x->path_type == f[i].t && x->effect_time == f[i].tm && eq(x->path_name.native(), f[i].p), "event-copy:every-field-kept"); x = x->associated.get(); } sx_check(x == nullptr, "event-copy:nothing-added"); }
static void m_eq() { int max = sx_param("depth", 1), pl = sx_param("plen", 1);
  F fa[4], fb[4]; int da = (int)sx_choose(max + 1, "associated"), db = (int)sx_choose(max + 1, "associated"); event* a = mk(fa, da, pl); tick = 77; event* b = mk(fb, db, pl);
  bool want = da == db; for (int i = 0; want && i <= da; i++) want = want & same(fa[i], fb[i]);
  bool ab = *a == *b, ba = *b == *a, ne = *a != *b; sx_check(ab == want, "event-equality:all-fields"); sx_check(ab == ba, "event-equality:symmetric"); sx_check(ne == !ab, "event-equality:negation"); sx_check(*a == *a, "event-equality:reflexive"); if (ab) sx_cover("equal"); else sx_cover("different"); sx_observe("eq", ab); delete a; delete b; }
static void m_copy() { int max = sx_param("depth", 2); F f[4]; int d = (int)sx_choose(max + 1, "associated"); event* a = mk(f, d, sx_param("plen", 1)); tick = (long long)sx_u64("later");
  event c(*a); check_is(c, f, d); sx_check(c == *a, "event-copy:equal"); if (d) { sx_check(c.associated.get() != a->associated.get(), "event-copy:independent"); sx_cover("associated"); } delete a; check_is(c, f, d); event e2(c); check_is(e2, f, d); sx_observe("t", c.effect_time); }
static std::string S(wtr::event::callback const&) { return {}; }
template<class Ch> static bool weq(std::basic_string<Ch> const& a, char const* b) { size_t n = strlen(b); if (a.size() != n) return false; for (size_t i = 0; i < n; i++) if (a[i] != (Ch)b[i]) return false; return true; }
static void m_str() { unsigned e = sx_choose(6, "effect"), t = sx_choose(6, "type"); using wtr::to;
  sx_check(weq(to<std::string>(ETS[e]), ETN[e]), "event-strings:effect"); sx_check(weq(to<std::wstring>(ETS[e]), ETN[e]), "event-strings:effect-wide"); sx_check(weq(std::string(to<std::string_view>(ETS[e])), ETN[e]), "event-strings:effect-view"); sx_check(weq(std::wstring(to<std::wstring_view>(ETS[e])), ETN[e]), "event-strings:effect-wide-view");
  sx_check(weq(to<std::string>(PTS[t]), PTN[t]), "event-strings:type"); sx_check(weq(to<std::wstring>(PTS[t]), PTN[t]), "event-strings:type-wide"); sx_check(weq(std::string(to<std::string_view>(PTS[t])), PTN[t]), "event-strings:type-view"); sx_check(weq(std::wstring(to<std::wstring_view>(PTS[t])), PTN[t]), "event-strings:type-wide-view");
  uint32_t x = sx_u32("any"); sx_assume(x > 5); sx_check(weq(to<std::string>((ET)x), "other") && weq(to<std::string>((PT)x), "other"), "event-strings:unknown-is-other");
  std::string p = sym("path", 3, true); std::filesystem::path pp = p; sx_check(eq(to<std::string>(pp), p), "event-strings:path"); sx_observe_str("p", to<std::string>(pp)); }
static void m_time() { static long long const B[] = {0, 990, 9990, 99990, 999999990, 9999999990ll, 999999999999999990ll, 1700000000000000000ll, 9223372036854775807ll - 1023};
  unsigned k = sx_choose(sizeof B / sizeof *B, "base"); int w = sx_param("bits", 6); long long v = B[k] + (long long)sx_nondet(w, "offset"); if (sx_bool("negative")) { if (k == 8 && sx_bool("least")) v = -9223372036854775807ll - 1; else v = -v; sx_cover("negative"); }
  using wtr::to; std::string s = to<std::string>(v); std::wstring ws = to<std::wstring>(v); sx_observe_str("s", s);
  sx_check(!s.empty(), "time-string:not-empty"); if (s.empty()) return; bool neg = s[0] == '-'; size_t i = neg; sx_check(s.size() > i && s.size() <= 20 && (s[i] != '0' || s.size() == i + 1) && !(neg && s[i] == '0'), "time-string:canonical");
  unsigned long long x = 0; bool dig = true; for (size_t j = i; j < s.size(); j++) { if (s[j] < '0' || s[j] > '9') dig = false; x = x * 10 + (unsigned)(s[j] - '0'); } sx_check(dig, "time-string:digits"); sx_check((long long)(neg ? 0 - x : x) == v && neg == (v < 0), "time-string:value");
  bool same = ws.size() == s.size(); for (size_t j = 0; same && j < s.size(); j++) same = ws[j] == (wchar_t)(unsigned char)s[j]; sx_check(same, "time-string:wide"); }
// what is streamed out, narrow or wide
static std::string streamed; static std::wstring wstreamed; alignas(64) static char os_raw[1024], wos_raw[1024]; static bool right_stream = true;
extern "C" { std::ostream& sxo_n(std::ostream& o, char const* s, long n) asm("sxm__ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l"); std::ostream& sxo_n(std::ostream& o, char const* s, long n) { right_stream &= (void*)&o == os_raw; streamed.append(s, (size_t)n); return o; }
std::wostream& sxo_w(std::wostream& o, wchar_t const* s, long n) asm("sxm__ZSt16__ostream_insertIwSt11char_traitsIwEERSt13basic_ostreamIT_T0_ES6_PKS3_l"); std::wostream& sxo_w(std::wostream& o, wchar_t const* s, long n) { right_stream &= (void*)&o == wos_raw; wstreamed.append(s, (size_t)n); return o; } }
static void m_stream() { std::ostream& o = *(std::ostream*)os_raw; std::wostream& w = *(std::wostream*)wos_raw; ET e = ETS[sx_choose(6, "effect")]; PT t = PTS[sx_choose(6, "type")]; std::string p = sym("path", 1, true), q; tick = 1700000000000000123ll; using namespace wtr;
  switch (sx_choose(5, "what")) { case 0: sx_check(&(o << e) == &o && eq(streamed, ETN[(int)e]), "event-strings:streamed-effect"); break; case 1: sx_check(&(o << t) == &o && eq(streamed, PTN[(int)t]), "event-strings:streamed-type"); break;
    case 2: w << e; sx_check(weq(wstreamed, ETN[(int)e]), "event-strings:streamed-effect-wide"); break; case 3: w << t; sx_check(weq(wstreamed, PTN[(int)t]), "event-strings:streamed-type-wide"); break;
    default: { event base(p, e, t); event* x = &base; if (sx_bool("associated")) x = new event(base, event(q, e, t)); sx_check(&(o << *x) == &o && eq(streamed, wtr::to<std::string>(*x)), "event-strings:streamed-event"); sx_cover("streamed"); } }
  sx_check(right_stream, "event-strings:right-stream"); sx_observe_str("s", streamed); }
static void m_json() { int pl = sx_param("plen", 2), ap = sx_param("aplen", 1); bool as = sx_bool("associated"); tick = 1700000000000000123ll; std::string p = sym("path", pl, true), q; ET e = ETS[sx_choose(6, "effect")]; PT t = PTS[sx_choose(sx_param("types", 2), "type")];
  ET e2 = e; PT t2 = t; event base(p, e, t); event* x = &base; if (as) { q = sym("path2", ap, true); if (sx_param("akinds", 0)) { e2 = ETS[sx_choose(6, "effect2")]; t2 = PTS[sx_choose(6, "type2")]; } x = new event(base, event(q, e2, t2)); sx_cover("associated"); }
  std::string s = wtr::to<std::string>(*x); sx_observe_str("json", s); if (p.empty() && q.empty()) { sx_check(weq(wtr::to<std::wstring>(*x), s.c_str()), "event-json:wide"); sx_cover("wide"); } bool ok; J::V* w = J::parse(s.empty() || s[0] == '{' ? s : "{" + s + "}", &ok); sx_check(ok, "event-json:parses"); if (!ok) return;
  sx_check(w->nk == 1 && eq(w->k[0], "1700000000000000123") && w->v[0]->kind == 2, "event-json:keyed-by-time"); if (w->nk != 1) return; J::V* o = w->v[0]; sx_check(!J::has_dup(o), "event-json:no-duplicate-names");
  sx_check(J::is(J::get(o, "path_name"), p), "event-json:path"); sx_check(J::is(J::get(o, "effect_type"), ETN[(int)e]) && J::is(J::get(o, "path_type"), PTN[(int)t]), "event-json:kinds");
  J::V* a = J::get(o, "associated"); if (as) { sx_check(a && a->kind == 2 && J::is(J::get(a, "path_name"), q) && J::is(J::get(a, "effect_type"), ETN[(int)e2]) && J::is(J::get(a, "path_type"), PTN[(int)t2]), "event-json:associated"); } else sx_check(!a || a->kind == 3, "event-json:no-associated"); }
extern "C" void sx_main() { W::clock_hook = clk; switch (sx_param("mode", 0)) { case 0: m_eq(); break; case 1: m_copy(); break; case 2: m_str(); break; case 3: m_time(); break; case 4: m_json(); break; case 5: m_stream(); break; } }
