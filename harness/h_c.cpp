// The C interface.
#include "simple.hpp"
#include C_SRC
extern "C" int sx_threads_live(void);
static int context, ncb, bad_context, in_cb, closed, late; struct Got { std::string path, assoc; bool has; int effect, type; long long time; }; static Got got[8];
static void on_event(struct wtr_watcher_event e, void* cx) {
  if (closed) late++; if (cx != &context) bad_context++; if (ncb >= 8) { sx_violate("*:event-flood", "far more events than inputs were delivered"); return; }
  sx_check(in_cb == 0, "c-event:one-at-a-time"); in_cb = 1; sx_yield("callback"); in_cb = 0; sx_check(e.path_name != nullptr, "c-event:path-is-given"); if (!e.path_name) return;
  Got& g = got[ncb++]; g.path = e.path_name; g.has = e.associated_path_name != nullptr; if (g.has) g.assoc = e.associated_path_name; g.effect = e.effect_type; g.type = e.path_type; g.time = e.effect_time; }
static int cet(int e) { switch (e) { case E_RENAME: return WTR_WATCHER_EFFECT_RENAME; case E_MODIFY: return WTR_WATCHER_EFFECT_MODIFY; case E_CREATE: return WTR_WATCHER_EFFECT_CREATE; case E_DESTROY: return WTR_WATCHER_EFFECT_DESTROY; case E_OWNER: return WTR_WATCHER_EFFECT_OWNER; } return WTR_WATCHER_EFFECT_OTHER; }
static int cpt(int t) { switch (t) { case T_DIR: return WTR_WATCHER_PATH_DIR; case T_FILE: return WTR_WATCHER_PATH_FILE; case T_HARD: return WTR_WATCHER_PATH_HARD_LINK; case T_SYM: return WTR_WATCHER_PATH_SYM_LINK; case T_WATCHER: return WTR_WATCHER_PATH_WATCHER; } return WTR_WATCHER_PATH_OTHER; }
static long long issued[64]; static int nissued; static long long base_time; // every event's time is one the clock gave
static long long tick() { long long v = base_time + 3 * (nissued + 1); if (nissued < 64) issued[nissued] = v; nissued++; return v; }
static void m_event() {
  static long long const B[] = {0, 2147483600ll, 1700000000000000000ll, 9000000000000000000ll}; base_time = B[sx_choose(4, "clock")]; W::clock_hook = tick;
  W::add("/w", DT_DIR); S::choose((int)sx_param("events", 2)); void* h = wtr_watcher_open("/w", on_event, &context); sx_check(h != nullptr, "c-event:opens"); if (!h) return; S::deliver(); bool ok = wtr_watcher_close(h); closed = 1; sx_check(ok, "c-close:good-watch-closes"); sx_check(!late && !bad_context, "c-event:context");
  sx_observe("n", ncb); for (int i = 0; i < ncb; i++) { sx_observe_str("p", got[i].path); sx_observe("e", got[i].effect); sx_observe("t", got[i].type); }
  int seen = 0; bool live = false, die = false;
  for (int i = 0; i < ncb; i++) { Got& g = got[i]; bool from_clock = false; for (int k = 0; k < nissued && k < 64; k++) if (g.time == issued[k]) from_clock = true; sx_check(from_clock, "c-event:time");
    if (g.type == WTR_WATCHER_PATH_WATCHER) { if (eq(g.path, "s/self/live@/w")) { sx_check(i == 0 && g.effect == WTR_WATCHER_EFFECT_CREATE && !g.has, "c-event:live"); live = true; } if (eq(g.path, "s/self/die@/w")) { sx_check(i == ncb - 1 && g.effect == WTR_WATCHER_EFFECT_DESTROY && !g.has, "c-event:die"); die = true; } if (!eq(g.path, "w/sys/q_overflow@")) continue; sx_cover("warning"); }
    if (seen < S::nwant) { S::Want& w = S::want[seen]; sx_check(eq(g.path, w.path), "c-event:path"); sx_check(g.effect == cet(w.effect), "c-event:effect"); sx_check(g.type == cpt(w.type), "c-event:type"); sx_check(g.has == w.has && (!w.has || eq(g.assoc, w.assoc)), "c-event:associated"); if (w.has) sx_cover("pair"); else sx_cover("event"); } seen++; }
  sx_check(live && die && seen == S::nwant, "c-event:each-once"); }
static void m_close() {
  bool bad = sx_param("bad", 0); int budget = sx_param("budget", 0); W::cfg.faults = budget > 0; W::cfg.fault_budget = budget; W::cfg.yields = true; W::add("/w", DT_DIR); W::add("/f", DT_REG);
  sx_check(!wtr_watcher_close(nullptr), "c-close:null-is-false");
  unsigned long long h0 = sx_heap_live(); void* h = wtr_watcher_open(bad ? "/f" : "/w", on_event, &context); sx_check(h != nullptr, "c-close:opens"); if (!h) return; if (sx_param("wait", 0)) sx_block(&W::idle);
  bool ok = wtr_watcher_close(h); closed = 1; sx_check(!sx_threads_live() && !in_cb, "c-close:nothing-runs-after"); int n = ncb; for (int i = 0; i < 3; i++) sx_yield("later"); sx_check(ncb == n && !late, "c-close:no-callback-after");
  sx_observe("n", ncb); sx_observe("ok", ok); bool good = ncb > 0 && got[ncb - 1].path[0] == 's'; if (good) sx_cover("ended-well"); else sx_cover("failed"); sx_check(ok == good, "c-close:answers-what-happened"); sx_check(!wtr_watcher_close(h) && !wtr_watcher_close(&context) && !wtr_watcher_close(nullptr), "c-close:once-and-only-what-was-opened");
  for (auto& g : got) { g.path = std::string(); g.assoc = std::string(); } sx_check(W::open_count() == 0, "c-close:descriptors-released"); }
extern "C" void sx_main() { if (sx_param("mode", 0)) m_close(); else m_event(); }
