// The Node.js addon.  JavaScript's engine and the C library are played by this file.
#include "../model/sx.h"
#include <string>
#include <vector>
#include <errno.h>
#include NODE_SRC
extern "C" { int sx_threads_live(void); }
// ---- values
struct Val { int k = 0; long long num = 0; std::string str; Val* obj[8]; char const* key[8]; int n = 0; napi_callback fn = nullptr; void* data = nullptr; bool b = false; }; // 0 undefined 1 null 2 number 3 string 4 object 5 function 6 boolean
static Val pool[120]; static int npool, big; static Val* mk(int k) { if (npool >= 120 && !big) sx_unmodelled("many values"); Val* v = npool < 120 ? &pool[npool++] : new Val; v->k = k; return v; }
static Val* V(napi_value v) { return (Val*)v; } static napi_value N(Val* v) { return (napi_value)v; }
struct napi_callback_info__ { Val** args; size_t n; void* data; };
struct Ref { Val* v; int count; bool live; }; static Ref refs[4]; static int nrefs;
struct napi_threadsafe_function__ { napi_threadsafe_function_call_js call; void* cx; Val* fn; size_t max; void* q[1100]; size_t head, tail; int threads; bool closing; }; static napi_threadsafe_function__ ts; static int nts, tserr;
static int thrown, js_calls; static napi_env const ENV = (napi_env)16; static int in_js; static bool js_thread() { return sx_self() == 0; }
struct Seen { long long time; Val *path, *assoc; int effect, type; }; static Seen seen[1100]; static int nseen; static Val* user_fn;
static Val* prop(Val* o, char const* k) { for (int i = o->n - 1; i >= 0; i--) if (!strcmp(o->key[i], k)) return o->obj[i]; return nullptr; }
#define JS() if (!e) return napi_invalid_arg; sx_check(js_thread() && e == ENV, "node-deliver:engine-used-only-by-its-own-thread")
extern "C" {
napi_status napi_create_object(napi_env e, napi_value* r) { JS(); *r = N(mk(4)); return napi_ok; }
napi_status napi_create_int64(napi_env e, int64_t v, napi_value* r) { JS(); Val* x = mk(2); x->num = v; *r = N(x); return napi_ok; }
napi_status napi_create_int32(napi_env e, int32_t v, napi_value* r) { JS(); Val* x = mk(2); x->num = v; *r = N(x); return napi_ok; }
napi_status napi_create_uint32(napi_env e, uint32_t v, napi_value* r) { JS(); Val* x = mk(2); x->num = v; *r = N(x); return napi_ok; }
napi_status napi_create_double(napi_env e, double v, napi_value* r) { JS(); Val* x = mk(2); x->num = (long long)v; *r = N(x); return napi_ok; }
napi_status napi_create_string_utf8(napi_env e, char const* s, size_t n, napi_value* r) { JS(); if (!s && n) return napi_invalid_arg; Val* x = mk(3); x->str = n == NAPI_AUTO_LENGTH ? std::string(s) : std::string(s, n); *r = N(x); return napi_ok; }
napi_status napi_get_null(napi_env e, napi_value* r) { JS(); *r = N(mk(1)); return napi_ok; }
napi_status napi_get_undefined(napi_env e, napi_value* r) { JS(); *r = N(mk(0)); return napi_ok; }
napi_status napi_get_boolean(napi_env e, bool b, napi_value* r) { JS(); Val* x = mk(6); x->b = b; *r = N(x); return napi_ok; }
napi_status napi_get_global(napi_env e, napi_value* r) { JS(); *r = N(mk(4)); return napi_ok; }
napi_status napi_set_named_property(napi_env e, napi_value o, char const* k, napi_value v) { JS(); Val* x = V(o); if (!x || x->k < 4 || !v) return napi_object_expected; if (x->n >= 8) { sx_unmodelled("too many properties"); return napi_ok; } x->key[x->n] = k; x->obj[x->n++] = V(v); return napi_ok; }
napi_status napi_create_function(napi_env e, char const*, size_t, napi_callback cb, void* d, napi_value* r) { JS(); Val* x = mk(5); x->fn = cb; x->data = d; *r = N(x); return napi_ok; }
napi_status napi_wrap(napi_env e, napi_value, void*, napi_finalize, void*, napi_ref* r) { JS(); if (r) *r = nullptr; return napi_ok; }
napi_status napi_typeof(napi_env e, napi_value v, napi_valuetype* t) { JS(); static napi_valuetype const T[] = {napi_undefined, napi_null, napi_number, napi_string, napi_object, napi_function, napi_boolean}; *t = T[V(v)->k]; return napi_ok; }
napi_status napi_throw_error(napi_env e, char const*, char const*) { JS(); thrown++; return napi_ok; }
napi_status napi_throw_type_error(napi_env e, char const*, char const*) { JS(); thrown++; return napi_ok; }
napi_status napi_get_cb_info(napi_env e, napi_callback_info i, size_t* n, napi_value* a, napi_value* self, void** d) { JS(); if (n) { for (size_t k = 0; k < *n && a; k++) a[k] = k < i->n ? N(i->args[k]) : N(mk(0)); *n = i->n; } if (self) *self = N(mk(4)); if (d) *d = i->data; return napi_ok; }
napi_status napi_get_value_string_utf8(napi_env e, napi_value v, char* b, size_t n, size_t* len) { JS(); Val* x = V(v); if (!x || x->k != 3) return napi_string_expected; if (!b) { if (!len) return napi_invalid_arg; *len = x->str.size(); return napi_ok; } size_t c = 0; if (n) { c = x->str.size() < n - 1 ? x->str.size() : n - 1; memcpy(b, x->str.data(), c); b[c] = 0; } if (len) *len = c; return napi_ok; }
napi_status napi_create_reference(napi_env e, napi_value v, uint32_t c, napi_ref* r) { JS(); if (!v || V(v)->k < 4) return napi_object_expected; Ref& x = refs[nrefs++]; x.v = V(v); x.count = (int)c; x.live = true; *r = (napi_ref)&x; return napi_ok; }
napi_status napi_delete_reference(napi_env e, napi_ref r) { JS(); Ref* x = (Ref*)r; sx_check(x >= refs && x < refs + 4 && x->live, "node-close:reference-released-once"); x->live = false; return napi_ok; }
napi_status napi_get_reference_value(napi_env e, napi_ref r, napi_value* v) { JS(); *v = N(((Ref*)r)->v); return napi_ok; }
napi_status napi_call_function(napi_env e, napi_value, napi_value f, size_t n, napi_value const* a, napi_value* r) { JS(); js_calls++; if (r) *r = N(mk(0)); sx_check(V(f) == user_fn && n == 1, "node-deliver:callback"); if (V(f) != user_fn || n != 1) return napi_ok; Val* o = V(a[0]);
  sx_check(in_js == 0, "node-deliver:one-at-a-time"); if (nseen >= 1100) { sx_violate("*:event-flood", "more events than were sent"); return napi_ok; } Val *t = prop(o, "effectTime"), *p = prop(o, "pathName"), *as = prop(o, "associatedPathName"), *et = prop(o, "effectType"), *pt = prop(o, "pathType");
  sx_check(t && t->k == 2 && p && p->k == 3 && as && (as->k == 1 || as->k == 3) && et && et->k == 2 && pt && pt->k == 2, "node-deliver:every-field"); if (!(t && p && as && et && pt)) return napi_ok; Seen& s = seen[nseen++]; s.time = t->num; s.path = p; s.assoc = as; s.effect = (int)et->num; s.type = (int)pt->num; return napi_ok; }
napi_status napi_create_threadsafe_function(napi_env e, napi_value f, napi_value, napi_value nm, size_t max, size_t threads, void*, napi_finalize, void* cx, napi_threadsafe_function_call_js call, napi_threadsafe_function* r) { JS(); if (nts) sx_unmodelled("another thread-safe function"); nts++; ts.call = call; ts.cx = cx; ts.fn = V(f); ts.max = max; ts.threads = (int)threads; ts.head = ts.tail = 0; ts.closing = false; *r = &ts; return napi_ok; }
napi_status napi_call_threadsafe_function(napi_threadsafe_function f, void* d, napi_threadsafe_function_call_mode m) { if (f != &ts || !ts.threads) { tserr++; return napi_invalid_arg; } sx_yield("queue"); if (ts.closing) return napi_closing; if (ts.max && ts.tail - ts.head >= ts.max) { if (m == napi_tsfn_blocking) { sx_end_path(); } return napi_queue_full; } if (ts.tail >= 1100) sx_unmodelled("very long queue"); ts.q[ts.tail++] = d; return napi_ok; }
napi_status napi_release_threadsafe_function(napi_threadsafe_function f, napi_threadsafe_function_release_mode m) { sx_check(f == &ts && ts.threads > 0, "node-close:queue-released-once"); ts.threads--; if (m == napi_tsfn_abort) ts.closing = true; return napi_ok; }
napi_status napi_acquire_threadsafe_function(napi_threadsafe_function) { ts.threads++; return napi_ok; }
napi_status napi_ref_threadsafe_function(napi_env, napi_threadsafe_function) { return napi_ok; }
napi_status napi_unref_threadsafe_function(napi_env, napi_threadsafe_function) { return napi_ok; }
void napi_module_register(napi_module*) {}
}
// ---- the C library
struct Sent { int64_t time; std::string path, assoc; bool has; int8_t effect, type; }; static Sent sent[1100]; static int nsent, many; static std::string opened; static int nopened, ncloses; static wtr_watcher_callback the_cb; static void* the_cx; static int handle; static bool close_answer; static int during_close;
static void send(int i) { Sent& s = sent[i]; char pb[16], ab[16]; memset(pb, 0, 16); memset(ab, 0, 16); memcpy(pb, s.path.data(), s.path.size()); memcpy(ab, s.assoc.data(), s.assoc.size()); wtr_watcher_event e{}; e.effect_time = s.time; e.path_name = pb; e.associated_path_name = s.has ? ab : nullptr; e.effect_type = s.effect; e.path_type = s.type; the_cb(e, the_cx); memset(pb, 'X', 15); memset(ab, 'X', 15); }
extern "C" { void* wtr_watcher_open(char const* p, wtr_watcher_callback cb, void* cx) { nopened++; opened = p; the_cb = cb; the_cx = cx; return &handle; }
bool wtr_watcher_close(void* w) { ncloses++; sx_check(w == &handle && ncloses == 1, "node-close:closed-once"); for (int i = 0; i < during_close; i++) send(nsent - during_close + i); return close_answer; } }
static Val* call(Val* f, Val** a, size_t n) { napi_callback_info__ i{a, n, f->data}; return V(f->fn(ENV, &i)); }
static void drain(bool all) { while (ts.head < ts.tail) { in_js = 0; void* d = ts.q[ts.head++]; ts.call(ts.closing ? nullptr : ENV, ts.closing ? nullptr : N(ts.fn), ts.cx, d); if (!all) break; } } // an aborted queue is emptied without an engine
static Val* text(int n, char const* nm) { Val* v = mk(3); v->str = std::string((size_t)n, 'p'); if (n) v->str[0] = '/'; if (n > 2) { char c = (char)sx_u8(nm); sx_assume(c != 0); v->str[n - 1] = c; } return v; }
extern "C" void sx_main() {
  int mode = sx_param("mode", 0); user_fn = mk(5); Val* exports = V(napi_register_module_v1(ENV, N(mk(4)))); Val* w = exports ? prop(exports, "watch") : nullptr; sx_check(w && w->k == 5, "node-deliver:exports-watch"); if (!w) return;
  static int const LEN[] = {1, 2, 63, 255, 4094, 4095, 4096, 5000}; Val* path = text(LEN[mode == 2 ? sx_choose(8, "path_length") : 1], "path"); Val* a[3] = {path, user_fn, path};
  if (mode == 2) { int n = (int)sx_choose(4, "arguments"); unsigned long long h0 = sx_heap_live(); Val* o = call(w, a, (size_t)n); if (n != 2) { sx_cover("wrong-arguments"); sx_check(thrown == 1 && nopened == 0, "node-deliver:wrong-arguments-throw"); return; } (void)h0;
    sx_check(nopened == 1 && !thrown && o && o->k == 4, "node-deliver:opens"); sx_check(opened == path->str, "node-deliver:path-as-given"); sx_observe("len", (long long)opened.size()); if (opened.size() > 4095) sx_cover("long-path"); return; }
  unsigned long long before = sx_heap_live(); Val* o = call(w, a, 2); Val* c = o ? prop(o, "close") : nullptr; sx_check(nopened == 1 && c && c->k == 5, "node-close:has-close"); if (!c) return;
  many = big = sx_param("many", 0); nsent = many ? many : 1 + (int)sx_choose(2, "events"); during_close = many ? 1 : (int)sx_choose(nsent + 1, "while_closing"); close_answer = sx_bool("close_answers");
  for (int i = 0; i < nsent; i++) { Sent& s = sent[i]; if (many && i > 2) { s.time = i; s.path = "/p"; s.has = false; s.effect = 1; s.type = 1; continue; } s.time = (int64_t)sx_u64("time"); s.effect = (int8_t)sx_u8("effect"); s.type = (int8_t)sx_u8("type"); sx_assume(s.effect >= 0 && s.effect < 6 && s.type >= 0 && s.type < 6); int l = (int)sx_choose(2, "length"); s.path = "/"; for (int k = 0; k < l; k++) { char ch = (char)sx_u8("name"); sx_assume(ch != 0); s.path.push_back(ch); } s.has = i == 0 && sx_bool("associated"); if (s.has) { char ch = (char)sx_u8("name"); sx_assume(ch != 0); s.assoc = "/"; s.assoc.push_back(ch); } }
  if (sx_param("teardown", 0)) { // the engine ends while the watcher is open
    unsigned long long h1 = sx_heap_live(); int upto = (int)sx_choose(nsent + 1, "until"); for (int i = 0; i < upto; i++) send(i); bool t0 = ts.tail > ts.head; ts.closing = true; drain(true); for (int i = upto; i < nsent; i++) send(i); sx_check(nseen == 0 && tserr == 0, "node-deliver:nothing-after-the-engine"); sx_check(ts.tail == ts.head, "node-deliver:nothing-after-the-engine"); sx_observe("waiting", t0); sx_check(sx_heap_live() == h1, "node-close:nothing-leaks"); if (t0) sx_cover("engine-ended"); return; }
  for (int i = 0; i < nsent - during_close; i++) { send(i); if (!many && sx_bool("engine_runs")) drain(false); } sx_check(js_calls == nseen, "node-deliver:calls");
  Val* r = call(c, nullptr, 0); sx_check(r && r->k == 6 && r->b == close_answer, "node-close:answers-what-close-answered"); sx_check(ncloses == 1, "node-close:closes-the-watcher"); for (int i = 0; i < nrefs; i++) sx_check(!refs[i].live, "node-close:reference-released"); sx_check(ts.threads == 0, "node-close:queue-released"); if (close_answer) sx_cover("closed-well"); else sx_cover("closed-badly");
  drain(true); sx_check(nseen == nsent && tserr == 0, "node-deliver:every-event-once"); sx_observe("seen", nseen); if (nseen > 1024) sx_cover("many");
  for (int i = 0; i < nseen && i < nsent; i++) { Sent& s = sent[i]; Seen& g = seen[i]; sx_check(g.time == s.time, "node-deliver:time"); sx_check(g.path->str == s.path, "node-deliver:path"); sx_check(s.has ? g.assoc->k == 3 && g.assoc->str == s.assoc : g.assoc->k == 1, "node-deliver:associated"); sx_check(g.effect == s.effect && g.type == s.type, "node-deliver:kinds"); if (s.has) sx_cover("associated"); }
  if (!many) sx_check(sx_heap_live() == before, "node-close:nothing-leaks");
}
