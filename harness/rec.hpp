// Records what the user's callback receives.
#pragma once
#include "world.hpp"
#include <string>
struct Rec { std::string path; int effect = -1, type = -1; bool assoc = false; std::string apath; int aeffect = -1, atype = -1; long long time = 0; int watches = 0; int tid = 0; bool deep = false; int naw = 0; };
inline int* rec_counter = nullptr;
constexpr int RMAX = 48;
inline Rec recs[RMAX]; inline int nrecs = 0; inline bool closed_flag = false; inline int after_close = 0;
enum { E_RENAME, E_MODIFY, E_CREATE, E_DESTROY, E_OWNER, E_OTHER };
enum { T_DIR, T_FILE, T_HARD, T_SYM, T_WATCHER, T_OTHER };
inline int et(enum wtr::event::effect_type e) { switch (e) { case wtr::event::effect_type::rename: return E_RENAME; case wtr::event::effect_type::modify: return E_MODIFY; case wtr::event::effect_type::create: return E_CREATE; case wtr::event::effect_type::destroy: return E_DESTROY; case wtr::event::effect_type::owner: return E_OWNER; default: return E_OTHER; } }
inline int pt(enum wtr::event::path_type e) { switch (e) { case wtr::event::path_type::dir: return T_DIR; case wtr::event::path_type::file: return T_FILE; case wtr::event::path_type::hard_link: return T_HARD; case wtr::event::path_type::sym_link: return T_SYM; case wtr::event::path_type::watcher: return T_WATCHER; default: return T_OTHER; } }
inline void record(wtr::event const& e) {
  if (closed_flag) after_close++;
  if (nrecs >= RMAX) { sx_violate("*:event-flood", "far more events than inputs were delivered"); return; }
  Rec& r = recs[nrecs++]; r.path = e.path_name.native(); r.effect = et(e.effect_type); r.type = pt(e.path_type); r.time = e.effect_time; r.watches = W::nwatches; r.tid = sx_self(); if (rec_counter) r.naw = *rec_counter;
  r.assoc = e.associated != nullptr; if (e.associated) { r.apath = e.associated->path_name.native(); r.aeffect = et(e.associated->effect_type); r.atype = pt(e.associated->path_type); r.deep = e.associated->associated != nullptr; } }
inline bool starts(std::string const& s, char const* p) { size_t n = strlen(p); return s.size() >= n && memcmp(s.data(), p, n) == 0; }
inline bool eq(std::string const& a, std::string const& b) { return a.size() == b.size() && memcmp(a.data(), b.data(), a.size()) == 0; }
inline void observe_recs() { for (int i = 0; i < nrecs; i++) { sx_observe_str("ev", recs[i].path); sx_observe("et", recs[i].effect); sx_observe("pt", recs[i].type); if (recs[i].assoc) sx_observe_str("assoc", recs[i].apath); } sx_observe("n", nrecs); }
// the stream is one live message, what happened, and one matching die message
inline void check_framing(char const* path, bool good, int n_end) {
  sx_check(nrecs >= 2, "lifecycle-framing:both-messages"); if (nrecs < 2) return; Rec& a = recs[0]; Rec& z = recs[nrecs - 1]; std::string p = path;
  sx_check(a.type == T_WATCHER && a.effect == E_CREATE && eq(a.path, (good ? "s/self/live@" : "e/self/live@") + p) && !a.assoc, "lifecycle-framing:first-is-live");
  sx_check(z.type == T_WATCHER && z.effect == E_DESTROY && eq(z.path, (good ? "s/self/die@" : "e/self/die@") + p) && !z.assoc, "lifecycle-framing:last-is-die");
  for (int i = 1; i < nrecs - 1; i++) sx_check(recs[i].type != T_WATCHER || (recs[i].effect == E_OTHER && !starts(recs[i].path, "s/self/") && !starts(recs[i].path, "e/self/")), "lifecycle-framing:only-once");
  (void)n_end; }
