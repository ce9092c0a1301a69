// A few simple changes under "/w", delivered by inotify in one read, and what they must become.
#pragma once
#include "rec.hpp"
namespace S {
inline int n = 0, stage = 0, kind[4]; inline bool dir[4]; inline std::string name[4]; inline bool on = true;
static uint32_t const M[] = {IN_CREATE, IN_MODIFY, IN_DELETE, IN_MOVED_FROM, IN_MOVED_TO, IN_Q_OVERFLOW};
struct Want { std::string path, assoc; int effect, type; bool has; }; inline Want want[4]; inline int nwant = 0; inline bool pair = false;
inline bool hasb() { return stage == 1 && n > 0; }
inline long fill(int, char* buf, size_t) { if (!hasb()) return -EAGAIN; stage = 2; size_t o = 0; for (int i = 0; i < n; i++) { inotify_event h; memset(&h, 0, sizeof h); h.wd = kind[i] == 5 ? -1 : 1; h.mask = M[kind[i]] | (dir[i] ? IN_ISDIR : 0); h.cookie = kind[i] == 3 || kind[i] == 4 ? 9 : 0; h.len = kind[i] == 5 ? 0 : name[i].size() > 15 ? 48 : 16; memcpy(buf + o, &h, 16); memset(buf + o + 16, 0, h.len); if (h.len) memcpy(buf + o + 16, name[i].data(), name[i].size()); o += 16 + h.len; } return (long)o; }
inline void choose(int max) { W::fill = fill; W::has_batch = hasb; n = 1 + (int)sx_choose(max, "events"); int warn = sx_param("warn", 0), longer = sx_param("longer", 0);
  for (int i = 0; i < n; i++) { kind[i] = (int)sx_choose(5 + warn, "change"); dir[i] = kind[i] < 5 && sx_bool("directory"); if (kind[i] == 5) continue; int l = i ? 1 : 1 + (int)sx_choose(2, "length"); name[i].clear(); if (longer) name[i] = "a-rather-long-name-so-that-"; for (int k = 0; k < l; k++) { char c = (char)sx_u8("name"); sx_assume(c != 0 && c != '/'); if (k == 0 && !longer) sx_assume(c != '.'); name[i].push_back(c); } }
  static int const EF[] = {E_CREATE, E_MODIFY, E_DESTROY, E_RENAME, E_RENAME, E_OTHER};
  pair = n == 2 && kind[0] >= 3 && kind[1] >= 3 && kind[0] < 5 && kind[1] < 5 && kind[0] != kind[1]; if (pair && dir[0] != dir[1]) sx_end_path();
  nwant = 0; if (pair) { int f = kind[0] == 3 ? 0 : 1; Want& w = want[nwant++]; w.path = "/w/" + name[f]; w.assoc = "/w/" + name[1 - f]; w.effect = E_RENAME; w.type = dir[0] ? T_DIR : T_FILE; w.has = true; }
  else for (int i = 0; i < n; i++) { Want& w = want[nwant++]; w.path = kind[i] == 5 ? std::string("w/sys/q_overflow@") : "/w/" + name[i]; w.effect = EF[kind[i]]; w.type = kind[i] == 5 ? T_WATCHER : dir[i] ? T_DIR : T_FILE; w.has = false; } }
// the watcher has nothing to do: hand it the changes, and wait until it has dealt with them
inline void deliver() { sx_block(&W::idle); if (stage == 0 && W::idle == 1) { stage = 1; W::idle = 0; W::notify(); sx_block(&W::idle); } }
}
