// A small JSON reader: what any JSON parser would make of a text (RFC 8259; strings are kept as bytes).
#pragma once
#include <string>
#include <cstring>
namespace J {
struct V { int kind = 0; std::string s; int nk = 0; std::string k[8]; V* v[8] = {}; long long num = 0; }; // 0 none, 1 string, 2 object, 3 null, 4 integer, 5 true/false
struct P { char const* b; size_t n, i = 0; bool ok = true;
  void ws() { while (i < n && (b[i] == ' ' || b[i] == '\n' || b[i] == '\t' || b[i] == '\r')) i++; }
  bool eat(char c) { ws(); if (i < n && b[i] == c) { i++; return true; } return ok = false; }
  int hex() { if (i >= n) { ok = false; return 0; } char c = b[i++]; if (c >= '0' && c <= '9') return c - '0'; if (c >= 'a' && c <= 'f') return c - 'a' + 10; if (c >= 'A' && c <= 'F') return c - 'A' + 10; ok = false; return 0; }
  std::string str() { std::string r; if (!eat('"')) return r;
    for (;;) { if (i >= n) { ok = false; return r; } unsigned char c = b[i++]; if (c == '"') return r; if (c < 0x20) { ok = false; return r; } if (c != '\\') { r.push_back((char)c); continue; }
      if (i >= n) { ok = false; return r; } c = b[i++]; switch (c) { case '"': case '\\': case '/': r.push_back((char)c); break; case 'b': r.push_back('\b'); break; case 'f': r.push_back('\f'); break; case 'n': r.push_back('\n'); break; case 'r': r.push_back('\r'); break; case 't': r.push_back('\t'); break;
        case 'u': { int u = hex() << 12; u |= hex() << 8; u |= hex() << 4; u |= hex(); if (u < 0x80) r.push_back((char)u); else if (u < 0x800) { r.push_back((char)(0xc0 | u >> 6)); r.push_back((char)(0x80 | (u & 63))); } else { r.push_back((char)(0xe0 | u >> 12)); r.push_back((char)(0x80 | (u >> 6 & 63))); r.push_back((char)(0x80 | (u & 63))); } break; }
        default: ok = false; return r; } } }
  bool lit(char const* w) { size_t l = strlen(w); if (n - i >= l && !memcmp(b + i, w, l)) { i += l; return true; } return ok = false; }
  V* val(int depth = 0) { V* v = new V; ws(); if (i >= n || depth > 5) { ok = false; return v; } char c = b[i];
    if (c == '"') { v->kind = 1; v->s = str(); }
    else if (c == '{') { i++; v->kind = 2; ws(); if (i < n && b[i] == '}') { i++; return v; } for (;;) { ws(); std::string k = str(); if (!ok || !eat(':')) { ok = false; return v; } if (v->nk >= 8) { ok = false; return v; } v->k[v->nk] = k; v->v[v->nk++] = val(depth + 1); if (!ok) return v; ws(); if (i < n && b[i] == ',') { i++; continue; } eat('}'); return v; } }
    else if (c == 'n') { v->kind = 3; lit("null"); } else if (c == 't') { v->kind = 5; v->num = 1; lit("true"); } else if (c == 'f') { v->kind = 5; lit("false"); }
    else { v->kind = 4; bool neg = c == '-'; if (neg) i++; size_t i0 = i; unsigned long long x = 0; while (i < n && b[i] >= '0' && b[i] <= '9') x = x * 10 + (unsigned long long)(b[i++] - '0'); if (i == i0 || (b[i0] == '0' && i > i0 + 1)) ok = false; v->num = neg ? (long long)(0 - x) : (long long)x; }
    return v; } };
inline V* parse(std::string const& s, bool* ok) { P p{s.data(), s.size()}; V* v = p.val(); p.ws(); *ok = p.ok && p.i == p.n; return v; }
inline V* get(V* o, char const* k) { if (!o || o->kind != 2) return nullptr; V* r = nullptr; for (int i = 0; i < o->nk; i++) if (o->k[i] == k) r = o->v[i]; return r; }
inline bool has_dup(V* o) { for (int i = 0; i < o->nk; i++) for (int j = 0; j < i; j++) if (o->k[i] == o->k[j]) return true; return false; }
inline bool is(V* v, std::string const& s) { return v && v->kind == 1 && v->s.size() == s.size() && !memcmp(v->s.data(), s.data(), s.size()); }
}
