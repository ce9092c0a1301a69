/* libc as seen by the symbolic executor (engine build only; native replay uses the real one). */
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
#include <limits.h>
void* sx_malloc(uint64_t); void sx_free(void*); uint64_t sx_alloc_size(void*); void sx_unmodelled(char const*); void sx_check(int, char const*); void sx_violate(char const*, char const*);
void* memcpy(void*, void const*, size_t); void* memset(void*, int, size_t); void* memmove(void*, void const*, size_t);
static _Thread_local int sx_errno; int* __errno_location(void) { return &sx_errno; }
void* malloc(size_t n) { return sx_malloc(n); }
void free(void* p) { sx_free(p); }
void* calloc(size_t a, size_t b) { void* p = sx_malloc(a * b); memset(p, 0, a * b); return p; }
void* realloc(void* p, size_t n) { void* q = sx_malloc(n); if (p) { size_t o = sx_alloc_size(p); memcpy(q, p, o < n ? o : n); sx_free(p); } return q; }
void* _Znwm(size_t n) { return sx_malloc(n); }
void* _Znam(size_t n) { return sx_malloc(n); }
void* _ZnwmRKSt9nothrow_t(size_t n, void* t) { return sx_malloc(n); }
void* _ZnamRKSt9nothrow_t(size_t n, void* t) { return sx_malloc(n); }
void _ZdlPv(void* p) { sx_free(p); }
void _ZdlPvm(void* p, size_t n) { sx_free(p); }
void _ZdaPv(void* p) { sx_free(p); }
void _ZdaPvm(void* p, size_t n) { sx_free(p); }
size_t strlen(char const* s) { size_t n = 0; while (s[n]) n++; return n; }
size_t strnlen(char const* s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
int strcmp(char const* a, char const* b) { for (;; a++, b++) { unsigned char x = *a, y = *b; if (x != y) return x < y ? -1 : 1; if (!x) return 0; } }
int strncmp(char const* a, char const* b, size_t n) { for (; n; a++, b++, n--) { unsigned char x = *a, y = *b; if (x != y) return x < y ? -1 : 1; if (!x) return 0; } return 0; }
char* strcpy(char* d, char const* s) { size_t i = 0; do d[i] = s[i]; while (s[i++]); return d; }
char* stpcpy(char* d, char const* s) { while ((*d = *s)) d++, s++; return d; }
char* strncpy(char* d, char const* s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char* strcat(char* d, char const* s) { strcpy(d + strlen(d), s); return d; }
char* strncat(char* d, char const* s, size_t n) { char* e = d + strlen(d); size_t i = 0; for (; i < n && s[i]; i++) e[i] = s[i]; e[i] = 0; return d; }
char* strchr(char const* s, int c) { for (;; s++) { if (*s == (char)c) return (char*)s; if (!*s) return 0; } }
char* strchrnul(char const* s, int c) { for (;; s++) { if (*s == (char)c || !*s) return (char*)s; } }
char* strrchr(char const* s, int c) { char const* r = 0; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char*)r; } }
void* memchr(void const* p, int c, size_t n) { unsigned char const* s = p; for (size_t i = 0; i < n; i++) if (s[i] == (unsigned char)c) return (void*)(s + i); return 0; }
void* memrchr(void const* p, int c, size_t n) { unsigned char const* s = p; while (n--) if (s[n] == (unsigned char)c) return (void*)(s + n); return 0; }
char* strstr(char const* h, char const* n) { size_t k = strlen(n); for (;; h++) { if (!strncmp(h, n, k)) return (char*)h; if (!*h) return 0; } }
void* memmem(void const* h, size_t hn, void const* n, size_t nn) { char const* x = h; char const* y = n; for (size_t i = 0; i + nn <= hn; i++) { size_t j = 0; while (j < nn && x[i + j] == y[j]) j++; if (j == nn) return (void*)(x + i); } return 0; }
char* strdup(char const* s) { size_t n = strlen(s) + 1; char* p = sx_malloc(n); memcpy(p, s, n); return p; }
char* strndup(char const* s, size_t m) { size_t n = strnlen(s, m); char* p = sx_malloc(n + 1); memcpy(p, s, n); p[n] = 0; return p; }
char* strtok_r(char* s, char const* d, char** sv) { if (!s) s = *sv; while (*s && strchr(d, *s)) s++; if (!*s) { *sv = s; return 0; } char* b = s; while (*s && !strchr(d, *s)) s++; if (*s) *s++ = 0; *sv = s; return b; }
size_t wcslen(int const* s) { size_t n = 0; while (s[n]) n++; return n; }
int* wmemcpy(int* d, int const* s, size_t n) { memcpy(d, s, n * sizeof(int)); return d; }
int* wmemmove(int* d, int const* s, size_t n) { memmove(d, s, n * sizeof(int)); return d; }
int* wmemset(int* d, int c, size_t n) { for (size_t i = 0; i < n; i++) d[i] = c; return d; }
int wmemcmp(int const* a, int const* b, size_t n) { for (size_t i = 0; i < n; i++) if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1; return 0; }
int* wmemchr(int const* s, int c, size_t n) { for (size_t i = 0; i < n; i++) if (s[i] == c) return (int*)(s + i); return 0; }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int isalnum(int c) { return isalpha(c) || isdigit(c); }
int isupper(int c) { return c >= 'A' && c <= 'Z'; }
int islower(int c) { return c >= 'a' && c <= 'z'; }
int tolower(int c) { return isupper(c) ? c + 32 : c; }
int toupper(int c) { return islower(c) ? c - 32 : c; }
int isprint(int c) { return c >= 32 && c < 127; }
int iscntrl(int c) { return (c >= 0 && c < 32) || c == 127; }
int isxdigit(int c) { return isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
int abs(int x) { return x < 0 ? -x : x; }
long labs(long x) { return x < 0 ? -x : x; }
/* strtoll/strtoull, base 10 (what the code uses); other bases supported for completeness */
static int dig(int c) { return isdigit(c) ? c - '0' : c >= 'a' && c <= 'z' ? c - 'a' + 10 : c >= 'A' && c <= 'Z' ? c - 'A' + 10 : 99; }
#define ERANGE 34
long long strtoll(char const* s, char** end, int base) { char const* p = s; while (isspace((unsigned char)*p)) p++; int neg = 0; if (*p == '+' || *p == '-') neg = *p++ == '-'; if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && dig(p[2]) < 16) p += 2, base = 16; else if (base == 0) base = *p == '0' ? 8 : 10;
  unsigned long long v = 0, lim = neg ? (unsigned long long)LLONG_MAX + 1 : LLONG_MAX; int any = 0, over = 0; for (; dig((unsigned char)*p) < base; p++) { any = 1; unsigned d = dig((unsigned char)*p); if (over || v > (lim - d) / base) over = 1; else v = v * base + d; }
  if (end) *end = (char*)(any ? p : s); if (over) { sx_errno = ERANGE; return neg ? LLONG_MIN : LLONG_MAX; } return neg ? (long long)(0 - v) : (long long)v; }
long strtol(char const* s, char** end, int base) { return strtoll(s, end, base); }
unsigned long long strtoull(char const* s, char** end, int base) { char const* p = s; while (isspace((unsigned char)*p)) p++; int neg = 0; if (*p == '+' || *p == '-') neg = *p++ == '-'; if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && dig(p[2]) < 16) p += 2, base = 16; else if (base == 0) base = *p == '0' ? 8 : 10;
  unsigned long long v = 0; int any = 0, over = 0; for (; dig((unsigned char)*p) < base; p++) { any = 1; unsigned d = dig((unsigned char)*p); if (over || v > (ULLONG_MAX - d) / base) over = 1; else v = v * base + d; }
  if (end) *end = (char*)(any ? p : s); if (over) { sx_errno = ERANGE; return ULLONG_MAX; } return neg ? 0 - v : v; }
unsigned long strtoul(char const* s, char** end, int base) { return strtoull(s, end, base); }
int atoi(char const* s) { return (int)strtoll(s, 0, 10); }
long atol(char const* s) { return strtoll(s, 0, 10); }
long long atoll(char const* s) { return strtoll(s, 0, 10); }
long long __isoc23_strtoll(char const* s, char** e, int b) { return strtoll(s, e, b); }
long __isoc23_strtol(char const* s, char** e, int b) { return strtoll(s, e, b); }
unsigned long long __isoc23_strtoull(char const* s, char** e, int b) { return strtoull(s, e, b); }
unsigned long __isoc23_strtoul(char const* s, char** e, int b) { return strtoull(s, e, b); }
/* printf family: %s %d %i %u %ld %lld %lu %llu %zu %zd %x %c %%, with no flags beyond width/zero-pad/precision on %s */
struct out { char* p; size_t cap, n; };
static void oc(struct out* o, char c) { if (o->cap && o->n + 1 < o->cap) o->p[o->n] = c; o->n++; }
static void on(struct out* o, unsigned long long v, unsigned base, int neg, int width, int zero) { char t[24]; int n = 0; do { unsigned d = v % base; t[n++] = d < 10 ? '0' + d : 'a' + d - 10; v /= base; } while (v); int tot = n + neg; if (!zero) for (int i = tot; i < width; i++) oc(o, ' '); if (neg) oc(o, '-'); if (zero) for (int i = tot; i < width; i++) oc(o, '0'); while (n--) oc(o, t[n]); }
int vsnprintf(char* s, size_t cap, char const* f, va_list ap) {
  struct out o = {s, cap, 0};
  for (; *f; f++) { if (*f != '%') { oc(&o, *f); continue; } f++; int zero = 0, width = 0, prec = -1, l = 0; while (*f == '0' || *f == '-' || *f == '+') { if (*f == '0') zero = 1; else sx_unmodelled("printf flag"); f++; } if (*f == '*') width = va_arg(ap, int), f++; else while (isdigit(*f)) width = width * 10 + *f++ - '0'; if (*f == '.') { f++; prec = 0; if (*f == '*') prec = va_arg(ap, int), f++; else while (isdigit(*f)) prec = prec * 10 + *f++ - '0'; }
    while (*f == 'l' || *f == 'z' || *f == 'j' || *f == 'h' || *f == 't') { if (*f != 'h') l++; else l--; f++; }
    switch (*f) { case '%': oc(&o, '%'); break; case 'c': oc(&o, (char)va_arg(ap, int)); break; case 's': { char const* p = va_arg(ap, char const*); if (!p) p = "(null)"; if (width && prec < 0) { size_t n = strlen(p); for (; (int)n < width; n++) oc(&o, ' '); } for (int i = 0; (prec < 0 || i < prec) && p[i]; i++) oc(&o, p[i]); break; }
      case 'd': case 'i': { long long v = l > 0 ? va_arg(ap, long) : va_arg(ap, int); on(&o, v < 0 ? 0 - (unsigned long long)v : (unsigned long long)v, 10, v < 0, width, zero); break; }
      case 'u': case 'x': { unsigned long long v = l > 0 ? va_arg(ap, unsigned long) : va_arg(ap, unsigned); on(&o, v, *f == 'x' ? 16 : 10, 0, width, zero); break; }
      case 'p': { unsigned long long v = (unsigned long long)va_arg(ap, void*); oc(&o, '0'); oc(&o, 'x'); on(&o, v, 16, 0, 0, 0); break; }
      default: sx_unmodelled("printf conversion"); } }
  if (cap) s[o.n < cap ? o.n : cap - 1] = 0; return (int)o.n; }
int snprintf(char* s, size_t cap, char const* f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(s, cap, f, ap); va_end(ap); return r; }
int sprintf(char* s, char const* f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(s, 1u << 30, f, ap); va_end(ap); return r; }
int vsprintf(char* s, char const* f, va_list ap) { return vsnprintf(s, 1u << 30, f, ap); }
int __cxa_atexit(void (*f)(void*), void* a, void* d) { return 0; }
int atexit(void (*f)(void)) { return 0; }
int __cxa_guard_acquire(char* g) { return !*g; }
void __cxa_guard_release(char* g) { *g = 1; }
void __cxa_pure_virtual(void) { sx_violate("*:pure-virtual-call", "pure virtual call"); }
void abort(void) { sx_violate("*:abort", "abort() called"); for (;;) {} }
void _ZSt9terminatev(void) { sx_violate("*:terminate", "std::terminate called"); for (;;) {} }
void __assert_fail(char const* e, char const* f, unsigned l, char const* fn) { sx_violate("*:assert", "assertion failed"); for (;;) {} }
void __stack_chk_fail(void) { sx_violate("*:stack-smash", "stack smashed"); for (;;) {} }
int sched_yield(void) { return 0; }
int __libc_single_threaded_v; char __libc_single_threaded = 0;
int sxm_close_range_dummy;
static char sx_streams[3];
void *stdin = sx_streams, *stdout = sx_streams + 1, *stderr = sx_streams + 2;
