// Models of the libc / libstdc++ routines that are not available as IR. They
// are ordinary code: executed symbolically with the code under test and
// compiled natively for replay. Names lsxm_X stand for X.
#include "fs.h"
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <condition_variable>
#include <mutex>
#include <string>
#include <thread>
#include <bits/stl_tree.h>
#include <bits/hashtable_policy.h>
#include <bits/stl_list.h>


extern "C" {
// ------------------------------------------------------------------ strings
size_t lsxm_strlen(const char* s) { size_t n = 0; while (s[n]) n++; return n; }
int lsxm_strcmp(const char* a, const char* b) {
  for (;; a++, b++) {
    unsigned char x = (unsigned char)*a, y = (unsigned char)*b;
    if (x != y) return x < y ? -1 : 1;
    if (!x) return 0;
  }
}
int lsxm_strncmp(const char* a, const char* b, size_t n) {
  for (; n; a++, b++, n--) {
    unsigned char x = (unsigned char)*a, y = (unsigned char)*b;
    if (x != y) return x < y ? -1 : 1;
    if (!x) return 0;
  }
  return 0;
}
void* lsxm_memchr(const void* p, int c, size_t n) {
  for (const unsigned char* q = (const unsigned char*)p; n; q++, n--) if (*q == (unsigned char)c) return (void*)q;
  return nullptr;
}
void* lsxm_memrchr(const void* p, int c, size_t n) {
  const unsigned char* q = (const unsigned char*)p;
  while (n--) if (q[n] == (unsigned char)c) return (void*)(q + n);
  return nullptr;
}
char* lsxm_strchr(const char* s, int c) {
  for (;; s++) { if (*s == (char)c) return (char*)s; if (!*s) return nullptr; }
}
char* lsxm_strrchr(const char* s, int c) {
  char* r = nullptr;
  for (;; s++) { if (*s == (char)c) r = (char*)s; if (!*s) return r; }
}
char* lsxm_strcpy(char* d, const char* s) { size_t i = 0; do d[i] = s[i]; while (s[i++]); return d; }
char* lsxm_strncpy(char* d, const char* s, size_t n) {
  size_t i = 0;
  for (; i < n && s[i]; i++) d[i] = s[i];
  for (; i < n; i++) d[i] = 0;
  return d;
}
size_t lsxm_strnlen(const char* s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
char* lsxm_strchrnul(const char* s, int c) { while (*s && *s != (char)c) s++; return (char*)s; }
char* lsxm_strcat(char* d, const char* s) { lsxm_strcpy(d + lsxm_strlen(d), s); return d; }
char* lsxm_strncat(char* d, const char* s, size_t n) {
  char* e = d + lsxm_strlen(d);
  size_t i = 0;
  for (; i < n && s[i]; i++) e[i] = s[i];
  e[i] = 0;
  return d;
}
char* lsxm_stpcpy(char* d, const char* s) { while ((*d = *s)) { d++; s++; } return d; }
void* lsxm_mempcpy(void* d, const void* s, size_t n) { memcpy(d, s, n); return (char*)d + n; }
void* lsxm_memmem(const void* h, size_t n, const void* x, size_t m) {
  for (size_t i = 0; i + m <= n; i++) if (!memcmp((const char*)h + i, x, m)) return (char*)h + i;
  return nullptr;
}
void* lsxm_rawmemchr(const void* p, int c) { const unsigned char* q = (const unsigned char*)p; while (*q != (unsigned char)c) q++; return (void*)q; }
char* lsxm_strstr(const char* h, const char* x) {
  const size_t m = lsxm_strlen(x);
  for (;; h++) { if (!lsxm_strncmp(h, x, m)) return (char*)h; if (!*h) return nullptr; }
}
size_t lsxm_strspn(const char* s, const char* set) { size_t n = 0; while (s[n] && lsxm_strchr(set, s[n])) n++; return n; }
size_t lsxm_strcspn(const char* s, const char* set) { size_t n = 0; while (s[n] && !lsxm_strchr(set, s[n])) n++; return n; }
char* lsxm_strpbrk(const char* s, const char* set) { s += lsxm_strcspn(s, set); return *s ? (char*)s : nullptr; }
int lsxm_strcasecmp(const char* a, const char* b) {
  for (;; a++, b++) {
    int x = *a >= 'A' && *a <= 'Z' ? *a + 32 : (unsigned char)*a, y = *b >= 'A' && *b <= 'Z' ? *b + 32 : (unsigned char)*b;
    if (x != y) return x < y ? -1 : 1;
    if (!x) return 0;
  }
}
int lsxm_strcoll(const char* a, const char* b) { return lsxm_strcmp(a, b); }
int lsxm_isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int lsxm_isupper(int c) { return c >= 'A' && c <= 'Z'; }
int lsxm_islower(int c) { return c >= 'a' && c <= 'z'; }
int lsxm_isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int lsxm_isalnum(int c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int lsxm_iscntrl(int c) { return (c >= 0 && c < 0x20) || c == 0x7f; }
int lsxm_isgraph(int c) { return c > 0x20 && c < 0x7f; }
int lsxm_ispunct(int c) { return c > 0x20 && c < 0x7f && !((c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z')); }
char* lsxm_strdup(const char* s) { size_t n = lsxm_strlen(s) + 1; char* r = (char*)malloc(n); memcpy(r, s, n); return r; }
char* lsxm_strndup(const char* s, size_t m) { size_t n = lsxm_strnlen(s, m); char* r = (char*)malloc(n + 1); memcpy(r, s, n); r[n] = 0; return r; }
int lsxm_posix_memalign(void** p, size_t a, size_t n) {
  if (a > 16) { lsx_fail("unsupported", "alignment of an allocation"); return 22; }
  *p = malloc(n);
  return 0;
}
void* lsxm_aligned_alloc(size_t a, size_t n) { if (a > 16) lsx_fail("unsupported", "alignment of an allocation"); return malloc(n); }
void* lsxm_reallocarray(void* p, size_t a, size_t b) { return realloc(p, a * b); }
int* lsxm___errno_location(void);
// decimal numbers only; v: the value, neg, over: beyond 64 bits
static const char* number(const char* s, uint64_t* v, bool* neg, bool* over) {
  while (*s == ' ' || (*s >= 9 && *s <= 13)) s++;
  *neg = *s == '-';
  if (*s == '-' || *s == '+') s++;
  const char* b = s;
  *v = 0;
  *over = false;
  for (; *s >= '0' && *s <= '9'; s++) {
    const uint64_t d = (uint64_t)(*s - '0');
    if (*v > (~0ull - d) / 10) *over = true;
    else *v = *v * 10 + d;
  }
  return s == b ? nullptr : s;
}
unsigned long lsxm_strtoul(const char* s, char** e, int base) {
  if (base != 10) lsx_fail("unsupported", "base of a number");
  uint64_t v;
  bool neg, over;
  const char* r = number(s, &v, &neg, &over);
  if (e) *e = (char*)(r ? r : s);
  if (!r) return 0;
  if (over) { *lsxm___errno_location() = 34; return ~0ul; }
  return neg ? 0 - v : v;
}
long lsxm_strtol(const char* s, char** e, int base) {
  if (base != 10) lsx_fail("unsupported", "base of a number");
  uint64_t v;
  bool neg, over;
  const char* r = number(s, &v, &neg, &over);
  if (e) *e = (char*)(r ? r : s);
  if (!r) return 0;
  const uint64_t top = ((uint64_t)1 << 63) - 1 + (neg ? 1 : 0);
  if (over || v > top) { *lsxm___errno_location() = 34; v = top; }
  return (long)(neg ? 0 - v : v);
}
unsigned long long lsxm_strtoull(const char* s, char** e, int base) { return lsxm_strtoul(s, e, base); }
long long lsxm_strtoll(const char* s, char** e, int base) { return lsxm_strtol(s, e, base); }
long lsxm___isoc23_strtol(const char* s, char** e, int base) { return lsxm_strtol(s, e, base); }
long long lsxm___isoc23_strtoll(const char* s, char** e, int base) { return lsxm_strtol(s, e, base); }
unsigned long lsxm___isoc23_strtoul(const char* s, char** e, int base) { return lsxm_strtoul(s, e, base); }
unsigned long long lsxm___isoc23_strtoull(const char* s, char** e, int base) { return lsxm_strtoul(s, e, base); }
int lsxm_atoi(const char* s) { return (int)lsxm_strtol(s, nullptr, 10); }
long lsxm_atol(const char* s) { return lsxm_strtol(s, nullptr, 10); }
int lsxm_isprint(int c) { return c >= 0x20 && c < 0x7f; }
int lsxm_isdigit(int c) { return c >= '0' && c <= '9'; }
int lsxm_isxdigit(int c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
int lsxm_tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int lsxm_toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
static int g_errno[8];
int* lsxm___errno_location(void) { return &g_errno[lsx_self()]; }
static char g_errText[8][12];
static char* errText(int e) {
  // the number is the text, so that it may be symbolic
  char* t = g_errText[lsx_self()];
  memcpy(t, "error ???", 10);
  unsigned u = (unsigned)e & 255;
  t[6] = (char)('0' + u / 100);
  t[7] = (char)('0' + u / 10 % 10);
  t[8] = (char)('0' + u % 10);
  return t;
}
char* lsxm_strerror(int e) { return errText(e); }
char* lsxm_strerror_r(int e, char*, size_t) { return errText(e); }
int lsxm___xpg_strerror_r(int e, char* b, size_t n) { const char* t = errText(e); size_t i = 0; for (; t[i] && i + 1 < n; i++) b[i] = t[i]; if (n) b[i] = 0; return 0; }

// ------------------------------------------------------------------ formatting
static const uint64_t kPow10[20] = {1ull, 10ull, 100ull, 1000ull, 10000ull, 100000ull, 1000000ull, 10000000ull, 100000000ull, 1000000000ull,
  10000000000ull, 100000000000ull, 1000000000000ull, 10000000000000ull, 100000000000000ull, 1000000000000000ull, 10000000000000000ull,
  100000000000000000ull, 1000000000000000000ull, 10000000000000000000ull};
// decimal digits of v, most significant first; returns how many
int lsxm_udigits(uint64_t v, char* out) {
  char t[20];
  int n = 0;
  if (!lsx_is_symbolic(v)) {
    do { t[n++] = (char)('0' + v % 10); v /= 10; } while (v);
  } else {
    n = 1;
    while (n < 20 && v >= kPow10[n]) n++;
    for (int i = 0; i < n; i++) { t[i] = (char)('0' + v % 10); v /= 10; }
  }
  for (int i = 0; i < n; i++) out[i] = t[n - 1 - i];
  return n;
}
// std::to_string and std::to_chars look pairs of digits up in a table
#define TO_CHARS(sym, T) void lsxo__ZNSt8__detail18__to_chars_10_impl##sym(char* first, unsigned len, T v) { \
  char d[20]; \
  if (lsxm_udigits(v, d) != (int)len) lsx_fail("unsupported", "digits of another count"); \
  for (unsigned i = 0; i < len; i++) first[i] = d[i]; \
}
TO_CHARS(IjEEvPcjT_, unsigned)
TO_CHARS(ImEEvPcjT_, unsigned long)
TO_CHARS(IyEEvPcjT_, unsigned long long)
struct Out { char* b; size_t cap, n; };
static void put(Out* o, char c) { if (o->n + 1 < o->cap) o->b[o->n] = c; o->n++; }
static void putNum(Out* o, uint64_t v, bool neg, int base, bool upper, int width, int prec, bool zero, bool left, bool plus) {
  char d[72];
  int n = 0;
  if (base == 10) n = lsxm_udigits(v, d);
  else {
    int sh = base == 16 ? 4 : 3;
    int top = 0;
    for (int i = 0; i * sh < 64; i++) if ((v >> (i * sh)) != 0) top = i;
    for (int i = top; i >= 0; i--) {
      unsigned x = (unsigned)((v >> (i * sh)) & (base - 1));
      d[n++] = (char)lsx_ite(x < 10, '0' + x, (upper ? 'A' : 'a') + x - 10);
    }
  }
  if (prec == 0 && n == 1 && d[0] == '0') n = 0;
  int digits = n > prec ? n : prec;
  int total = digits + ((neg || plus) ? 1 : 0);
  if (zero && !left && prec < 0) { while (total < width) { digits++; total++; } }
  if (!left) for (int i = total; i < width; i++) put(o, ' ');
  if (neg) put(o, '-'); else if (plus) put(o, '+');
  for (int i = n; i < digits; i++) put(o, '0');
  for (int i = 0; i < n; i++) put(o, d[i]);
  if (left) for (int i = total; i < width; i++) put(o, ' ');
}
int lsxm_vsnprintf(char* buf, size_t cap, const char* f, va_list ap) {
  Out o = {buf, cap, 0};
  for (; *f; f++) {
    if (*f != '%') { put(&o, *f); continue; }
    f++;
    bool zero = false, left = false, plus = false;
    for (;; f++) {
      if (*f == '0') zero = true;
      else if (*f == '-') left = true;
      else if (*f == '+') plus = true;
      else if (*f != ' ' && *f != '#') break;
    }
    int width = 0, prec = -1;
    if (*f == '*') { width = va_arg(ap, int); f++; }
    else while (*f >= '0' && *f <= '9') width = width * 10 + (*f++ - '0');
    if (*f == '.') {
      f++;
      prec = 0;
      if (*f == '*') { prec = va_arg(ap, int); f++; }
      else while (*f >= '0' && *f <= '9') prec = prec * 10 + (*f++ - '0');
    }
    int lg = 0;
    for (;; f++) {
      if (*f == 'l') lg++;
      else if (*f == 'z' || *f == 'j' || *f == 't') lg = 2;
      else if (*f == 'h') lg--;
      else break;
    }
    switch (*f) {
      case 'd': case 'i': {
        int64_t v = lg > 0 ? va_arg(ap, long long) : va_arg(ap, int);
        if (lg == -1) v = (short)v;
        if (lg == -2) v = (signed char)v;
        bool neg = v < 0;
        putNum(&o, neg ? 0 - (uint64_t)v : (uint64_t)v, neg, 10, false, width, prec, zero, left, plus);
        break;
      }
      case 'u': case 'x': case 'X': case 'o': {
        uint64_t v = lg > 0 ? va_arg(ap, unsigned long long) : va_arg(ap, unsigned);
        if (lg == -1) v = (unsigned short)v;
        if (lg == -2) v = (unsigned char)v;
        putNum(&o, v, false, *f == 'u' ? 10 : *f == 'o' ? 8 : 16, *f == 'X', width, prec, zero, left, false);
        break;
      }
      case 'p': put(&o, '0'); put(&o, 'x'); putNum(&o, (uint64_t)va_arg(ap, void*), false, 16, false, 0, -1, false, false, false); break;
      case 'c': { char c = (char)va_arg(ap, int); for (int i = 1; i < width && !left; i++) put(&o, ' '); put(&o, c); for (int i = 1; i < width && left; i++) put(&o, ' '); break; }
      case 's': {
        const char* s = va_arg(ap, const char*);
        if (!s) s = "(null)";
        size_t n = 0;
        while ((prec < 0 || n < (size_t)prec) && s[n]) n++;
        if (!left) for (int i = (int)n; i < width; i++) put(&o, ' ');
        for (size_t i = 0; i < n; i++) put(&o, s[i]);
        if (left) for (int i = (int)n; i < width; i++) put(&o, ' ');
        break;
      }
      case '%': put(&o, '%'); break;
      default: lsx_fail("unsupported", "format directive");
    }
  }
  if (cap) buf[o.n < cap ? o.n : cap - 1] = 0;
  return (int)o.n;
}
int lsxm_snprintf(char* buf, size_t cap, const char* f, ...) {
  va_list ap;
  va_start(ap, f);
  int r = lsxm_vsnprintf(buf, cap, f, ap);
  va_end(ap);
  return r;
}
int lsxm_sprintf(char* buf, const char* f, ...) {
  va_list ap;
  va_start(ap, f);
  int r = lsxm_vsnprintf(buf, (size_t)1 << 20, f, ap);
  va_end(ap);
  return r;
}
int lsxm_vsprintf(char* buf, const char* f, va_list ap) { return lsxm_vsnprintf(buf, (size_t)1 << 20, f, ap); }
int lsxm_vasprintf(char** r, const char* f, va_list ap) {
  char t[2048];
  int n = lsxm_vsnprintf(t, sizeof t, f, ap);
  if (n >= (int)sizeof t) lsx_fail("unsupported", "formatted output too long");
  *r = (char*)malloc((size_t)n + 1);
  memcpy(*r, t, (size_t)n + 1);
  return n;
}
int lsxm_asprintf(char** r, const char* f, ...) {
  va_list ap;
  va_start(ap, f);
  int n = lsxm_vasprintf(r, f, ap);
  va_end(ap);
  return n;
}
size_t lsxm_fwrite(const void*, size_t, size_t, void*);
int lsxm_vfprintf(void* s, const char* f, va_list ap) {
  static char t[2048];
  int n = lsxm_vsnprintf(t, sizeof t, f, ap);
  if (n >= (int)sizeof t) lsx_fail("unsupported", "formatted output too long");
  lsxm_fwrite(t, 1, (size_t)n, s);
  return n;
}
int lsxm_fprintf(void* s, const char* f, ...) {
  va_list ap;
  va_start(ap, f);
  int r = lsxm_vfprintf(s, f, ap);
  va_end(ap);
  return r;
}
int lsxm_printf(const char* f, ...) {
  va_list ap;
  va_start(ap, f);
  int r = lsxm_vfprintf(nullptr, f, ap);
  va_end(ap);
  return r;
}
int lsxm_puts(const char* p) { lsxm_fwrite(p, 1, lsxm_strlen(p), nullptr); return 1; }
int lsxm_putchar(int c) { char x = (char)c; lsxm_fwrite(&x, 1, 1, nullptr); return c; }

// ------------------------------------------------------------------ pthread / guards
int lsxm_pthread_mutex_lock(void* m) { return lsx_mutex_lock(m); }
int lsxm_pthread_mutex_unlock(void* m) { return lsx_mutex_unlock(m); }
int lsxm_pthread_mutex_trylock(void* m) { return lsx_mutex_trylock(m); }
int lsxm_pthread_mutex_init(void*, const void*) { return 0; }
int lsxm_pthread_mutex_destroy(void*) { return 0; }
unsigned long lsxm_pthread_self(void) { return g_fs.threadId && lsx_self() == 0 ? (unsigned long)g_fs.threadId : 1000 + (unsigned long)lsx_self(); }
int lsxm_pthread_cond_destroy(void*) { return 0; }
int lsxm_pthread_cond_init(void*, const void*) { return 0; }
int lsxm_pthread_once(int* c, void (*f)(void)) { if (*c == 0) { *c = 1; f(); } return 0; }
int lsxm_pthread_equal(unsigned long a, unsigned long b) { return a == b; }
int lsxm_pthread_cond_wait(void* c, void* m) { lsx_cond_wait(c, m); return 0; }
int lsxm_pthread_cond_signal(void* c) { lsx_cond_signal(c); return 0; }
int lsxm_pthread_cond_broadcast(void* c) { lsx_cond_broadcast(c); return 0; }
int lsxm_sched_yield(void) { lsx_yield(nullptr); return 0; }
// function-local statics: the guard object's second byte marks initialisation in progress
int lsxm___cxa_guard_acquire(char* g) {
  lsx_mutex_lock(g);
  if (g[0]) { lsx_mutex_unlock(g); return 0; }
  return 1;
}
void lsxm___cxa_guard_release(char* g) {
  __atomic_store_n(g, 1, __ATOMIC_RELEASE);
  lsx_mutex_unlock(g);
}
void lsxm___cxa_guard_abort(char* g) { lsx_mutex_unlock(g); }
// what runs at a normal exit; a harness asks for it with lsxmExit
struct AtExit { void (*f)(void*); void* p; int plain; };
static AtExit g_atExit[64];
static int g_atExits;
static int exitEntry(void (*f)(void*), void* p, int plain) {
  lsx_atomic_begin();
  if (g_atExits == 64) lsx_fail("unsupported", "too many exit handlers");
  g_atExit[g_atExits].f = f;
  g_atExit[g_atExits].p = p;
  g_atExit[g_atExits].plain = plain;
  g_atExits++;
  lsx_atomic_end();
  return 0;
}
int lsxm___cxa_atexit(void (*f)(void*), void* p, void*) { return exitEntry(f, p, 0); }
// what runs at the end of a thread
struct ThreadExit { void (*f)(void*); void* p; int thread; };
static ThreadExit g_threadExit[32];
static int g_threadExits;
int lsxm___cxa_thread_atexit(void (*f)(void*), void* p, void*) {
  lsx_atomic_begin();
  if (g_threadExits == 32) lsx_fail("unsupported", "too many thread exit handlers");
  ThreadExit* t = &g_threadExit[g_threadExits++];
  t->f = f;
  t->p = p;
  t->thread = lsx_self();
  lsx_atomic_end();
  return 0;
}
void lsxmThreadExit(void) {
  const int me = lsx_self();
  for (;;) {
    lsx_atomic_begin();
    int i = g_threadExits - 1;
    while (i >= 0 && g_threadExit[i].thread != me) i--;
    ThreadExit t = {nullptr, nullptr, 0};
    if (i >= 0) { t = g_threadExit[i]; g_threadExit[i].thread = -1; }
    lsx_atomic_end();
    if (i < 0) return;
    t.f(t.p);
  }
}
int lsxm_atexit(void (*f)(void)) { return exitEntry((void (*)(void*))f, nullptr, 1); }
void lsxmExit(void) {
  while (g_atExits > 0) {
    AtExit a = g_atExit[--g_atExits];
    if (a.plain) ((void (*)(void))a.f)(); else a.f(a.p);
  }
}
bool lsxm___libc_single_threaded = false;
void* lsxm_stderr = nullptr;
void* lsxm_stdout = nullptr;
void lsxm___clang_call_terminate(void*) { lsx_fail("abort", "exception reached a noexcept boundary"); }
}

// ------------------------------------------------------------------ libstdc++ parts
namespace std {
void condition_variable_wait_impl(void* cv, void* m) { lsx_cond_wait(cv, m); }
condition_variable::condition_variable() noexcept {}
condition_variable::~condition_variable() noexcept {}
void condition_variable::wait(unique_lock<mutex>& l) { lsx_cond_wait(this, l.mutex()->native_handle()); }
void condition_variable::notify_one() noexcept { lsx_cond_signal(this); }
void condition_variable::notify_all() noexcept { lsx_cond_broadcast(this); }

thread::_State::~_State() {}
void thread::_M_start_thread(_State_ptr s, void (*)()) {
  struct L { static void run(void* p) { _State_ptr q((_State*)p); q->_M_run(); lsxmThreadExit(); } };
  int id = lsx_thread_create(&L::run, s.release());
  _M_id = thread::id((__gthread_t)(1000 + (unsigned long)id));
}
void thread::detach() {
  if (_M_id == id()) lsx_fail("abort", "detach of a thread that is not joinable");
  _M_id = id();
}
void thread::join() {
  __gthread_t h = native_handle();
  if (_M_id == id()) lsx_fail("abort", "join of a thread that is not joinable");
  lsx_thread_join((int)(h - 1000));
  _M_id = id();
}
unsigned int thread::hardware_concurrency() noexcept { return 4; }

void __throw_length_error(const char* s) { lsx_fail("throw", s); __builtin_unreachable(); }
void __throw_logic_error(const char* s) { lsx_fail("throw", s); __builtin_unreachable(); }
void __throw_out_of_range(const char* s) { lsx_fail("throw", s); __builtin_unreachable(); }
void __throw_out_of_range_fmt(const char* s, ...) { lsx_fail("throw", s); __builtin_unreachable(); }
void __throw_invalid_argument(const char* s) { lsx_fail("throw", s); __builtin_unreachable(); }
void __throw_bad_alloc() { lsx_fail("throw", "bad_alloc"); __builtin_unreachable(); }
void __throw_bad_array_new_length() { lsx_fail("throw", "bad_array_new_length"); __builtin_unreachable(); }
void __throw_bad_function_call() { lsx_fail("throw", "bad_function_call"); __builtin_unreachable(); }
void __throw_system_error(int) { lsx_fail("throw", "system_error"); __builtin_unreachable(); }
void __throw_bad_cast() { lsx_fail("throw", "bad_cast"); __builtin_unreachable(); }

// red-black trees (std::map, std::set)
typedef _Rb_tree_node_base RB;
static RB* rbNext(RB* x) {
  if (x->_M_right) {
    x = x->_M_right;
    while (x->_M_left) x = x->_M_left;
  } else {
    RB* y = x->_M_parent;
    while (x == y->_M_right) { x = y; y = y->_M_parent; }
    if (x->_M_right != y) x = y;
  }
  return x;
}
static RB* rbPrev(RB* x) {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
  if (x->_M_left) {
    RB* y = x->_M_left;
    while (y->_M_right) y = y->_M_right;
    return y;
  }
  RB* y = x->_M_parent;
  while (x == y->_M_left) { x = y; y = y->_M_parent; }
  return y;
}
RB* _Rb_tree_increment(RB* x) throw() { return rbNext(x); }
const RB* _Rb_tree_increment(const RB* x) throw() { return rbNext(const_cast<RB*>(x)); }
RB* _Rb_tree_decrement(RB* x) throw() { return rbPrev(x); }
const RB* _Rb_tree_decrement(const RB* x) throw() { return rbPrev(const_cast<RB*>(x)); }
// The tree is kept as a plain (unbalanced) search tree: balance is invisible through the container's interface.
void _Rb_tree_insert_and_rebalance(const bool left, RB* x, RB* p, RB& h) throw() {
  x->_M_parent = p;
  x->_M_left = nullptr;
  x->_M_right = nullptr;
  x->_M_color = _S_black;
  h._M_color = _S_red;
  if (left) {
    p->_M_left = x;
    if (p == &h) { h._M_parent = x; h._M_right = x; }
    else if (p == h._M_left) h._M_left = x;
  } else {
    p->_M_right = x;
    if (p == h._M_right) h._M_right = x;
  }
}
RB* _Rb_tree_rebalance_for_erase(RB* const z, RB& h) throw() {
  RB *rep, *par = z->_M_parent;
  if (!z->_M_left) rep = z->_M_right;
  else if (!z->_M_right) rep = z->_M_left;
  else {
    RB* y = z->_M_right;
    while (y->_M_left) y = y->_M_left;
    if (y->_M_parent != z) {
      y->_M_parent->_M_left = y->_M_right;
      if (y->_M_right) y->_M_right->_M_parent = y->_M_parent;
      y->_M_right = z->_M_right;
      z->_M_right->_M_parent = y;
    }
    y->_M_left = z->_M_left;
    z->_M_left->_M_parent = y;
    rep = y;
  }
  if (rep) rep->_M_parent = par;
  if (h._M_parent == z) h._M_parent = rep;
  else if (par->_M_left == z) par->_M_left = rep;
  else par->_M_right = rep;
  if (h._M_left == z) {
    if (!rep) h._M_left = par;
    else { RB* m = rep; while (m->_M_left) m = m->_M_left; h._M_left = m; }
  }
  if (h._M_right == z) {
    if (!rep) h._M_right = par;
    else { RB* m = rep; while (m->_M_right) m = m->_M_right; h._M_right = m; }
  }
  return z;
}
namespace __detail {
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const {
  static const size_t primes[] = {2, 3, 5, 7, 11, 13, 17, 23, 29, 37, 47, 59, 73, 97, 127, 151, 197, 251, 313, 397, 499, 631, 797, 1009, 1259, 1597, 2011, 4027, 8053, 16127, 32257, 64513};
  for (size_t p : primes) if (p >= n) { const_cast<_Prime_rehash_policy*>(this)->_M_next_resize = p; return p; }
  return n | 1;
}
std::pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const {
  if (ne + ni > _M_next_resize) {
    size_t want = ne + ni;
    if (want < 11 && !_M_next_resize) want = 11;
    if (want >= nb) {
      size_t t = want + 1 > nb * 2 ? want + 1 : nb * 2;
      return {true, _M_next_bkt(t)};
    }
    const_cast<_Prime_rehash_policy*>(this)->_M_next_resize = nb;
  }
  return {false, 0};
}
void _List_node_base::_M_hook(_List_node_base* const p) noexcept {
  _M_next = p;
  _M_prev = p->_M_prev;
  p->_M_prev->_M_next = this;
  p->_M_prev = this;
}
void _List_node_base::_M_unhook() noexcept {
  _M_next->_M_prev = _M_prev;
  _M_prev->_M_next = _M_next;
}
void _List_node_base::_M_transfer(_List_node_base* const f, _List_node_base* const l) noexcept {
  if (this == l) return;
  l->_M_prev->_M_next = this;
  f->_M_prev->_M_next = l;
  _M_prev->_M_next = f;
  _List_node_base* t = _M_prev;
  _M_prev = l->_M_prev;
  l->_M_prev = f->_M_prev;
  f->_M_prev = t;
}
void _List_node_base::_M_reverse() noexcept {
  _List_node_base* t = this;
  do { std::swap(t->_M_next, t->_M_prev); t = t->_M_prev; } while (t != this);
}
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept {
  if (x._M_next != &x) {
    if (y._M_next != &y) {
      std::swap(x._M_next, y._M_next);
      std::swap(x._M_prev, y._M_prev);
      x._M_next->_M_prev = x._M_prev->_M_next = &x;
      y._M_next->_M_prev = y._M_prev->_M_next = &y;
    } else {
      y._M_next = x._M_next; y._M_prev = x._M_prev;
      y._M_next->_M_prev = y._M_prev->_M_next = &y;
      x._M_next = x._M_prev = &x;
    }
  } else if (y._M_next != &y) {
    x._M_next = y._M_next; x._M_prev = y._M_prev;
    x._M_next->_M_prev = x._M_prev->_M_next = &x;
    y._M_next = y._M_prev = &y;
  }
}
}  // namespace __detail
// any function of the bytes is a hash; this one is small, so that the solver need not invert multiplications and
// that different strings often meet in one bucket
size_t _Hash_bytes(const void* p, size_t n, size_t) {
  unsigned char h = (unsigned char)n;
  for (size_t i = 0; i < n; i++) h = (unsigned char)((h << 1 | h >> 7) ^ ((const unsigned char*)p)[i]);
  return (size_t)((h ^ h >> 3) & 1);
}
}  // namespace std

// ------------------------------------------------------------------ a minimal output string stream
namespace {
struct FakeStream { size_t n; char b[200]; };
void fsPut(void* s, const char* p, size_t n) {
  FakeStream* f = (FakeStream*)s;
  for (size_t i = 0; i < n && f->n < sizeof f->b; i++) f->b[f->n++] = p[i];
}
void fsNum(void* s, uint64_t v) {
  char d[20];
  int n = lsxm_udigits(v, d);
  fsPut(s, d, (size_t)n);
}
}
extern "C" {
void lsxm__ZNSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEEC1Ev(void* s) { ((FakeStream*)s)->n = 0; }
void lsxm__ZNSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEED1Ev(void*) {}
std::string lsxm__ZNKSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEE3strEv(void* s) { return std::string(((FakeStream*)s)->b, ((FakeStream*)s)->n); }
void lsxm__ZNSt7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEEC1Ev(void* s) { ((FakeStream*)s)->n = 0; }
void lsxm__ZNSt7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEED1Ev(void*) {}
std::string lsxm__ZNKSt7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEE3strEv(void* s) { return std::string(((FakeStream*)s)->b, ((FakeStream*)s)->n); }
void* lsxm__ZNSolsEm(void* s, unsigned long v) { fsNum(s, v); return s; }
void* lsxm__ZNSolsEy(void* s, unsigned long long v) { fsNum(s, v); return s; }
void* lsxm__ZNSolsEj(void* s, unsigned v) { fsNum(s, v); return s; }
void* lsxm__ZNSolsEi(void* s, int v) { if (v < 0) { fsPut(s, "-", 1); fsNum(s, (uint64_t)-(int64_t)v); } else fsNum(s, (uint64_t)v); return s; }
void* lsxm__ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc(void* s, const char* p) { fsPut(s, p, lsxm_strlen(p)); return s; }
void* lsxm__ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_c(void* s, char c) { fsPut(s, &c, 1); return s; }
}
