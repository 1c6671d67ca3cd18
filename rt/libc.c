// libc functions the code under test needs, in a form the symbolic executor can run (bitcode only).
#include <stdarg.h>
typedef unsigned long size_t; typedef void FILE;
void sym_unsupported(const char*);
size_t strlen(const char*);
#define PUT(ch) do { if (n + 1 < cap) out[n] = (ch); n++; } while (0)
// ---------------------------------------------------------------- libc
int strcmp(const char* a, const char* b) { while (*a && *a == *b) { a++; b++; } return (unsigned char)*a - (unsigned char)*b; }
int strncmp(const char* a, const char* b, size_t n) { for (; n; n--, a++, b++) { if (*a != *b) return (unsigned char)*a - (unsigned char)*b; if (!*a) return 0; } return 0; }
char* strcpy(char* d, const char* s) { char* r = d; while ((*d++ = *s++)) {} return r; }
char* strncpy(char* d, const char* s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char* strchr(const char* s, int c) { for (;; s++) { if (*s == (char)c) return (char*)s; if (!*s) return 0; } }
char* strrchr(const char* s, int c) { const char* r = 0; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char*)r; } }
char* strstr(const char* h, const char* n) { size_t l = strlen(n); for (;; h++) { if (!strncmp(h, n, l)) return (char*)h; if (!*h) return 0; } }
int strcasecmp(const char* a, const char* b) { for (;; a++, b++) { int x = *a >= 'A' && *a <= 'Z' ? *a + 32 : *a, y = *b >= 'A' && *b <= 'Z' ? *b + 32 : *b; if (x != y || !x) return x - y; } }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isupper(int c) { return c >= 'A' && c <= 'Z'; }
int islower(int c) { return c >= 'a' && c <= 'z'; }
int isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int isalnum(int c) { return isalpha(c) || isdigit(c); }
int isxdigit(int c) { return isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
int isprint(int c) { return c >= 32 && c < 127; }
int tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
static int g_errno; static int* errno_p(void) { return &g_errno; }
int* __errno_location(void) { return errno_p(); }
static unsigned long long parse_u(const char* s, char** end, int base, _Bool* negp, _Bool* ovf) {
  const char* p = s; while (isspace((unsigned char)*p)) p++;
  _Bool neg = 0; if (*p == '+' || *p == '-') { neg = *p == '-'; p++; }
  if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && isxdigit((unsigned char)p[2])) { p += 2; base = 16; } else if (base == 0) base = *p == '0' ? 8 : 10;
  unsigned long long v = 0; _Bool any = 0; *ovf = 0;
  for (;; p++) {
    int d; unsigned char c = *p; if (c >= '0' && c <= '9') d = c - '0'; else if (c >= 'a' && c <= 'z') d = c - 'a' + 10; else if (c >= 'A' && c <= 'Z') d = c - 'A' + 10; else break;
    if (d >= base) break;
    any = 1; unsigned long long nv;
    if (__builtin_mul_overflow(v, (unsigned long long)base, &nv) || __builtin_add_overflow(nv, (unsigned long long)d, &nv)) *ovf = 1; else v = nv;
  }
  if (end) *end = (char*)(any ? p : s);
  *negp = neg; return v;
}
long long strtoll(const char* s, char** e, int b) {
  _Bool n, o; unsigned long long v = parse_u(s, e, b, &n, &o); unsigned long long lim = n ? 1ull << 63 : (1ull << 63) - 1;
  if (o || v > lim) { *errno_p() = 34; return n ? (long long)(1ull << 63) : (long long)((1ull << 63) - 1); }
  return n ? (long long)(0 - v) : (long long)v;
}
long strtol(const char* s, char** e, int b) { return strtoll(s, e, b); }
unsigned long long strtoull(const char* s, char** e, int b) { _Bool n, o; unsigned long long v = parse_u(s, e, b, &n, &o); if (o) { *errno_p() = 34; return ~0ull; } return n ? 0 - v : v; }
unsigned long strtoul(const char* s, char** e, int b) { return strtoull(s, e, b); }
long __isoc23_strtol(const char* s, char** e, int b) { return strtoll(s, e, b); }
long long __isoc23_strtoll(const char* s, char** e, int b) { return strtoll(s, e, b); }
unsigned long __isoc23_strtoul(const char* s, char** e, int b) { return strtoull(s, e, b); }
unsigned long long __isoc23_strtoull(const char* s, char** e, int b) { return strtoull(s, e, b); }
int atoi(const char* s) { return (int)strtoll(s, 0, 10); }
long atol(const char* s) { return strtoll(s, 0, 10); }
long long atoll(const char* s) { return strtoll(s, 0, 10); }
// minimal printf family: %d %i %u %x %X %o %c %s %p %% with width / zero flag / l, ll, z modifiers
int vsnprintf(char* out, size_t cap, const char* f, va_list ap) {
  size_t n = 0; 
  for (; *f; f++) {
    if (*f != '%') { PUT(*f); continue; }
    f++; _Bool zero = 0, left = 0, plus = 0; int width = 0, prec = -1, lng = 0;
    for (;; f++) { if (*f == '0') zero = 1; else if (*f == '-') left = 1; else if (*f == '+') plus = 1; else if (*f == '#' || *f == ' ') {} else break; }
    if (*f == '*') { width = va_arg(ap, int); f++; } else while (*f >= '0' && *f <= '9') width = width * 10 + (*f++ - '0');
    if (*f == '.') { f++; prec = 0; if (*f == '*') { prec = va_arg(ap, int); f++; } else while (*f >= '0' && *f <= '9') prec = prec * 10 + (*f++ - '0'); }
    while (*f == 'l' || *f == 'z' || *f == 'j' || *f == 't' || *f == 'h') { if (*f == 'h') lng--; else lng++; f++; }
    char buf[72]; int len = 0; const char* str = buf;
    switch (*f) {
      case '%': PUT('%'); continue;
      case 'c': buf[0] = (char)va_arg(ap, int); len = 1; break;
      case 's': str = va_arg(ap, const char*); if (!str) str = "(null)"; while (str[len] && (prec < 0 || len < prec)) len++; break;
      case 'd': case 'i': case 'u': case 'x': case 'X': case 'o': case 'p': {
        unsigned long long v; _Bool neg = 0;
        if (*f == 'd' || *f == 'i') { long long sv = lng > 0 ? va_arg(ap, long) : va_arg(ap, int); if (lng == -2) sv = (signed char)sv; else if (lng == -1) sv = (short)sv; neg = sv < 0; v = neg ? 0 - (unsigned long long)sv : sv; }
        else { v = (lng > 0 || *f == 'p') ? va_arg(ap, unsigned long) : va_arg(ap, unsigned); if (lng == -2) v = (unsigned char)v; else if (lng == -1) v = (unsigned short)v; }
        int base = *f == 'x' || *f == 'X' || *f == 'p' ? 16 : *f == 'o' ? 8 : 10; const char* dg = *f == 'X' ? "0123456789ABCDEF" : "0123456789abcdef";
        char rev[72]; int k = 0; do { rev[k++] = dg[v % base]; v /= base; } while (v);
        if (neg) buf[len++] = '-'; else if (plus) buf[len++] = '+';
        if (zero && !left) while (k + len < width && k < 64) rev[k++] = '0';
        while (prec > 0 && k < prec && k < 64) rev[k++] = '0';
        while (k) buf[len++] = rev[--k];
        break;
      }
      default: sym_unsupported("printf conversion");
    }
    for (int i = len; !left && i < width; i++) PUT(' ');
    for (int i = 0; i < len; i++) PUT(str[i]);
    for (int i = len; left && i < width; i++) PUT(' ');
  }
  if (cap) out[n < cap ? n : cap - 1] = 0;
  return (int)n;
}
int snprintf(char* o, size_t c, const char* f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(o, c, f, ap); va_end(ap); return r; }
int sprintf(char* o, const char* f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(o, (size_t)1 << 20, f, ap); va_end(ap); return r; }
int printf(const char*, ...) { return 0; }
int fprintf(FILE*, const char*, ...) { return 0; }
