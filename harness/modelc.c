// C library functions executed symbolically together with the code.
#include <stddef.h>
#include <limits.h>
#include <errno.h>
extern int theErrno;
void *malloc(size_t); void *memcpy(void *, const void *, size_t);
int isspace(int); int isdigit(int); int isalpha(int); int isalnum(int); int isprint(int); int tolower(int); size_t strlen(const char *); int strncmp(const char *, const char *, size_t); char *strcpy(char *, const char *); long long strtoll(const char *, char **, int); unsigned long long strtoull(const char *, char **, int);
size_t strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
size_t strnlen(const char *s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
int strcmp(const char *a, const char *b) { while (*a && *a == *b) a++, b++; return (int)(unsigned char)*a - (int)(unsigned char)*b; }
int strncmp(const char *a, const char *b, size_t n) { while (n && *a && *a == *b) a++, b++, n--; return n ? (int)(unsigned char)*a - (int)(unsigned char)*b : 0; }
char *strcpy(char *d, const char *s) { char *r = d; while ((*d++ = *s++)) ; return r; }
char *strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char *strcat(char *d, const char *s) { strcpy(d + strlen(d), s); return d; }
// A symbolic byte looked up in constant text: one case for "found", whatever the position.
int sym_is_symbolic(unsigned long);
static size_t lookup(const char *s, size_t n, char c) { size_t r = n; for (size_t i = n; i-- > 0;) r = s[i] == c ? i : r; return r; }
static _Bool constant(const char *s, size_t n) { for (size_t i = 0; i < n; i++) if (sym_is_symbolic((unsigned char)s[i])) return 0; return 1; }
static size_t constantText(const char *s) { size_t n = 0; for (;; n++) { if (sym_is_symbolic((unsigned char)s[n])) return 0; if (!s[n]) return n; } }
static _Bool among(const char *a, char c) {
	size_t n; if (sym_is_symbolic((unsigned char)c) && (n = constantText(a)) > 1) return lookup(a, n, c) < n;
	while (*a && *a != c) a++;
	return *a != 0;
}
char *strchr(const char *s, int c) {
	if (sym_is_symbolic((unsigned char)c)) { size_t n = constantText(s); if (n > 1) { size_t r = lookup(s, n + 1, (char)c); return r > n ? 0 : (char *)s + r; } }
	 for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return 0; } }
char *strrchr(const char *s, int c) { const char *r = 0; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char *)r; } }
char *strstr(const char *h, const char *n) { size_t l = strlen(n); for (;; h++) { if (!strncmp(h, n, l)) return (char *)h; if (!*h) return 0; } }
char *strpbrk(const char *s, const char *a) { for (; *s; s++) if (among(a, *s)) return (char *)s; return 0; }
size_t strspn(const char *s, const char *a) { size_t n = 0; while (s[n] && among(a, s[n])) n++; return n; }
size_t strcspn(const char *s, const char *a) { size_t n = 0; while (s[n] && !among(a, s[n])) n++; return n; }
char *strdup(const char *s) { size_t n = strlen(s) + 1; char *r = (char *)malloc(n); memcpy(r, s, n); return r; }
void *memchr(const void *p, int c, size_t n) {
	const char *s = (const char *)p;
	if (n > 1 && sym_is_symbolic((unsigned char)c) && constant(s, n)) { size_t r = lookup(s, n, (char)c); return r == n ? 0 : (void *)(s + r); }
	for (size_t i = 0; i < n; i++) if (s[i] == (char)c) return (void *)(s + i); return 0; }
void *memrchr(const void *p, int c, size_t n) { const char *s = (const char *)p; for (size_t i = n; i-- > 0;) if (s[i] == (char)c) return (void *)(s + i); return 0; }
int isspace(int c) { return (unsigned)(c - 9) < 5 || c == ' '; }
int isdigit(int c) { return (unsigned)(c - '0') < 10; }
int isalpha(int c) { return (unsigned)((c | 32) - 'a') < 26; }
int isalnum(int c) { return isdigit(c) || isalpha(c); }
int isupper(int c) { return (unsigned)(c - 'A') < 26; }
int islower(int c) { return (unsigned)(c - 'a') < 26; }
int isxdigit(int c) { return isdigit(c) || (unsigned)((c | 32) - 'a') < 6; }
int isblank(int c) { return c == ' ' || c == '\t'; }
int iscntrl(int c) { return (unsigned)c < 32 || c == 127; }
int isprint(int c) { return (unsigned)(c - 32) < 95; }
int ispunct(int c) { return isprint(c) && c != ' ' && !isalnum(c); }
int toupper(int c) { return c - ((unsigned)(c - 'a') < 26 ? 32 : 0); }
int tolower(int c) { return c + ((unsigned)(c - 'A') < 26 ? 32 : 0); }
int strcasecmp(const char *a, const char *b) { while (*a && tolower(*a) == tolower(*b)) a++, b++; return tolower((unsigned char)*a) - tolower((unsigned char)*b); }
int strncasecmp(const char *a, const char *b, size_t n) { while (n && *a && tolower(*a) == tolower(*b)) a++, b++, n--; return n ? tolower((unsigned char)*a) - tolower((unsigned char)*b) : 0; }
// Number parsing as in the C library (base 10 or 16 prefix rules for the bases used).
static unsigned char digitOf(char c) { unsigned char u = (unsigned char)c; if ((unsigned char)(u - '0') < 10) return u - '0'; if ((unsigned char)((u | 32) - 'a') < 26) return (u | 32) - 'a' + 10; return 99; }
static unsigned long long parseNumber(const char *s, char **end, int base, _Bool *neg, _Bool *ovf) {
	const char *p = s; *neg = *ovf = 0;
	while (isspace((unsigned char)*p)) p++;
	if (*p == '-') { *neg = 1; p++; } else if (*p == '+') p++;
	if ((base == 0 || base == 16) && p[0] == '0' && (p[1] | 32) == 'x' && digitOf(p[2]) < 16) { p += 2; base = 16; }
	else if (base == 0) base = *p == '0' ? 8 : 10;
	unsigned long long v = 0; _Bool any = 0;
	for (;; p++) {
		unsigned d = digitOf(*p);
		if (d >= (unsigned)base) break;
		any = 1;
		if (v > ULLONG_MAX / (unsigned)base || (v == ULLONG_MAX / (unsigned)base && d > ULLONG_MAX % (unsigned)base)) *ovf = 1;
		v = v * (unsigned)base + d;
	}
	if (end) *end = (char *)(any ? p : s);
	return any ? v : 0;
}
long long strtoll(const char *s, char **e, int base) {
	_Bool neg, ovf; unsigned long long v = parseNumber(s, e, base, &neg, &ovf);
	if (neg) { if (ovf || v > 1ULL + LLONG_MAX) { theErrno = ERANGE; return LLONG_MIN; } return (long long)(0ULL - v); }
	if (ovf || v > (unsigned long long)LLONG_MAX) { theErrno = ERANGE; return LLONG_MAX; }
	return (long long)v;
}
unsigned long long strtoull(const char *s, char **e, int base) { _Bool neg, ovf; unsigned long long v = parseNumber(s, e, base, &neg, &ovf); if (ovf) { theErrno = ERANGE; return ULLONG_MAX; } return neg ? 0ULL - v : v; }
long strtol(const char *s, char **e, int base) { return strtoll(s, e, base); }
unsigned long strtoul(const char *s, char **e, int base) { return strtoull(s, e, base); }
long long __isoc23_strtoll(const char *s, char **e, int base) { return strtoll(s, e, base); }
unsigned long long __isoc23_strtoull(const char *s, char **e, int base) { return strtoull(s, e, base); }
long __isoc23_strtol(const char *s, char **e, int base) { return strtoll(s, e, base); }
unsigned long __isoc23_strtoul(const char *s, char **e, int base) { return strtoull(s, e, base); }
int atoi(const char *s) { return (int)strtoll(s, 0, 10); }
long atol(const char *s) { return strtoll(s, 0, 10); }
long long atoll(const char *s) { return strtoll(s, 0, 10); }
char *strerror(int) { static char text[] = "error"; return text; }
