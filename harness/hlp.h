// Shared harness helpers.
#pragma once
#include <string>
#include <cstring>
#include "k8v.h"
using std::string;
static inline string symText(unsigned n, const char *name, bool noNul = true) {
	char b[256]; sym_bytes(b, n, name);
	if (noNul) for (unsigned i = 0; i < n; i++) sym_assume(b[i] != 0);
	return string(b, n);
}
static inline bool sameQ(const string &a, const string &b) { return a.length() == b.length() && sym_equal(a.data(), b.data(), a.length()); }
static inline void same(const string &a, const string &b, const char *what) {
	sym_assert(a.length() == b.length(), what);
	sym_assert(sym_equal(a.data(), b.data(), a.length()), what);
}
struct Comp { unsigned at, len; };
// components of a path, without "." and empty ones
static inline unsigned split(const string &p, Comp *out) {
	unsigned k = 0, n = p.length(), i = 0;
	while (i < n) {
		if (p[i] == '/') { i++; continue; }
		unsigned s = i; while (i < n && p[i] != '/') i++;
		if (i - s == 1 && p[s] == '.') continue;
		out[k].at = s; out[k++].len = i - s;
	}
	return k;
}
// reference normalization
static inline string canonical(const string &p) {
	bool abs = p.length() > 0 && p[0] == '/';
	Comp c[64], st[64]; unsigned k = split(p, c), d = 0;
	for (unsigned i = 0; i < k; i++) {
		bool up = c[i].len == 2 && p[c[i].at] == '.' && p[c[i].at + 1] == '.';
		if (!up) { st[d++] = c[i]; continue; }
		bool topUp = d > 0 && st[d - 1].len == 2 && p[st[d - 1].at] == '.' && p[st[d - 1].at + 1] == '.';
		if (d > 0 && !topUp) d--;
		else if (!abs) st[d++] = c[i];
	}
	string want = abs ? "/" : "";
	for (unsigned i = 0; i < d; i++) { if (i) want += '/'; want += p.substr(st[i].at, st[i].len); }
	return want;
}
static inline bool wsChar(char c) { return (c >= 9 && c <= 13) || c == ' '; }
static inline bool eqs(const string &a, const char *b) { unsigned n = strlen(b); if (a.length() != n) return false; for (unsigned i = 0; i < n; i++) if (a[i] != b[i]) return false; return true; }
#ifdef HLP_ENV
// the process environment as the harness sets it
static const char *envName[8]; static char *envValue[8]; static unsigned envCount;
extern "C" char *h_getenv(const char *name) {
	for (unsigned i = 0; i < envCount; i++) { const char *a = envName[i], *b = name; while (*a && *a == *b) a++, b++; if (*a == *b) return envValue[i]; }
	return nullptr;
}
static char *symValue(unsigned n, const char *name) { char *v = (char *)malloc(n + 1); sym_bytes(v, n, name); v[n] = 0; for (unsigned i = 0; i < n; i++) sym_assume(v[i] != 0); return v; }
#endif
