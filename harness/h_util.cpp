#define HLP_ENV
// Paths, environment substitution, debug selection.
#include <string>
#include <unordered_map>
#include "Utilities.hxx"
#include "world.h"
#include "hlp.h"
using k8psh::Utilities; using k8psh::OptionalString;

// C08: normalized = the canonical spelling of the same lexical location
extern "C" void c08() {
	unsigned n = sym_param("len", 4);
	string p = symText(n, "path");
	bool abs = n > 0 && p[0] == '/'; string want = canonical(p);
	string got = Utilities::normalizePath(p);
	same(got, want, "normalizePath does not give the canonical form of the same location");
	same(Utilities::normalizePath(got), got, "normalizing a normalized path changes it");
	if (want.length() > 1) sym_cover("normalized-nonempty");
	if (abs && want.length() == 1) sym_cover("root");
	if (!abs && want.length() > 3 && want[0] == '.' && want[1] == '.' && want[2] == '/') sym_cover("leading");
	sym_end();
}

// C09: exact or refused
extern "C" void c09() {
	unsigned m = sym_param("parent", 3), n = sym_param("path", 4);
	string parent = symText(m, "parent"), path = symText(n, "path");
	bool both = m > 0 && n > 0 && parent[0] == '/' && path[0] == '/';
	string got; bool ok = true;
	try { got = Utilities::relativizePath(parent, path); } catch (const std::exception &) { ok = false; }
	if (!both) sym_end();
	Comp a[64], b[64], r[64]; unsigned ka = split(parent, a), kb = split(path, b);
	bool prefix = ka <= kb;
	for (unsigned i = 0; prefix && i < ka; i++) prefix = a[i].len == b[i].len && parent.compare(a[i].at, a[i].len, path, b[i].at, b[i].len) == 0;
	if (!prefix) { sym_cover("refused"); sym_assert(!ok, "a path that is not below the parent is accepted"); sym_end(); }
	sym_assert(ok, "a path below the parent is refused");
	if (!ok) sym_end();
	sym_cover("relativized");
	// the remainder names exactly the components that follow, and stays a relative path
	sym_assert(got.empty() || got[0] != '/', "the remainder is not a relative path");
	unsigned kr = split(got, r);
	sym_assert(kr == kb - ka, "the remainder appended to the parent is a different path");
	for (unsigned i = 0; i < kr; i++) { same(got.substr(r[i].at, r[i].len), path.substr(b[ka + i].at, b[ka + i].len), "the remainder appended to the parent is a different path"); sym_cover("component"); }
	sym_end();
}

// C34
extern "C" void c34() {
	unsigned n = sym_param("len", 4);
	string p = symText(n, "path");
	string base = Utilities::getBasename(p), dir = Utilities::getParentDirectory(p);
	// oracle
	unsigned e = n; while (e > 1 && p[e - 1] == '/') e--;
	unsigned s = e; while (s > 0 && p[s - 1] != '/') s--;
	string wantBase = n == 0 ? "." : s == e ? "/" : p.substr(s, e - s);
	same(base, wantBase, "base name is not the last component");
	unsigned q = n; while (q > 0 && p[q - 1] != '/') q--;
	unsigned x = q; while (x > 1 && p[x - 1] == '/') x--;
	string wantDir = p.substr(0, q ? (x ? x : 1) : 0);
	same(dir, wantDir, "parent directory is not everything before the last separator run");
	same(Utilities::getExecutableBasename(p), wantBase, "executable base name differs from the base name");
	if (n && p[n - 1] != '/') {
		sym_cover("joined");
		string j = dir.empty() ? base : dir + "/" + base;
		same(Utilities::normalizePath(j), Utilities::normalizePath(p), "parent directory and base name do not give the same location back");
	}
	if (n && p[n - 1] == '/') sym_cover("trailing");
	sym_end();
}

static bool nameChar(unsigned char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '_' || c == '-' || c == '.' || c == '(' || c == ')' || c == ' '; }

// C03: process environment A=<symbolic> B=<symbolic>, overrides B=<symbolic> (or present without a value), C=<symbolic>
extern "C" void c03() {
	unsigned n = sym_param("len", 5), vl = sym_param("vlen", 2); unsigned form = sym_param("form", 0);
	// form 0: all text symbolic. Others: the text starts or is embedded in a skeleton with symbolic holes.
	string in = form == 0 ? symText(n, "text", false)
		: form == 1 ? "${" + symText(n, "text", false)
		: form == 2 ? "${A" + symText(n, "text", false) + "}"
		: form == 3 ? symText(1, "text", false) + "${A:-" + symText(n, "text", false) + "}" + symText(1, "text", false)
		: form == 4 ? "${" + symText(1, "text", false) + "}" + symText(n, "text", false) + "${" + symText(1, "text", false) + ":-" + symText(1, "text", false) + "}"
		: "${A:" + symText(n, "text", false) + "${B}";
	envName[0] = "A"; envValue[0] = symValue(vl, "A"); envName[1] = "B"; envValue[1] = symValue(vl, "B"); envCount = 2;
	string b = symValue(vl, "overrideB"), c = symValue(vl, "overrideC");
	std::unordered_map<string, OptionalString> over; bool hasB = sym_choose(2, "overrideB-has-value");
	over["B"] = hasB ? OptionalString(b) : OptionalString(); over["C"] = OptionalString(c);
	// reference
	string want; unsigned i = 0; n = in.length(); bool used = false, def = false;
	while (i < n) {
		if (!(in[i] == '$' && i + 1 < n && in[i + 1] == '{')) { want += in[i++]; continue; }
		unsigned j = i + 2; while (j < n && nameChar(in[j])) j++;
		bool ref = false; string deflt; unsigned next = 0; bool isDef = false;
		if (j < n && in[j] == '}') { ref = true; next = j + 1; }
		else if (j + 1 < n && in[j] == ':' && in[j + 1] == '-') { unsigned k = j + 2; while (k < n && in[k] != '}') k++; if (k < n) { ref = isDef = true; deflt = in.substr(j + 2, k - j - 2); next = k + 1; } }
		if (!ref) { want += in[i++]; continue; }
		string name = in.substr(i + 2, j - i - 2);
		if (eqs(name, "B") && hasB) want += b;
		else if (eqs(name, "C")) want += c;
		else if (eqs(name, "A")) want += envValue[0];
		else if (eqs(name, "B")) want += envValue[1];
		else if (isDef) { want += deflt; def = true; sym_cover("default"); }
		else sym_cover("undefined");
		used = true; i = next;
	}
	if (used) sym_cover("reference");
	string got = Utilities::substituteEnvironmentVariables(in, over);
	same(got, want, "environment references are not expanded exactly");
	sym_end();
}

// C33
static char up(char c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
extern "C" void c33() {
	unsigned n = sym_param("len", 4), which = sym_param("file", 0), pre = sym_param("prefix", 0), post = sym_param("suffix", 0);
	static const char *const files[] = { "/repo/src/Ab.cxx", "a.cxx", "src/a.b.c", "/x/.hidden", "aba", "Main.cxx", "/src/all.cxx" };
	static const char *const base[] = { "Ab", "a", "a", "", "aba", "Main", "all" };
	static const char *const fix[] = { "", "Main", ",ab", "all", "Main,", "a;", " ab ", "aab" };
	string list = string(fix[pre]) + symText(n, "list") + fix[post];
	char *v = (char *)malloc(list.length() + 1); memcpy(v, list.c_str(), list.length() + 1);
	envName[0] = "K8PSH_DEBUG"; envValue[0] = v; envCount = n == 0 && pre == 0 && post == 0 && sym_param("unset", 0) ? 0 : 1;
	bool want = false; n = list.length();
	for (unsigned i = 0; i <= n;) {
		unsigned j = i; while (j < n && list[j] != ',' && list[j] != ';') j++;
		unsigned s = i, e = j; while (s < e && wsChar(list[s])) s++; while (e > s && wsChar(list[e - 1])) e--;
		for (int k = 0; k < 2; k++) { const char *w = k ? "all" : base[which]; unsigned l = strlen(w); if (l && e - s == l) { bool m = true; for (unsigned x = 0; x < l; x++) m &= up(list[s + x]) == up(w[x]); if (m) want = true; } }
		i = j + 1;
	}
	bool got = k8psh::Logger::shouldLogDebug(files[which]);
	sym_assert(got == want, "debug output is not selected exactly by the list");
	if (want) sym_cover("selected"); else sym_cover("not-selected");
	sym_end();
}
