#define HLP_ENV
// Configuration loading.
#include <string>
#include <unordered_map>
#include <vector>
#include "Utilities.hxx"
#include "Configuration.hxx"
#include "world.h"
#include "hlp.h"
using k8psh::Configuration; using std::vector;

static bool load(Configuration &c, const string &text, const char *dir = "/w") {
	try { c = Configuration::load(text, dir); return true; } catch (const std::exception &) { return false; }
}
static bool quoteOrSpecial(char c) { return c == '\'' || c == '"' || c == '#' || c == '$' || c == 0 || wsChar(c); }
// n symbolic bytes that form part of an unquoted word
static string word(unsigned n, const char *name) { string s = symText(n, name); for (unsigned i = 0; i < n; i++) sym_assume(!quoteOrSpecial(s[i])); return s; }

// C01: any text at all
extern "C" void c01() {
	static const char *const head[] = { "", "# a comment line to lengthen the text\n", "# a comment line to lengthen the text\n[h]\n", "# a comment line to lengthen\nbaseDirectory=\"", "# a comment line to lengthen\nconnectTimeoutMs=", "# a comment line to lengthen\n[a:",
		"# a comment line to lengthen\n[h]\nc \"\\x", "# a comment line to lengthen\n[h]\nc '", "# a comment line to lengthen\n[h] =A=", "# a comment line to lengthen\n[h]\nc A=${", "# a comment line to lengthen\nbaseDirectory", "# a comment line to lengthen\n[h:65535]\nc\n[",
		"# a comment line to lengthen\n[\"h\"", "# a comment line to lengthen\n[h]\nc ''", "# a comment line to lengthen\nbaseDirectory=../", "# a comment line to lengthen the text\n[h]\nc x=" };
	static const char *const tail[] = { "", "\"", "}", "]\nc", "\n[h]\nc" };
	unsigned n = sym_param("len", 4);
	string text = string(head[sym_param("head", 0)]) + symText(n, "text", false) + tail[sym_param("tail", 0)];
	Configuration c;
	bool ok = load(c, text);
	if (ok) { sym_cover("loaded"); sym_assert(c.getBaseDirectory().length() > 0 && c.getBaseDirectory()[0] == '/', "the base directory of a loaded configuration is not absolute"); if (c.getCommands().size()) sym_cover("command"); }
	else sym_cover("rejected");
	sym_end();
}

static char hexDigit(unsigned char *v, const char *name) {
	char c = sym_u8(name);
	sym_assume((c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'));
	*v = c <= '9' ? c - '0' : c <= 'F' ? c - 'A' + 10 : c - 'a' + 10;
	return c;
}
// C02: a word made of quoted and unquoted pieces, and the bytes it denotes
extern "C" void c02() {
	unsigned pos = sym_param("pos", 0), pieces = sym_param("pieces", 1), toks = sym_param("tokens", 2);
	string text, want; unsigned last = 9;
	for (unsigned p = 0; p < pieces; p++) {
		unsigned kind = sym_choose(3, "piece"); sym_assume(kind != last); last = kind;
		if (kind == 0) text += '\''; else if (kind == 1) text += '"';
		unsigned n = kind == 2 || toks == 0 ? toks + (toks == 0) : toks;
		for (unsigned t = 0; t < n; t++) {
			if (kind == 0) {
				if (sym_choose(2, "token")) { text += "''"; want += '\''; continue; }
				char c = sym_u8("single"); sym_assume(c != 0 && c != '\''); text += c; want += c;
			} else if (kind == 1) {
				static const char esc[] = "\"\\'btnfr0", val[] = "\"\\'\b\t\n\f\r"; // '0' denotes NUL
				unsigned k = sym_choose(12, "token");
				if (k < 9) { text += '\\'; text += esc[k]; want += val[k]; sym_cover("escape"); }
				else if (k == 9) { text += "\"\""; want += '"'; }
				else if (k == 10) { unsigned char a, b; text += "\\x"; text += hexDigit(&a, "hex1"); text += hexDigit(&b, "hex2"); char v = a * 16 + b; sym_assume(v != '$'); want += v; sym_cover("hex"); }
				else { char c = sym_u8("double"); sym_assume(c != 0 && c != '"' && c != '\\' && c != '$'); text += c; want += c; }
			} else {
				char c = sym_u8("plain"); sym_assume(!quoteOrSpecial(c) && c != ']' && c != '=' && !(text.empty() && c == '[')); text += c; want += c;
			}
		}
		if (kind == 0) text += '\''; else if (kind == 1) text += '"';
	}
	Configuration c; string cfg;
	bool comment = sym_param("comment", 0); const char *after = comment ? " # it's \"not\" read\n" : "\n";
	for (unsigned i = 0; i < want.length(); i++) {
		if (pos == 2) sym_assume(want[i] != ':');
		if (pos == 3) sym_assume(want[i] != 0 && want[i] != '/' && want[i] != '.');
	}
	if (pos == 2) sym_assume(want.length() > 0);
	cfg = pos == 0 ? "[h]\nc x " + text + " y" + after : pos == 1 ? "[h]\n" + text + " x" + after : pos == 2 ? "[" + text + "]" + after + "c x\n" : pos == 3 ? "baseDirectory = /" + text + after : "[h]\nc q x" + text + "z" + after;
	sym_assert(load(c, cfg), "a valid quoted string is rejected");
	if (pos == 3) { same(c.getBaseDirectory(), "/" + want, "a quoted setting value is not loaded exactly"); sym_cover("setting"); sym_end(); }
	sym_assert(c.getCommands().size() == 1, "a valid configuration does not have its one command");
	const Configuration::Command &cmd = c.getCommands().begin()->second;
	if (pos == 0) {
		sym_assert(cmd.getExecutable().size() == 3 && cmd.getEnvironmentVariables().empty(), "a quoted argument is split or dropped");
		same(cmd.getExecutable()[1], want, "a quoted argument is not loaded exactly"); same(cmd.getExecutable()[2], "y", "the word after a quoted argument is wrong"); sym_cover("argument");
	} else if (pos == 4) {
		sym_assert(cmd.getExecutable().size() == 2 && cmd.getEnvironmentVariables().empty(), "a quoted argument is split or dropped"); same(cmd.getExecutable()[1], "x" + want + "z", "adjacent pieces are not joined exactly");
	} else if (pos == 1) {
		same(cmd.getName(), want, "a quoted command name is not loaded exactly"); same(c.getCommands().begin()->first, want, "a quoted command name is not loaded exactly"); sym_assert(cmd.getExecutable().size() == 1, "the words after a quoted command name are wrong"); same(cmd.getExecutable()[0], "x", "the words after a quoted command name are wrong"); sym_cover("command");
	} else { same(cmd.getHost().getHostname(), want, "a quoted host name is not loaded exactly"); sym_cover("host"); }
	sym_end();
}

// C03, configuration part: which pieces are expanded
extern "C" void c03cfg() {
	unsigned pieces = sym_param("pieces", 2), toks = sym_param("tokens", 1), vl = sym_param("vlen", 2);
	char *valA = symValue(vl, "A"); envName[0] = "A"; envValue[0] = valA; envCount = 1;
	string text, want; unsigned last = 9;
	for (unsigned p = 0; p < pieces; p++) {
		unsigned kind = sym_choose(3, "piece"); sym_assume(kind != last); last = kind;
		const char *q = kind == 0 ? "'" : kind == 1 ? "\"" : ""; text += q;
		for (unsigned t = 0; t < toks; t++) {
			unsigned k = sym_choose(5, "token");
			if (k == 0) { text += "${A}"; want += kind == 0 ? "${A}" : string(valA); sym_cover(kind == 0 ? "literal" : "expanded"); }
			else if (k == 1) { text += "${Z}"; if (kind == 0) want += "${Z}"; }
			else if (k == 2) { char c = sym_u8("default"); sym_assume(!quoteOrSpecial(c) && c != '}' && c != '\\'); text += "${Z:-"; text += c; text += '}'; if (kind == 0) { want += "${Z:-"; want += c; want += '}'; } else want += c; }
			else if (k == 3) { text += "${A:-x}"; want += kind == 0 ? "${A:-x}" : string(valA); }
			else { char c = sym_u8("plain"); sym_assume(!(c == '\'' || c == '"' || c == '$' || c == 0 || c == '\\') && !(kind == 2 && (wsChar(c) || c == '#'))); text += c; want += c; }
		}
		text += q;
	}
	Configuration c;
	sym_assert(load(c, "[h]\nc x " + text + " y\n"), "a valid configuration with references is rejected");
	const vector<string> &e = c.getCommands().begin()->second.getExecutable();
	sym_assert(e.size() == 3, "a reference changes the number of words");
	same(e[1], want, "references in a configuration are not expanded exactly in unquoted and double-quoted pieces only"); same(e[2], "y", "the word after a reference is wrong");
	sym_end();
}

// C04
extern "C" void c04() {
	int len[3] = { (int)sym_param("p0", 0) - 1, (int)sym_param("p1", 0) - 1, (int)sym_param("p2", 0) - 1 };
	static const char *host[] = { "alpha", "b", "c-c" }; static const char *const NAME[] = { "make", "gcc", "third" };
	struct Listing { int section; unsigned name; string exe; }; vector<Listing> listed;
	bool digits = sym_param("digits", 0), twice = sym_param("twice", 0), again = sym_param("again", 0);
	if (sym_param("same", 0)) host[2] = host[sym_param("same", 0) - 1]; // a host with two sections
	string text = "# ports\n"; long port[3], next = 1120; bool bad = false;
	string value[3];
	for (int s = 0; s < 3; s++) {
		text += string("[ ") + host[s];
		if (len[s] >= 0) {
			string p = len[s] < (sym_param("full", 0) ? 8 : 6) ? symText(len[s], "port") : symText(2, "port") + string(len[s] - 4, '0') + symText(2, "port");
			if (digits) for (int i = 0; i < len[s]; i++) sym_assume(p[i] >= '0' && p[i] <= '9');
			for (int i = 0; i < len[s]; i++) sym_assume(!quoteOrSpecial(p[i]) && p[i] != ']');
			text += ":" + p;
			port[s] = 0; if (len[s] == 0) bad = true;
			for (int i = 0; i < len[s] && !bad; i++) { if (p[i] < '0' || p[i] > '9') bad = true; else { port[s] = port[s] * 10 + (unsigned char)(p[i] - '0'); if (port[s] > 65535) bad = true; } }
			if (!bad && port[s] > 65535) bad = true;
		} else { port[s] = next; if (!bad && next > 65535) bad = true; }
		next = port[s] + 1;
		text += " ]";
		if (s == 1) text += " --opt one";
		text += "\n";
		unsigned n = sym_choose(2, "command");
		text += string(NAME[n]) + " e" + char('0' + s) + "\n"; listed.push_back(Listing{ s, n, string("e") + char('0' + s) });
		if (s == 0 && twice) { text += "third\n"; listed.push_back(Listing{ s, 2, "third" }); }
		if (again && sym_choose(2, "listed again")) { n = sym_choose(2, "command"); text += string(NAME[n]) + " r" + char('0' + s) + "\n"; listed.push_back(Listing{ s, n, string("r") + char('0' + s) }); sym_cover("listed again"); }
		if (bad) break;
	}
	if (bad && sym_param("after", 0)) text += "[z]\n";
	Configuration c; bool ok = load(c, text);
	if (bad) { sym_cover("bad-port"); sym_assert(!ok, "an invalid or overflowing port is accepted"); sym_end(); }
	sym_assert(ok, "valid ports are rejected"); if (!ok) sym_end();
	auto check = [&](const Configuration::Command &k, const Listing &l) {
		int s = l.section;
		same(k.getHost().getHostname(), host[s], "a command reports another section's host"); sym_assert(k.getHost().getPort() == port[s], "a command reports the wrong port");
		same(k.getName(), NAME[l.name], "a command has the wrong name");
		sym_assert(k.getExecutable().size() == 1, "a command has another listing's definition"); same(k.getExecutable()[0], l.exe, "a command has another listing's definition");
		const vector<string> &o = k.getHost().getOptions();
		sym_assert(s == 1 ? o.size() == 2 && o[0] == "--opt" && o[1] == "one" : o.empty(), "a command reports another section's options");
	};
	auto lastOf = [&](const char *h, unsigned n) { int last = -1; for (unsigned i = 0; i < listed.size(); i++) if (listed[i].name == n && (!h || string(h) == host[listed[i].section])) last = (int)i; return last; };
	for (unsigned n = 0; n < 3; n++) {
		int last = lastOf(nullptr, n); auto it = c.getCommands().find(NAME[n]);
		sym_assert((it != c.getCommands().end()) == (last >= 0), "the client's command list is wrong");
		if (last >= 0 && it != c.getCommands().end()) { check(it->second, listed[last]); sym_cover("client"); }
	}
	for (int s = 0; s < 3; s++) {
		auto h = c.getCommands(host[s]);
		sym_assert(h != nullptr, "a host's commands are missing"); if (!h) sym_end();
		unsigned count = 0;
		for (unsigned n = 0; n < 3; n++) {
			int last = lastOf(host[s], n); auto it = h->find(NAME[n]); if (last < 0) continue; count++;
			sym_assert(it != h->end(), "a command listed for a host is not available to it"); if (it == h->end()) sym_end();
			check(it->second, listed[last]); sym_cover("host");
		}
		sym_assert(h->size() == count, "a host has too many or too few commands");
	}
	sym_assert(c.getCommands("nosuch") == nullptr, "commands for an unknown host");
	sym_end();
}

// C05
struct Pair { string k, v; };
static bool envWord(const string &w, Pair &p) { for (unsigned i = 1; i < w.length(); i++) if (w[i] == '=') { p.k = w.substr(0, i); p.v = w.substr(i + 1); return true; } return false; }
static void sameEnv(const Configuration::Command &k, const vector<Pair> &a, const vector<Pair> &b) {
	const auto &e = k.getEnvironmentVariables();
	sym_assert(e.size() == a.size() + b.size(), "a command has too many or too few environment entries");
	for (unsigned i = 0; i < e.size() && i < a.size() + b.size(); i++) { const Pair &p = i < a.size() ? a[i] : b[i - a.size()]; same(e[i].first, p.k, "an environment entry has the wrong name"); same(e[i].second, p.v, "an environment entry has the wrong value"); sym_cover("entry"); }
}
extern "C" void c05() {
	unsigned hw = sym_param("hw", 1), hl = sym_param("hl", 2), cw = sym_param("cw", 2), cl = sym_param("cl", 3); bool opt = sym_param("opt", 0);
	vector<Pair> header, own; vector<string> exe;
	string text = "[g] Q=1 =R=2 --other\nfirst S=3\n[h]"; bool inEnv = true; vector<string> options;
	for (unsigned i = 0; i < hw; i++) {
		string w = word(hl, "header"); sym_assume(w[0] != '-' && w[0] != 0);
		text += (sym_choose(2, "blank") ? "\t" : " ") + w; Pair p;
		if (inEnv && envWord(w, p)) { header.push_back(p); sym_cover("header-entry"); } else { inEnv = false; options.push_back(w); }
	}
	if (opt) { text += " --opt V=9"; options.push_back("--opt"); options.push_back("V=9"); }
	text += "\ncmd"; inEnv = true;
	for (unsigned i = 0; i < cw; i++) {
		string w; unsigned form = sym_choose(3, "form");
		if (form == 0) { text += " ''"; }
		else { w = word(cl, "word"); text += (form == 2 ? "  \"" : " ") ; if (form == 2) for (unsigned j = 0; j < w.length(); j++) sym_assume(w[j] != '\\'); text += w; if (form == 2) text += "\""; }
		Pair p;
		if (inEnv && envWord(w, p)) own.push_back(p); else { inEnv = false; exe.push_back(w); }
	}
	if (exe.empty()) { exe.push_back("cmd"); sym_cover("default-executable"); }
	text += " # note\nplain\n[i]\nlast\n";
	Configuration c; sym_assert(load(c, text), "a valid command line is rejected");
	auto h = c.getCommands("h"); sym_assert(h && h->size() == 2, "a host's commands are wrong"); if (!h || h->size() != 2) sym_end();
	auto it = h->find("cmd"); sym_assert(it != h->end(), "the first word is not the command's name"); if (it == h->end()) sym_end();
	const vector<string> &e = it->second.getExecutable();
	sym_assert(e.size() == exe.size(), "a command has too many or too few words");
	for (unsigned i = 0; i < e.size() && i < exe.size(); i++) { same(e[i], exe[i], "a command's executable or arguments are wrong"); if (i) sym_cover("argument"); }
	sameEnv(it->second, header, own);
	const vector<string> &o = it->second.getHost().getOptions();
	sym_assert(o.size() == options.size(), "the section's options are wrong");
	for (unsigned i = 0; i < o.size() && i < options.size(); i++) same(o[i], options[i], "the section's options are wrong");
	it = h->find("plain"); sym_assert(it != h->end(), "a command is missing"); if (it == h->end()) sym_end();
	sameEnv(it->second, header, vector<Pair>()); sym_assert(it->second.getExecutable().size() == 1, "a command without words has the wrong executable"); same(it->second.getExecutable()[0], "plain", "a command without words has the wrong executable");
	auto l = c.getCommands().find("last"); sym_assert(l != c.getCommands().end() && l->second.getEnvironmentVariables().empty(), "a command inherits another section's environment");
	auto f = c.getCommands().find("first"); sym_assert(f != c.getCommands().end() && f->second.getEnvironmentVariables().size() == 3, "a command does not have its section's environment");
	sym_end();
}

// C06: one entry per kind of malformed text
static void mustReject(const string &text, const char *what, const char *cover) {
	Configuration c; sym_cover(cover);
	sym_assert(!load(c, text), what); sym_end();
}
extern "C" void c06() {
	unsigned kind = sym_param("kind", 0), n = sym_param("len", 2), at = sym_param("at", 0);
	static const char *const place[] = { "baseDirectory=", "[h]\nc x ", "[h]\n", "[", "# c\n[h]\nc x=", "[h] o ", "connectTimeoutMs=", "[h:80]\nc y\n\n[i]\nd " };
	static const char *const stem[] = { "", "baseDirectory", "connectTimeoutM", "basedirectory", "connectTimeoutMs" };
	if (kind == 0) {
		string k = string(stem[at]) + word(n, "key"); for (unsigned i = 0; i < k.length(); i++) sym_assume(k[i] != '='); sym_assume(!k.empty() && k[0] != '[');
		sym_assume(!eqs(k, "baseDirectory") && !eqs(k, "connectTimeoutMs"));
		mustReject(k + (sym_param("noeq", 0) ? "\n[h]\nc\n" : "=5\n[h]\nc\n"), "an unknown setting is accepted", "unknown-setting");
	}
	if (kind == 1) {
		char b = sym_u8("blank"), x = sym_u8("extra"); sym_assume(b == ' ' || b == '\t'); sym_assume(x != 0 && !wsChar(x) && x != '#');
		string s(1, b); s += x; s += symText(n, "rest", false);
		mustReject((at ? "connectTimeoutMs = 5" : "baseDirectory = /a") + s + "\n[h]\nc\n", "a setting followed by extra words is accepted", "extra-words");
	}
	if (kind == 2) {
		bool dq = sym_param("dq", 0); string t = symText(n, "quoted", false);
		for (unsigned i = 0; i < n; i++) sym_assume(t[i] != (dq ? '"' : '\'') && !(dq && t[i] == '\\'));
		if (sym_param("doubled", 0)) t += dq ? (sym_choose(2, "doubled") ? "\"\"" : "\\\"") : "''";
		mustReject(string(place[at]) + (dq ? '"' : '\'') + t, "an unterminated quote is accepted", "unterminated");
	}
	if (kind == 3) {
		char e = sym_u8("escape"); sym_assume(e != '"' && e != '\\' && e != '\'' && e != 'b' && e != 't' && e != 'n' && e != 'f' && e != 'r' && e != '0' && e != 'x');
		string t = symText(n, "before"); for (unsigned i = 0; i < n; i++) sym_assume(t[i] != '"' && t[i] != '\\');
		mustReject(string(place[at]) + '"' + t + '\\' + e + "\"\n", "an unknown escape is accepted", "unknown-escape");
	}
	if (kind == 4) {
		unsigned char d; char a = sym_u8("hex1"), b = sym_u8("hex2");
		auto hex = [](char c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); };
		sym_assume(!hex(a) || !hex(b));
		mustReject(string(place[at]) + "\"\\x" + a + b + "\"" + (sym_param("more", 0) ? "f\"\n" : ""), "an incomplete escape is accepted", "bad-hex");
	}
	if (kind == 5) {
		string t = symText(n, "header"); for (unsigned i = 0; i < n; i++) sym_assume(t[i] != ']' && t[i] != '\n' && t[i] != '\'' && t[i] != '"');
		mustReject("[" + string(at ? "h" : "") + t + "\n]\nc\n", "a section header without its closing bracket is accepted", "no-bracket");
	}
	if (kind == 6) {
		string t = symText(n, "blanks"); for (unsigned i = 0; i < n; i++) sym_assume(t[i] == ' ' || t[i] == '\t');
		static const char *const empty[] = { "", "''", "\"\"", ":80", ":0", "${Z}", "'':9" };
		mustReject("[" + t + empty[at] + t + "]\nc\n", "a section header without a name is accepted", "no-name");
	}
	if (kind == 7) {
		static const char *const pre[] = { "", "1", "-", "12", "0x", "+", "99999999999999999999" };
		string v = string(pre[at]) + word(n, "number"); unsigned i = 0; bool number = true;
		if (i < v.length() && (v[i] == '+' || v[i] == '-')) i++;
		if (i == v.length()) number = false;
		for (; i < v.length(); i++) if (v[i] < '0' || v[i] > '9') number = false;
		if (at == 6) number = false;
		sym_assume(!number && !(v.length() && v[0] == '='));
		mustReject("connectTimeoutMs=" + v + "\n[h]\nc\n", "a timeout that is not a number is accepted", "not-a-number");
	}
	if (kind == 8) { // a name, then something else before the bracket
		string t = symText(n, "header"); bool other = false;
		for (unsigned i = 0; i < n; i++) { sym_assume(t[i] != '\'' && t[i] != '"' && t[i] != '$' && t[i] != ']'); if (t[i] != ' ' && t[i] != '\t') other = true; }
		sym_assume(other);
		mustReject("[h " + t + "]\nc\n", "a section header with two names is accepted", "two-names");
	}
	sym_end();
}

// C07
extern "C" void c07() {
	unsigned kind = sym_param("kind", 0), n = sym_param("len", 3), at = sym_param("at", 0);
	static const char *const dir[] = { "/w", "", "/w/../v", "sub", "/" }; static const char *const abs[] = { "/w", "/home/user/project", "/v", "/home/user/project/sub", "/" };
	w_cwd = (char *)"/home/user/project";
	string base = abs[sym_param("dir", 0)]; long long timeout = 30000; string text;
	if (kind == 0) { // base directory
		static const char *const pre[] = { "", "/", "../", "/a/", "./" };
		string v = string(pre[at]) + word(n, "value"); sym_assume(v.empty() || v[0] != '=');
		text = "baseDirectory=" + v + "\n";
		base = canonical(v.length() && v[0] == '/' ? v : base + "/" + v);
	} else if (kind == 1) { // timeout
		static const char *const pre[] = { "", "-", "+", "922337203685477580", "-922337203685477580", "000" };
		string d = symText(n, "digits"); for (unsigned i = 0; i < n; i++) sym_assume(d[i] >= '0' && d[i] <= '9');
		if (at == 3) sym_assume(d[0] <= '7'); if (at == 4) sym_assume(d[0] <= '8');
		string v = pre[at] + d; unsigned i = at == 1 || at == 2 || at == 4; unsigned long long u = 0;
		for (; i < v.length(); i++) u = u * 10 + (unsigned char)(v[i] - '0');
		timeout = at == 1 || at == 4 ? (long long)(0 - u) : (long long)u;
		text = "connectTimeoutMs" + string(sym_choose(2, "blank") ? " =\t" : "=") + v + "\n";
	} else if (kind == 2) { // repeated settings, comments and blank lines between
		string a = word(n, "first"), b = word(n, "second"); sym_assume(n == 0 || (a[0] != '=' && b[0] != '='));
		char c = sym_u8("comment"); sym_assume(c != '\n' && c != 0);
		text = "baseDirectory=/" + a + "\n\n  # baseDirectory=/no" + c + "x\n\tconnectTimeoutMs=7\nbaseDirectory = /" + b + " # connectTimeoutMs=9\n#connectTimeoutMs=11\n";
		base = canonical("/" + b); timeout = 7;
	} else if (kind == 3) { // only comments
		string a = symText(n, "comment"), ws = symText(n, "blanks");
		for (unsigned i = 0; i < n; i++) { sym_assume(a[i] != '\n'); sym_assume(wsChar(ws[i])); }
		text = ws + "#" + a + "\n" + ws + "#baseDirectory=/x\n" + ws;
	} else if (kind == 4) { // repeated timeout
		char d = sym_u8("digit"); sym_assume(d >= '0' && d <= '9'); text = string("connectTimeoutMs=55\nbaseDirectory=k/..\nconnectTimeoutMs=-1") + d + "\n"; timeout = -(10 + (d - '0'));
	}
	static const char *const after[] = { "", "[h]\nbaseDirectory=/other\nconnectTimeoutMs 3\n" };
	text += after[sym_param("after", 0)];
	Configuration c; sym_assert(load(c, text, dir[sym_param("dir", 0)]), "valid settings are rejected");
	same(c.getBaseDirectory(), base, "the base directory is not the documented one");
	sym_assert(c.getConnectTimeoutMs() == timeout, "the connect timeout is not the number given or its default");
	if (timeout != 30000) sym_cover("timeout"); if (kind == 0) sym_cover("base");
	sym_end();
}
