// A client invocation end to end: the bytes the client sends are what the server reads, and the program the server's
// child executes is compared with the invocation (C10, C11).
#include "session.h"
int k8psh_main(int argc, const char *argv[]);
extern "C" char **environ;
static int phase, budget, sendSplit, recvSplit; // phase 0 setup, 1 client, 2 server
static const Configuration *conf_; static const char *confText; static size_t confN;
static string cwd_, clientWd, base_ = "/w";
static const char *wantArgv[16]; static size_t wantLen[16]; static unsigned wantArgs;
// environment: names A..D on both sides
enum { NAMES = 4 }; static const char *const names[NAMES] = { "A", "B", "CC", "D" };
static char *clientEnv[NAMES], *serverEnv[NAMES];
struct Entry { unsigned name, kind; const char *text; }; static Entry entries[6]; static unsigned entryCount; // kind 0 plain, 1 ?, 2 =
static void finish();
extern "C" {
char *h_getenv(const char *name) {
	if (!strcmp(name, "K8PSH_CONFIG") && phase == 1) return (char *)"/w/k8psh.conf";
	for (unsigned i = 0; i < NAMES; i++) if (!strcmp(name, names[i])) return phase == 1 ? clientEnv[i] : phase == 2 ? serverEnv[i] : nullptr;
	if (!strcmp(name, "X1") && phase) return (char *)(phase == 1 ? "client secret" : "server secret");
	return nullptr;
}
char *h_getcwd(char *buf, size_t n) { const string &d = phase == 1 ? clientWd : base_; if (d.length() + 1 > n) { errno = ERANGE; return nullptr; } memcpy(buf, d.c_str(), d.length() + 1); return buf; }
int h_fopen(const char *path, const char *) { return strcmp(path, "/w/k8psh.conf") ? -ENOENT : 0; }
long h_fsize(int) { return (long)confN; }
long h_file_read(int pos, int, void *buf, size_t n) { size_t at = (size_t)(-1 - pos); size_t k = at < confN ? confN - at : 0; if (k > n) k = n; memcpy(buf, confText + at, k); return (long)k; }
static size_t piece(size_t max, const char *name) {
	if (budget <= 0 || max < 2) return max;
	switch (sym_choose(4, name)) { case 1: budget--; return 1; case 2: budget--; return max - 1; case 3: budget--; return max / 2; }
	return max;
}
long h_sock_send(int, int, const void *buf, size_t n, int) { if (phase != 1) return (long)n; if (sendSplit) n = piece(n, "sent"); inPut(buf, n); return (long)n; }
long h_sock_recv(int, int, void *buf, size_t n, int) {
	sym_readable(buf, n); sym_assert(phase == 2, "the client waits for an answer before its request is complete");
	size_t k = inN - inAt; sym_assert(k > 0, "the server needs more than the client sends");
	if (k > n) k = n; if (recvSplit) k = piece(k, "received");
	memcpy(buf, in_ + inAt, k); inAt += k; return (long)k;
}
int h_poll(struct pollfd *p, unsigned n, int timeout) {
	if (phase == 1) { // the request is out: what does the server make of it?
		phase = 2; cwd_ = "/s";
		try { Process::run(base_, *conf_->getCommands("box"), Socket::connect(1)); } catch (const std::exception &) { sym_fail("the server rejects the request"); }
		sym_fail("the server does not start the command");
	}
	for (unsigned i = 0; i < n; i++) p[i].revents = p[i].events & (POLLIN | POLLOUT);
	return (int)n;
}
int h_fork() { sym_assert(phase == 2, "the client starts a process"); return 0; }
int h_chdir(const char *path) { if (phase == 2) { if (path[0] == '/') cwd_ = path; else { cwd_ += '/'; cwd_ += path; } } return 0; }
void h_exec(const char *path, char *const *argv, char *const *envp, int) {
	environ = (char **)envp;
	unsigned n = 0; while (argv[n]) n++;
	CK(10, n == wantArgs, "the command gets another number of words than configured and given");
	for (unsigned i = 0; i < wantArgs; i++) { CK(10, strlen(argv[i]) == wantLen[i], "a word of the command line has another length"); CK(10, sym_equal(argv[i], wantArgv[i], wantLen[i]), "a word of the command line is not what was configured or given"); }
	CK(10, eqs(path, wantArgv[0]), "another program is run than configured");
	CK(10, sameQ(canonical(cwd_), canonical(clientWd)), "the command runs in another directory than the client");
	finish();
}
void h_exit(int) { sym_fail("the client ends before the session"); }
void h_terminate() { sym_fail("the client fails"); }
}
// reference: the environment the configuration grants
struct Var { bool known, set; string value; }; static Var var_[NAMES];
static string expand(const char *t) {
	string r; size_t n = strlen(t);
	for (size_t i = 0; i < n; i++) {
		if (t[i] != '$' || t[i + 1] != '{') { r += t[i]; continue; }
		size_t e = i; while (t[e] != '}') e++;
		string ref(t + i + 2, e - i - 2), def; size_t c = ref.find(":-"); if (c != string::npos) { def = ref.substr(c + 2); ref = ref.substr(0, c); }
		const char *v = nullptr; string own; bool has = false;
		for (unsigned k = 0; k < NAMES; k++) if (eqs(ref, names[k])) { if (var_[k].known && var_[k].set) { has = true; own = var_[k].value; } else if (serverEnv[k]) v = serverEnv[k]; }
		if (has) r += own; else if (v) r += v; else r += def;
		i = e;
	}
	return r;
}
static void finish() {
	for (unsigned i = 0; i < entryCount; i++) {
		const Entry &e = entries[i]; Var &v = var_[e.name]; const char *c = e.kind == 2 ? nullptr : clientEnv[e.name];
		if (c) { v.known = v.set = true; v.value = c; continue; }
		if (*e.text || e.kind == 0) { string x = expand(e.text); v.known = v.set = true; v.value = x; sym_cover("default"); continue; }
		if (e.kind == 1 && v.known && v.set) continue; // inherits what an earlier entry gave
		v.known = true; v.set = serverEnv[e.name] != nullptr; v.value = v.set ? serverEnv[e.name] : ""; sym_cover(v.set ? "inherited" : "unset");
	}
	unsigned seen[NAMES] = { 0, 0, 0, 0 };
	for (char **p = environ; *p; p++) {
		int hit = -1;
		for (unsigned k = 0; k < NAMES; k++) { size_t l = strlen(names[k]); bool is = true; for (size_t i = 0; i < l && is; i++) is = (*p)[i] == names[k][i]; if (is && (*p)[l] == '=') hit = (int)k; }
		CK(11, hit >= 0, "the command gets a variable that its configuration does not list"); if (hit < 0) continue;
		CK(11, var_[hit].known && var_[hit].set, "the command gets a variable that has no value or is not listed");
		CK(11, ++seen[hit] == 1, "the command gets a variable twice");
		const char *v = *p + strlen(names[hit]) + 1; CK(11, strlen(v) == var_[hit].value.length(), "a variable's value has another length than configured");
		CK(11, sym_equal(v, var_[hit].value.data(), var_[hit].value.length()), "a variable has another value than configured");
	}
	for (unsigned k = 0; k < NAMES; k++) { if (var_[k].known && var_[k].set) CK(11, seen[k] == 1, "the command does not get a variable that its configuration lists"); }
	// what the client has sent of its environment
	size_t at = 0; unsigned sent[NAMES] = { 0, 0, 0, 0 };
	while (inN - at >= 5) {
		unsigned type = in_[at]; uint32_t len = in_[at + 1] | (uint32_t)in_[at + 2] << 8 | (uint32_t)in_[at + 3] << 16 | (uint32_t)in_[at + 4] << 24; at += 5;
		if (type == M_ENV) {
			int hit = -1; for (unsigned k = 0; k < NAMES; k++) { size_t l = strlen(names[k]); bool is = len > l; for (size_t i = 0; i < l && is; i++) is = in_[at + i] == (uint8_t)names[k][i]; if (is && in_[at + l] == '=') hit = (int)k; }
			CK(11, hit >= 0, "the client sends something other than a listed variable"); if (hit < 0) break;
			bool listed = false; for (unsigned i = 0; i < entryCount; i++) if (entries[i].name == (unsigned)hit && entries[i].kind != 2) listed = true;
			CK(11, listed, "the client sends a variable that is not the client's to set"); CK(11, clientEnv[hit] != nullptr, "the client sends a variable that it does not have"); sent[hit]++;
			sym_cover("variable sent");
		}
		at += len;
	}
	for (char **p = environ; *p; p++) { bool secret = strstr(*p, "X1") == *p; CK(11, !secret, "a variable that is not listed reaches the command"); }
	sym_cover("command run"); sym_end();
}
static char *side(const char *name, unsigned max) { // unset, empty or up to max arbitrary bytes
	unsigned c = sym_choose(max + 2, name); if (!c) return nullptr;
	char *v = (char *)malloc(c); if (c > 1) sym_bytes(v, c - 1, name); v[c - 1] = 0; for (unsigned i = 0; i + 1 < c; i++) sym_assume(v[i] != 0); return v;
}
static void run(const string &text, unsigned argc, const char **argv, bool whole) {
	inInit(4096 + 8 * 1024 + sym_param("room", 0));
	budget = sym_param("budget", 0); sendSplit = sym_param("send", 0); recvSplit = sym_param("recv", 0); w_checkFd = 0;
	confText = text.data(); confN = text.length();
	static Configuration c = Configuration::load(text, "/w"); conf_ = &c;
	phase = 1;
	try {
		if (whole) k8psh_main((int)argc, argv);
		else { const auto &cmd = c.getCommands().find("cmd")->second; string rel = clientWd.length() > base_.length() ? clientWd.substr(base_.length() + 1) : ""; Process::runRemoteCommand(rel, cmd, argc - 1, argv + 1, c); }
	} catch (const std::exception &) { sym_fail("the client fails"); }
	sym_fail("the client ends before the session");
}
static const char *word(unsigned n, const char *name) {
	char *p = (char *)malloc(n + 1); if (n <= 12) { if (n) sym_bytes(p, n, name); for (unsigned i = 0; i < n; i++) sym_assume(p[i] != 0); }
	else { for (unsigned i = 0; i < n; i++) p[i] = (char)(1 + (i * 7 + (i >> 8)) % 255); sym_bytes(p, 1, name); sym_bytes(p + n - 1, 1, name); sym_assume(p[0] != 0 && p[n - 1] != 0); }
	p[n] = 0; return p;
}
// parameters: args, a1..a4 lengths; wd bytes of the working directory below the base; words: configured argument words; main: through main() under the command's name
extern "C" void c10() {
	unsigned n = sym_param("args", 0); static const char *const an[] = { "a1", "a2", "a3", "a4" }; static const char *argv[8]; argv[0] = sym_param("main", 1) ? "/x/cmd" : "cmd"; 
	unsigned words = sym_param("words", 0), name = sym_param("name", 0);
	string text = "[box:1]\n"; if (name) text += "other q\n"; text += "cmd"; wantArgv[0] = "cmd";
	if (words) { text += " './p q'"; wantArgv[0] = "./p q"; } if (words > 1) { text += " -x=1"; wantArgv[1] = "-x=1"; } if (words > 2) { text += " ''"; wantArgv[2] = ""; }
	text += "\n"; wantArgs = words ? words : 1; for (unsigned i = 0; i < wantArgs; i++) wantLen[i] = strlen(wantArgv[i]);
	for (unsigned i = 0; i < n; i++) { unsigned l = sym_param(an[i], 1); argv[i + 1] = word(l, "argument"); wantArgv[wantArgs] = argv[i + 1]; wantLen[wantArgs++] = l; }
	unsigned wd = sym_param("wd", 0); clientWd = base_;
	if (wd) { string s(word(wd, "directory")); // as getcwd gives it: no empty, . or .. components
		sym_assume(s[0] != '/' && s[wd - 1] != '/'); string full = base_ + "/" + s; 
		for (unsigned i = 0; i < wd; i++) { bool startC = i == 0 || s[i - 1] == '/'; if (startC) { sym_assume(s[i] != '/'); if (s[i] == '.') { char a = i + 1 < wd ? s[i + 1] : '/'; sym_assume(a != '/'); if (a == '.') { char b = i + 2 < wd ? s[i + 2] : '/'; sym_assume(b != '/'); } } } }
		clientWd = full; }
	run(text, n + 1, argv, sym_param("main", 1));
}
// parameters: e1..e4 entries (name * 16 + kind * 4... see below), max: bytes of values
extern "C" void c11() {
	static const char *const en[] = { "e1", "e2", "e3", "e4" }; static const char *const kinds[] = { "", "?", "=" };
	static const char *const texts[] = { "", "v", "${B}", "${B:-d}", "${A}", "x${A}:${CC:-e}", "${D:-}", "a=b", "$B{B}" };
	unsigned max = sym_param("max", 1);
	string text = "[box:1]"; unsigned inSection = sym_param("section", 0); 
	for (unsigned i = 0; i < 4; i++) {
		unsigned e = sym_param(en[i], 0); if (!e) break; // 1 + name * 100 + kind * 10 + text
		e--; Entry &x = entries[entryCount++]; x.name = e / 100; x.kind = e / 10 % 10; x.text = texts[e % 10];
		if (i == inSection) text += "\ncmd";
		text += string(" ") + kinds[x.kind] + names[x.name] + "="; if (*x.text) text += string("'") + x.text + "'";
	}
	if (entryCount <= inSection) text += "\ncmd";
	text += " prog\n";
	for (unsigned i = 0; i < entryCount; i++) { bool dup = false; for (unsigned k = 0; k < i; k++) dup |= entries[k].name == entries[i].name; if (!dup) clientEnv[entries[i].name] = side("client value", max); }
	for (unsigned k = 0; k < NAMES; k++) serverEnv[k] = side("server value", k == 0 ? max : 1);
	for (unsigned k = 0; k < NAMES; k++) if (!clientEnv[k] && sym_param("extra", 0)) { bool used = false; for (unsigned i = 0; i < entryCount; i++) used |= entries[i].name == k; if (!used) clientEnv[k] = (char *)"!"; }
	wantArgs = 1; wantArgv[0] = "prog"; wantLen[0] = 4; clientWd = base_;
	static const char *argv[] = { "/x/cmd", nullptr };
	run(text, 1, argv, false);
}
