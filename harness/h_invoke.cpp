// Which command a client invocation runs, with which words and from which configuration (C30), and installing (C31).
#include "session.h"
int k8psh_main(int argc, const char *argv[]);
static int phase; // 0 setup, 1 client, 2 the server that receives the request
static int wantError, wantExit, done_;
static string wantConfig; static int readable = 1, connects;
static const char *wantWord[16]; static unsigned wantWords;
static char *envConf; static int envSet;
static Configuration *conf_;
enum { CMDS = 4 }; static const char *const cmd_[CMDS] = { "a", "-a", "--", "k8psx" };
static const char right[] = "[box:1]\na right0\n-a right1\n-- right2 -c\nk8psx right3\n", wrong[] = "[box:1]\na wrong\n-a wrong\n-- wrong\nk8psx wrong\n";
// ---- files (C31)
struct OpenFile { int inode; size_t pos; int write; };
static struct { uint8_t *data; size_t n; } inode_[6]; static int inodes;
static struct { string path; int inode; } *name_; static int names;
static OpenFile open_[8]; static int opens; enum { NAMES = 6 };
static size_t cap; static int ops, faultsLeft, splits, failed; static string exe_;
static int find(const string &p) { for (int i = 0; i < names; i++) if (name_[i].inode >= 0 && name_[i].path.length() == p.length() && sameQ(name_[i].path, p)) return i; return -1; }
static int newInode() { if (inodes == 6) sym_fail("harness: too many files"); inode_[inodes].data = (uint8_t *)malloc(cap); inode_[inodes].n = 0; return inodes++; }
static void bind_(const string &p, int ino) { int i = find(p); if (i < 0) { if (names == NAMES) sym_fail("harness: too many names"); i = names++; name_[i].path = p; } name_[i].inode = ino; }
static int fails(const char *what, int e) { if (P != 31 || !phase || faultsLeft <= 0 || !sym_choose(2, what)) return 0; faultsLeft--; return e; }
static string full(const char *p) { string s = p; return s.length() && s[0] == '/' ? s : "/w/" + s; }
static string target_;
static void installed(int code) {
	if (code != 0) { sym_assert(failed || wantError, "an undisturbed installation fails"); sym_cover("failure reported"); sym_end(); }
	sym_assert(!wantError, "an installation is reported as done that cannot be");
	int s = find(full(exe_.c_str())), t = find(full(target_.c_str()));
	sym_assert(s >= 0 && inode_[0].n == sym_param("n", 3) && name_[s].inode == 0, "the running program is damaged by installing it");
	sym_assert(t >= 0, "an installation is reported as done but there is no file");
	if (name_[t].inode == 0) { sym_cover("linked"); sym_end(); }
	auto &d = inode_[name_[t].inode];
	sym_assert(d.n >= inode_[0].n, "an installed file is cut short");
	sym_assert(d.n <= inode_[0].n, "an installed file has more content than the program");
	sym_assert(sym_equal(d.data, inode_[0].data, d.n), "an installed file differs from the program");
	sym_cover("copied"); sym_end();
}
extern "C" {
char *h_getenv(const char *name) {
	if (phase == 1 && !strcmp(name, "K8PSH_CONFIG")) return envConf;
	if (!strcmp(name, "K8PSH_DEBUG") && sym_param("debug", 0)) return (char *)"all";
	return nullptr;
}
char *h_getcwd(char *buf, size_t n) { const char *d = "/w"; if (strlen(d) + 1 > n) { errno = ERANGE; return nullptr; } memcpy(buf, d, strlen(d) + 1); return buf; }
int h_fopen(const char *path, const char *) {
	bool is = strlen(path) == wantConfig.length() && sym_equal(path, wantConfig.data(), wantConfig.length());
	if (is) { if (!readable) { sym_cover("unreadable"); return -EACCES; } return 0; }
	return 1;
}
static const char *textOf(int obj) { return obj == 0 ? right : wrong; }
long h_fsize(int obj) { return (long)strlen(textOf(obj)); }
long h_file_read(int pos, int obj, void *buf, size_t n) {
	if (P == 30) { size_t at = (size_t)(-1 - pos), all = strlen(textOf(obj)); size_t k = at < all ? all - at : 0; if (k > n) k = n; memcpy(buf, textOf(obj) + at, k); return (long)k; }
	OpenFile &f = open_[obj]; if (ops-- <= 0) faultsLeft = splits = 0;
	if (faultsLeft > 0) { unsigned c = sym_choose(3, "reading fails"); if (c) { faultsLeft--; if (c == 1) return w_err(EINTR); failed = 1; return w_err(EIO); } }
	size_t left = inode_[f.inode].n - f.pos; if (n > left) n = left;
	if (splits && n > 1) { unsigned c = n <= 6 ? sym_choose((unsigned)n, "bytes read") : sym_choose(4, "bytes read"); n = n <= 6 ? n - c : c == 0 ? n : c == 1 ? 1 : c == 2 ? n - 1 : n / 2; }
	memcpy(buf, inode_[f.inode].data + f.pos, n); f.pos += n; return (long)n;
}
long h_file_write(int, int obj, const void *buf, size_t n) {
	OpenFile &f = open_[obj]; if (!f.write) return w_err(EBADF); if (ops-- <= 0) faultsLeft = splits = 0;
	if (faultsLeft > 0) { unsigned c = sym_choose(3, "writing fails"); if (c) { faultsLeft--; if (c == 1) return w_err(EINTR); failed = 1; return w_err(ENOSPC); } }
	if (splits && n > 1) { unsigned c = n <= 6 ? sym_choose((unsigned)n, "bytes written") : sym_choose(4, "bytes written"); if (c) failed = 1; n = n <= 6 ? n - c : c == 0 ? n : c == 1 ? 1 : c == 2 ? n - 1 : n / 2; }
	auto &d = inode_[f.inode]; if (f.pos + n > cap) sym_fail("more is written than the program holds");
	memcpy(d.data + f.pos, buf, n); f.pos += n; if (f.pos > d.n) d.n = f.pos; return (long)n;
}
long h_readlink(const char *path, char *buf, size_t n) { if (strcmp(path, "/proc/self/exe")) return w_err(ENOENT); size_t l = exe_.length(); if (l > n) l = n; memcpy(buf, exe_.data(), l); return (long)l; }
int h_link(const char *from, const char *to) {
	if (P == 30) sym_fail("a link is made");
	int e = sym_param("link", 0); if (e == 1) return EXDEV; if (e == 2 && sym_choose(2, "link fails")) return (int)sym_u8("link error") % 133 + 1;
	int s = find(full(from)); if (s < 0) return ENOENT; if (find(full(to)) >= 0) return EEXIST; bind_(full(to), name_[s].inode); return 0;
}
int h_unlink(const char *p) { int i = find(full(p)); if (i < 0) return ENOENT; int e = fails("unlink fails", EACCES); if (e) { failed = 1; return e; } name_[i].inode = -1; return 0; }
int h_rename(const char *a, const char *b) { int i = find(full(a)); if (i < 0) return ENOENT; int e = fails("rename fails", EACCES); if (e) { failed = 1; return e; } int ino = name_[i].inode; bind_(full(b), ino); name_[i].inode = -1; return 0; }
int h_open(const char *path, int flags, int) {
	if (P == 30) sym_fail("a file is opened");
	int e = fails("opening fails", EACCES); if (e) { failed = 1; return -e; }
	int i = find(full(path)), ino; bool wr = (flags & O_ACCMODE) != O_RDONLY;
	if (i < 0) { if (!(flags & O_CREAT)) return -ENOENT; ino = newInode(); bind_(full(path), ino); }
	else { ino = name_[i].inode; if (flags & O_CREAT && flags & O_EXCL) return -EEXIST; if (wr && ino == 0) { failed = 1; return -ETXTBSY; } }
	if (wr && flags & O_TRUNC) inode_[ino].n = 0;
	if (opens == 8) sym_fail("harness: too many open files");
	open_[opens] = OpenFile{ino, flags & O_APPEND ? inode_[ino].n : 0, wr}; return opens++;
}
int h_connect(int, int, const struct sockaddr *, unsigned) { if (phase == 1) { CK(30, !wantError, "the client connects although the invocation is in error"); CK(30, !wantExit, "the client connects although it was only asked for information"); connects++; } return 0; }
long h_sock_send(int, int, const void *buf, size_t n, int) { if (phase != 1) return (long)n; CK(30, !wantError && !wantExit, "something is sent although the invocation is in error"); inPut(buf, n); return (long)n; }
long h_sock_recv(int, int, void *buf, size_t n, int) {
	sym_readable(buf, n); sym_assert(phase == 2, "the client waits for an answer before its request is complete");
	size_t k = inN - inAt; sym_assert(k > 0, "the server needs more than the client sends"); if (k > n) k = n;
	memcpy(buf, in_ + inAt, k); inAt += k; return (long)k;
}
int h_poll(struct pollfd *p, unsigned n, int) {
	if (phase == 1) {
		phase = 2;
		try { Process::run("/w", *conf_->getCommands("box"), Socket::connect(1)); } catch (const std::exception &) { sym_fail("the server rejects the request"); }
		sym_fail("the server does not start the command");
	}
	for (unsigned i = 0; i < n; i++) p[i].revents = p[i].events & (POLLIN | POLLOUT);
	return (int)n;
}
int h_fork() { sym_assert(phase == 2, "the client starts a process"); return 0; }
void h_exec(const char *, char *const *argv, char *const *, int) {
	unsigned n = 0; while (argv[n]) n++;
	CK(30, argv[0][0] != 'w', "another configuration file is used than asked for");
	CK(30, n > 0 && wantWords > 0 && eqs(argv[0], wantWord[0]), "another command is run than asked for");
	CK(30, n == wantWords, "the command gets another number of words than given");
	for (unsigned i = 1; i < wantWords; i++) { size_t l = strlen(wantWord[i]); CK(30, strlen(argv[i]) == l && sym_equal(argv[i], wantWord[i], l), "a word of the command line is not what was given"); }
	sym_cover("command run"); sym_end();
}
void h_exit(int c) {
	if (P == 31) { if (phase == 1) installed(c); return; }
	if (phase != 1) sym_fail("the server ends early");
	if (wantExit) { CK(30, c == 0, "asking for information fails"); sym_cover("information"); sym_end(); }
	CK(30, wantError, "the client ends without running the command"); CK(30, c != 0, "an invocation in error is reported as a success"); sym_cover("refused"); sym_end();
}
void h_terminate() { if (P == 31) { installed(1); } CK(30, phase == 1 && wantError, "a valid invocation is refused"); sym_cover("refused"); sym_end(); }
}
static const char *argv_[16]; static unsigned argc_;
static const char *const prefix_[] = { "", "-c", "--config", "--config=", "--", "-h", "--help", "-v", "--version", "-", "a", "--install", "--confi", "-s", "../k.conf", "/k.conf" };
static char *word(unsigned spec) { // prefix * 10 + number of arbitrary bytes
	const char *p = prefix_[spec / 10]; unsigned l = strlen(p), n = spec % 10; char *w = (char *)malloc(l + n + 1); memcpy(w, p, l); if (n) sym_bytes(w + l, n, "word"); w[l + n] = 0;
	for (unsigned i = 0; i < n; i++) sym_assume(w[l + i] != 0); return w;
}
static void plainName(const char *s) { size_t n = strlen(s); for (size_t i = 0; i < n; i++) sym_assume(s[i] != '/'); if (n) sym_assume(!(n == 1 && s[0] == '.') && !(n == 2 && s[0] == '.' && s[1] == '.')); }
// parameters: stub (0 own name), dir, w1.. words (1 + prefix * 10 + arbitrary bytes), env (1 + bytes), unread
extern "C" void c30() {
	static const char *const dirs[] = { "/opt/", "", "./", "/x y/k8psh/", "../-c/" }, *const names_[] = { "k8psh", "a", "-a", "--", "k8psx", "b", "k8pshx", "k8ps" };
	static const char *const ws[] = { "w1", "w2", "w3", "w4", "w5", "w6" };
	unsigned stub = sym_param("stub", 0); string name = stub < 8 ? string(names_[stub]) : symText(stub - 7, "name"); if (stub >= 8) for (char c : name) sym_assume(c != '/');
	string prog = string(dirs[sym_param("dir", 0)]) + name; argv_[argc_++] = prog.c_str();
	for (auto w : ws) { unsigned s = sym_param(w, 0); if (!s) break; argv_[argc_++] = word(s - 1); }
	unsigned e = sym_param("env", 0); if (e) { envConf = e == 9 ? (char *)"/env.conf" : word(e - 1); }
	// what is asked for
	string config = envConf ? string(envConf) : string("k8psh.conf"), command; unsigned i = 1; bool given = false;
	if (stub) command = name;
	else for (command = ""; i < argc_; i++) {
		string w = argv_[i];
		if (eqs(w, "-c") || eqs(w, "--config")) { if (i + 1 == argc_) { wantError = 1; break; } config = argv_[++i]; given = true; sym_cover("option"); }
		else if (w.length() >= 9 && eqs(w.substr(0, 9), "--config=")) { config = w.substr(9); given = true; sym_cover("option with value"); }
		else if (eqs(w, "-h") || eqs(w, "--help") || eqs(w, "-v") || eqs(w, "--version")) { wantExit = 1; break; }
		else { sym_assume(!eqs(w, "-s") && !eqs(w, "--server") && !eqs(w, "--install") && !(w.length() >= 10 && eqs(w.substr(0, 10), "--install="))); command = w; i++; break; }
	}
	if (config.length() && config[0] != '/' && !eqs(config, "../k.conf")) plainName(config.c_str()); else if (config.length()) sym_assume(eqs(config, "/k.conf") || eqs(config, "/env.conf") || eqs(config, "../k.conf"));
	(void)given; wantConfig = config; if (!config.length()) readable = 0; else if (sym_param("unread", 0)) readable = sym_choose(2, "readable");
	int c = -1; for (int k = 0; k < CMDS; k++) if (eqs(command, cmd_[k])) c = k;
	if (!wantExit && (c < 0 || !readable)) { wantError = 1; if (c < 0 && command.length()) sym_cover("unknown command"); }
	static const char *const progs[] = { "right0", "right1", "right2", "right3" };
	if (c >= 0) { wantWord[wantWords++] = progs[c]; if (c == 2) wantWord[wantWords++] = "-c"; for (; i < argc_; i++) wantWord[wantWords++] = argv_[i]; }
	inInit(2048); static Configuration conf = Configuration::load(right, "/w"); conf_ = &conf;
	phase = 1;
	try { k8psh_main((int)argc_, argv_); } catch (const std::exception &) { h_terminate(); }
	sym_fail("main() returns");
}
// parameters: n size of the program, old: 0 no target, 1 + size of the existing one; link: 0 works, 1 not across devices, 2 any error; ops free operations, faults, splits
extern "C" void c31() {
	size_t n = sym_param("n", 3), old = sym_param("old", 0), big = old ? old - 1 : 0; cap = (n > big ? n : big) + 8; name_ = new std::remove_reference<decltype(*name_)>::type[NAMES];
	ops = sym_param("ops", 12); faultsLeft = sym_param("faults", 0); splits = sym_param("splits", 0);
	exe_ = "/opt/k8psh"; unsigned t = sym_param("target", 0); static const char *const targets[] = { "/bin/tool", "tool", "x y", "--server" }; target_ = t < 4 ? string(targets[t]) : symText(t - 3, "target");
	if (t >= 4) for (char c : target_) sym_assume(c != '/');
	newInode(); auto fill = [&](uint8_t *d, size_t k, const char *what, unsigned m) { for (size_t i = 0; i < k; i++) d[i] = (uint8_t)(i * m + (i >> 8)); if (k <= 8) { if (k) sym_bytes(d, k, what); } else { sym_bytes(d, 1, what); sym_bytes(d + k / 2, 1, what); sym_bytes(d + k - 1, 1, what); } };
	fill(inode_[0].data, n, "program", 7); inode_[0].n = n; bind_(exe_, 0);
	if (sym_param("self", 0)) { bind_(full(target_.c_str()), 0); }
	else if (old) { int k = newInode(); fill(inode_[k].data, old - 1, "previous content", 13); inode_[k].n = old - 1; bind_(full(target_.c_str()), k); }
	argv_[argc_++] = "/opt/k8psh"; unsigned form = sym_param("form", 0); string joined = "--install=" + target_;
	if (form == 2) { argv_[argc_++] = "-c"; argv_[argc_++] = "c"; }
	if (form == 1) argv_[argc_++] = joined.c_str(); else { argv_[argc_++] = "--install"; if (form == 3) wantError = 1; else argv_[argc_++] = target_.c_str(); }
	if (form == 2) argv_[argc_++] = "a";
	phase = 1;
	try { k8psh_main((int)argc_, argv_); } catch (const std::exception &) { installed(1); }
	sym_fail("main() returns");
}
