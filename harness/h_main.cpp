// The server as a whole, through main(): options, client executables, background start, the listener loop and every
// process that comes out of it (C13, C24, C25, C26, C27, C28, C29, C32).
#include "session.h"
int k8psh_main(int argc, const char *argv[]);
extern "C" char **environ;
enum Role { SERVER, LAUNCHER, CONN, CMD };
static int role, budget, faultsLeft, faulted, running;
// what the server was asked to do
static struct { int daemon, disable, keep, local, overwrite, nowait; string dir, pid, exe, config, name; bool limited, timed; uint64_t max, timeout; int ownCommands, expectError; } want;
static string confText_, cwd_; static string *commandPath; static int commands_, *commandOwn; static uint16_t wantPort;
static int mayFail; // an existing file could not be removed
static int booted; // the harness is set up (before that, only constructors of the code run)
// ---- files
enum { F_UNKNOWN, F_ABSENT, F_FOREIGN, F_OURS, F_REMOVED };
struct File { string path; int state, link; }; static File *file_[16]; static int files_; static int existing;
static bool serving, startDone, cleaning;
static string absolute(const string &p) { return canonical(p.length() && p[0] == '/' ? p : cwd_ + "/" + p); }
static File *file(const string &abs) {
	for (int i = 0; i < files_; i++) if (sameQ(file_[i]->path, abs)) return file_[i];
	if (files_ == 16) sym_fail("harness: too many files");
	File *f = new File; f->path = abs; f->state = F_UNKNOWN; f->link = 0; return file_[files_++] = f;
}
static bool there(File *f) { if (f->state == F_UNKNOWN) { f->state = existing && sym_bool("file exists") ? F_FOREIGN : F_ABSENT; if (f->state == F_FOREIGN) sym_cover("existing file"); } return f->state == F_FOREIGN || f->state == F_OURS; }
static int commandFile(const string &abs) { for (int i = 0; i < commands_; i++) if (sameQ(absolute(commandPath[i]), abs)) return i; return -1; }
// ---- processes
static void finish(int mode, int code);
static int daemonForked, daemonForkFailed, sid, pidOwn = 4242, live, accepted, forked, needFork, connMode, connFd = -1, launcherTouched, pidWritten, umaskSet, servedPolls;
static string pidText; static int pidObj = -1;
static int cmdForks, execs, chdirOk, waited, sawEchild;
static void *handler_[65]; static int registered;
// ---- signals
static int signalsLeft, delivered, stopSeen, blindPolls, pipeData[8], inHandler; static bool deliveredBefore;
static int serverPipes;
// ---- time
static uint64_t clock_ = 5000000001ull, startClock, deadline; static int haveStart, calm, timePassed; enum : uint64_t { NEVER = ~0ull >> 1 };
static uint64_t pollClock;
#define IN(a, b, c, d) (P == (a) || P == (b) || P == (c) || P == (d))
#define CK4(a, b, c, d, cond, what) do { bool k8v_c = (cond); if (IN(a, b, c, d)) sym_assert(k8v_c, what); else sym_assume(k8v_c); } while (0)

static bool fault(const char *name) { if (!booted || faultsLeft <= 0) return false; if (!sym_choose(2, name)) return false; faultsLeft--; faulted = 1; return true; }
static void deliver(int sig) {
	delivered = 1; sym_cover("signal"); inHandler = 1; uint64_t before = sym_heap_ops();
	((void (*)(int))handler_[sig])(sig);
	inHandler = 0; CK(25, sym_heap_ops() == before, "the signal handler uses the heap, which hangs the server if the signal interrupts a heap operation");
}
static bool maybeSignal() { // a stop signal arrives here, or not
	if (!running || role != SERVER || signalsLeft <= 0 || !serving) return false;
	static const int sigs[] = { SIGTERM, SIGINT, SIGHUP }; unsigned can[3], n = 0;
	for (int i = 0; i < 3; i++) if (handler_[sigs[i]] != (void *)SIG_IGN && handler_[sigs[i]] != (void *)SIG_DFL) can[n++] = i;
	if (!n) return false;
	unsigned c = sym_choose(n + 1, "signal arrives"); if (!c) return false;
	signalsLeft--; deliver(sigs[can[c - 1]]); return true;
}
static int timedOut; // waits that ended because their time had passed
static void advance() { if (calm == 2) return; uint64_t d = sym_u32("time passes"); if (calm) sym_assume(d < 1000000); clock_ += d; }
static void checkCreated() {
	for (int i = 0; i < commands_; i++) {
		bool wanted = !want.disable && (want.local || !commandOwn[i]); File *f = file(absolute(commandPath[i]));
		if (wanted) CK2(27, 29, f->state == F_OURS && f->link, "a client executable is missing when the server is ready");
		else CK2(27, 29, f->state != F_OURS, "a client executable is created that should not be");
		if (want.disable) CK(27, !there(f) || mayFail, "an earlier client executable is still there although client executables are disabled");
	}
	sym_cover("executables ready");
}
static void noLongerConnecting() { // the server goes on after an accepted connection
	CK2(24, 26, !needFork, "an accepted connection is not handled in its own process");
	if (accepted) { int n = 0; for (int i = 0; i < W_MAXFD; i++) if (w_fd[i].kind == W_SOCK) n++; CK(26, n == 0, "the server keeps a connection open that its own process handles"); }
}
extern "C" {
char *h_getenv(const char *name) {
	if (!strcmp(name, "K8PSH_DEBUG") && sym_param("debug", 0)) return (char *)"all";
	if (!booted) return nullptr;
	if (!strcmp(name, "K8PSH_NAME") && sym_param("envname", 0)) return (char *)(sym_param("envname", 0) == 1 ? "envn" : "");
	if (!strcmp(name, "K8PSH_CONFIG") && sym_param("envconf", 0)) return (char *)"/e/env.conf";
	return nullptr;
}
char *h_getcwd(char *buf, size_t n) { const string &d = booted ? cwd_ : string("/w"); if (d.length() + 1 > n) { errno = ERANGE; return nullptr; } memcpy(buf, d.c_str(), d.length() + 1); return buf; }
int h_fopen(const char *path, const char *) { CK(29, eqs(want.config, path), "another configuration file is loaded than asked for"); if (sym_param("err", 0) == 10) return -ENOENT; return 0; }
long h_fsize(int) { return (long)confText_.length(); }
long h_file_read(int pos, int, void *buf, size_t n) { size_t at = (size_t)(-1 - pos), all = confText_.length(); size_t k = at < all ? all - at : 0; if (k > n) k = n; memcpy(buf, confText_.data() + at, k); return (long)k; }
long h_readlink(const char *path, char *buf, size_t n) { if (strcmp(path, "/proc/self/exe")) return w_err(ENOENT); size_t l = want.exe.length(); if (l > n) l = n; memcpy(buf, want.exe.data(), l); return (long)l; }
int h_bind(int, int, const struct sockaddr *a, unsigned) { const uint8_t *b = (const uint8_t *)a; uint16_t port = (uint16_t)(b[2] << 8 | b[3]); CK(29, port == wantPort, "the server does not serve the host it was given the name of"); if (fault("bind fails")) return EADDRINUSE; return 0; }
int h_listen(int, int, int) { if (fault("listen fails")) return EADDRINUSE; return 0; }
int h_symlink(const char *to, const char *path) {
	CK4(26, 28, 27, 32, role == SERVER, "a client executable is created by another process than the server");
	CK2(27, 28, !startDone, "a client executable is created while the server is running");
	string abs = absolute(path); File *f = file(abs); int c = commandFile(abs);
	CK2(27, 29, c >= 0, "something is created that is not named after a configured command in the directory asked for");
	CK2(27, 29, !want.disable && (want.local || !commandOwn[c]), "a client executable is created that should not be");
	CK(27, eqs(want.exe, to), "a client executable does not lead to the running program");
	if (there(f)) { want.expectError = 1; return EEXIST; }
	if (fault("symlink fails")) return EACCES;
	f->state = F_OURS; f->link = 1; return 0;
}
int h_unlink(const char *path) {
	CK2(26, 28, role != CONN && role != CMD, "a connection's process removes a file of the server");
	CK2(32, 28, role != LAUNCHER, "the starting process removes a file of the server in the background");
	string abs = absolute(path); File *f = file(abs); int c = commandFile(abs);
	if (f->state == F_OURS) {
		CK2(28, 29, !f->link || !(want.keep || !want.ownCommands), "a client executable is removed although it is to be kept");
		cleaning = true;
		f->state = F_REMOVED; if (fault("unlink fails")) return EBUSY; sym_cover(f->link ? "executable removed" : "PID file removed"); return 0;
	}
	CKS(c >= 0 && (want.overwrite || want.disable), "an existing file is removed without a request to do so", 27, 28, 29, 32);
	CKS(!startDone, "a file is removed that the server did not create", 27, 28);
	bool was = there(f); if (!was) return ENOENT; int before = faulted; if (fault("unlink fails")) { faulted = before; mayFail = 1; return EACCES; } f->state = F_ABSENT; sym_cover("overwritten"); return 0;
}
int h_open(const char *path, int flags, int) {
	if (eqs(path, "/dev/null")) { if (fault("opening the null device fails")) return -EMFILE; return 1000; }
	CKS(role == SERVER, "a file is written by another process than the server", 26, 28, 32);
	string abs = absolute(path); CK2(29, 32, want.daemon && want.pid.length() && sameQ(abs, absolute(want.pid)), "a file is written that is not the PID file asked for");
	CK(32, (flags & O_ACCMODE) != O_RDONLY && flags & O_CREAT && flags & O_EXCL, "an existing PID file is not refused");
	File *f = file(abs); if (there(f)) { want.expectError = 1; return -EEXIST; }
	if (fault("opening the PID file fails")) return -EACCES;
	f->state = F_OURS; pidObj = 2000; return 2000;
}
long h_file_write(int, int obj, const void *buf, size_t n) {
	if (obj != pidObj) return (long)n;
	if (faultsLeft > 0) { unsigned c = sym_choose(3, "writing the PID file fails"); if (c) { faultsLeft--; faulted = 1; if (c == 1) return w_err(ENOSPC); if (n < 2) return w_err(ENOSPC); n = 1; } }
	pidText += string((const char *)buf, n); return (long)n;
}
int h_chdir(const char *path) {
	if (role == CMD) { if (fault("changing the directory fails")) return ENOENT; chdirOk = 1; }
	cwd_ = absolute(path); return 0;
}
int h_setsid() { if (fault("setsid fails")) return w_err(EPERM); sid = 1; return pidOwn; }
int h_getpid() { return pidOwn; }
int h_pipe() { return booted && role != SERVER && fault("creating a pipe fails") ? EMFILE : 0; }
int h_dup2(int, int) { return role == CMD && fault("dup2 fails") ? EBUSY : 0; }
void *h_signal(int sig, void *h) { void *o = handler_[sig]; handler_[sig] = h; return o; }
int h_fork() {
	if (role == SERVER && want.daemon && !daemonForked) {
		if (fault("starting the background process fails")) return w_err(EAGAIN);
		daemonForked = 1;
		if (sym_param("launcher", 0) && sym_choose(2, "process")) { role = LAUNCHER; running = 0; return 4243; }
		pidOwn = 4243; return 0;
	}
	if (role == SERVER) {
		if (!serving) CK2(29, 32, false, "the server goes to the background without being asked to");
		CK4(24, 26, 25, 13, needFork == 1, "a process is started without a connection");
		if (fault("fork fails")) return w_err(EAGAIN);
		needFork = 0; forked++;
		if (connMode && (connMode == 2 || sym_choose(2, "process"))) { role = CONN; serverPipes = w_nextPipe; running = 0; pidOwn = 5000; return 0; }
		live++; (void)maybeSignal(); return 100 + forked;
	}
	if (role == CONN) {
		cmdForks++; if (fault("starting the command fails")) return w_err(EAGAIN);
		if (sym_choose(2, "process")) { role = CMD; pidOwn = 5001; return 0; }
		return 5001;
	}
	sym_fail("a process is started by a process that has no business doing so");
}
void h_exec(const char *path, char *const *, char *const *envp, int) {
	environ = (char **)envp;
	CK4(13, 26, 26, 26, role == CMD, "the server itself is replaced by a command");
	CK(13, chdirOk && sameQ(canonical(cwd_), canonical(want.name)), "the command is started in another directory than asked for");
	CK(13, w_fd[0].kind == W_PIPE_R && w_fd[1].kind == W_PIPE_W && w_fd[2].kind == W_PIPE_W && w_fd[1].obj != w_fd[2].obj && w_fd[0].obj != w_fd[1].obj && w_fd[0].obj != w_fd[2].obj && w_fd[0].obj >= serverPipes && w_fd[1].obj >= serverPipes && w_fd[2].obj >= serverPipes, "the command's standard streams are not its session's");
	for (int i = 0; i < W_MAXFD; i++) if (w_fd[i].kind != W_FREE && !w_fd[i].cloexec) {
		if (i > 2) { bool exitPipe = w_fd[i].kind == W_PIPE_W && w_fd[i].obj < serverPipes; if (exitPipe) CK(25, false, "a command keeps the pipe open that tells the server to stop, so the server does not stop while it runs"); sym_print("descriptor", i); CK(13, false, "the command gets a descriptor that is not its own"); }
		else CK(13, !w_fd[i].nonblock, "a standard stream of the command does not block");
	} else CK(13, i > 2, "a standard stream of the command is closed when it starts");
	CK(13, handler_[SIGCHLD] == (void *)SIG_DFL && handler_[SIGPIPE] == (void *)SIG_DFL, "the command starts with a signal ignored that a program expects to have its default effect");
	(void)path;
	execs++;
	if (sym_param("execfails", 0) && execs < 3 && sym_choose(2, "the program cannot be started")) { faulted = 1; errno = ENOENT; sym_cover("exec fails"); return; }
	sym_cover("command starts"); sym_end();
}
static bool connectionStart; // the first thing a connection's process waits for
static void served() {
	if (connectionStart) return; connectionStart = true; sym_cover("connection served");
	bool listening = false, exitPipe = false;
	for (int i = 0; i < W_MAXFD; i++) { if (w_fd[i].kind == W_LISTEN) listening = true; if (w_fd[i].kind == W_PIPE_W && w_fd[i].obj < serverPipes) exitPipe = true; }
	CK(26, !listening, "a connection's process keeps the server's socket open");
	if (exitPipe && P == 25) { memset(pipeData, 0, sizeof pipeData); inHandler = 1; ((void (*)(int))handler_[SIGTERM])(SIGTERM); inHandler = 0; bool wakes = false; for (int i = 0; i < 8; i++) wakes |= pipeData[i] > 0; CK(25, wakes, "a connection's process keeps the pipe open that tells the server to stop, so the server does not stop while it runs"); }
}
int h_accept(int, int) {
	CK2(26, 24, role == SERVER, "another process than the server accepts connections");
	noLongerConnecting();
	CK2(25, 24, !stopSeen, "the server accepts connections after it was told to stop");
	CK2(24, 29, !want.limited || (uint64_t)accepted < want.max, "more connections are accepted than configured");
	if (want.timed) CK2(24, 29, pollClock < (deadline > NEVER - 1000000 ? NEVER : deadline + 1000000), "a connection is accepted after the configured time has passed");
	(void)maybeSignal();
	if (budget > 0) {
		static const int errs[] = { EAGAIN, ECONNABORTED, EINTR, EMFILE, ENFILE, ENOBUFS, ENOMEM }; unsigned c = sym_choose(sym_param("accepts", 0) ? 8 : 1, "accept");
		if (c) { budget--; sym_cover("accept fails"); return errs[c - 1]; }
	}
	if (fault("accept fails for good")) return EBADF;
	accepted++; needFork = 1; return 0;
}
long h_sock_recv(int, int, void *buf, size_t n, int) {
	CK2(26, 24, role == CONN, "another process than the connection's own reads from it"); served();
	if (inAt == inN) { if (sym_param("reset", 0) || faultsLeft <= 0 || !fault("connection reset")) return sym_param("reset", 0) ? w_err(ECONNRESET) : 0; return w_err(ECONNRESET); }
	size_t k = inN - inAt; if (k > n) k = n; memcpy(buf, in_ + inAt, k); inAt += k; return (long)k;
}
long h_sock_send(int, int, const void *, size_t n, int) { if (fault("send fails")) return w_err(EPIPE); return (long)n; }
long h_pipe_read(int, int obj, void *, size_t) { if (obj < 8 && pipeData[obj] > 0) { pipeData[obj]--; return 1; } return 0; }
long h_pipe_write(int, int obj, const void *, size_t n) { if (obj < 8) pipeData[obj] += (int)n; return (long)n; }
static int connPoll(struct pollfd *p, unsigned n) {
	int ready = 0;
	for (unsigned i = 0; i < n; i++) {
		p[i].revents = 0; if (p[i].fd < 0) continue; WFd &f = w_fd[p[i].fd]; short r = 0;
		if (f.kind == W_PIPE_R) r = POLLHUP; else if (f.kind == W_PIPE_W) r = POLLOUT; else if (f.kind == W_SOCK && sym_param("leaves", 0)) r = POLLIN;
		p[i].revents = r & (p[i].events | POLLHUP | POLLERR); if (p[i].revents) ready++;
	}
	return ready;
}
int h_poll(struct pollfd *p, unsigned n, int timeout) {
	if (role == CONN) { served(); return connPoll(p, n); }
	CK4(26, 32, 13, 24, role == SERVER, "a process that is not the server serves");
	if (!startDone) { startDone = true; checkCreated(); }
	serving = true; servedPolls++; noLongerConnecting(); CK(28, !cleaning, "files are removed while the server is still serving");
	CKS(!want.expectError && (!faulted || live || accepted), "the server serves although its start failed", 24, 27, 28, 29, 32);
	CK(24, want.ownCommands > 0, "a server without commands serves");
	if (want.daemon) {
		CK(32, daemonForked && sid, "the server in the background has not left the session it was started from");
		for (int i = 0; i < 3; i++) CK(32, w_fd[i].kind == W_NULL, "a standard stream of the server in the background is not the null device");
		if (want.pid.length()) { CK2(29, 32, pidObj >= 0, "no PID file is written"); CK(32, eqs(pidText, "4243\n"), "the PID file does not hold the server's process number"); sym_cover("PID written"); }
	} else CK2(29, 32, !daemonForked && !sid && pidObj < 0, "the server goes to the background without being asked to");
	CK(25, handler_[SIGTERM] != (void *)SIG_DFL && handler_[SIGINT] != (void *)SIG_DFL && handler_[SIGTERM] != (void *)SIG_IGN && handler_[SIGINT] != (void *)SIG_IGN && handler_[SIGHUP] != (void *)SIG_DFL && (want.daemon || handler_[SIGHUP] != (void *)SIG_IGN), "a stop signal is not handled while the server is serving");
	CK2(25, 24, !stopSeen, "the server goes on although it has noticed that it must stop");
	CK2(24, 29, !want.limited || (uint64_t)accepted < want.max, "the server goes on after the configured number of connections");
	uint64_t now = clock_; pollClock = now;
	if (want.timed) {
		CK2(24, 29, haveStart, "the configured time is not measured");
		CK2(24, 29, timeout >= 0, "the server waits without regard to the configured time");
		uint64_t left = deadline > now ? deadline - now : 0;
		CK2(24, 29, (uint64_t)(uint32_t)timeout * 1000000 <= left + 1000000, "the server waits longer than the configured time");
	} else CK2(24, 29, timeout != 0 || delivered, "the server does not wait for connections");
	if (maybeSignal()) return w_err(EINTR);
	if (fault("poll fails")) return w_err(ENOMEM);
	bool exitReady = false, polled = false, listenReady = false; for (unsigned i = 0; i < n; i++) { p[i].revents = 0; if (p[i].fd < 0) continue; WFd &f = w_fd[p[i].fd]; if (f.kind == W_PIPE_R) { bool hup = w_refs(W_PIPE_W, f.obj) == 0, data = f.obj < 8 && pipeData[f.obj] > 0; if (hup || data) { exitReady = true; p[i].revents = hup ? POLLHUP : POLLIN; } } if (f.kind == W_LISTEN) polled = true; }
	if (delivered) { CK(25, exitReady || (timeout >= 0 && ++blindPolls < 4), "the server does not notice that it must stop"); }
	else { if (exitReady) sym_fail("the server stops without being asked to"); }
	if (exitReady) stopSeen = 1;
	int ready = exitReady ? 1 : 0;
	CK(24, polled, "the server does not wait for connections");
	if (budget > 0 && sym_choose(2, "a connection arrives")) listenReady = true;
	if (listenReady) { budget--; for (unsigned i = 0; i < n; i++) if (p[i].fd >= 0 && w_fd[p[i].fd].kind == W_LISTEN) { p[i].revents = POLLIN; ready++; } if (want.timed && calm < 2) { uint32_t d = sym_u32("time until it arrives"); clock_ += d; } sym_cover("connection arrives"); }
	if (!ready) {
		if (budget > 0 && sym_choose(2, "interrupted")) { budget--; return w_err(EINTR); }
		if (timeout < 0) { sym_cover("waits"); sym_end(); } // nothing more happens
		clock_ += (uint64_t)timeout * 1000000; if (calm < 2) advance();
		if (servedPolls > 6 || ++timedOut > (int)sym_param("waits", 2)) sym_end();
	}
	return ready;
}
int h_wait(int pid, int *st, int options) {
	if (role == CONN) { if (st) *st = 0; return 5001; }
	CK2(24, 26, role == SERVER, "waiting in another process");
	if (options & WNOHANG) { if (handler_[SIGCHLD] == (void *)SIG_IGN) live = 0; if (!live) return w_err(ECHILD); return 0; }
	CK2(24, 29, !want.nowait, "the server waits for connections although it was told not to"); CK(24, stopSeen || timePassed || want.limited || want.timed, "the server waits for connections while it should accept");
	waited = 1; if (budget > 0 && sym_choose(2, "wait interrupted")) { budget--; return w_err(EINTR); }
	if (handler_[SIGCHLD] == (void *)SIG_IGN) live = 0;
	if (!live) { sawEchild = 1; return w_err(ECHILD); }
	live--; if (st) *st = (int)sym_u16("status"); (void)pid; return 100 + live;
}
int h_kill(int pid, int) { CK4(26, 24, 13, 25, role == CONN && pid == 5001, "a signal is sent to a process that is not a command of this connection"); return 0; }
long h_steady() {
	if (!booted || role != SERVER || !want.timed) return (long)clock_;
	advance();
	if (!haveStart) { haveStart = 1; startClock = clock_; uint64_t room = (NEVER - clock_) / 1000000; deadline = want.timeout > room ? (uint64_t)NEVER : clock_ + want.timeout * 1000000; }
	return (long)clock_;
}
unsigned h_umask(unsigned) { umaskSet = 1; return 022; }
void h_exit(int c) { finish(0, c); }
void h_abort() { finish(1, 0); }
void h_terminate() { finish(1, 0); }
int h_gethostname(char *buf, size_t) { memcpy(buf, "box", 4); return 0; }
}
// A process ends. mode 0: exit(code), 1: abnormally.
static void finish(int mode, int code) {
	if (role == LAUNCHER) { CK(32, mode == 0 && code == 0, "the starting process does not report success"); sym_cover("launched"); sym_end(); }
	if (role == CMD) { CK(13, mode == 1, "a command that could not be started ends as if it had run"); sym_cover("command not started"); sym_end(); }
	if (role == CONN) { sym_cover(mode ? "connection fails" : "connection ends"); sym_end(); }
	bool failed = faulted || want.expectError || mayFail;
	if (!failed) noLongerConnecting();
	if (mode == 1 || code != 0) {
		CKS(failed, "an undisturbed server fails", 24, 25, 26, 27, 28, 29, 32); sym_cover("start or service fails");
		if (!serving) CK(32, mode == 1 || !want.daemon, "a failed background start is not reported"); // errors are reported before they propagate
	} else {
		CKS(!want.expectError, "a failed start is not reported", 27, 28, 29, 32);
		if (want.ownCommands) {
			CK4(24, 29, 32, 27, startDone || (want.limited && want.max == 0) || (want.timed && clock_ >= deadline), "the server ends without serving");
			CKS(delivered || want.limited || want.timed, "the server stops although nothing told it to", 24, 25, 26);
			bool limit = want.limited && (uint64_t)accepted == want.max;
			if (!delivered && !limit) { CK2(24, 29, want.timed, "the server stops before the configured number of connections"); timePassed = 1; CK2(24, 29, clock_ + 1000000 >= deadline, "the server stops before the configured time has passed"); sym_cover("time passed"); }
			if (limit) sym_cover("limit reached"); if (delivered) sym_cover("stopped by a signal");
			if (!want.nowait) CK2(24, 29, live == 0, "the server ends before its connections do"); else if (live) sym_cover("connections left");
		} else { checkCreated(); sym_cover("nothing to serve"); }
	}
	for (int i = 0; i < files_; i++) if (file_[i]->state == F_OURS) CKS(file_[i]->link && (want.keep || !want.ownCommands), file_[i]->link ? "a client executable is left behind" : "the PID file is left behind", 28, 29, 32);
	sym_cover("server ends");
	sym_end();
}
// ---- options
static const char *argv_[48]; static int argc_; static string *header_;
static int spell_, place_;
static void put(bool cmdline, const string &w) { if (cmdline) { string *s = new string(w); argv_[argc_++] = s->c_str(); } else { *header_ += " '"; *header_ += w; *header_ += "'"; } }
static void option(const char *shortForm, const char *longForm, const string *value, int forcePlace = -1, bool canConfig = true) {
	int place = !canConfig ? 0 : forcePlace >= 0 ? forcePlace : place_ == 2 ? (int)sym_choose(2, "place") : place_;
	int forms = value ? 3 : 2, spell = spell_ == 3 ? (int)sym_choose(forms, "form") : spell_ < forms ? spell_ : 1; if (!shortForm[0] && spell == 0) spell = 1;
	if (spell == 2) put(place == 0, string(longForm) + "=" + *value);
	else { put(place == 0, spell ? longForm : shortForm); if (value) put(place == 0, *value); }
}
// parameters: opts (bits: 1 background, 2 disable, 4 directory, 8 keep, 16 local, 32 limit, 64 overwrite, 128 PID file, 256 timeout, 512 no wait), dir, pid, own, other, exist, faults, signals, budget, conn, spell, place, over, err, ...
extern "C" void mainserver() {
	int opts = sym_param("opts", 0); budget = sym_param("budget", 2); faultsLeft = 0; existing = sym_param("exist", 0); signalsLeft = sym_param("signals", 0); connMode = sym_param("conn", 0); spell_ = sym_param("spell", 1); place_ = sym_param("place", 0); calm = sym_param("calm", 0); w_checkFd = 0;
	if (sym_param("symopts", 0)) { int m = sym_param("symopts", 0); for (int b = 0; b < 10; b++) if (m >> b & 1) if (sym_choose(2, "option given")) opts |= 1 << b; }
	want.exe = "/opt/k8psh"; cwd_ = "/w"; want.config = "k8psh.conf"; role = SERVER; running = 1;
	string header; header_ = &header; bool ignore = false;
	argv_[argc_++] = sym_param("prog", 0) ? "k8psh" : "/opt/k8pshd"; if (sym_param("prog", 0)) put(true, sym_param("prog", 0) == 1 ? "-s" : "--server");
	int err = sym_param("err", 0); if (err) want.expectError = 1;
	if (err == 6 || err == 7) { option("-i", "--ignore-invalid-arguments", nullptr, 0); ignore = true; want.expectError = 0; }
	if (err == 8) { option("-i", "--ignore-invalid-arguments", nullptr, 1); ignore = true; want.expectError = 0; }
	// name
	string name = "box"; if (sym_param("envname", 0) == 1) name = "envn"; else if (sym_param("envname", 0) == 2) name = "";
	if (sym_param("given", 0)) { string g = "givn"; option("-n", "--name", &g, 0); name = g; }
	if (sym_param("envconf", 0)) want.config = "/e/env.conf";
	if (sym_param("conf", 0)) { want.config = sym_param("conf", 0) == 1 ? "x y/k.conf" : "/abs/c.conf"; option("-c", "--config", &want.config, 0); }
	static string dirs[] = { "x", "/abs/d", "x/y/", ".", "../up", "-b" };
	static string pids[] = { "run.pid", "/run/p.pid", "sub/../p.pid", "" };
	string dir, pid = "/run/k8pshd.pid", dirV, pidV, maxV, timeV; int over = sym_param("over", 0);
	if (opts & 4) { unsigned d = sym_param("dir", 0); dirV = d < 6 ? dirs[d] : symText(d - 5, "directory"); if (d >= 6) for (char c : dirV) sym_assume((c >= 'a' && c <= 'c') || c == '-' || c == '=' || c == '/' || c == '.' || c == ' '); dir = dirV + "/"; }
	if (opts & 128) { pid = pidV = pids[sym_param("pid", 0)]; }
	auto number = [&](unsigned digits, unsigned freeDigits, int sign, uint64_t &v, const char *what) {
		string s; if (sign) s += '-'; v = 0; static const char big[] = "9223372036854775807";
		for (unsigned i = 0; i < digits; i++) { uint8_t d; if (i + freeDigits < digits) d = sym_param("top", 0) ? big[i] : '0' + (i * 7 + 3) % 9; else { d = sym_u8(what); sym_assume(d >= '0' && d <= '9'); if (sym_param("top", 0)) sym_assume(d <= (uint8_t)big[i]); } s += (char)d; v = v * 10 + (d - '0'); }
		if (sign) sym_assume(v != 0);
		return s;
	};
	if (opts & 32) { maxV = number(sym_param("md", 1), sym_param("mfree", 9), sym_param("msign", 0), want.max, "limit digit"); want.limited = !sym_param("msign", 0); }
	if (opts & 256) { timeV = number(sym_param("td", 1), sym_param("tfree", 9), sym_param("tsign", 0), want.timeout, "timeout digit"); want.timed = !sym_param("tsign", 0); }
	string other = "77";
	if (over) { // the configuration says something else
		static string od = "elsewhere", op = "/else.pid"; 
		if (opts & 4) option("-e", "--executable-directory", &od, 1); if (opts & 32) option("-m", "--max-connections", &other, 1); if (opts & 128) option("-p", "--pidfile", &op, 1); if (opts & 256) option("-t", "--timeout", &other, 1);
	}
	int fp = over ? 0 : -1;
	if (err == 1 || err == 6) { put(true, sym_param("word", 0) ? "word" : "--bogus"); }
	if (err == 2 || err == 7 || err == 8) { put(false, sym_param("word", 0) ? "word" : "-z"); }
	if (opts & 1) { option("-b", "--background", nullptr); want.daemon = 1; }
	if (opts & 2) { option("-d", "--disable-client-executables", nullptr); want.disable = 1; }
	if (opts & 4) option("-e", "--executable-directory", &dirV, fp);
	if (opts & 8) { option("-k", "--keep-client-executables", nullptr); want.keep = 1; }
	if (opts & 16) { option("-l", "--generate-local-executables", nullptr); want.local = 1; }
	if (opts & 32) option("-m", "--max-connections", &maxV, fp);
	if (opts & 64) { option("-o", "--overwrite-client-executables", nullptr); want.overwrite = 1; }
	if (opts & 128) option("-p", "--pidfile", &pidV, fp);
	if (opts & 256) option("-t", "--timeout", &timeV, fp);
	if (opts & 512) { option("-w", "--no-wait", nullptr); want.nowait = 1; }
	if (err == 3 || err == 4) { static const char *const needs[] = { "-e", "--executable-directory", "-m", "--max-connections", "-p", "--pidfile", "-t", "--timeout", "-n", "--name", "-c", "--config" }; put(err == 3, needs[sym_choose(err == 3 ? 12 : 8, "option without a value")]); }
	if (err == 5) { unsigned n = sym_param("elen", 2); string e = symText(n, "unknown option"); for (char c : e) sym_assume(c > ' ' && c < 127); static const char *const known[] = { "-b", "-d", "-k", "-l", "-o", "-w", "-e", "-m", "-p", "-t", "-c", "-n", "-h", "-i", "-s", "-v" }; for (auto k : known) sym_assume(!eqs(e, k)); put(true, e); }
	(void)ignore;
	int own = sym_param("own", 1), others = sym_param("other", 1); static const char *const ownNames[] = { "b", "m", "z" }, *const otherNames[] = { "c", "a", "y" };
	want.ownCommands = own; wantPort = 2001;
	string text; bool first = sym_param("first", 1); commandPath = new string[6]; commandOwn = new int[6];
	auto section = [&](bool mine) {
		int n = mine ? own : others; if (!n) return;
		text += mine ? "[" + name + ":2001]" + header : name == "box" ? string("[envn:2002]") : name == "envn" ? string("[box:2002]") : string("[box:2002] -b\nu prog\n[envn:2003]"); 
		if (!mine && name != "box" && name != "envn") { commandOwn[commands_] = 0; commandPath[commands_++] = dir + "u"; }
		text += "\n";
		if (!mine && sym_param("dup", 0)) { text += "b prog other\n"; bool found = false; for (int i = 0; i < commands_; i++) if (eqs(commandPath[i], (dir + "b").c_str())) { found = true; commandOwn[i] = 0; } if (!found) { commandOwn[commands_] = 0; commandPath[commands_++] = dir + "b"; } }
		for (int i = 0; i < n; i++) { const char *c = mine ? ownNames[i] : otherNames[i]; text += string(c) + " prog arg\n"; bool found = false; for (int j = 0; j < commands_; j++) if (eqs(commandPath[j], (dir + c).c_str())) { found = true; commandOwn[j] = mine; } if (!found) { commandOwn[commands_] = mine; commandPath[commands_++] = dir + c; } }
	};
	if (first) section(true); section(false); if (!first) section(true);
	if (!text.length()) text = "[none:9]\n";
	confText_ = text; want.dir = dir; want.pid = want.daemon ? pid : string();
	// paths are resolved where the server was started
	for (int i = 0; i < commands_; i++) commandPath[i] = absolute(commandPath[i]); if (want.pid.length()) want.pid = absolute(want.pid);
	// what a client sends
	inInit(256); int script = sym_param("script", 0); unsigned dl = script >= 3 ? (unsigned)sym_param("dlen", 1) : 0; string cdir = dl ? symText(dl, "client directory") : string(); for (char c : cdir) sym_assume(c == 'd' || c == '.' || c == '/'); want.name = absolute(want.config + "/..") + "/" + cdir;
	switch (script) {
	case 1: message(M_STDOUT, "x"); break;
	case 2: message(M_START, "c"); break;
	case 3: message(M_DIR, cdir.data(), cdir.length()); break;
	case 4: case 5: message(M_DIR, cdir.data(), cdir.length()); message(M_START, "b"); break;
	}
	faultsLeft = sym_param("faults", 0); booted = 1;
	try { k8psh_main(argc_, argv_); } catch (const std::exception &) { finish(1, 0); }
	sym_fail("main() returns");
}
