// A whole session: the client and the server, both the real code, run against each other (C37). They are two lines of
// execution of one symbolic run, connected by a socket with bounded buffers; a command and a user are modelled.
#include "session.h"
enum { CLIENT, SERVER, PID = 77, SIZE = 4096 };
static int side, done[2], mode_[2], lost[2], result, budget, probing, probeBase, pipeRole[12], victim = -1, ignored[2], polls;
static WFd fds[2][W_MAXFD];
static unsigned long moves = 1, blockedAt[2]; static int timed_[2], timeUp, idle;
static void moved() { moves++; idle = 0; }
// the connection: ch[CLIENT] carries what the client sends
struct Channel { uint8_t b[SIZE]; size_t cap, sent, got; int fin; };
static Channel ch[2]; static int closed_[2], reset_[2];
// the command, its streams (0 its input) and the user's input
static uint8_t src[3][SIZE]; static size_t made[3], taken[3], pcap, written[3]; static int ended[3], inEof, logged;
static int started, exited, reaped, killed, status_, failed, script[16], ops, opAt, burst, burstLeft, sawEof, opened, left_, gone[3];
static uint8_t user[64]; static size_t chunk, userN, userMade, userRead; static int userEnded, userOpen, eager;
static void finish();
static void pass() { // the other side continues
	int me = side, e = errno; memcpy(fds[me], w_fd, sizeof w_fd); side = 1 - me; memcpy(w_fd, fds[side], sizeof w_fd);
	sym_switch(); errno = e;
}
static bool alive(int s) { return !done[s]; }
static void leave(int s) { // the process's descriptors are closed
	if (!closed_[s]) { closed_[s] = 1; ch[s].fin = 1; if (ch[1 - s].sent > ch[1 - s].got) reset_[1 - s] = 1; }
}
static void over(int mode) {
	done[side] = 1; mode_[side] = mode; leave(side); if (side == SERVER) inEof = 1; moved();
	if (done[CLIENT] && done[SERVER]) finish();
	if (lost[SERVER] && done[CLIENT]) finish();
	for (;;) pass();
}
// ---- the command: writes, reads, closes its streams, exits
enum { END, OUT, ERR, MANYOUT, MANYERR, READ, READALL, CLOSEIN, CLOSEOUT, CLOSEERR, CAT, EXITS, DIES, ANY, LEAVES };
static bool room(int s) { return ended[s] || lost[SERVER] || done[SERVER] || gone[s] || made[s] - taken[s] < pcap; }
static bool cmdCan() {
	if (!started || (exited && !left_)) return false;
	if ((killed && !left_) || failed) return true;
	switch (opAt < ops ? script[opAt] : END) {
	case OUT: case MANYOUT: return room(1);
	case ERR: case MANYERR: return room(2);
	case READ: case READALL: return made[0] > taken[0] || inEof || ended[0];
	case CAT: return (made[0] > taken[0] && room(1)) || (made[0] == taken[0] && inEof) || ended[0];
	default: return true;
	}
}
static void quit(int status) { if (!exited) status_ = status; exited = 1; left_ = 0; ended[0] = ended[1] = ended[2] = 1; }
static size_t take(uint8_t *to, size_t n) { // the command reads
	size_t k = made[0] - taken[0]; if (k > n) k = n;
	if (!k && inEof && !lost[CLIENT] && !lost[SERVER]) { CK(37, userEnded && taken[0] == userMade, "the end of the input is signalled before the command has received all of it"); sawEof = 1; sym_cover("end of input"); }
	CK(37, taken[0] + k <= userMade, "the command receives more input than there is");
	CK(37, sym_equal(src[0] + taken[0], user + taken[0], k), "the command receives other input than the user's");
	if (to) memcpy(to, src[0] + taken[0], k); taken[0] += k; if (k) sym_cover("input received"); return k;
}
static void put(int s, const uint8_t *p, size_t n) {
	if (ended[s]) return;
	if (lost[SERVER] || done[SERVER] || gone[s]) { CK(37, lost[CLIENT] || lost[SERVER] || done[CLIENT], "output is refused while the session goes on"); failed = 1; return; } // a broken pipe
	if (made[s] + n > SIZE) sym_fail("harness: too much output");
	memcpy(src[s] + made[s], p, n); made[s] += n;
}
static void cmdDo() {
	moved();
	if (killed && !left_) { quit(SIGTERM); sym_cover("terminated"); return; }
	if (failed) { quit(SIGPIPE); return; }
	int op = opAt < ops ? script[opAt] : END; uint8_t b[64];
	if (op == ANY) { static const int any[] = { OUT, ERR, READ, CLOSEIN, CLOSEOUT, CLOSEERR }; script[opAt] = any[sym_choose(6, "the command")]; return; }
	switch (op) {
	case OUT: case ERR: b[0] = sym_u8("output"); put(op == OUT ? 1 : 2, b, 1); break;
	case MANYOUT: case MANYERR: { int s = op == MANYOUT ? 1 : 2; if (!burstLeft) burstLeft = burst; size_t k = pcap - (made[s] - taken[s]); if (ended[s] || lost[SERVER] || done[SERVER] || gone[s]) { put(s, b, 1); burstLeft = 0; break; } if (k > (size_t)burstLeft) k = burstLeft; for (size_t i = 0; i < k; i++) b[i] = (uint8_t)(made[s] + i * 7 + s); put(s, b, k); burstLeft -= (int)k; if (burstLeft) return; break; }
	case READ: if (!ended[0]) take(nullptr, 64); break;
	case READALL: if (!ended[0] && (take(nullptr, 64) || made[0] > taken[0])) return; break;
	case CLOSEIN: ended[0] = 1; sym_cover("command closes its input"); break;
	case CLOSEOUT: ended[1] = 1; break;
	case CLOSEERR: ended[2] = 1; break;
	case CAT: { if (ended[0]) break; size_t k = ended[1] ? 64 : pcap - (made[1] - taken[1]); k = take(b, k); if (k) { put(1, b, k); return; } break; }
	case LEAVES: { uint8_t c = sym_u8("exit code"); status_ = (int)c << 8; exited = 1; left_ = 1; ended[0] = 1; sym_cover("outlived"); break; } // the command exits, a process it has started keeps the outputs
	case DIES: { uint8_t s = sym_u8("signal"); sym_assume(s >= 1 && s <= 64); quit(s); break; }
	default: { uint8_t c = sym_u8("exit code"); quit((int)c << 8); }
	}
	opAt++;
}
static bool userCan() { return userMade < userN || (!userEnded && !userOpen); }
static void userDo() { moved(); if (userMade < userN) userMade = budget > 0 && userN - userMade > 1 && sym_choose(2, "typed") ? userMade + 1 : userN - userMade > chunk ? userMade + chunk : userN; else userEnded = 1; }
// ---- scheduling: which process, the command or the user moves next
static void death() { if (victim == side && sym_choose(2, "killed")) { victim = -1; lost[side] = 1; sym_cover(side == CLIENT ? "client killed" : "server killed"); over(2); } }
static void point() { // before a call that the other parties can observe or influence
	if (probing) return;
	death();
	if (budget <= 0) return;
	bool o = alive(1 - side), c = cmdCan(), u = userCan(); unsigned n = 1 + o + c + u; if (n == 1) return;
	unsigned k = sym_choose(n, "next"); if (!k) return;
	budget--; if (o && --k == 0) { pass(); return; } if (c && --k == 0) { cmdDo(); return; } userDo();
}
static void hang() {
	if (userOpen && !exited && !lost[CLIENT] && !lost[SERVER] && started && opAt < ops && (script[opAt] == READ || script[opAt] == READALL || script[opAt] == CAT)) { sym_cover("waits for the user"); sym_end(); }
	CK(37, !lost[CLIENT] || exited || killed, "the command is not terminated although the client is gone");
	CK(37, !lost[SERVER], "the client hangs although the server is gone");
	CK(37, false, exited ? "the session hangs although the command has exited" : "the session hangs");
	sym_assume(0);
}
static bool block(bool timed) { // waits; true: the time is up
	enum { OTHER, COMMAND, USER, TIME }; unsigned opt[4], n = 0; int me = side, other = 1 - me; blockedAt[me] = moves; timed_[me] = timed;
	if (timeUp && timed) { timeUp = 0; idle++; return true; }
	bool o = alive(other) && blockedAt[other] != moves; // the other side can do something
	if (o && !eager) opt[n++] = OTHER;
	if (cmdCan()) opt[n++] = COMMAND;
	if (userCan()) opt[n++] = USER;
	if (o && eager) opt[n++] = OTHER;
	if (timed && idle < 4) opt[n++] = TIME;
	if (!n) { if (alive(other) && timed_[other] && idle < 4) { timeUp = 1; pass(); return false; } hang(); return false; }
	unsigned k = budget > 0 && n > 1 ? sym_choose(n, "waits for") : 0; if (k) budget--;
	switch (opt[k]) {
	case OTHER: pass(); if (timeUp && timed) { timeUp = 0; idle++; return true; } return false;
	case COMMAND: cmdDo(); return false;
	case USER: userDo(); return false;
	default: idle++; return true;
	}
}
extern "C" {
int h_poll(struct pollfd *p, unsigned n, int timeout) {
	if (probing) return w_err(EIO);
	point();
	if (++polls > 400) { CK(37, false, "the session does not end"); sym_assume(0); }
	for (;;) {
		unsigned ready = 0; Channel &in = ch[1 - side];
		for (unsigned i = 0; i < n; i++) {
			p[i].revents = 0; int fd = p[i].fd; if (fd < 0) continue;
			if (!w_valid(fd)) { p[i].revents = POLLNVAL; ready++; continue; }
			WFd &f = w_fd[fd]; short r = 0;
			if (f.kind == W_STDIN) { if (userMade > userRead) r |= POLLIN; if (userEnded) r |= POLLHUP; }
			else if (f.kind == W_PIPE_R) { int s = pipeRole[f.obj]; if (made[s] > taken[s]) r |= POLLIN; if (ended[s]) r |= POLLHUP; }
			else if (f.kind == W_PIPE_W) { if (ended[0]) r |= POLLERR; else if (made[0] - taken[0] < pcap) r |= POLLOUT; }
			else if (f.kind == W_SOCK) { if (in.sent > in.got || in.fin) r |= POLLIN; if (in.fin && ch[side].fin) r |= POLLHUP; if (reset_[side]) r |= POLLIN | POLLERR | POLLHUP; }
			p[i].revents = r & (p[i].events | POLLERR | POLLHUP); if (p[i].revents) ready++;
		}
		if (ready || timeout == 0) return (int)ready;
		if (block(timeout > 0)) return 0;
	}
}
long h_sock_recv(int, int, void *buf, size_t n, int) {
	sym_readable(buf, n);
	if (probing) { size_t k = inN - inAt; if (k > n) k = n; memcpy(buf, in_ + inAt, k); inAt += k; return (long)k; }
	point(); Channel &in = ch[1 - side];
	while (in.sent == in.got && !in.fin && !reset_[side]) block(false);
	if (reset_[side]) return w_err(ECONNRESET); // what had not been read is lost
	size_t k = in.sent - in.got; if (k > n) k = n;
	if (k > 1 && budget > 0 && sym_choose(2, "received")) { budget--; k = 1; }
	memcpy(buf, in.b + in.got, k); in.got += k; if (k) moved(); return (long)k;
}
long h_sock_send(int, int, const void *buf, size_t n, int flags) {
	if (probing) return (long)n;
	point(); Channel &out = ch[side]; const uint8_t *b = (const uint8_t *)buf; size_t at = 0;
	while (at < n) {
		if (reset_[side] || out.fin) { if (!ignored[side] && !(flags & MSG_NOSIGNAL)) { sym_cover("broken pipe"); over(2); } return w_err(EPIPE); }
		if (closed_[1 - side]) { reset_[side] = 1; moved(); return (long)n; } // the answer is a reset
		size_t k = out.cap - (out.sent - out.got); if (k > n - at) k = n - at;
		if (!k) { sym_cover("connection full"); block(false); continue; }
		if (out.sent + k > SIZE) sym_fail("harness: too much traffic");
		memcpy(out.b + out.sent, b + at, k); out.sent += k; at += k; moved();
	}
	return (long)n;
}
long h_pipe_read(int, int obj, void *buf, size_t n) {
	int s = pipeRole[obj]; sym_readable(buf, n); death();
	while (made[s] == taken[s] && !ended[s]) block(false);
	size_t k = made[s] - taken[s]; if (k > n) k = n; memcpy(buf, src[s] + taken[s], k); taken[s] += k; if (k) moved(); return (long)k;
}
long h_pipe_write(int fd, int, const void *buf, size_t n) {
	point(); size_t k;
	for (;;) {
		if (ended[0]) { if (!ignored[side]) { CK(37, false, "a command that does not read its input kills the session"); over(2); } return w_err(EPIPE); }
		k = pcap - (made[0] - taken[0]); if (k) break;
		sym_cover("input pipe full"); if (w_fd[fd].nonblock) return w_err(EAGAIN);
		block(false);
	}
	if (k > n) k = n; if (made[0] + k > SIZE) sym_fail("harness: too much input");
	memcpy(src[0] + made[0], buf, k); made[0] += k; moved(); return (long)k;
}
long h_std_read(void *buf, size_t n) {
	sym_readable(buf, n); death();
	while (userRead == userMade && !userEnded) block(false);
	size_t k = userMade - userRead; if (k > n) k = n; if (k > chunk) k = chunk; memcpy(buf, user + userRead, k); userRead += k; if (k) moved(); return (long)k;
}
static void wrote(int s, const uint8_t *p, size_t n) {
	CK(37, written[s] + n <= made[s], s == 1 ? "more is written to the client's standard output than the command wrote" : "more is written to the client's standard error than the command wrote");
	CK(37, sym_equal(p, src[s] + written[s], n), s == 1 ? "other data is written to the client's standard output than the command wrote" : "other data is written to the client's standard error than the command wrote");
	written[s] += n; if (n) sym_cover("output");
}
static bool isLog(int s, const uint8_t *b, size_t n) {
	if (side == SERVER || probing) return true;
	if (s != 2 || !n) return false;
	if (logged) return true;
	if (n >= 20 && !sym_is_symbolic(b[0]) && b[0] == '[' && !sym_is_symbolic(b[5]) && b[5] == '-') { logged = 1; return true; }
	return false;
}
size_t h_fwrite(int s, const void *p, size_t n) { if (!isLog(s, (const uint8_t *)p, n)) { death(); wrote(s, (const uint8_t *)p, n); } return n; }
int h_fwrite_closed(int s, const void *p, size_t n) { return isLog(s, (const uint8_t *)p, n); }
long h_std_write(int s, const void *p, size_t n) { return (long)h_fwrite(s, p, n); }
void h_closed(int, int kind, int obj) {
	if (probing) return;
	if (kind == W_SOCK && !w_refs(W_SOCK, obj)) { leave(side); moved(); }
	if (kind == W_PIPE_R && started && pipeRole[obj] && side == SERVER && !w_refs(W_PIPE_R, obj)) gone[pipeRole[obj]] = 1;
	if (kind == W_PIPE_W && pipeRole[obj] == 0 && !w_refs(W_PIPE_W, obj)) { inEof = 1; moved(); }
}
int h_shutdown(int, int, int how) { if (how != SHUT_RD) { point(); ch[side].fin = 1; moved(); } return 0; }
int h_fork() { if (probing) return 0; started = 1; moved(); return PID; }
void h_exec(const char *, char *const *, char *const *, int) { for (int i = 0; i < 3; i++) if (w_fd[i].kind == (i ? W_PIPE_W : W_PIPE_R)) pipeRole[w_fd[i].obj - probeBase] = i; errno = ENOENT; }
int h_wait(int pid, int *st, int options) {
	if (pid != PID && pid != -1) return w_err(ECHILD);
	if (!probing) point();
	if (reaped || !started) return w_err(ECHILD);
	if (!(options & WNOHANG)) while (!exited) block(false);
	if (!exited) return 0;
	reaped = 1; moved(); if (st) *st = status_; return PID;
}
int h_kill(int pid, int sig) {
	CK(37, pid == PID, "a signal is sent to another process"); if (!sig) return 0;
	CK(37, lost[CLIENT] || done[CLIENT], "the command of an undisturbed session is signalled");
	killed = 1; moved(); return 0;
}
void *h_signal(int sig, void *h) { if (sig == SIGPIPE && !probing) ignored[side] = h == (void *)SIG_IGN; return nullptr; }
int h_chdir(const char *) { return 0; }
void h_terminate() { over(2); }
void h_abort() { over(2); }
void h_exit(int c) { if (side == CLIENT) { result = c; over(0); } over(0); }
}
static bool completed() { // the server has sent the exit code
	size_t at = 0; Channel &c = ch[SERVER];
	while (at + 5 <= c.sent) { unsigned t = (unsigned)sym_concretize(c.b[at]); if (t == M_EXIT) return true; at += 5 + (size_t)sym_concretize(c.b[at + 1] | c.b[at + 2] << 8 | c.b[at + 3] << 16); }
	return false;
}
static void finish() {
	bool normal = exited && !(status_ & 0x7f);
	if (mode_[CLIENT] == 0) {
		CK(37, normal, "the client exits normally although the command did not");
		CK(37, result == (status_ >> 8 & 0xff), "the client's exit code is not the command's");
		CK(37, written[1] == made[1] && written[2] == made[2], "the client ends before all output is written");
		CK(37, !logged, "an error is reported although the client exits normally");
	}
	if (lost[CLIENT]) { CK(37, !started || exited || killed, "the command is not terminated although the client is gone"); sym_end(); }
	if (lost[SERVER]) { CK(37, mode_[CLIENT] != 0 || completed(), "the client exits normally although the server was lost"); sym_end(); }
	CK(37, started && exited, "an undisturbed session ends without the command");
	CK(37, !killed, "the command of an undisturbed session is signalled");
	CK(37, ended[1] && ended[2], "the session ends while a process left by the command can still write");
	CK(37, written[1] == made[1] && written[2] == made[2], "the client ends before all output is written");
	CK(37, !normal || mode_[CLIENT] == 0, "an undisturbed session fails");
	sym_cover(normal ? "completed" : "abnormal end"); sym_end();
}
static WFd snap[W_MAXFD]; extern "C" char **environ; static const Configuration *conf_;
static void probe(const Configuration &c) { // finds out which pipe carries which stream, by running up to the start of the command
	inInit(64); message(M_START, "cmd"); memcpy(snap, w_fd, sizeof snap); char **env = environ; long count = w_openCount; int np = w_nextPipe, ns = w_nextSock; probeBase = np;
	probing = 1; try { Process::run("/w", *c.getCommands("box"), Socket::connect(1)); } catch (const std::exception &) { } probing = 0;
	memcpy(w_fd, snap, sizeof snap); environ = env; w_openCount = count; w_nextPipe = np; w_nextSock = ns; errno = 0;
	int r[3]; for (int i = 0; i < 3; i++) r[i] = pipeRole[i]; for (int i = 0; i < 3; i++) pipeRole[np + i] = r[i];
	free(in_);
}
static void serverMain() {
	try { Process::run("/w", *conf_->getCommands("box"), Socket::connect(1)); } catch (const std::exception &) { over(1); }
	over(0);
}
// parameters: script: the command's operations, one hexadecimal digit each, first in the lowest digit; in: bytes of the user's input; open: it does not end; kill: 1 the client, 2 the server is killed at any point
extern "C" void session() {
	static Configuration c = Configuration::load("[box:1]\ncmd prog\n", "/w"); conf_ = &c;
	probe(c);
	uint64_t s = sym_param("script", 0); for (; s; s >>= 4) script[ops++] = (int)(s & 15);
	burst = (int)sym_param("burst", 16); pcap = sym_param("pipe", 4); ch[CLIENT].cap = sym_param("c2s", 64); ch[SERVER].cap = sym_param("s2c", 64);
	userN = sym_param("in", 0); chunk = sym_param("chunk", 64); userOpen = (int)sym_param("open", 0); eager = (int)sym_param("eager", 0); victim = (int)sym_param("kill", 0) - 1; if (userN) sym_bytes(user, userN, "input");
	memcpy(fds[SERVER], w_fd, sizeof w_fd);
	budget = (int)sym_param("budget", 2);
	sym_spawn(serverMain);
	const char *argv[] = { "a" };
	int code; try { code = Process::runRemoteCommand("d", c.getCommands().find("cmd")->second, 1, argv, c); } catch (const std::exception &) { over(1); }
	result = code; over(0);
}
