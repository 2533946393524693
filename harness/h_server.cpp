#define HLP_ENV
// A server-side session: requests, data transfer, exit codes, termination (C12, C14, C15, C16, C17).
#include "session.h"
// ---- the command and the client as the session sees them
enum { PID = 77 };
static int probing, started, forks, polls, budget, stuck, multi;
static int pipeRole[8];                                 // pipe object -> 0 stdin, 1 stdout, 2 stderr
static int probeBase;
static int exited, reaped, killed, status_, gone /* 1 closed, 2 reset */, goneSeen, faulted, sendFailed, sigpipe = 0, inClosedByCommand, stdinClosed, failForks, evMask, sizes_, exitKinds, sendSplit, recvSplit, wbud, catlike, neverReads, faultsLeft;
static uint8_t *src[3]; static size_t srcN[3];          // bytes the command writes / the client sends as standard input
static size_t made[3], avail[3], sent[3]; static int ended[3], eofRead[3], notice[3], exitSent, stdinNotice;
static size_t stdinGot; static int eofMsg;
static Parser out;
static size_t dataEnd;                                  // input offset after which the client sends nothing more
static int fin_, mustTell, wrShut, left_, leftSeen;         // left: the client has received the end of the session and closes its side
static bool over() { return gone || (fin_ > 1 && inAvail >= inN); } // the client has left, or told the server to stop, or sent something wrong
static void die(int mode);
extern "C" {
long h_sock_recv(int, int, void *buf, size_t n, int flags);
}
static size_t amount(size_t max, const char *name) { // how much of max bytes
	if (max <= 1) return max;
	if (budget <= 0) return max;
	unsigned c = sym_choose(sizes_ ? 3 : 2, name);
	return c == 0 ? max : c == 1 ? 1 : max - 1;
}
static void exitNow() {
	exited = 1; ended[0] = 1; sym_cover("process exits");
	switch (exitKinds == 2 ? sym_choose(2, "how the process ends") : exitKinds) {
	case 0: { uint8_t c = sym_u8("exit code"); status_ = (int)c << 8; break; }
	default: { uint8_t s = sym_u8("signal"); sym_assume(s >= 1 && s <= 64); status_ = s | (sym_bool("core dumped") ? 0x80 : 0); }
	}
}
// one thing happens outside the session; false if nothing can happen
static bool event(bool must) {
	enum { NONE, OUT1, OUT2, END1, END2, CLIENT, EXIT, CLOSEIN, GONE, RESET, COUNT };
	bool can[COUNT] = { !must, false };
	for (int i = 1; i < 3; i++) { can[i] = !ended[i] && made[i] < srcN[i]; can[i + 2] = !ended[i] && (budget > 0 || made[i] == srcN[i]); }
	can[CLIENT] = inAvail < inN && !gone; can[EXIT] = started && !exited; can[CLOSEIN] = started && !ended[0] && !inClosedByCommand;
	can[GONE] = can[RESET] = !gone && budget > 0;
	if (budget <= 0) { // what remains happens in a fixed order, one step at a time
		can[CLOSEIN] = can[NONE] = false;
		bool wait = catlike && started && !exited && eofMsg && !gone && !inClosedByCommand;
		if (over() && !exited && !killed) can[EXIT] = can[END1] = can[END2] = false; // the command goes on until it is told to stop
		else if (killed && !exited) { can[EXIT] = true; }
		if (can[CLIENT]) { inAvail = inN; return true; }
		if ((exitSent || wrShut) && !gone && !left_) { left_ = 1; return true; }
		if (wait && !stdinClosed) return false;
		for (int i = 1; i < 3; i++) if (can[i]) { avail[i] += srcN[i] - made[i]; made[i] = srcN[i]; return true; }
		if (can[END1]) { ended[1] = 1; return true; }
		if (can[END2]) { ended[2] = 1; return true; }
		if (can[EXIT] && ended[1] && ended[2]) { exitNow(); return true; }
		return false;
	}
	for (int i = 0; i < COUNT; i++) if (i && !(evMask >> i & 1)) can[i] = false;
	if (over() && !killed) can[EXIT] = false;
	unsigned n = 0, pick[COUNT]; for (unsigned i = 0; i < COUNT; i++) if (can[i]) pick[n++] = i;
	if (!n) { if (must) budget = 0; return must ? event(true) : true; }
	budget--;
	switch (pick[sym_choose(n, "event")]) {
	case OUT1: { size_t k = amount(srcN[1] - made[1], "written to standard output"); made[1] += k; avail[1] += k; break; }
	case OUT2: { size_t k = amount(srcN[2] - made[2], "written to standard error"); made[2] += k; avail[2] += k; break; }
	case END1: srcN[1] = made[1]; ended[1] = 1; break;
	case END2: srcN[2] = made[2]; ended[2] = 1; break;
	case CLIENT: { unsigned next = 0; while (next < cuts && cut_[next] <= inAvail) next++; size_t to = next < cuts ? cut_[next] : inN;
		unsigned later = cuts > next + 1 ? cuts - next : 2; // any number of messages at once, or parts of one
		unsigned c = sym_choose(recvSplit ? later + 2 : later, "arrives"); inAvail = c == later ? inAvail + 1 : c > later ? (to > inAvail + 1 ? to - 1 : to) : next + c < cuts && cut_[next + c] < inN ? cut_[next + c] : c ? inN : to; break; }
	case EXIT: exitNow(); break;
	case CLOSEIN: inClosedByCommand = 1; sym_cover("command closes its input"); break;
	case GONE: gone = 1; sym_cover("client closes"); break;
	case RESET: gone = 2; sym_cover("client resets"); break;
	default: break;
	}
	return true;
}
static void block(const char *what) { // a call that waits: time passes until something happens
	if (event(true)) { stuck = 0; return; }
	CK(17, !over() || exited || killed, "the command is not terminated although the client is gone");
	CK(14, !(catlike && eofMsg && !over() && !inClosedByCommand && !exited), "end of input is never signalled to the command");
	bool hangs = started && exited && ended[1] && ended[2] && !exitSent && !wrShut && !over() && !faulted && !sendFailed;
	CK2(15, 16, !hangs, "the session does not end although the command has ended and its output is complete");
	(void)what; sym_assume(0);
}
static long fault(const char *name, const int *errs, unsigned n) {
	if (faultsLeft <= 0) return 0;
	unsigned c = sym_choose(n + 1, name); if (!c) return 0;
	int e = errs[c - 1]; faultsLeft--; if (e != EINTR && e != EAGAIN) faulted = 1; return e;
}
// the session is about to wait: what has arrived has been passed on
static void waiting(const struct pollfd *p, unsigned n) {
	for (int i = 1; i < 3; i++) CK(15, sent[i] == made[i] - avail[i], "output that has been read is kept back while the session waits");
	CK(15, !out.in && !out.have, "part of a message is kept back while the session waits");
	if (exited || inClosedByCommand || stdinClosed) return;
	size_t got = 0; for (unsigned i = 1; i < cuts; i++) if (cut_[i] <= inAt && cut_[i] <= dataEnd) got += cut_[i] - cut_[i - 1] - 5;
	bool watched = false; for (unsigned i = 0; i < n; i++) if (p[i].fd >= 0 && w_fd[p[i].fd].kind == W_PIPE_W && (p[i].events & POLLOUT)) watched = true;
	CK(14, stdinGot >= got || watched, "input that has arrived is kept back while the session waits");
	CK(14, !(eofMsg && inAt >= dataEnd && stdinGot == srcN[0]), "the end of the input is kept back while the session waits");
}
extern "C" {
int h_poll(struct pollfd *p, unsigned n, int timeout) {
	if (probing) return w_err(EIO);
	static const int errs[] = { EINTR, ENOMEM }; long e = fault("poll fails", errs, 2); if (e) return w_err((int)e);
	// a session with nothing left to happen must come to its end
	static int pollsGone; if (over() && !killed && !exited && ++pollsGone > 50) { CK(17, false, "the command is not terminated although the client is gone"); sym_assume(0); }
	if (++polls > 200) { CK2(14, 15, false, "the session does not end"); sym_assume(0); }
	bool moved = budget > 0;
	if (timeout != 0) for (int k = 0; k < (multi ? 2 : 1); k++) { bool m = event(false); if (budget <= 0) moved |= m; }
	unsigned ready; unsigned round = 0;
	do {
		ready = 0;
		for (unsigned i = 0; i < n; i++) {
			p[i].revents = 0; int fd = p[i].fd; if (fd < 0) continue;
			if (!w_valid(fd)) { CK(17, false, "a closed descriptor is polled"); p[i].revents = POLLNVAL; ready++; continue; }
			WFd &f = w_fd[fd]; short r = 0;
			if (f.kind == W_PIPE_R) { int o = pipeRole[f.obj]; if (avail[o]) r |= POLLIN; if (ended[o]) r |= POLLHUP; }
			else if (f.kind == W_PIPE_W) { if (inClosedByCommand || ended[0]) r |= POLLERR; else if (neverReads) ; else if (wbud <= 0 || budget <= 0 || !sym_bool("input pipe full")) r |= POLLOUT; }
			else if (f.kind == W_SOCK) { if (inAvail > inAt || gone || left_) r |= POLLIN; if (gone == 2) r |= POLLERR | POLLHUP; }
			p[i].revents = r & (p[i].events | POLLERR | POLLHUP);
			if (p[i].revents) ready++;
		}
		if (!ready && timeout != 0 && !over() && !faulted && !sendFailed) waiting(p, n);
		if (ready || timeout >= 0) break;
		block("poll");
	} while (++round < 50);
	if (!ready && !moved && timeout > 0) { if (++stuck > 3) block("poll"); } else stuck = 0;
	return (int)ready;
}
long h_sock_recv(int, int, void *buf, size_t n, int) {
	sym_readable(buf, n);
	if (probing && inAt == inAvail) { sym_fail("the server goes on waiting although the request is complete"); sym_end(); }
	if (!started && inAt == inAvail && !gone && inAvail < inN) { // the request: arrives whole, or split where asked
		bool complete = inAvail >= cut_[0]; CK2(14, 15, !complete, "the server goes on waiting although the request is complete"); CK2(16, 17, !complete, "the server goes on waiting although the request is complete");
		size_t left = cut_[0] - inAvail; inAvail += left;
	}
	while (inAt == inAvail && !gone && !left_) block("recv");
	if (inAt == inAvail && !gone) { leftSeen = 1; return 0; }
	if (inAt == inAvail) { goneSeen = 1; if (gone == 2) { faulted = 1; return w_err(ECONNRESET); } return 0; }
	static const int errs[] = { ECONNRESET }; long e = started ? fault("recv fails", errs, 1) : 0; if (e) { return w_err((int)e); }
	size_t k = inAvail - inAt; if (k > n) k = n;
	if (recvSplit > 1 && started && budget > 0 && k > 1) { unsigned c = sym_choose(3, "received"); if (c == 1) { k = 1; budget--; } else if (c == 2) { k--; budget--; } }
	memcpy(buf, in_ + inAt, k); inAt += k; return (long)k;
}
static void frameStart(uint8_t type, uint32_t len) {
	CK(15, !exitSent, "something is sent after the exit code");
	switch (type) {
	case M_STDOUT: case M_STDERR: { int s = type == M_STDOUT ? 1 : 2;
		CK(15, !notice[s], "data or a second notice is sent after the end of a stream");
		if (!len) { CK(15, eofRead[s] && sent[s] == srcN[s] && !avail[s], "the end of a stream is announced before its data is sent or before it has ended"); notice[s] = 1; }
		break; }
	case M_STDIN: CK(14, len == 0, "standard input data is sent to the client"); CK(14, inClosedByCommand || exited, "the client is told that input was closed although it was not"); stdinNotice++; CK(14, stdinNotice == 1, "the client is told twice that input was closed"); break;
	case M_EXIT:
		CK(16, exited && reaped && (status_ & 0x7f) == 0, "an exit code is sent although the command did not exit normally");
		CK(16, len == (uint32_t)((status_ >> 8) & 0xff), "the exit code sent is not the command's");
		CK(15, notice[1] && notice[2], "the exit code is sent before the output is complete");
		exitSent = 1; break;
	default: CK(15, false, "a message that is not the server's to send");
	}
}
long h_sock_send(int, int, const void *buf, size_t n, int) {
	if (sendFailed) return w_err(EPIPE); // the stream is broken from then on
	if (gone && budget > 0 && sym_bool("send to a lost client fails")) { sendFailed = faulted = 1; return w_err(gone == 2 ? ECONNRESET : EPIPE); }
	static const int errs[] = { EPIPE, ECONNRESET }; long e = fault("send fails", errs, 2); if (e) { sendFailed = 1; return w_err((int)e); }
	if (sendSplit && budget > 0) { size_t k = amount(n, "sent"); if (k < n) budget--; n = k; }
	const uint8_t *b = (const uint8_t *)buf; size_t at = 0;
	while (at < n) {
		if (!out.in) {
			out.head[out.have++] = b[at++];
			if (out.have < 5) continue;
			uint8_t type = (uint8_t)sym_concretize(out.head[0]); uint32_t len = out.head[1] | (uint32_t)out.head[2] << 8 | (uint32_t)out.head[3] << 16 | (uint32_t)out.head[4] << 24;
			frameStart(type, len); out.have = 0;
			if (type == M_EXIT) continue;
			out.left = (uint32_t)sym_concretize(len); out.in = out.left > 0; out.head[0] = type; continue;
		}
		size_t k = n - at < out.left ? n - at : out.left; int s = out.head[0] == M_STDOUT ? 1 : 2;
		CK(15, out.head[0] == M_STDOUT || out.head[0] == M_STDERR, "a message that is not the server's to send");
		CK(15, sent[s] + k <= made[s] - avail[s], "more output is sent than the command wrote");
		CK(15, sym_equal(b + at, src[s] + sent[s], k), "other output is sent than the command wrote");
		sent[s] += k; at += k; out.left -= k; if (!out.left) out.in = false;
	}
	return (long)n;
}
long h_pipe_read(int, int obj, void *buf, size_t n) {
	int o = pipeRole[obj]; sym_readable(buf, n);
	while (!avail[o] && !ended[o]) block("read");
	if (!avail[o]) { eofRead[o] = 1; return 0; }
	static const int errs[] = { EINTR, EIO }; long e = fault("read fails", errs, 2); if (e) return w_err((int)e);
	size_t k = avail[o] < n ? avail[o] : n; if (sizes_ > 1) k = amount(k, "read");
	memcpy(buf, src[o] + made[o] - avail[o], k); avail[o] -= k; return (long)k;
}
long h_pipe_write(int fd, int, const void *buf, size_t n) {
	CK(14, !stdinClosed, "input is written after its end"); 
	if (inClosedByCommand || ended[0]) { CK2(14, 17, sigpipe == 1, "a command that closes its input kills the session"); if (!exited) mustTell = 1; return w_err(EPIPE); }
	size_t k = n;
	if (neverReads) { CK(14, w_fd[fd].nonblock, "writing input can block the session"); return w_err(EAGAIN); }
	if (wbud > 0 && budget > 0) switch (sym_choose(4, "input accepted")) {
		case 0: break;
		case 1: k = 1; wbud--; break;
		case 2: wbud--; CK(14, w_fd[fd].nonblock, "writing input can block the session"); return w_err(EAGAIN);
		case 3: wbud--; return w_err(EINTR);
	}
	CK(14, stdinGot + k <= srcN[0], "more input is written than the client sent");
	CK(14, sym_equal(buf, src[0] + stdinGot, k), "other input is written than the client sent");
	stdinGot += k; sym_cover("input written"); return (long)k;
}
void h_closed(int, int kind, int obj) {
	if (!started || probing || kind != W_PIPE_W || pipeRole[obj] != 0 || w_refs(W_PIPE_W, obj) > 1) return;
	stdinClosed = 1;
	if (!inClosedByCommand && !exited && !over() && !faulted) { CK(14, eofMsg && inAt >= dataEnd && stdinGot == srcN[0], "the command's input is closed before everything was written to it"); sym_cover("end of input"); }
}
int h_fork() {
	if (probing) return 0;
	forks++; CK(12, forks == 1, "more than one process is started");
	CK(12, inAt >= cut_[0], "a process is started before the request is complete");
	if (failForks) { faulted = 1; return w_err(EAGAIN); }
	started = 1; return PID;
}
void h_exec(const char *, char *const *, char *const *, int) { // only when probing: learn which pipe carries which stream
	for (int i = 0; i < 3; i++) if (w_fd[i].kind == (i ? W_PIPE_W : W_PIPE_R)) pipeRole[w_fd[i].obj - probeBase] = i;
	errno = ENOENT;
}
int h_wait(int pid, int *st, int options) {
	CK(17, pid == PID || pid == -1, "waiting for a process the session did not start");
	if (reaped) return w_err(ECHILD);
	if (!(options & WNOHANG)) { static const int errs[] = { EINTR }; long e = fault("wait interrupted", errs, 1); if (e) return w_err((int)e); while (!exited) block("waitpid"); }
	if (!exited) return 0;
	reaped = 1; if (st) *st = status_; return PID;
}
int h_kill(int pid, int sig) {
	CK(17, pid == PID, "a signal is sent to a process the session did not start");
	CK(17, started && !reaped, "a signal is sent to a process that has already been reaped");
	CK2(17, 14, over() || faulted, "the command of an undisturbed session is signalled");
	if (sig == 0) return 0;
	CK(17, sig == SIGTERM || sig == SIGKILL || sig == SIGHUP || sig == SIGINT, "the signal sent does not terminate");
	killed = 1; sym_cover("signalled"); return 0;
}
int h_shutdown(int, int, int how) { if (how != SHUT_RD && started) wrShut = 1; return 0; }
void *h_signal(int sig, void *h) { if (sig == SIGPIPE && !probing) sigpipe = (h == (void *)SIG_IGN); return nullptr; }
int h_chdir(const char *) { return 0; }
void h_terminate() { die(2); }
}
// the session is over: mode 0 returned, 1 exception, 2 std::terminate
static void die(int mode) {
	if (!started) { CK(16, !exitSent, "an exit code is sent although nothing was started"); if (failForks) sym_cover("fork failed"); sym_end(); }
	bool disturbed = over() || faulted || failForks;
	CK2(14, 15, mode == 0 || disturbed, "an undisturbed session fails");
	if (disturbed) { // the server may not have noticed a client that left at the very end
		CK(17, killed || reaped, "the command is not terminated although the client is gone");
		CK(16, !exitSent || (reaped && !(status_ & 0x7f)), "an exit code is sent for a session that was cut");
		if (!reaped) sym_cover("cut");
		sym_end();
	}
	CK2(14, 17, !killed, "the command of an undisturbed session is signalled");
	CK(15, ended[1] && ended[2] && sent[1] == srcN[1] && sent[2] == srcN[2] && notice[1] && notice[2] && !out.in && !out.have, "the session ends before all output is sent");
	CK(16, reaped && exitSent == ((status_ & 0x7f) == 0), "a normal exit is not reported to the client");
	CK(14, !mustTell || stdinNotice, "the client is not told that the command closed its input");
	CK2(15, 16, leftSeen, "the connection is closed without waiting for the client, so data it is still sending resets the connection and output or exit code are lost");
	sym_cover(exitSent ? "completed" : "abnormal end");
	sym_end();
}
static Configuration conf(const char *text) { return Configuration::load(text, "/w"); }
static Socket clientSocket() { return Socket::connect(1); }
static WFd snap[W_MAXFD]; extern "C" char **environ;
static void probe(const Configuration &c) { // finds out which pipe carries which stream, by running up to the start of the command
	inInit(64); message(M_START, "cmd"); inAvail = inN; cuts = 0; cut_[0] = 0;
	memcpy(snap, w_fd, sizeof snap); char **env = environ; long count = w_openCount; int np = w_nextPipe, ns = w_nextSock; probeBase = np;
	 struct Make { static Socket from(int fd) { Socket s; static_assert(sizeof(Socket) == sizeof(int), ""); memcpy((void *)&s, &fd, sizeof fd); return s; } };
	probing = 1; try { Process::run("/w", *c.getCommands("box"), clientSocket()); } catch (const std::exception &) { } probing = 0;
	memcpy(w_fd, snap, sizeof snap); environ = env; w_openCount = count; w_nextPipe = np; w_nextSock = ns; errno = 0;
	int r[3]; for (int i = 0; i < 3; i++) r[i] = pipeRole[i]; for (int i = 0; i < 3; i++) pipeRole[np + i] = r[i];
	free(in_); out = Parser(); sent[0] = 0;
}
static void fill(int s, unsigned n, unsigned symbolic, const char *name) { src[s] = (uint8_t *)malloc(n + 1); srcN[s] = n; if (n <= symbolic) { if (n) sym_bytes(src[s], n, name); } else for (unsigned i = 0; i < n; i++) src[s][i] = (uint8_t)(i * 31 + (i >> 8) + s * 7 + 1); }
static void serve(const Configuration &c) {
	try { Process::run("/w", *c.getCommands("box"), clientSocket()); } catch (const std::exception &) { die(1); }
	die(0);
}
// parameters: o1, o2 bytes of output; i1, i2, i3 bytes in the input messages (0: none); fin 0 nothing, 1 end of input, 2 terminate, 3 wrong message
extern "C" void srv() {
	static Configuration c = conf("[box]\ncmd prog\n");
	w_checkFd = 0; probe(c);
	budget = sym_param("budget", 3); evMask = sym_param("events", 0x3fe); sizes_ = sym_param("sizes", 0); exitKinds = sym_param("exit", 0); sendSplit = sym_param("send", 0); recvSplit = sym_param("recv", 0); wbud = sym_param("write", 0); catlike = sym_param("cat", 0); faultsLeft = sym_param("faults", 0); multi = sym_param("multi", 0); failForks = sym_param("nofork", 0); neverReads = sym_param("full", 0);
	unsigned o1 = sym_param("o1", 2), o2 = sym_param("o2", 0), fin = sym_param("fin", 1); unsigned i_[3] = { (unsigned)sym_param("i1", 0), (unsigned)sym_param("i2", 0), (unsigned)sym_param("i3", 0) };
	fill(1, o1, 8, "standard output"); fill(2, o2, 8, "standard error"); fill(0, i_[0] + i_[1] + i_[2], 8, "standard input");
	inInit(256 + srcN[0]);
	message(M_DIR, "d"); message(M_ARG, "a"); message(M_START, "cmd"); cuts = 0; cut_[cuts++] = inN;
	size_t at = 0; for (unsigned k : i_) if (k) { message(M_STDIN, src[0] + at, k); at += k; }
	dataEnd = inN;
	if (fin == 1) { message(M_STDIN, "", 0); eofMsg = 1; dataEnd = inN; }
	fin_ = fin;
	if (fin == 2) message(M_TERM, "", 0);
	if (fin == 3) { uint8_t t = sym_u8("type"); sym_assume(t != M_STDIN && t != M_TERM); message(t, "", 0); }
	if (sym_param("glue", 0)) { cut_[0] = inN; cuts = 1; }
	serve(c);
}
