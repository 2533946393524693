// A client-side session: connecting, forwarding standard input, delivering output, exit codes (C16, C18, C19, C23).
#include "session.h"
static int budget, evMask, recvSplit, sendSplit, sizes_, faultsLeft, faulted, mayFail, started;
static uint8_t *src[3]; static size_t srcN[3];         // standard input; what the server sends for each stream
static size_t inMade, inRead; static int inEnded, inEofRead, inNoticed, noticeSeen;  // standard input: available, read, ended; the server's close notice
static size_t stdinSent; static int eofSent; static Parser out;
static size_t written[3], pending[3]; static int closed_[3], logged;
struct Msg { unsigned type; size_t at, n, end; };
static Msg msg[12]; static unsigned msgs; static int gone, cut_at_end, exitMsg = -1, bad; static uint32_t exitValue;
static size_t dataBefore[3]; static int rounds;
static void finish(int mode, int value);
// connecting (C23): a clock that advances by arbitrary amounts whenever it is read and while the client sleeps
static int connecting, attempts, maxAttempts, late, paused, connectedNow; static uint64_t clock_, deadline, startClock; static int haveStart, forever;
enum : uint64_t { NEVER = ~0ull };
static int calm;
static void advance(const char *name) { uint32_t d = sym_u32(name); if (calm) sym_assume(d < 1u << 20); clock_ += d; }
static size_t amount(size_t max, const char *name) {
	if (max <= 1 || budget <= 0) return max;
	unsigned c = sym_choose(sizes_ ? 3 : 2, name); return c == 0 ? max : c == 1 ? 1 : max - 1;
}
static bool event(bool must) {
	enum { NONE, STDIN, END, SERVER, COUNT };
	bool can[COUNT] = { !must, !inEnded && inMade < srcN[0], !inEnded && (budget > 0 || inMade == srcN[0]), inAvail < inN || (!gone && cut_at_end) };
	if (budget <= 0) {
		if (can[STDIN]) { inMade = srcN[0]; return true; }
		if (can[END]) { inEnded = 1; return true; }
		for (unsigned i = 0; i < msgs; i++) if (msg[i].end <= inAt && msg[i].type == M_STDIN) inNoticed = 1;
		if (can[SERVER] && !must && !faulted && !mayFail && !inNoticed && (inRead < inMade || (inEnded && !eofSent))) return false; // the server is patient
		if (can[SERVER]) { if (inAvail < inN) inAvail = inN; else gone = cut_at_end; return true; }
		return false;
	}
	for (int i = 1; i < COUNT; i++) if (!(evMask >> i & 1)) can[i] = false;
	unsigned n = 0, pick[COUNT]; for (unsigned i = 0; i < COUNT; i++) if (can[i]) pick[n++] = i;
	if (!n) { if (must) { budget = 0; return event(true); } return true; }
	budget--;
	switch (pick[sym_choose(n, "event")]) {
	case STDIN: inMade += amount(srcN[0] - inMade, "standard input"); break;
	case END: srcN[0] = inMade; inEnded = 1; break;
	case SERVER: {
		if (inAvail >= inN) { gone = cut_at_end; break; }
		unsigned next = 0; while (next < cuts && cut_[next] <= inAvail) next++; size_t to = next < cuts ? cut_[next] : inN;
		unsigned later = cuts > next + 1 ? cuts - next : 2; // any number of messages at once, or parts of one
		unsigned c = sym_choose(recvSplit ? later + 2 : later, "arrives"); inAvail = c == later ? inAvail + 1 : c > later ? (to > inAvail + 1 ? to - 1 : to) : next + c < cuts && cut_[next + c] < inN ? cut_[next + c] : c ? inN : to; break; }
	}
	return true;
}
static long fault(const char *name, const int *errs, unsigned n) {
	if (faultsLeft <= 0) return 0;
	unsigned c = sym_choose(n + 1, name); if (!c) return 0;
	int e = errs[c - 1]; faultsLeft--; if (e != EINTR && e != EAGAIN) faulted = 1; return e;
}
// everything that follows from the messages received so far has been done (called when the client is about to wait)
static void settled() {
	for (unsigned i = 0; i < msgs; i++) if (msg[i].end <= inAt && msg[i].type == M_STDIN) inNoticed = 1;
	size_t want[3] = { 0, 0, 0 }; int ends[3] = { 0, 0, 0 };
	for (unsigned i = 0; i < msgs; i++) if (msg[i].end <= inAt && (msg[i].type == M_STDOUT || msg[i].type == M_STDERR)) { int s = msg[i].type == M_STDOUT ? 1 : 2; want[s] += msg[i].n; if (!msg[i].n) ends[s] = 1; }
	for (int s = 1; s < 3; s++) {
		CK(19, written[s] == want[s], "output that has been received is not written before the client waits for more");
		CK(19, pending[s] == 0, "output that has been received is kept back while the client waits for more");
		CK(19, closed_[s] == ends[s], ends[s] ? "a stream the server has ended is not closed" : "a stream is closed that the server has not ended");
	}
	CK(18, out.have == 0 && !out.in, "part of a message is kept back while the client waits");
	CK(18, stdinSent == inRead, "input that has been read is not sent before the client waits for more");
	CK(18, eofSent || !inEofRead, "the end of the input is not sent before the client waits for more");
}
extern "C" {
int h_poll(struct pollfd *p, unsigned n, int timeout) {
	if (connecting) { CK(23, connectedNow, "the session starts without a connection"); sym_cover("connected"); sym_end(); }
	static const int errs[] = { EINTR, ENOMEM }; int before = faulted; long e = fault("poll fails", errs, 2); if (e) { faulted = before; mayFail = 1; return w_err((int)e); }
	if (++rounds > 300) { CK2(18, 19, false, "the client does not come to an end"); sym_assume(0); }
	bool in = false, sock = false;
	if (timeout != 0) for (int k = 0; k < 1; k++) event(false);
	unsigned ready, turn = 0;
	do {
		ready = 0;
		for (unsigned i = 0; i < n; i++) {
			p[i].revents = 0; int fd = p[i].fd; if (fd < 0) continue;
			if (!w_valid(fd)) { CK(18, false, "a closed descriptor is polled, so the client spins"); p[i].revents = POLLNVAL; ready++; continue; }
			WFd &f = w_fd[fd]; short r = 0;
			if (f.kind == W_STDIN) { in = true; if (inMade > inRead) r |= POLLIN; if (inEnded) r |= POLLHUP; }
			else if (f.kind == W_SOCK) { sock = true; if (inAvail > inAt || gone) r |= POLLIN; if (gone == 2) r |= POLLERR | POLLHUP; }
			p[i].revents = r & (p[i].events | POLLERR | POLLHUP); if (p[i].revents) ready++;
		}
		if (timeout == 0) break;
		if (turn == 0 && !ready) {
			settled();
			CK(18, !inNoticed || !in, "standard input is still used after the server said that the command closed it");
			CK(18, in || inNoticed || inEofRead, "standard input is not read although it has not ended");
			CK(19, sock, "the client no longer listens to the server"); sym_cover("waits");
		}
		if (ready || timeout > 0) break;
		if (!event(true)) { CK(19, exitMsg < 0 && !cut_at_end, "the client goes on waiting although the server has ended the session"); sym_cover("waits for the server"); sym_end(); }
	} while (++turn < 60);
	return (int)ready;
}
long h_sock_recv(int, int, void *buf, size_t n, int) {
	sym_readable(buf, n);
	if (inAt == inAvail && !gone && !faulted) for (int s = 1; s < 3; s++) { // waits for a message, or for the rest of one
		size_t want = 0; for (unsigned i = 0; i < msgs; i++) if (msg[i].end <= inAt && msg[i].type == (s == 1 ? M_STDOUT : M_STDERR)) want += msg[i].n;
		CK(19, written[s] >= want, "output that has been received is not written before the client waits for more");
	}
	while (inAt == inAvail && !gone) if (!event(true)) sym_end();
	if (inAt == inAvail) { if (gone == 2) return w_err(ECONNRESET); return 0; }
	static const int errs[] = { ECONNRESET }; long e = fault("recv fails", errs, 1); if (e) return w_err((int)e);
	size_t k = inAvail - inAt; if (k > n) k = n;
	if (recvSplit > 1 && budget > 0 && k > 1) { unsigned c = sym_choose(3, "received"); if (c == 1) { k = 1; budget--; } else if (c == 2) { k--; budget--; } }
	memcpy(buf, in_ + inAt, k); inAt += k; return (long)k;
}
long h_sock_send(int, int, const void *buf, size_t n, int) {
	static const int errs[] = { EPIPE, ECONNRESET }; long e = started ? fault("send fails", errs, 2) : 0; if (e) return w_err((int)e);
	if (faulted) return w_err(EPIPE);
	if (sendSplit && budget > 0) { size_t k = amount(n, "sent"); if (k < n) budget--; n = k; }
	const uint8_t *b = (const uint8_t *)buf; size_t at = 0;
	while (at < n) {
		if (!out.in) {
			out.head[out.have++] = b[at++]; if (out.have < 5) continue;
			uint8_t type = (uint8_t)sym_concretize(out.head[0]); uint32_t len = (uint32_t)sym_concretize(out.head[1] | (uint32_t)out.head[2] << 8 | (uint32_t)out.head[3] << 16 | (uint32_t)out.head[4] << 24);
			out.have = 0; out.head[0] = type; out.left = len; out.in = len > 0;
			if (started) {
				CK(18, type == M_STDIN, "something other than input is sent after the request");
				CK(18, !eofSent, "something is sent after the end of the input");
				if (!len) { CK(18, inEofRead && stdinSent == inRead && inRead == srcN[0], "the end of the input is sent although it has not ended"); eofSent = 1; sym_cover("end of input"); }
			} else if (type == M_START) started = len == 0 ? 1 : 0;
			if (!started && type == M_START) started = 2; // its name follows
			continue;
		}
		size_t k = n - at < out.left ? n - at : out.left;
		if (started == 1) {
			CK(18, stdinSent + k <= inRead, "more input is sent than was read");
			CK(18, sym_equal(b + at, src[0] + stdinSent, k), "other input is sent than was read");
			stdinSent += k;
		}
		at += k; out.left -= (uint32_t)k; if (!out.left) { out.in = false; if (started == 2) started = 1; }
	}
	return (long)n;
}
long h_std_read(void *buf, size_t n) {
	CK(18, !inNoticed, "standard input is read after the server said that the command closed it");
	sym_readable(buf, n);
	while (inRead == inMade && !inEnded) if (!event(true)) sym_end();
	static const int errs[] = { EIO }; long e = fault("reading standard input fails", errs, 1); if (e) return w_err((int)e);
	if (inRead == inMade) { inEofRead = 1; return 0; }
	size_t k = inMade - inRead; if (k > n) k = n; if (sizes_ > 1) k = amount(k, "read");
	memcpy(buf, src[0] + inRead, k); inRead += k; sym_cover("input read"); return (long)k;
}
static void wrote(int s, const uint8_t *p, size_t n) {
	size_t have = 0; for (unsigned i = 0; i < msgs; i++) if (msg[i].type == (s == 1 ? M_STDOUT : M_STDERR) && msg[i].at < inAt) have += msg[i].end <= inAt ? msg[i].n : inAt - msg[i].at < msg[i].n ? inAt - msg[i].at : msg[i].n;
	CK(19, !closed_[s], "output is written to a closed stream");
	CK(19, written[s] + n <= have, "more output is written than was received");
	CK(19, sym_equal(p, src[s] + written[s], n), s == 1 ? "other data is written to standard output than was received" : "other data is written to standard error than was received");
	written[s] += n; if (n) sym_cover("output");
}
static bool isLog(int s, const void *p, size_t n) { // the client's own error message: the run must then end in an error
	const uint8_t *b = (const uint8_t *)p;
	if (s != 2 || !n) return false;
	if (logged) return true;
	if (n >= 20 && !sym_is_symbolic(b[0]) && b[0] == '[' && !sym_is_symbolic(b[5]) && b[5] == '-') { logged = 1; return true; }
	return false;
}
size_t h_fwrite(int s, const void *p, size_t n) {
	if (isLog(s, p, n)) return n;
	if (s == 1 || s == 2) {
		static const int errs[] = { ENOSPC, EPIPE, EFBIG }; long e = fault("writing output fails", errs, 3);
		if (e) { errno = (int)e; size_t part = e == EFBIG ? n / 2 : 0; if (part) wrote(s, (const uint8_t *)p, part); return part; }
		wrote(s, (const uint8_t *)p, n); if (s == 1) pending[s] += n;
	}
	return n;
}
int h_fwrite_closed(int s, const void *p, size_t n) { return isLog(s, p, n); } // an error message that goes nowhere because the server ended the stream
static int flushed(int s) {
	if (s < 1 || s > 2 || !pending[s]) return 0;
	static const int errs[] = { ENOSPC, EIO }; long e = fault("flushing output fails", errs, 2); pending[s] = 0;
	if (e) { errno = (int)e; return -1; }
	return 0;
}
long h_std_write(int s, const void *p, size_t n) {
	if (isLog(s, p, n)) return (long)n;
	static const int errs[] = { ENOSPC, EINTR }; long e = fault("writing output fails", errs, 2); if (e) return w_err((int)e);
	wrote(s, (const uint8_t *)p, n); return (long)n;
}
int h_fflush(int s) { return flushed(s); }
int h_fclose(int s) { int r = flushed(s); return r; }
void h_closed(int fd, int kind, int) {
	if (kind == W_STDOUT || kind == W_STDERR) {
		int s = kind == W_STDOUT ? 1 : 2; int ends = 0; for (unsigned i = 0; i < msgs; i++) if (msg[i].end <= inAt && msg[i].type == (s == 1 ? M_STDOUT : M_STDERR) && !msg[i].n) ends = 1;
		CK(19, ends, "a stream is closed that the server has not ended"); closed_[s] = 1; sym_cover("stream closed");
	}
	(void)fd;
}
int h_connect(int, int, const struct sockaddr *, unsigned) {
	if (!connecting) return 0;
	CK(23, !connectedNow, "the client connects again although it is connected");
	if (attempts) CK(23, paused, "the client tries again without a pause");
	paused = 0;
	if (haveStart && !forever) { int now = clock_ >= deadline; CK(23, !(late & now), "the client goes on trying after the deadline"); late |= now; }
	if (++attempts > maxAttempts) { sym_cover("still trying"); sym_end(); }
	if (sym_choose(2, "connect")) { static const int errs[] = { ECONNREFUSED, ETIMEDOUT, EINTR, EADDRNOTAVAIL }; return errs[attempts % 4]; }
	connectedNow = 1; return 0;
}
long h_steady() {
	if (!connecting) return (long)clock_;
	uint64_t before = clock_; advance("time passes");
	if (!haveStart) { haveStart = 1; startClock = clock_; if (!forever) { uint64_t room = (uint64_t)((~0ull >> 1) - clock_) / 1000000; deadline = (uint64_t)deadline > room ? NEVER : clock_ + deadline * 1000000; } }
	else if (attempts) paused |= clock_ > before;
	return (long)clock_;
}
int h_sleep(long ns) {
	if (!connecting) return 0;
	CK(23, !connectedNow, "the client pauses although it is connected");
	CK(23, (ns >= 0) & (ns <= 1000000000), "a pause is longer than a second");
	if (!forever) CK(23, (uint64_t)ns <= deadline - clock_, "a pause extends beyond the deadline");
	paused |= ns > 0;
	uint32_t over = sym_u32("oversleeping"); sym_assume(over < 50000000); clock_ += (uint64_t)ns + over; sym_cover("pause"); return 0;
}
void h_abort() { finish(1, 0); }
void h_exit(int c) { finish(0, c); }
void h_terminate() { finish(1, 0); }
}
// mode 0: the client returns an exit code; 1: it ends abnormally
static void finish(int mode, int value) {
	if (connecting) {
		CK(23, mode == 1, "the client exits normally without a connection");
		CK(23, !connectedNow, "the client fails although it is connected");
		CK(23, !forever && haveStart, "the client gives up before the configured time has passed"); CK(23, clock_ >= deadline, "the client gives up before the configured time has passed");
		CK(23, attempts > 0, "the client gives up without trying"); sym_cover("gives up"); sym_end();
	}
	if (mode == 0) {
		CK(16, exitMsg >= 0 && msg[exitMsg].end <= inAt, "the client exits normally although it has not received an exit code");
		CK(16, !bad, "the client exits normally after a message that is not allowed");
		CK(16, (uint32_t)value == exitValue, "the client's exit code is not the one received");
		CK2(16, 19, !faulted, "the client exits normally although it could not do its work"); // a stream or the connection failed
		size_t want[3] = { 0, 0, 0 }; for (unsigned i = 0; i < msgs; i++) if (msg[i].type == M_STDOUT || msg[i].type == M_STDERR) want[msg[i].type == M_STDOUT ? 1 : 2] += msg[i].n;
		for (int s = 1; s < 3; s++) { CK(19, written[s] == want[s], "the client ends before all output is written"); CK(19, !pending[s], "output may be lost without an error because it has not been flushed when the client ends"); }
		CK(18, stdinSent == inRead, "input that was read is not sent");
		CK(19, !logged, "an error is reported although the client exits normally");
		sym_cover("exits");
	} else {
		CK2(16, 19, faulted || mayFail || bad || cut_at_end, "an undisturbed client fails");
		if (bad) sym_cover("bad message"); if (cut_at_end) sym_cover("connection lost"); if (faulted) sym_cover("failure");
	}
	sym_end();
}
static void fill(int s, unsigned n, unsigned symbolic, const char *name) { src[s] = (uint8_t *)malloc(n + 1); srcN[s] = n; if (n <= symbolic) { if (n) sym_bytes(src[s], n, name); } else for (unsigned i = 0; i < n; i++) src[s][i] = (uint8_t)(i * 31 + (i >> 8) + s * 7 + 1); }
// parameters: messages m1..m6 (1 standard output, 2 standard error, 3 input closed, 4 exit code, 5 any wrong type, 6/7 end of a stream, 8 any of 1 2 3 6 7, 9 end of either stream, 10 standard output that announces more than follows) with n1..n6 bytes; in: bytes of standard input; cut: 1 closed, 2 reset after the messages, drop: bytes missing at the end
extern "C" void cli() {
	static const char *const mn[] = { "m1", "m2", "m3", "m4", "m5", "m6" }, *const nn[] = { "n1", "n2", "n3", "n4", "n5", "n6" };
	static Configuration c = Configuration::load("[box:1]\ncmd prog\n", "/w");
	budget = sym_param("budget", 3); evMask = sym_param("events", 0xe); recvSplit = sym_param("recv", 0); sendSplit = sym_param("send", 0); sizes_ = sym_param("sizes", 0); int faults = sym_param("faults", 0); cut_at_end = sym_param("cut", 0);
	fill(0, sym_param("in", 0), 8, "standard input");
	size_t total[3] = { 0, 0, 0 }, all = 0; unsigned type[6], len[6], count = 0;
	for (unsigned i = 0; i < 6; i++) {
		unsigned t = sym_param(mn[i], 0); len[i] = sym_param(nn[i], 1); if (!t) break;
		if (t == 8) { static const unsigned any[] = { 1, 2, 3, 6, 7 }; t = any[sym_choose(5, "message")]; }
		if (t == 9) t = 6 + sym_choose(2, "which stream ends");
		type[count] = t; len[count] = t == 1 || t == 2 ? len[i] : 0; if (t == 10) { len[count] = len[i]; total[1] += len[i] + 5; all += len[i]; } if (t == 1 || t == 2) total[t] += len[count]; all += len[count]; count++;
	}
	fill(1, total[1], 16, "standard output"); fill(2, total[2], 16, "standard error");
	inInit(64 + all); size_t at[3] = { 0, 0, 0 }; int ended[3] = { 0, 0, 0 };
	for (unsigned i = 0; i < count; i++) {
		Msg &m = msg[msgs]; m.at = inN + 5; m.n = len[i]; unsigned t = type[i];
		if (t == 1 || t == 2) { if (ended[t] && len[i]) { bad = 1; srcN[t] -= len[i]; } m.type = t == 1 ? M_STDOUT : M_STDERR; message(m.type, src[t] + at[t], len[i]); at[t] += len[i]; if (bad) m.type = 99; }
		else if (t == 3) { m.type = M_STDIN; message(M_STDIN, "", 0); }
		else if (t == 4) { m.type = M_EXIT; exitValue = sym_u8("exit code"); message(M_EXIT, nullptr, exitValue, true); exitMsg = (int)msgs; }
		else if (t == 5) { m.type = 98; uint8_t w = sym_u8("type"); sym_assume(w != M_STDOUT && w != M_STDERR && w != M_STDIN && w != M_EXIT); message(w, "", 0); bad = 1; }
		else if (t == 10) { // announces more than follows, which ends with what looks like an exit code
			uint32_t n = len[i] + (1u << 8 * (1 + sym_choose(3, "announced"))); uint8_t h[5] = { M_STDOUT, (uint8_t)n, (uint8_t)(n >> 8), (uint8_t)(n >> 16), (uint8_t)(n >> 24) }; inPut(h, 5); size_t from = inN;
			m.type = M_STDOUT; m.at = from; m.n = n; inPut(src[1] + at[1], len[i]); uint8_t e[5] = { M_EXIT, 0, 0, 0, 0 }; inPut(e, 5); m.end = from + n; msgs++; memcpy(src[1] + at[1] + len[i], e, 5); cut_at_end = 1; break;
		}
		else { int s = t == 6 ? 1 : 2; ended[s] = 1; m.type = s == 1 ? M_STDOUT : M_STDERR; message(m.type, "", 0); }
		m.end = inN; msgs++;
		if (bad || t == 4) break;
	}
	unsigned drop = sym_param("drop", 0); if (drop) { if (drop > 9) { drop = sym_choose((unsigned)inN + 1, "cut off"); } if (drop > inN) drop = (unsigned)inN; inN -= drop; if (drop) { exitMsg = -1; while (cuts && cut_[cuts - 1] > inN) cuts--; if (!cut_at_end) cut_at_end = 1; bad = 0; } else cut_at_end = 0; }
	faultsLeft = 0; faultsLeft = faults;
	static const char *argv[] = { nullptr };
	int code; try { code = Process::runRemoteCommand("d", c.getCommands().find("cmd")->second, 0, argv, c); } catch (const std::exception &) { finish(1, 0); }
	finish(0, code);
}

// parameters: digits of the timeout, sign, attempts followed; free: digits that are arbitrary (the others fixed), top: the same at the end of the range; calm: the clock advances by at most a millisecond between reads
extern "C" void c23() {
	unsigned n = sym_param("digits", 1), sign = sym_param("sign", 0), top = sym_param("top", 0); maxAttempts = sym_param("attempts", 4); calm = sym_param("calm", 0);
	char text[64] = "connectTimeoutMs="; unsigned at = strlen(text); uint64_t v = 0; if (sign) text[at++] = '-';
	static const char big[] = "9223372036854775807";
	for (unsigned i = 0; i < n; i++) {
		uint8_t d; if (top ? i < n - top : i + sym_param("free", 9) < n) d = top ? big[i] : '0' + (i * 7 + 3) % 9; else { d = sym_u8("digit"); sym_assume(d >= '0' && d <= '9'); if (top) sym_assume(d <= (uint8_t)big[i]); }
		text[at++] = (char)d; v = v * 10 + (d - '0');
	}
	string t(text, at); t += "\n[box:1]\ncmd prog\n"; if (!n) t = "[box:1]\ncmd prog\n", v = 30000;
	Configuration c = Configuration::load(t, "/w");
	if (sign) { sym_assume(v != 0); forever = 1; } else deadline = v;
	static const uint64_t starts[] = { 1000000001, 0, 12345678901234567ull, 1ull << 58 }; clock_ = starts[sym_param("start", 0)]; connecting = 1;
	static const char *argv[] = { nullptr };
	int code; try { code = Process::runRemoteCommand("d", c.getCommands().find("cmd")->second, 0, argv, c); } catch (const std::exception &) { finish(1, 0); }
	finish(0, code);
}
