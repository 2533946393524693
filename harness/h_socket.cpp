// Sockets and pipes: C20 (addresses), C21 (transfers), C22 (ownership of descriptors).
#include <string>
#include <vector>
#include <netinet/in.h>
#include <unistd.h>
#include "Socket.hxx"
#include "Utilities.hxx"
#include "world.h"
#include "hlp.h"
using k8psh::Socket; using k8psh::Pipe;

static unsigned mode, thePort; static int bound = -1, listening = -1, connected = -1, reuseSet, faults, configureFault, failed;
static int errnoValue(const char *n) { uint32_t e = sym_u32(n); sym_assume(e >= 1 && e <= 133); return (int)e; }
static int mayFail(const char *n) { if (!faults || !sym_bool(n)) return 0; failed = errnoValue(n); return failed; }
static void address(const struct sockaddr *a, unsigned n) {
	const sockaddr_in *in = (const sockaddr_in *)a; const uint8_t *p = (const uint8_t *)&in->sin_port, *q = (const uint8_t *)&in->sin_addr;
	sym_assert(n >= sizeof(sockaddr_in) && in->sin_family == AF_INET, "not an IPv4 address");
	sym_assert(((unsigned)p[0] << 8 | p[1]) == thePort, "not exactly the requested port");
	sym_assert(q[0] == 127 && q[1] == 0 && q[2] == 0 && q[3] == 1, "not the loopback address");
}
static unsigned base; // descriptors open before (the program's own)
static int conns; static uint8_t closedObj[64]; static uint8_t log_[1 << 17]; static unsigned logN; static int eof, hardError, softError, calls, maxCalls = 6;
static const uint8_t *expect; static size_t expectLen;
extern "C" {
int h_socket() { int e = mayFail("socket fails"); return e; }
int h_bind(int, int obj, const struct sockaddr *a, unsigned n) { address(a, n); int e = mayFail("bind fails"); if (!e) bound = obj; return e; }
int h_listen(int, int obj, int) { sym_assert(mode == 22 || bound == obj, "listening on a socket that is not bound to the address"); int e = mayFail("listen fails"); if (!e) listening = obj; return e; }
int h_connect(int, int obj, const struct sockaddr *a, unsigned n) { address(a, n); conns++; int e = mayFail("connect fails"); if (!e) connected = obj; return e; }
int h_setsockopt(int, int, int level, int name, const void *, unsigned) { if (level == SOL_SOCKET && name == SO_REUSEADDR) { if (faults && sym_bool("setsockopt fails")) { failed = errnoValue("setsockopt"); return failed; } return 0; } return faults && sym_bool("setsockopt fails") ? ENOPROTOOPT : 0; }
int h_accept(int, int) { return mayFail("accept fails"); }
int h_shutdown(int, int, int) { static int none = -1; if (none < 0) none = (int)sym_choose(2, "not connected"); return none ? ENOTCONN : 0; } // one choice for all: the peer is gone
int h_getsockname(int, int obj, struct sockaddr *a, unsigned *n) { sockaddr_in in = {}; in.sin_family = AF_INET; in.sin_port = htons((uint16_t)thePort); memcpy(a, &in, sizeof in); *n = sizeof in; (void)obj; return 0; }
void h_closed(int, int kind, int obj) { if (kind == W_SOCK || kind == W_LISTEN) { sym_assert(!closedObj[obj], "a socket is closed twice"); closedObj[obj] = 1; } }
long h_sock_recv(int, int, void *buf, size_t n, int) {
	sym_assert(n > 0, "an empty read"); sym_assert(!eof, "a read after end of stream"); sym_assert(!hardError, "a read after a failure");
	sym_assume(++calls <= maxCalls); sym_readable(buf, n);
	unsigned c = sym_choose(n > 64 ? 6 : 4, "recv");
	if (c == 0) { int e = errnoValue("recv errno"); if (e == EINTR || e == EAGAIN) softError = 1; else hardError = 1; return w_err(e); }
	if (c == 1) { eof = 1; return 0; }
	size_t k = c == 2 ? n : c == 3 ? 1 + sym_choose(n > 64 ? 2 : n, "received") : c == 4 ? n - 1 : n / 2;
	if (n > 64) { for (size_t i = 0; i < k; i++) ((uint8_t *)buf)[i] = log_[logN + i] = (uint8_t)((logN + i) * 7 + 1); }
	else { sym_bytes(buf, k, "data"); memcpy(log_ + logN, buf, k); }
	logN += k; return (long)k;
}
long h_sock_send(int, int, const void *buf, size_t n, int) {
	if (mode == 22) return 1;
	sym_assert(n > 0, "an empty write"); sym_assert(!hardError, "a write after a failure"); sym_assume(++calls <= maxCalls);
	unsigned c = sym_choose(n > 64 ? 5 : 3, "send");
	if (c == 0) { int e = errnoValue("send errno"); if (e == EINTR || e == EAGAIN) softError = 1; else hardError = 1; return w_err(e); }
	size_t k = c == 1 ? n : c == 2 ? 1 + sym_choose(n > 64 ? 2 : n, "accepted") : c == 3 ? n - 1 : n / 2;
	sym_assert(logN + k <= expectLen, "more is sent than requested"); sym_assert(sym_equal(buf, expect + logN, k), "other bytes are sent than requested");
	logN += k; return (long)k;
}
long h_pipe_read(int, int, void *buf, size_t n) { sym_readable(buf, n); if (mode == 21) return h_sock_recv(0, 0, buf, n, 0); unsigned c = sym_choose(3, "pipe read"); if (c == 0) return w_err(EIO); if (c == 1) return 0; return (long)1; }
long h_pipe_write(int, int, const void *buf, size_t n) { if (mode == 21) return h_sock_send(0, 0, buf, n, 0); unsigned c = sym_choose(3, "pipe write"); if (c == 0) return w_err(EPIPE); if (c == 1) return w_err(EAGAIN); return (long)n; }
int h_pipe() { return mayFail("pipe fails"); }
int h_dup2(int, int) { return mayFail("dup2 fails"); }
int h_fcntl(int, int, long) { return mayFail("fcntl fails"); }
}

extern "C" void c20() {
	mode = 20; faults = 1; base = w_openCount; w_checkFd = 1;
	bool server = sym_param("server", 1); uint16_t port = sym_u16("port"); thePort = port;
	bool failOnError = server || sym_bool("fail on error"), threw = false;
	{
		Socket s;
		try { s = server ? Socket::listen(port) : Socket::connect(port, failOnError); } catch (const std::exception &) { threw = true; }
		if (threw || !s.isValid()) {
			sym_cover(threw ? "reported" : "invalid");
			sym_assert(failed, "a failure although every step succeeded");
			sym_assert(w_openCount == base, "a failure leaves a socket open");
			sym_assert(!server || threw, "a failure to listen is not reported");
			if (!threw) sym_assert(!failOnError || failed == EINTR || failed == ENOBUFS, "a failure to connect is not reported");
			sym_end();
		}
		sym_assert(!failed, "a failed step is not reported");
		sym_assert(w_openCount == base + 1, "more than one socket is left open");
		if (server) { sym_assert(listening >= 0 && listening == bound, "the socket is not listening on the requested address"); sym_assert(s.getPort() == port, "the reported port differs from the bound one"); }
		else sym_assert(connected >= 0 && conns == 1, "the socket is not connected");
		sym_cover("open");
	}
	sym_assert(w_openCount == base, "the socket stays open when its owner goes away");
	sym_end();
}

extern "C" void c21() {
	mode = 21; thePort = 9; w_checkFd = 1; unsigned N = sym_param("size", 4); unsigned kind = sym_param("kind", 0); bool big = N > 64; maxCalls = big ? 4 : 6;
	std::vector<uint8_t> data(N); if (big) for (unsigned i = 0; i < N; i++) data[i] = (uint8_t)(i * 13 + 5); else if (N) sym_bytes(data.data(), N, "content");
	std::vector<uint8_t> before(data);
	bool threw = false; size_t got = 0;
	if (kind == 2 || kind == 3) { // a pipe
		Pipe p; string text((const char *)before.data(), N);
		expect = before.data(); expectLen = N;
		if (kind == 2) {
			try { got = p.read(text); } catch (const std::exception &) { threw = true; }
			if (threw) { sym_cover("failed"); sym_assert(hardError || softError, "a transfer fails although the system reported no error"); sym_end(); }
			sym_assert(!hardError, "a transfer error is ignored");
			sym_assert(got == logN && (got > 0 || eof), "the number of bytes read is wrong");
			sym_assert(text.length() == N && sym_equal(text.data(), log_, got), "the bytes read are stored wrongly");
			sym_assert(sym_equal(text.data() + got, before.data() + got, N - got), "bytes beyond those read are changed");
			sym_cover("read"); sym_end();
		}
		size_t sent = p.write(text);
		sym_assert(sent == logN, "the number of bytes written is wrong");
		if (hardError) { sym_cover("failed"); sym_assert(p.getInput() == Pipe::INVALID_HANDLE, "a broken pipe is not closed"); }
		else sym_assert(p.getInput() != Pipe::INVALID_HANDLE, "the pipe is closed although it did not fail");
		if (sent) sym_cover("written");
		sym_end();
	}
	Socket s = Socket::connect(9);
	if (kind == 0) {
		unsigned offset = big ? (unsigned)sym_param("offset", 0) : sym_choose(N + 2, "offset"); bool all = sym_bool("wait all");
		try { got = s.read(data, offset, all); } catch (const std::exception &) { threw = true; }
		unsigned room = offset >= N ? 0 : N - offset;
		if (threw) { sym_cover("failed"); sym_assert(hardError || softError, "a transfer fails although the system reported no error"); sym_end(); }
		sym_assert(!hardError, "a transfer error is ignored");
		sym_assert(data.size() == N, "the buffer's size is changed");
		sym_assert(got == logN && got <= room, "the number of bytes read is wrong");
		sym_assert(got > 0 || eof || !room, "nothing is read although the stream has not ended");
		sym_assert(!all || got == room || eof, "a waiting read returns early");
		for (unsigned i = 0; i < 1; i++) if (room) sym_assert(sym_equal(data.data() + offset, log_, got), "the bytes read are stored wrongly");
		unsigned o = offset < N ? offset : N;
		sym_assert(sym_equal(data.data(), before.data(), o) && sym_equal(data.data() + o + got, before.data() + o + got, N - o - got), "bytes outside those read are changed");
		if (got) sym_cover("read"); if (all && got) sym_cover("waited");
		sym_end();
	}
	unsigned from, to;
	if (big) { from = (unsigned)sym_param("offset", 0); to = N; } else { from = sym_choose(N + 1, "from"); to = sym_choose(N + 1, "to"); }
	size_t want = from < to ? to - from : 0; expect = before.data() + from; expectLen = want;
	try { got = s.write(data, from, to); } catch (const std::exception &) { threw = true; }
	if (threw) { sym_cover("failed"); sym_assert(hardError || softError, "a transfer fails although the system reported no error"); sym_end(); }
	sym_assert(!hardError, "a transfer error is ignored");
	sym_assert(logN == want, "not everything is sent"); sym_assert(got == want, "the number of bytes sent is wrong");
	if (want) sym_cover("sent");
	sym_end();
}

// C22: sequences of operations
static int firstFd = 3;
static unsigned countOpen() { unsigned n = 0; for (int i = firstFd; i < W_MAXFD; i++) n += w_fd[i].kind != W_FREE; return n; }
static unsigned leftOpen() { return countOpen() - base; }
extern "C" void c22() {
	mode = 22; thePort = 9; if (sym_param("low", 0)) { firstFd = 0; close(0); } base = countOpen(); faults = sym_param("faults", 1); w_checkFd = 1; unsigned steps = sym_param("steps", 3); bool pipes = sym_param("pipes", 0); long handed = 0;
	if (!pipes) {
		Socket *s[3] = { new Socket, new Socket, new Socket };
		for (unsigned k = 0; k < steps; k++) {
			unsigned i = sym_choose(k ? 3 : 1, "slot"), op = sym_choose(9, "operation"), j = op == 0 || op == 1 || op == 3 || op == 4 ? sym_choose(3, "other") : 0;
			Socket &a = *s[i], &b = *s[j];
			failed = 0;
			try {
				switch (op) {
				case 0: a = std::move(b); if (i != j) sym_assert(!b.isValid(), "a moved-from socket still owns its descriptor"); break;
				case 1: if (i != j) { Socket *n = new Socket(std::move(b)); sym_assert(!b.isValid(), "a moved-from socket still owns its descriptor"); delete s[i]; s[i] = n; } break;
				case 2: a = Socket::listen(9); break;
				case 3: if (b.isValid()) { if (w_fd[b.createReadEvent()].kind == W_LISTEN) a = b.accept(); } break;
				case 4: a = Socket::connect(9, j == 1); break;
				case 5: { int h = a.abandon(); sym_assert(!a.isValid(), "an abandoned socket still owns its descriptor"); if (h != Socket::INVALID_HANDLE) { sym_assert(w_valid(h), "an abandoned descriptor is already closed"); handed++; sym_cover("abandoned"); } break; }
				case 6: a.close(); sym_assert(!a.isValid(), "a closed socket still has a descriptor"); break;
				case 7: delete s[i]; s[i] = new Socket; break;
				case 8: if (a.isValid()) { std::vector<uint8_t> d(1); try { (void)a.write(d); } catch (const std::exception &) { } } break;
				}
			} catch (const std::exception &) { sym_assert(failed, "an operation fails although every step succeeded"); }
			// every live socket owns its own open descriptor, and nothing else is open
			int live = 0;
			for (unsigned x = 0; x < 3; x++) if (s[x]->isValid()) {
				int h = s[x]->createReadEvent(); live++; sym_assert(w_valid(h), "a socket's descriptor is closed while it owns it");
				for (unsigned y = 0; y < x; y++) sym_assert(!s[y]->isValid() || s[y]->createReadEvent() != h, "two sockets own one descriptor");
			}
			sym_assert(leftOpen() == live + handed, "a descriptor is left open without an owner");
			if (live > 1) sym_cover("two owners");
		}
		for (auto x : s) delete x;
		sym_assert(leftOpen() == handed, "a descriptor is left open when its owner goes away");
		sym_end();
	}
	Pipe *p[2] = { nullptr, nullptr };
	for (unsigned k = 0; k < steps; k++) {
		unsigned i = sym_choose(2, "pipe"), op = p[i] ? 1 + sym_choose(8, "operation") : 0; failed = 0;
		try {
			switch (op) {
			case 0: p[i] = new Pipe; break;
			case 1: p[i]->closeInput(); sym_assert(p[i]->getInput() == Pipe::INVALID_HANDLE, "a closed pipe end still has a descriptor"); break;
			case 2: p[i]->closeOutput(); sym_assert(p[i]->getOutput() == Pipe::INVALID_HANDLE, "a closed pipe end still has a descriptor"); break;
			case 3: case 4: { // remap an end to a standard descriptor, to nothing, or to itself
				bool in = op == 3; unsigned t = sym_choose(3, "target"); int old = in ? p[i]->getInput() : p[i]->getOutput(), target = t == 0 ? (in ? 1 : 0) : t == 1 ? -1 : old;
				int obj = old >= 0 ? w_fd[old].obj : -1;
				bool taken = false; for (auto q : p) if (q && t == 0 && old != target && (q->getInput() == target || q->getOutput() == target)) taken = true;
				if (taken) break; // two owners of one target: not used by the code
				bool ok = in ? p[i]->remapInput(target) : p[i]->remapOutput(target);
				int now = in ? p[i]->getInput() : p[i]->getOutput();
				if (!ok) sym_assert(failed || old < 0, "remapping fails although every step succeeded");
				sym_assert(now == (ok ? target : old), "the remapped end is not the requested descriptor");
				if (ok && target >= 0) { sym_assert(w_valid(target) && w_fd[target].obj == obj && w_fd[target].kind == (in ? W_PIPE_W : W_PIPE_R), "the target is not the pipe"); sym_assert(w_refs(in ? W_PIPE_W : W_PIPE_R, obj) == 1, "the old descriptor is left open"); sym_cover("remapped"); }
				break; }
			case 5: if (p[i]->getInput() >= 0) (void)p[i]->setInputNonblocking(); break;
			case 6: { string d("x"); (void)p[i]->write(d); break; }
			case 7: if (p[i]->getOutput() >= 0) { string d("x"); try { (void)p[i]->read(d); } catch (const std::exception &) { } } break;
			case 8: delete p[i]; p[i] = nullptr; break;
			}
		} catch (const std::exception &) { sym_assert(failed, "an operation fails although every step succeeded"); }
		int live = 0; for (auto q : p) if (q) { if (q->getInput() >= 0) { sym_assert(w_valid(q->getInput()), "a pipe's descriptor is closed while it owns it"); live += q->getInput() > 2; } if (q->getOutput() >= 0) { sym_assert(w_valid(q->getOutput()), "a pipe's descriptor is closed while it owns it"); live += q->getOutput() > 2; } }
		sym_assert(leftOpen() == live, "a descriptor is left open without an owner");
	}
	for (auto q : p) delete q;
	sym_assert(leftOpen() == 0, "a descriptor is left open when its owner goes away");
	sym_end();
}
