// What a server does with the bytes of a request, whatever they are (C12).
#include "session.h"
#include <stdexcept>
static int started, sock, gone_, split_, splits_; static int wantStart, wantCommand; static size_t requestEnd; static int pos_;
extern "C" {
long h_sock_recv(int, int, void *buf, size_t n, int) {
	sym_readable(buf, n);
	if (inAt >= inN) { if (gone_ == 2) return w_err(ECONNRESET); return 0; }
	size_t k = inN - inAt; if (k > n) k = n;
	if (split_ && k > 1 && splits_ > 0) { unsigned c = sym_choose(split_ > 1 ? 4 : 2, "received"); if (c == 1) k = 1; else if (c == 2 && k > 4) k = 4; else if (c == 3) k--; if (c) splits_--; }
	memcpy(buf, in_ + inAt, k); inAt += k; return (long)k;
}
long h_sock_send(int, int, const void *, size_t n, int) { return (long)n; }
int h_fork() {
	started++; CK(12, started == 1, "more than one process is started");
	CK(12, wantStart, "a process is started without a complete request for one of this server's commands");
	CK(12, inAt >= requestEnd, "a process is started before the request is complete");
	return 0;
}
void h_exec(const char *path, char *const *argv, char *const *, int) {
	static const char *const first[] = { "prog", "p/q" };
	CK(12, wantStart, "a program is run without a complete request for one of this server's commands");
	CK(12, eqs(path, first[wantCommand]) && argv[0] && eqs(argv[0], first[wantCommand]), "another program is run than the one configured for the command");
	CK(12, argv[1] && eqs(argv[1], wantCommand ? "x y" : "a"), "the configured words of the command are not what is run");
	sym_cover(wantCommand ? "second command run" : "first command run");
	sym_end();
}
int h_chdir(const char *) { return 0; }
void h_terminate() { sym_fail("an exception was not handled"); }
}
static bool bytesAre(const uint8_t *p, size_t n, const char *s) { if (strlen(s) != n) return false; for (size_t i = 0; i < n; i++) if (p[i] != (uint8_t)s[i]) return false; return true; }
// reference reading of the input
static void reference() {
	size_t at = 0; wantStart = 0; pos_ = 0;
	for (;;) {
		if (inN - at < 5) return;
		unsigned type = in_[at]; uint32_t len = in_[at + 1] | (uint32_t)in_[at + 2] << 8 | (uint32_t)in_[at + 3] << 16 | (uint32_t)in_[at + 4] << 24; at += 5;
		bool start = type == M_START, ok = start || type == M_DIR || type == M_ENV || type == M_ARG;
		if (!ok) { sym_cover("message that does not belong"); return; }
		if (sym_is_symbolic(len)) sym_assume(len < 20 || len == 255 || len == 256 || len == 65536 + 1); // lengths that depend on arbitrary bytes
		else sym_assume(len <= (1 << 24) + 64);
		len = (uint32_t)sym_concretize(len);
		if (inN - at < len) { sym_cover("cut"); return; }
		if (start) {
			bool a = bytesAre(in_ + at, len, "a"), b = bytesAre(in_ + at, len, "bc");
			if (!a && !b) { sym_cover("unknown command"); return; }
			wantStart = 1; wantCommand = b ? 1 : 0; requestEnd = at + len; return;
		}
		at += len;
	}
}
// parameters: n messages with lengths l1..l4 (7: 3 bytes, any declared length up to 255; 8: none, 16777215 declared; 9: none, 70000 declared; 10..12: one byte, one byte of the declared length too large), payload bytes and types arbitrary; keep: bytes kept of the stream (cut), raw: arbitrary bytes
extern "C" void c12() {
	static Configuration c = Configuration::load("[box]\na prog a\nbc p/q 'x y'\n[other]\nab evil\nd evil\n", "/w");
	w_checkFd = 0; split_ = sym_param("split", 0); splits_ = sym_param("splits", 1000); gone_ = 1 + sym_param("reset", 0);
	unsigned raw = sym_param("raw", 0); unsigned pad = sym_param("pad", 0); inInit(256 + pad);
	if (raw) { sym_bytes(in_, raw, "bytes"); inN = raw; }
	else {
		if (pad) { char *z = (char *)malloc(pad); memset(z, 'z', pad); message(M_ARG, z, pad); }
		unsigned n = sym_param("n", 1); static const char *const ln[] = { "l1", "l2", "l3", "l4" };
		for (unsigned i = 0; i < n; i++) {
			unsigned l = sym_param(ln[i], 1); uint8_t t = sym_u8("type"); uint8_t b[8]; unsigned real = l < 7 ? l : l == 7 ? 3 : l >= 10 ? 1 : 0; if (real) sym_bytes(b, real, "payload");
			if (i + 1 == n && sym_param("start", 0)) sym_assume(t == M_START); else if (i + 1 < n && !sym_param("any", 0)) sym_assume(t <= M_ARG);
			uint32_t d = l >= 10 ? 1 + (1u << 8 * (l - 9)) : l == 8 ? 0x00ffffff : l == 9 ? 70000 : l == 7 ? sym_u8("declared length") : l; uint8_t h[5] = { t, (uint8_t)d, (uint8_t)(d >> 8), (uint8_t)(d >> 16), (uint8_t)(d >> 24) }; inPut(h, 5); if (l < 8) inPut(b, l); else if (l >= 10) inPut(b, 1);
		}
		if (sym_param("cut", 0)) { unsigned m = pad ? (unsigned)inN - pad : (unsigned)inN; inN -= sym_choose(m + 1, "cut off"); }
	}
	reference();
	sock = -1;
	{ Socket s = Socket::connect(1); for (int i = 3; i < W_MAXFD; i++) if (w_fd[i].kind == W_SOCK) sock = w_fd[i].obj;
	  try { Process::run("/w", *c.getCommands("box"), std::move(s)); } catch (const std::exception &) { } }
	CK(12, !started, "the session goes on after a failed start");
	CK(12, !wantStart, "a complete request for a configured command starts nothing");
	CK(12, w_refs(W_SOCK, sock) == 0, "the connection is not dropped");
	sym_cover("refused");
	sym_end();
}
