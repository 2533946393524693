// Reading files (C35), and what the process learns about itself (C36).
#include <string>
#include "Utilities.hxx"
#include "world.h"
#include "hlp.h"
using k8psh::Utilities; using k8psh::OptionalString;

static char text_[64]; static unsigned textN; static long claimed; static int openError, faultsLeft, shrinkAt = -1, opened, closedBad;
static string what_; static int fail_, calls_;
extern "C" {
// C35
int h_fopen(const char *path, const char *) { sym_assert(eqs("some/file", path), "another file is opened"); if (openError) return -openError; opened++; return 0; }
long h_fsize(int) { return claimed; }
long h_file_read(int pos, int, void *buf, size_t n) {
	size_t at = (size_t)(-1 - pos), all = textN;
	if (faultsLeft > 0) { unsigned c = sym_choose(3, "reading"); if (c == 1) { faultsLeft--; return w_err(EIO); } if (c == 2) { faultsLeft--; shrinkAt = (int)at; } }
	if (shrinkAt >= 0) return 0;
	size_t k = at < all ? all - at : 0; if (k > n) k = n;
	if (k > 1 && sym_param("splits", 0)) k -= sym_choose((unsigned)k, "bytes read");
	memcpy(buf, text_ + at, k); return (long)k;
}
// C36
static long put(char *buf, size_t n, bool nul) { size_t l = what_.length(); if (l > n) l = n; memcpy(buf, what_.data(), l); if (nul && l < n) buf[l] = 0; return (long)l; }
char *h_getcwd(char *buf, size_t n) { calls_++; if (fail_) { errno = fail_; return nullptr; } if (n < what_.length() + 1) { errno = ERANGE; return nullptr; } put(buf, n, true); return buf; }
long h_readlink(const char *path, char *buf, size_t n) { calls_++; sym_assert(eqs("/proc/self/exe", path), "another link is read"); if (fail_) return w_err(fail_); return put(buf, n, false); }
int h_gethostname(char *buf, size_t n) { calls_++; if (fail_) return w_err(fail_); put(buf, n, true); if (n < what_.length() + 1) return w_err(ENAMETOOLONG); return 0; }
char *h_realpath(const char *path, char *buf) { calls_++; sym_assert(eqs("some/file", path), "another path is resolved"); if (fail_) { errno = fail_; return nullptr; } memcpy(buf, what_.c_str(), what_.length() + 1); return buf; }
}

extern "C" void c35() {
	textN = sym_param("len", 3); unsigned kind = sym_param("kind", 0); faultsLeft = sym_param("faults", 0);
	sym_bytes(text_, textN, "content"); claimed = (long)textN;
	if (kind == 1) { openError = (int)sym_u8("open fails"); sym_assume(openError != 0); }
	if (kind == 2) claimed = -1;                                // not seekable
	if (kind == 3) claimed = 0x7fffffffffffffffL;               // what a directory reports
	if (kind == 4) { unsigned more = sym_param("more", 1); claimed = (long)(textN + more); }   // shorter than its size says
	bool ok = true; OptionalString got;
	try { got = Utilities::readFile("some/file"); } catch (const std::exception &) { ok = false; }
	if (openError) {
		sym_assert(ok, "a file that cannot be opened is an error instead of being absent");
		sym_assert(!got, "a file that cannot be opened has contents"); sym_cover("absent"); sym_end();
	}
	if (!ok) { sym_assert(kind >= 2 || sym_param("faults", 0) > faultsLeft, "a readable file is refused"); sym_cover("error"); sym_end(); }
	sym_assert(!!got, "a file that was opened is absent"); if (!got) sym_end();
	string s = got; same(s, string(text_, textN), "a file is not read exactly");
	sym_assert(opened == 1, "the file is opened again"); sym_cover("read"); if (textN == 0) sym_cover("empty");
	sym_end();
}

static string make(unsigned n, bool path) {
	string s(n, 'a'); if (path && n) s[0] = '/';
	unsigned at[3] = {n / 2, n - 1, n > 4096 ? 4095u : n / 3};
	for (unsigned i = 0; i < 3; i++) if (at[i] > 0 && at[i] < n) { char c = (char)sym_u8("byte"); sym_assume(c != 0); s[at[i]] = c; }
	return s;
}
static string ask(unsigned kind) { return kind == 0 ? Utilities::getWorkingDirectory() : kind == 1 ? Utilities::getExecutablePath() : kind == 2 ? Utilities::getHostname() : Utilities::getAbsolutePath("some/file"); }
extern "C" void c36() {
	unsigned kind = sym_param("kind", 0), rounds = sym_param("rounds", 1);
	for (unsigned r = 0; r < rounds; r++) {
		unsigned n = r == 0 ? sym_param("n0", 5) : r == 1 ? sym_param("n1", 5) : sym_param("n2", 5);
		what_ = make(n, kind != 2); fail_ = 0; calls_ = 0;
		if (sym_param("failing", 99) == r) { fail_ = (int)sym_u8("failure"); sym_assume(fail_ != 0 && fail_ != ERANGE && fail_ != ENAMETOOLONG); }
		bool ok = true; string got;
		try { got = ask(kind); } catch (const std::exception &) { ok = false; }
		if (fail_) {
			if (kind == 0) { sym_assert(ok, "an unknown working directory is an error instead of empty"); sym_assert(got.empty(), "an unknown working directory is not empty"); }
			else sym_assert(!ok || got.empty(), "a name that could not be determined is made up");
			sym_cover("unknown");
		} else {
			sym_assert(ok, "a name is refused"); if (!ok) sym_end();
			same(got, what_, "a name is not obtained exactly"); sym_cover(n >= 4096 ? "long" : "short"); if (calls_ > 1) sym_cover("grown");
		}
	}
	sym_end();
}
