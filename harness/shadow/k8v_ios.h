// Minimal stream classes used in place of the libstdc++ ones, both symbolically and in native replays.
// Text goes either to a string (string streams) or to the environment model (cout, cerr, clog).
#ifndef K8V_IOS_H
#define K8V_IOS_H
#include <iosfwd>
#include <cctype>
#include <clocale>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cwchar>
#include <exception>
#include <system_error>
#include <string>
#include <bits/postypes.h>
extern "C" { void k8v_stream_write(int fd, const char *data, unsigned long n); void k8v_stream_flush(int fd); long k8v_stream_read(int fd, char *data, unsigned long n); int sym_is_symbolic(unsigned long v); }
namespace std {
class ios_base {
public:
	typedef unsigned iostate; typedef unsigned fmtflags; typedef unsigned openmode; typedef unsigned seekdir;
	static constexpr iostate goodbit = 0, badbit = 1, eofbit = 2, failbit = 4;
	static constexpr fmtflags dec = 2, hex = 8, oct = 64, boolalpha = 1, skipws = 4096, left = 32, right = 128, internal = 16, uppercase = 16384, showbase = 512, basefield = 74, adjustfield = 176, unitbuf = 8192;
	static constexpr openmode app = 1, ate = 2, binary = 4, in = 8, out = 16, trunc = 32;
	static constexpr seekdir beg = 0, cur = 1, end = 2;
	iostate _st = goodbit; fmtflags _fl = dec; streamsize _w = 0, _prec = 6; char _fill = ' ';
	streamsize width() const { return _w; }
	streamsize width(streamsize w) { streamsize o = _w; _w = w; return o; }
	fmtflags flags() const { return _fl; }
	fmtflags flags(fmtflags f) { fmtflags o = _fl; _fl = f; return o; }
	fmtflags setf(fmtflags f) { fmtflags o = _fl; _fl |= f; return o; }
	fmtflags setf(fmtflags f, fmtflags m) { fmtflags o = _fl; _fl = (_fl & ~m) | (f & m); return o; }
	void unsetf(fmtflags f) { _fl &= ~f; }
	static bool sync_with_stdio(bool = true) { return true; }
	class Init { };
	class failure;
};
template <typename C, typename T> class basic_ios : public ios_base {
public:
	void *_tie = nullptr;
	iostate rdstate() const { return _st; }
	bool good() const { return _st == 0; }
	bool eof() const { return (_st & eofbit) != 0; }
	bool fail() const { return (_st & (failbit | badbit)) != 0; }
	bool bad() const { return (_st & badbit) != 0; }
	bool operator!() const { return fail(); }
	explicit operator bool() const { return !fail(); }
	void clear(iostate s = goodbit) { _st = s; }
	void setstate(iostate s) { _st |= s; }
	C fill() const { return _fill; }
	C fill(C c) { C o = _fill; _fill = c; return o; }
	void *tie(void *t = nullptr) { void *o = _tie; _tie = t; return o; }
};
template <typename C, typename T> class basic_ostream : public basic_ios<C, T> {
public:
	int _fd = -1; basic_string<C> _text;
	basic_ostream() { }
	explicit basic_ostream(int fd) : _fd(fd) { }
	basic_ostream &raw(const C *s, streamsize n) { if (n > 0) { if (_fd >= 0) { if (this->_st == 0) k8v_stream_write(_fd, s, n); } else _text.append(s, n); } return *this; }
	basic_ostream &ins(const C *s, streamsize n) {
		streamsize p = this->_w > n ? this->_w - n : 0; this->_w = 0; bool l = (this->_fl & ios_base::left) != 0;
		if (!l) for (streamsize i = 0; i < p; i++) raw(&this->_fill, 1);
		raw(s, n);
		if (l) for (streamsize i = 0; i < p; i++) raw(&this->_fill, 1);
		return *this;
	}
	basic_ostream &write(const C *s, streamsize n) { return raw(s, n); }
	basic_ostream &put(C c) { return raw(&c, 1); }
	basic_ostream &flush() { if (_fd >= 0) k8v_stream_flush(_fd); return *this; }
	basic_ostream &num(unsigned long long v, bool neg) {
		if (sym_is_symbolic(v) || sym_is_symbolic(neg)) return ins("#", 1); // the text of a symbolic number is only used in messages
		C b[40]; int i = 40; unsigned base = this->_fl & ios_base::hex ? 16 : this->_fl & ios_base::oct ? 8 : 10;
		do { unsigned d = unsigned(v % base); b[--i] = C(d < 10 ? '0' + d : (this->_fl & ios_base::uppercase ? 'A' : 'a') + d - 10); v /= base; } while (v);
		if (neg) b[--i] = '-';
		return ins(b + i, 40 - i);
	}
	basic_ostream &snum(long long v, unsigned long long u) { if (this->_fl & (ios_base::hex | ios_base::oct)) return num(u, false); return num(v < 0 ? 0ULL - (unsigned long long)v : (unsigned long long)v, v < 0); }
	basic_ostream &operator<<(short v) { return snum(v, (unsigned short)v); }
	basic_ostream &operator<<(int v) { return snum(v, (unsigned)v); }
	basic_ostream &operator<<(long v) { return snum(v, (unsigned long)v); }
	basic_ostream &operator<<(long long v) { return snum(v, v); }
	basic_ostream &operator<<(unsigned short v) { return num(v, false); }
	basic_ostream &operator<<(unsigned v) { return num(v, false); }
	basic_ostream &operator<<(unsigned long v) { return num(v, false); }
	basic_ostream &operator<<(unsigned long long v) { return num(v, false); }
	basic_ostream &operator<<(bool v) { if (this->_fl & ios_base::boolalpha) return v ? ins("true", 4) : ins("false", 5); return num(v, false); }
	basic_ostream &operator<<(double v) { return snum((long long)v, (long long)v); }
	basic_ostream &operator<<(const void *v) { return ins("0x", 2).num((unsigned long)v, false); }
	basic_ostream &operator<<(basic_ostream &(*f)(basic_ostream &)) { return f(*this); }
	basic_ostream &operator<<(ios_base &(*f)(ios_base &)) { f(*this); return *this; }
};
template <typename C, typename T> basic_ostream<C, T> &endl(basic_ostream<C, T> &o) { return o.put('\n').flush(); }
template <typename C, typename T> basic_ostream<C, T> &flush(basic_ostream<C, T> &o) { return o.flush(); }
template <typename C, typename T> basic_ostream<C, T> &ends(basic_ostream<C, T> &o) { return o.put(0); }
inline ios_base &hex(ios_base &b) { b.setf(ios_base::hex, ios_base::basefield); return b; }
inline ios_base &dec(ios_base &b) { b.setf(ios_base::dec, ios_base::basefield); return b; }
inline ios_base &oct(ios_base &b) { b.setf(ios_base::oct, ios_base::basefield); return b; }
inline ios_base &boolalpha(ios_base &b) { b.setf(ios_base::boolalpha); return b; }
inline ios_base &noboolalpha(ios_base &b) { b.unsetf(ios_base::boolalpha); return b; }
inline ios_base &left(ios_base &b) { b.setf(ios_base::left, ios_base::adjustfield); return b; }
inline ios_base &right(ios_base &b) { b.setf(ios_base::right, ios_base::adjustfield); return b; }
inline ios_base &uppercase(ios_base &b) { b.setf(ios_base::uppercase); return b; }
inline ios_base &unitbuf(ios_base &b) { b.setf(ios_base::unitbuf); return b; }
inline ios_base &skipws(ios_base &b) { return b; }
inline ios_base &noskipws(ios_base &b) { return b; }
template <typename T> basic_ostream<char, T> &operator<<(basic_ostream<char, T> &o, char c) { return o.ins(&c, 1); }
template <typename T> basic_ostream<char, T> &operator<<(basic_ostream<char, T> &o, signed char c) { char d = c; return o.ins(&d, 1); }
template <typename T> basic_ostream<char, T> &operator<<(basic_ostream<char, T> &o, unsigned char c) { char d = c; return o.ins(&d, 1); }
template <typename T> basic_ostream<char, T> &operator<<(basic_ostream<char, T> &o, const char *s) { if (!s) { o.setstate(ios_base::badbit); return o; } return o.ins(s, __builtin_strlen(s)); }
template <typename C, typename T, typename V> basic_ostream<C, T> &operator<<(basic_ostream<C, T> &&o, const V &v) { o << v; return o; }
template <typename C, typename T> class basic_istream : public basic_ios<C, T> {
public:
	int _fd = -1; basic_string<C> _in; size_t _pos = 0; streamsize _n = 0;
	basic_istream() { }
	explicit basic_istream(int fd) : _fd(fd) { }
	int get1() { if (_fd >= 0) { char c; if (this->_st || k8v_stream_read(_fd, &c, 1) != 1) { this->setstate(ios_base::eofbit); return -1; } return (unsigned char)c; } if (_pos >= _in.length()) { this->setstate(ios_base::eofbit); return -1; } return (unsigned char)_in[_pos++]; }
	int get() { int c = get1(); if (c < 0) this->setstate(ios_base::failbit); return c; }
	int peek() { if (_fd < 0) return _pos < _in.length() ? (unsigned char)_in[_pos] : -1; return -1; }
	basic_istream &read(C *s, streamsize n) { _n = 0; while (_n < n) { int c = get1(); if (c < 0) { this->setstate(ios_base::failbit); break; } s[_n++] = C(c); } return *this; }
	streamsize gcount() const { return _n; }
};
_GLIBCXX_BEGIN_NAMESPACE_CXX11
template <typename C, typename T, typename A> class basic_ostringstream : public basic_ostream<C, T> {
public:
	basic_ostringstream() { }
	explicit basic_ostringstream(ios_base::openmode) { }
	explicit basic_ostringstream(const basic_string<C, T, A> &s, ios_base::openmode = 0) { this->_text = s; }
	basic_string<C, T, A> str() const { return this->_text; }
	void str(const basic_string<C, T, A> &s) { this->_text = s; }
};
template <typename C, typename T, typename A> class basic_istringstream : public basic_istream<C, T> {
public:
	basic_istringstream() { }
	explicit basic_istringstream(const basic_string<C, T, A> &s, ios_base::openmode = 0) { this->_in = s; }
	void str(const basic_string<C, T, A> &s) { this->_in = s; this->_pos = 0; }
	basic_string<C, T, A> str() const { return this->_in; }
};
_GLIBCXX_END_NAMESPACE_CXX11
_GLIBCXX_BEGIN_NAMESPACE_CXX11
template <typename C, typename T, typename A> class basic_stringstream : public basic_ostream<C, T> {
public:
	basic_stringstream() { }
	explicit basic_stringstream(const basic_string<C, T, A> &s, ios_base::openmode = 0) { this->_text = s; }
	basic_string<C, T, A> str() const { return this->_text; }
	void str(const basic_string<C, T, A> &s) { this->_text = s; }
};
_GLIBCXX_END_NAMESPACE_CXX11
template <> inline basic_istream<char> &getline(basic_istream<char> &i, basic_string<char> &s, char d) { s.clear(); bool any = false; for (;;) { int c = i.get1(); if (c < 0) { if (!any) i.setstate(ios_base::failbit); return i; } any = true; if (char(c) == d) return i; s += char(c); } }
struct k8v_setw { int n; }; inline k8v_setw setw(int n) { return k8v_setw{n}; }
template <typename C, typename T> basic_ostream<C, T> &operator<<(basic_ostream<C, T> &o, k8v_setw w) { o.width(w.n); return o; }
template <typename C> struct k8v_setfill { C c; }; template <typename C> inline k8v_setfill<C> setfill(C c) { return k8v_setfill<C>{c}; }
template <typename C, typename T> basic_ostream<C, T> &operator<<(basic_ostream<C, T> &o, k8v_setfill<C> f) { o.fill(f.c); return o; }
struct k8v_setbase { int n; }; inline k8v_setbase setbase(int n) { return k8v_setbase{n}; }
template <typename C, typename T> basic_ostream<C, T> &operator<<(basic_ostream<C, T> &o, k8v_setbase w) { o.setf(w.n == 16 ? ios_base::hex : w.n == 8 ? ios_base::oct : ios_base::dec, ios_base::basefield); return o; }
extern istream cin asm("k8v_std_cin");
extern ostream cout asm("k8v_std_cout");
extern ostream cerr asm("k8v_std_cerr");
extern ostream clog asm("k8v_std_clog");
}
#endif
