// Library functions the code under test calls, executed symbolically together with it.
#include <string>
#include <vector>
#include <list>
#include <stdexcept>
#include <new>
#include <typeinfo>
#include <unordered_map>
#include <map>
#include <cstring>
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <climits>
#include <ctime>
#include <unistd.h>
#include <bits/nested_exception.h>
#include "k8v.h"
#include <k8v_ios.h>

template class std::basic_string<char>;

extern "C" {
char __libc_single_threaded = 1;
static char *theEnv[] = { nullptr }; char **environ = theEnv;
void *__dso_handle = nullptr;
static char fileObj[3];
FILE *stdin = (FILE *)&fileObj[0]; FILE *stdout = (FILE *)&fileObj[1]; FILE *stderr = (FILE *)&fileObj[2];
#undef errno
int theErrno;
int *__errno_location(void) { return &theErrno; }
[[noreturn]] void __cxa_pure_virtual(void) { sym_fail("pure virtual call"); }
[[noreturn]] void __cxa_call_unexpected(void *) { sym_fail("unexpected exception"); }
[[noreturn]] void __assert_fail(const char *, const char *, unsigned, const char *) { sym_fail("assertion failure in the code"); }
[[noreturn]] void __stack_chk_fail(void) { sym_fail("stack smashing"); }
struct tm *gmtime_r(const time_t *, struct tm *t) { t->tm_year = 100; t->tm_mon = 0; t->tm_mday = 1; t->tm_hour = t->tm_min = t->tm_sec = 0; return t; }
unsigned long pthread_self(void) { return 1; }
int pthread_mutex_lock(void *) { return 0; }
int pthread_mutex_unlock(void *) { return 0; }
int sched_yield(void) { return 0; }
void tzset(void) { }
unsigned short htons(unsigned short v) { return (unsigned short)(v >> 8 | v << 8); }
unsigned short ntohs(unsigned short v) { return (unsigned short)(v >> 8 | v << 8); }
unsigned htonl(unsigned v) { return __builtin_bswap32(v); }
unsigned ntohl(unsigned v) { return __builtin_bswap32(v); }
}
#undef errno

namespace std {
exception::~exception() noexcept { }
const char *exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept { }
const char *bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_alloc::~bad_alloc() noexcept { }
const char *bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept { }
const char *bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept { }
const char *bad_cast::what() const noexcept { return "std::bad_cast"; }
static const char *dup(const char *s, size_t n) { char *r = new char[n + 1]; memcpy(r, s, n); r[n] = 0; return r; }
__cow_string::__cow_string() : _M_p("") { }
__cow_string::__cow_string(const string &s) : _M_p(dup(s.data(), s.length())) { }
__cow_string::__cow_string(const char *s, size_t n) : _M_p(dup(s, n)) { }
__cow_string::__cow_string(const __cow_string &o) noexcept : _M_p(o._M_p) { }
__cow_string &__cow_string::operator=(const __cow_string &o) noexcept { _M_p = o._M_p; return *this; }
__cow_string::~__cow_string() { }
__cow_string::__cow_string(__cow_string &&o) noexcept : _M_p(o._M_p) { }
__cow_string &__cow_string::operator=(__cow_string &&o) noexcept { _M_p = o._M_p; return *this; }
logic_error::logic_error(const string &s) : _M_msg(s) { }
logic_error::logic_error(const char *s) : _M_msg(s, __builtin_strlen(s)) { }
logic_error::logic_error(const logic_error &o) noexcept : exception(o), _M_msg(o._M_msg) { }
logic_error::logic_error(logic_error &&o) noexcept : exception(o), _M_msg(o._M_msg) { }
logic_error &logic_error::operator=(const logic_error &o) noexcept { _M_msg = o._M_msg; return *this; }
logic_error &logic_error::operator=(logic_error &&o) noexcept { _M_msg = o._M_msg; return *this; }
logic_error::~logic_error() noexcept { }
const char *logic_error::what() const noexcept { return _M_msg._M_p; }
invalid_argument::invalid_argument(const string &s) : logic_error(s) { }
invalid_argument::invalid_argument(const char *s) : logic_error(s) { }
invalid_argument::~invalid_argument() noexcept { }
length_error::length_error(const string &s) : logic_error(s) { }
length_error::length_error(const char *s) : logic_error(s) { }
length_error::~length_error() noexcept { }
domain_error::domain_error(const string &s) : logic_error(s) { }
domain_error::domain_error(const char *s) : logic_error(s) { }
domain_error::~domain_error() noexcept { }
out_of_range::out_of_range(const string &s) : logic_error(s) { }
out_of_range::out_of_range(const char *s) : logic_error(s) { }
out_of_range::~out_of_range() noexcept { }
runtime_error::runtime_error(const string &s) : _M_msg(s) { }
runtime_error::runtime_error(const char *s) : _M_msg(s, __builtin_strlen(s)) { }
runtime_error::runtime_error(const runtime_error &o) noexcept : exception(o), _M_msg(o._M_msg) { }
runtime_error::runtime_error(runtime_error &&o) noexcept : exception(o), _M_msg(o._M_msg) { }
runtime_error &runtime_error::operator=(const runtime_error &o) noexcept { _M_msg = o._M_msg; return *this; }
runtime_error &runtime_error::operator=(runtime_error &&o) noexcept { _M_msg = o._M_msg; return *this; }
runtime_error::~runtime_error() noexcept { }
const char *runtime_error::what() const noexcept { return _M_msg._M_p; }
range_error::range_error(const string &s) : runtime_error(s) { }
range_error::range_error(const char *s) : runtime_error(s) { }
range_error::~range_error() noexcept { }
overflow_error::overflow_error(const string &s) : runtime_error(s) { }
overflow_error::overflow_error(const char *s) : runtime_error(s) { }
overflow_error::~overflow_error() noexcept { }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_logic_error(const char *s) { throw logic_error(s); }
void __throw_length_error(const char *s) { throw length_error(s); }
void __throw_out_of_range(const char *s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char *s, ...) { throw out_of_range(s); }
void __throw_invalid_argument(const char *s) { throw invalid_argument(s); }
void __throw_runtime_error(const char *s) { throw runtime_error(s); }
void __throw_domain_error(const char *s) { throw domain_error(s); }
void __throw_bad_function_call() { throw runtime_error("bad_function_call"); }
void __throw_system_error(int) { throw runtime_error("system_error"); }
void __glibcxx_assert_fail(const char *, int, const char *, const char *) noexcept { sym_fail("standard library precondition violated (out-of-range access)"); }
[[noreturn]] void __terminate_model() { sym_fail("std::terminate"); }
}
namespace std { namespace __detail {
void _List_node_base::_M_hook(_List_node_base *p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _M_next->_M_prev = _M_prev; _M_prev->_M_next = _M_next; }
void _List_node_base::_M_transfer(_List_node_base *f, _List_node_base *l) noexcept { if (this == l) return; l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; _M_prev->_M_next = f; _List_node_base *t = _M_prev; _M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; }
} }
namespace std {
// Ordered trees: an unbalanced search tree keeps the same observable order.
_Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) noexcept { if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; } else { auto y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; } return x; }
const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) noexcept { return _Rb_tree_increment(const_cast<_Rb_tree_node_base *>(x)); }
_Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) noexcept { if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right; else if (x->_M_left) { auto y = x->_M_left; while (y->_M_right) y = y->_M_right; x = y; } else { auto y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; } return x; }
const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) noexcept { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base *>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &h) noexcept {
	x->_M_parent = p; x->_M_left = x->_M_right = nullptr; x->_M_color = _S_black;
	if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
	else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
}
}
