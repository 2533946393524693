#ifndef K8V_OSTREAM_INSERT
#define K8V_OSTREAM_INSERT
#include <iosfwd>
#include <bits/cxxabi_forced.h>
namespace std {
template <typename C, typename T> inline basic_ostream<C, T> &__ostream_insert(basic_ostream<C, T> &o, const C *s, streamsize n) { return o.ins(s, n); }
}
#endif
