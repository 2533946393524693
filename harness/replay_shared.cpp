// Definitions shared by symbolic runs and native replays: container hashing is made independent of the platform
// (constant hash, one bucket), so both executions see the same iteration order; streams go to the environment model.
#include <k8v_ios.h>
#include <unordered_map>
#include "k8v.h"
extern "C" {
size_t __wrap__ZSt11_Hash_bytesPKvmm(const void *, size_t, size_t) { return 0; }
// std::__detail::_Prime_rehash_policy::_M_need_rehash: never grow
std::pair<bool, size_t> __wrap__ZNKSt8__detail20_Prime_rehash_policy14_M_need_rehashEmmm(const void *, size_t, size_t, size_t) { return std::make_pair(false, size_t(1)); }
size_t __wrap__ZNKSt8__detail20_Prime_rehash_policy11_M_next_bktEm(const void *, size_t) { return 1; }
size_t __wrap__ZNSt8__detail20_Prime_rehash_policy11_M_next_bktEm(const void *, size_t) { return 1; }
std::pair<bool, size_t> __wrap__ZNSt8__detail20_Prime_rehash_policy14_M_need_rehashEmmm(const void *, size_t, size_t, size_t) { return std::make_pair(false, size_t(1)); }
}
namespace std {
istream cin(0);
ostream cout(1), cerr(2), clog(2);
}
// declared "extern template" by the library's headers; must not come from the real library
template std::basic_ostream<char> &std::operator<<(std::basic_ostream<char> &, const std::basic_string<char> &);
