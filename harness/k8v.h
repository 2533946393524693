// Interface between harnesses and the symbolic executor (or the native replay runtime).
#pragma once
#include <stddef.h>
#include <stdint.h>
extern "C" {
uint8_t sym_u8(const char *name); uint16_t sym_u16(const char *name); uint32_t sym_u32(const char *name); uint64_t sym_u64(const char *name); int sym_bool(const char *name);
void sym_bytes(void *p, size_t n, const char *name);
unsigned sym_choose(unsigned n, const char *name);          // a fresh value in [0, n), case split
void sym_assume(int c);
void sym_assert(int c, const char *what);
[[noreturn]] void sym_end();                                // this run is over, everything checked
void sym_cover(const char *what);                           // reachability witness
uint64_t sym_concretize(uint64_t v);
uint64_t sym_param(const char *name, uint64_t def);
int sym_is_symbolic(unsigned long v);
[[noreturn]] void sym_fail(const char *what);
int sym_equal(const void *a, const void *b, size_t n);      // byte equality as one condition
void sym_print(const char *what, uint64_t v);
void sym_readable(const void *p, size_t n);
void sym_spawn(void (*f)());                                 // a second line of execution (must not return)
void sym_switch();                                          // continue with the other line of execution
uint64_t sym_heap_ops();                                    // heap allocations and releases so far
}
