// Native replay: supplies the recorded values to the same harness and the same sources.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <map>
#include <string>
#include <vector>
#include <unistd.h>
#include <fcntl.h>
#include <pthread.h>
#include <semaphore.h>
#include "k8v.h"
extern "C" { [[noreturn]] void __real__exit(int); long __real_write(int, const void *, size_t); long __real_read(int, void *, size_t); int __real_open(const char *, int, ...); void verif_on_terminate() __attribute__((weak)); }
static uint64_t inputs[1 << 20]; static size_t count, at; static char *params[64]; static int nparams;
static void say(const char *a, const char *b) { __real_write(2, a, strlen(a)); __real_write(2, b, strlen(b)); __real_write(2, "\n", 1); }
[[noreturn]] static void stop(int code) { __real__exit(code); }
static uint64_t next(const char *name) { if (at >= count) { say("REPLAY: ran out of inputs at ", name); stop(99); } return inputs[at++]; }
extern "C" {
int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *));
uint8_t sym_u8(const char *n) { return next(n); }
uint16_t sym_u16(const char *n) { return next(n); }
uint32_t sym_u32(const char *n) { return next(n); }
uint64_t sym_u64(const char *n) { return next(n); }
int sym_bool(const char *n) { return next(n) & 1; }
void sym_bytes(void *p, size_t n, const char *name) { for (size_t i = 0; i < n; i++) ((unsigned char *)p)[i] = next(name); }
unsigned sym_choose(unsigned n, const char *name) { uint64_t v = next(name); if (v >= n) { say("REPLAY: choice out of range: ", name); stop(99); } return v; }
void sym_assume(int c) { if (!c) { say("REPLAY: assumption does not hold", ""); stop(98); } }
void sym_assert(int c, const char *what) { if (!c) { say("REPLAY-FAIL: ", what); stop(77); } }
void sym_end() { say("REPLAY: end", ""); stop(0); }
void sym_cover(const char *) { }
uint64_t sym_concretize(uint64_t v) { return v; }
uint64_t sym_param(const char *n, uint64_t d) { size_t l = strlen(n); for (int i = 0; i < nparams; i++) if (!strncmp(params[i], n, l) && params[i][l] == '=') return strtoull(params[i] + l + 1, nullptr, 0); return d; }
int sym_is_symbolic(unsigned long) { return 0; }
void sym_fail(const char *what) { say("REPLAY-FAIL: ", what); stop(77); }
int sym_equal(const void *a, const void *b, size_t n) { return !memcmp(a, b, n); }
void sym_print(const char *w, uint64_t v) { char b[200]; int n = snprintf(b, sizeof b, "%s %lld\n", w, (long long)v); __real_write(2, b, n); }
static uint64_t heapOps; static void onMalloc(const volatile void *, size_t) { heapOps++; } static void onFree(const volatile void *) { heapOps++; }
uint64_t sym_heap_ops() { static int on; if (!on) { on = 1; __sanitizer_install_malloc_and_free_hooks(onMalloc, onFree); } return heapOps; }
static sem_t turn[2]; static thread_local int line_; static void (*second)();
static void *runSecond(void *) { line_ = 1; while (sem_wait(&turn[1])) ; second(); stop(96); }
void sym_spawn(void (*f)()) { second = f; sem_init(&turn[0], 0, 0); sem_init(&turn[1], 0, 0); pthread_t t; pthread_create(&t, nullptr, runSecond, nullptr); }
void sym_switch() { int me = line_; sem_post(&turn[1 - me]); while (sem_wait(&turn[me])) ; }
void *__asan_region_is_poisoned(void *, size_t);
void sym_readable(const void *p, size_t n) { if (n && __asan_region_is_poisoned((void *)p, n)) { say("REPLAY-FAIL: memory outside its object", ""); stop(76); } }
int K8V_ENTRY();
}
static void onTerminate() { if (verif_on_terminate) verif_on_terminate(); say("REPLAY-FAIL: uncaught exception", ""); stop(77); }
// Replay files hold one value per line. They are loaded before any other constructor runs.
__attribute__((constructor(101))) static void loadInputs(int argc, char **argv) {
	if (argc < 2) return;
	int f = __real_open(argv[1], O_RDONLY); if (f < 0) stop(97);
	static char buf[1 << 22]; long n = 0, r; while ((r = __real_read(f, buf + n, sizeof buf - 1 - n)) > 0) n += r; buf[n] = 0;
	for (char *p = buf; *p;) { char *e; uint64_t v = strtoull(p, &e, 0); if (e == p) { p++; continue; } inputs[count++] = v; p = e; while (*p && *p != '\n') p++; }
	for (int i = 2; i < argc && nparams < 64; i++) params[nparams++] = argv[i];
}
int k8v_real_main(int, char **) asm("main");
int k8v_real_main(int, char **) { std::set_terminate(onTerminate); K8V_ENTRY(); say("REPLAY: returned", ""); stop(0); }
