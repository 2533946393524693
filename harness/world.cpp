#include "world.h"
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <netinet/in.h>
#include <sys/select.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/wait.h>
#define WEAK __attribute__((weak))
extern "C" { void k8v_unmodelled(const char *what); extern char **environ; }

WFd w_fd[W_MAXFD] = { { W_STDIN, 0, 0, 0, 0 }, { W_STDOUT, 0, 0, 0, 0 }, { W_STDERR, 0, 0, 0, 0 } };
int w_checkFd = 0, w_nextPipe = 0, w_nextSock = 0, w_nextFile = 0; long w_openCount = 0;
static char cwd0[] = "/w"; char *w_cwd = cwd0;

int w_err(int e) { errno = e; return -1; }
bool w_valid(int fd) { return fd >= 0 && fd < W_MAXFD && w_fd[fd].kind != W_FREE; }
int w_open(uint8_t kind, int obj) {
	for (int i = 0; i < W_MAXFD; i++) if (w_fd[i].kind == W_FREE) { w_fd[i] = WFd{kind, 0, 0, 1, obj}; w_openCount++; return i; }
	return w_err(EMFILE);
}
int w_use(int fd, const char *what) {
	if (w_valid(fd)) return 0;
	if (w_checkFd) { sym_print("descriptor", (uint64_t)(long)fd); sym_fail(what); }
	return w_err(EBADF);
}
int w_refs(uint8_t kind, int obj) { int n = 0; for (int i = 0; i < W_MAXFD; i++) if (w_fd[i].kind == kind && w_fd[i].obj == obj) n++; return n; }
static void drop(int fd) { WFd f = w_fd[fd]; if (f.owned) w_openCount--; w_fd[fd].kind = W_FREE; h_closed(fd, f.kind, f.obj); }

extern "C" {
// ---- defaults
WEAK long h_sock_recv(int, int, void *, size_t, int) { k8v_unmodelled("recv"); return 0; }
WEAK long h_sock_send(int, int, const void *, size_t n, int) { return (long)n; }
WEAK long h_pipe_read(int, int, void *, size_t) { k8v_unmodelled("read from a pipe"); return 0; }
WEAK long h_pipe_write(int, int, const void *, size_t n) { return (long)n; }
WEAK long h_std_read(void *, size_t) { return 0; }
WEAK long h_std_write(int which, const void *p, size_t n) { return (long)h_fwrite(which, p, n); }
WEAK long h_file_read(int, int, void *, size_t) { return 0; }
WEAK long h_file_write(int, int, const void *, size_t n) { return (long)n; }
WEAK int h_poll(struct pollfd *, unsigned, int) { k8v_unmodelled("poll"); return 0; }
WEAK void h_closed(int, int, int) { }
WEAK int h_socket() { return 0; }
WEAK int h_bind(int, int, const struct sockaddr *, unsigned) { return 0; }
WEAK int h_listen(int, int, int) { return 0; }
WEAK int h_accept(int, int) { return 0; }
WEAK int h_connect(int, int, const struct sockaddr *, unsigned) { return 0; }
WEAK int h_setsockopt(int, int, int, int, const void *, unsigned) { return 0; }
WEAK int h_shutdown(int, int, int) { return 0; }
WEAK int h_getsockname(int, int, struct sockaddr *, unsigned *) { return ENOTSOCK; }
WEAK int h_pipe() { return 0; }
WEAK int h_fcntl(int, int, long) { return 0; }
WEAK int h_dup2(int, int) { return 0; }
WEAK int h_fork() { k8v_unmodelled("fork"); return -1; }
WEAK void h_exec(const char *, char *const *, char *const *, int) { errno = ENOENT; }
WEAK int h_wait(int, int *, int) { return w_err(ECHILD); }
WEAK int h_kill(int, int) { return 0; }
WEAK int h_getpid() { return 4242; }
WEAK int h_setsid() { return 4242; }
WEAK void h_exit(int) { sym_end(); }
WEAK void h_abort() { sym_end(); }
WEAK void h_terminate() { sym_fail("an exception was not handled"); }
WEAK void *h_signal(int, void *) { return nullptr; }
WEAK int h_open(const char *, int, int) { return -ENOENT; }
WEAK int h_unlink(const char *) { return ENOENT; }
WEAK int h_symlink(const char *, const char *) { return 0; }
WEAK int h_link(const char *, const char *) { return 0; }
WEAK int h_rename(const char *, const char *) { return ENOENT; }
WEAK int h_chdir(const char *) { return 0; }
WEAK long h_readlink(const char *, char *, size_t) { return w_err(ENOENT); }
WEAK char *h_getcwd(char *buf, size_t n) { size_t l = strlen(w_cwd); if (l + 1 > n) { errno = ERANGE; return nullptr; } memcpy(buf, w_cwd, l + 1); return buf; }
// realpath on an existing directory tree without symbolic links: purely lexical
WEAK char *h_realpath(const char *path, char *buf) {
	size_t n = 0;
	if (path[0] != '/') { for (const char *c = w_cwd; *c; c++) buf[n++] = *c; if (n == 1) n = 0; }
	const char *p = path;
	while (*p) {
		while (*p == '/') p++;
		if (!*p) break;
		const char *s = p; while (*p && *p != '/') p++;
		size_t l = p - s;
		if (l == 1 && s[0] == '.') continue;
		if (l == 2 && s[0] == '.' && s[1] == '.') { while (n > 0 && buf[n - 1] != '/') n--; if (n > 0) n--; continue; }
		if (n + l + 2 > 4096) { errno = ENAMETOOLONG; return nullptr; }
		buf[n++] = '/'; for (size_t i = 0; i < l; i++) buf[n++] = s[i];
	}
	if (n == 0) buf[n++] = '/';
	buf[n] = 0; return buf;
}
WEAK int h_fopen(const char *, const char *) { return -ENOENT; }
WEAK long h_fsize(int) { return 0; }
WEAK int h_stat(const char *, struct stat *, int) { return ENOENT; }
WEAK unsigned h_umask(unsigned) { return 022; }
WEAK size_t h_fwrite(int, const void *, size_t n) { return n; }
WEAK int h_fwrite_closed(int, const void *, size_t) { return 0; }
WEAK int h_fflush(int) { return 0; }
WEAK int h_fclose(int) { return 0; }
WEAK size_t h_fread(void *p, size_t n) { long r = h_std_read(p, n); return r < 0 ? 0 : (size_t)r; }
WEAK char *h_getenv(const char *) { return nullptr; }
WEAK int h_setenv(const char *, const char *) { return 0; }
WEAK int h_gethostname(char *buf, size_t n) { static const char h[] = "box"; for (size_t i = 0; i < sizeof h && i < n; i++) buf[i] = h[i]; return 0; }
WEAK long h_steady() { return 1000000000L; }
WEAK long h_system() { return 1600000000L * 1000000000L; }
WEAK int h_sleep(long) { return 0; }
WEAK void verif_on_terminate() { h_terminate(); sym_end(); }
WEAK void k8v_unmodelled(const char *what) { sym_assume(0); (void)what; }

// ---- the C library interface
char *__wrap_getenv(const char *n) { return h_getenv(n); }
char *__wrap_secure_getenv(const char *n) { return h_getenv(n); }
int __wrap_setenv(const char *n, const char *v, int) { return h_setenv(n, v); }
int __wrap_unsetenv(const char *n) { return h_setenv(n, nullptr); }
int __wrap_gethostname(char *b, size_t n) { return h_gethostname(b, n); }
int __wrap_getpid() { return h_getpid(); }
int __wrap_getppid() { return 1; }
char *__wrap_getcwd(char *b, size_t n) { return h_getcwd(b, n); }
char *__wrap_realpath(const char *p, char *b) { if (!b) b = (char *)malloc(4097); return h_realpath(p, b); }
long __wrap_readlink(const char *p, char *b, size_t n) { return h_readlink(p, b, n); }
int __wrap_chdir(const char *p) { int e = h_chdir(p); return e ? w_err(e) : 0; }
unsigned __wrap_umask(unsigned m) { return h_umask(m); }
int __wrap_unlink(const char *p) { int e = h_unlink(p); return e ? w_err(e) : 0; }
int __wrap_remove(const char *p) { int e = h_unlink(p); return e ? w_err(e) : 0; }
int __wrap_symlink(const char *t, const char *p) { int e = h_symlink(t, p); return e ? w_err(e) : 0; }
int __wrap_link(const char *f, const char *p) { int e = h_link(f, p); return e ? w_err(e) : 0; }
int __wrap_rename(const char *f, const char *p) { int e = h_rename(f, p); return e ? w_err(e) : 0; }
int __wrap_stat(const char *p, struct stat *s) { int e = h_stat(p, s, 1); return e ? w_err(e) : 0; }
int __wrap_lstat(const char *p, struct stat *s) { int e = h_stat(p, s, 0); return e ? w_err(e) : 0; }
int __wrap_access(const char *p, int) { struct stat s; int e = h_stat(p, &s, 1); return e ? w_err(e) : 0; }

// descriptors
static int openFile(const char *p, int flags, int mode) { int o = h_open(p, flags, mode); if (o < 0) return w_err(-o); return w_open(strcmp(p, "/dev/null") ? W_FILE : W_NULL, o); }
int __wrap_open(const char *p, int flags, int mode) { return openFile(p, flags, mode); }
int __wrap_open64(const char *p, int flags, int mode) { return openFile(p, flags, mode); }
int __wrap_creat(const char *p, int mode) { return openFile(p, O_WRONLY | O_CREAT | O_TRUNC, mode); }
int __wrap_close(int fd) { if (w_use(fd, "a descriptor is closed twice or was never open")) return -1; drop(fd); return 0; }
long __wrap_read(int fd, void *b, size_t n) {
	if (w_use(fd, "read on a closed descriptor")) return -1;
	switch (w_fd[fd].kind) {
	case W_STDIN: return h_std_read(b, n);
	case W_PIPE_R: return h_pipe_read(fd, w_fd[fd].obj, b, n);
	case W_SOCK: return h_sock_recv(fd, w_fd[fd].obj, b, n, 0);
	case W_FILE: return h_file_read(fd, w_fd[fd].obj, b, n);
	case W_NULL: return 0;
	default: return w_err(EBADF);
	}
}
long __wrap_write(int fd, const void *b, size_t n) {
	if (w_use(fd, "write on a closed descriptor")) return -1;
	sym_readable(b, n);
	switch (w_fd[fd].kind) {
	case W_STDOUT: return h_std_write(1, b, n);
	case W_STDERR: return h_std_write(2, b, n);
	case W_PIPE_W: return h_pipe_write(fd, w_fd[fd].obj, b, n);
	case W_SOCK: return h_sock_send(fd, w_fd[fd].obj, b, n, 0);
	case W_FILE: return h_file_write(fd, w_fd[fd].obj, b, n);
	case W_NULL: return (long)n;
	default: return w_err(EBADF);
	}
}
long __wrap_readv(int fd, const struct iovec *v, int n) { for (int i = 0; i < n; i++) if (v[i].iov_len) return __wrap_read(fd, v[i].iov_base, v[i].iov_len); return 0; }
long __wrap_writev(int fd, const struct iovec *v, int n) { for (int i = 0; i < n; i++) if (v[i].iov_len) return __wrap_write(fd, v[i].iov_base, v[i].iov_len); return 0; }
int __wrap_pipe2(int *p, int flags) { int e = h_pipe(); if (e) return w_err(e); int o = w_nextPipe++; int r = w_open(W_PIPE_R, o); int w = w_open(W_PIPE_W, o); if (r < 0 || w < 0) return -1; p[0] = r; p[1] = w; if (flags & O_NONBLOCK) w_fd[r].nonblock = w_fd[w].nonblock = 1; if (flags & O_CLOEXEC) w_fd[r].cloexec = w_fd[w].cloexec = 1; return 0; }
int __wrap_pipe(int *p) { return __wrap_pipe2(p, 0); }
static int dupTo(int a, int b) {
	if (w_use(a, "dup2 of a closed descriptor")) return -1;
	int e = h_dup2(a, b); if (e) return w_err(e);
	if (b < 0 || b >= W_MAXFD) return w_err(EBADF);
	if (a == b) return b;
	if (w_fd[b].kind != W_FREE) drop(b);
	w_fd[b] = w_fd[a]; w_fd[b].cloexec = 0; w_fd[b].owned = 1; w_openCount++; return b;
}
int __wrap_dup2(int a, int b) { return dupTo(a, b); }
int __wrap_dup3(int a, int b, int f) { int r = dupTo(a, b); if (r >= 0 && (f & O_CLOEXEC)) w_fd[r].cloexec = 1; return r; }
int __wrap_dup(int a) { if (w_use(a, "dup of a closed descriptor")) return -1; int e = h_dup2(a, -1); if (e) return w_err(e); int r = w_open(w_fd[a].kind, w_fd[a].obj); if (r >= 0) w_fd[r].nonblock = w_fd[a].nonblock; return r; }
int __wrap_fcntl(int fd, int cmd, long arg) {
	if (w_use(fd, "fcntl on a closed descriptor")) return -1;
	int e = h_fcntl(fd, cmd, arg); if (e) return w_err(e);
	switch (cmd) {
	case F_GETFL: return (w_fd[fd].kind == W_PIPE_R || w_fd[fd].kind == W_STDIN ? O_RDONLY : w_fd[fd].kind == W_PIPE_W ? O_WRONLY : O_RDWR) | (w_fd[fd].nonblock ? O_NONBLOCK : 0);
	case F_SETFL: w_fd[fd].nonblock = (arg & O_NONBLOCK) != 0; return 0;
	case F_GETFD: return w_fd[fd].cloexec ? FD_CLOEXEC : 0;
	case F_SETFD: w_fd[fd].cloexec = (arg & FD_CLOEXEC) != 0; return 0;
	case F_DUPFD: case F_DUPFD_CLOEXEC: { for (int i = (int)arg; i < W_MAXFD; i++) if (i >= 0 && w_fd[i].kind == W_FREE) { w_fd[i] = w_fd[fd]; w_fd[i].owned = 1; w_fd[i].cloexec = cmd == F_DUPFD_CLOEXEC; w_openCount++; return i; } return w_err(EMFILE); }
	}
	return 0;
}
int __wrap_fcntl64(int fd, int cmd, long arg) { return __wrap_fcntl(fd, cmd, arg); }
int __wrap_isatty(int) { return 0; }
int __wrap_fsync(int) { return 0; }
int __wrap_poll(struct pollfd *p, unsigned long n, int t) { sym_readable(p, n * sizeof *p); return h_poll(p, (unsigned)n, t); }
int __wrap___poll_chk(struct pollfd *p, unsigned long n, int t, size_t) { return h_poll(p, (unsigned)n, t); }
int __wrap_ppoll(struct pollfd *p, unsigned long n, const struct timespec *t, const void *) { return h_poll(p, (unsigned)n, t ? (int)(t->tv_sec * 1000 + (t->tv_nsec + 999999) / 1000000) : -1); }
int __wrap_select(int n, fd_set *r, fd_set *w, fd_set *x, struct timeval *t) {
	struct pollfd p[W_MAXFD]; unsigned k = 0;
	for (int i = 0; i < n && i < W_MAXFD; i++) { short e = 0; if (r && FD_ISSET(i, r)) e |= POLLIN; if (w && FD_ISSET(i, w)) e |= POLLOUT; if (e) { p[k].fd = i; p[k].events = e; p[k].revents = 0; k++; } }
	int q = h_poll(p, k, t ? (int)(t->tv_sec * 1000 + t->tv_usec / 1000) : -1);
	if (q < 0) return q;
	if (r) FD_ZERO(r); if (w) FD_ZERO(w); if (x) FD_ZERO(x); int c = 0;
	for (unsigned i = 0; i < k; i++) { if ((p[i].events & POLLIN) && (p[i].revents & (POLLIN | POLLHUP | POLLERR))) { FD_SET(p[i].fd, r); c++; } if ((p[i].events & POLLOUT) && (p[i].revents & (POLLOUT | POLLERR))) { FD_SET(p[i].fd, w); c++; } }
	return c;
}

// sockets
int __wrap_socket(int domain, int type, int) { int e = h_socket(); if (e) return w_err(e); if (domain != AF_INET) sym_print("socket domain", domain); int fd = w_open(W_SOCK, w_nextSock++); if (fd >= 0) { if (type & SOCK_NONBLOCK) w_fd[fd].nonblock = 1; if (type & SOCK_CLOEXEC) w_fd[fd].cloexec = 1; } return fd; }
int __wrap_bind(int fd, const struct sockaddr *a, unsigned n) { if (w_use(fd, "bind on a closed descriptor")) return -1; sym_readable(a, n); int e = h_bind(fd, w_fd[fd].obj, a, n); return e ? w_err(e) : 0; }
int __wrap_listen(int fd, int b) { if (w_use(fd, "listen on a closed descriptor")) return -1; int e = h_listen(fd, w_fd[fd].obj, b); if (e) return w_err(e); w_fd[fd].kind = W_LISTEN; return 0; }
int __wrap_accept4(int fd, struct sockaddr *, unsigned *, int flags) { if (w_use(fd, "accept on a closed descriptor")) return -1; int e = h_accept(fd, w_fd[fd].obj); if (e) return w_err(e); int r = w_open(W_SOCK, w_nextSock++); if (r >= 0) { w_fd[r].nonblock = (flags & SOCK_NONBLOCK) != 0; w_fd[r].cloexec = (flags & SOCK_CLOEXEC) != 0; } return r; }
int __wrap_accept(int fd, struct sockaddr *a, unsigned *n) { return __wrap_accept4(fd, a, n, 0); }
int __wrap_connect(int fd, const struct sockaddr *a, unsigned n) { if (w_use(fd, "connect on a closed descriptor")) return -1; sym_readable(a, n); int e = h_connect(fd, w_fd[fd].obj, a, n); return e ? w_err(e) : 0; }
int __wrap_setsockopt(int fd, int l, int o, const void *v, unsigned n) { if (w_use(fd, "setsockopt on a closed descriptor")) return -1; sym_readable(v, n); int e = h_setsockopt(fd, w_fd[fd].obj, l, o, v, n); return e ? w_err(e) : 0; }
int __wrap_getsockopt(int fd, int, int, void *v, unsigned *n) { if (w_use(fd, "getsockopt on a closed descriptor")) return -1; memset(v, 0, *n); return 0; }
int __wrap_shutdown(int fd, int how) { if (w_use(fd, "shutdown on a closed descriptor")) return -1; int e = h_shutdown(fd, w_fd[fd].obj, how); return e ? w_err(e) : 0; }
int __wrap_getsockname(int fd, struct sockaddr *a, unsigned *n) { if (w_use(fd, "getsockname on a closed descriptor")) return -1; int e = h_getsockname(fd, w_fd[fd].obj, a, n); return e ? w_err(e) : 0; }
long __wrap_recv(int fd, void *b, size_t n, int f) { if (w_use(fd, "recv on a closed descriptor")) return -1; if (w_fd[fd].kind != W_SOCK) return w_err(ENOTSOCK); return h_sock_recv(fd, w_fd[fd].obj, b, n, f); }
long __wrap_send(int fd, const void *b, size_t n, int f) { if (w_use(fd, "send on a closed descriptor")) return -1; if (w_fd[fd].kind != W_SOCK) return w_err(ENOTSOCK); sym_readable(b, n); return h_sock_send(fd, w_fd[fd].obj, b, n, f); }
long __wrap_recvfrom(int fd, void *b, size_t n, int f, struct sockaddr *, unsigned *) { return __wrap_recv(fd, b, n, f); }
long __wrap_sendto(int fd, const void *b, size_t n, int f, const struct sockaddr *, unsigned) { return __wrap_send(fd, b, n, f); }

// processes
int __wrap_fork() { return h_fork(); }
int __wrap_vfork() { return h_fork(); }
int __wrap_execv(const char *p, char *const *a) { h_exec(p, a, environ, 0); return -1; }
int __wrap_execve(const char *p, char *const *a, char *const *e) { h_exec(p, a, e, 0); return -1; }
int __wrap_execvp(const char *p, char *const *a) { h_exec(p, a, environ, 1); return -1; }
int __wrap_execvpe(const char *p, char *const *a, char *const *e) { h_exec(p, a, e, 1); return -1; }
int __wrap_wait(int *s) { return h_wait(-1, s, 0); }
int __wrap_waitpid(int pid, int *s, int o) { return h_wait(pid, s, o); }
int __wrap_wait4(int pid, int *s, int o, void *) { return h_wait(pid, s, o); }
int __wrap_kill(int pid, int sig) { return h_kill(pid, sig); }
int __wrap_raise(int sig) { return h_kill(h_getpid(), sig); }
int __wrap_setsid() { return h_setsid(); }
[[noreturn]] void __wrap_exit(int c) { h_exit(c); sym_end(); }
[[noreturn]] void __wrap__exit(int c) { h_exit(c); sym_end(); }
[[noreturn]] void __wrap__Exit(int c) { h_exit(c); sym_end(); }
[[noreturn]] void __wrap_quick_exit(int c) { h_exit(c); sym_end(); }
[[noreturn]] void __wrap_abort() { h_abort(); sym_end(); }
[[noreturn]] void __wrap__ZSt9terminatev() { verif_on_terminate(); sym_end(); }
void *__wrap_signal(int sig, void *h) { return h_signal(sig, h); }
int __wrap_sigaction(int sig, const struct sigaction *a, struct sigaction *o) { void *r = a ? h_signal(sig, (void *)a->sa_handler) : nullptr; if (o) { memset(o, 0, sizeof *o); o->sa_handler = (void (*)(int))r; } return 0; }
int __wrap_sigemptyset(sigset_t *s) { memset(s, 0, sizeof *s); return 0; }
int __wrap_sigfillset(sigset_t *s) { memset(s, 255, sizeof *s); return 0; }
int __wrap_sigaddset(sigset_t *, int) { return 0; }
int __wrap_sigprocmask(int, const sigset_t *, sigset_t *) { return 0; }
int __wrap_pthread_sigmask(int, const sigset_t *, sigset_t *) { return 0; }

// time
int __wrap_nanosleep(const struct timespec *t, struct timespec *) { int e = h_sleep(t->tv_sec * 1000000000L + t->tv_nsec); return e ? w_err(e) : 0; }
int __wrap_clock_nanosleep(int, int fl, const struct timespec *t, struct timespec *) { long ns = t->tv_sec * 1000000000L + t->tv_nsec; if (fl) ns -= h_steady(); return h_sleep(ns); }
int k8v_sleep(long ns) { return h_sleep(ns); }
int __wrap_usleep(unsigned us) { return h_sleep(us * 1000L) ? -1 : 0; }
unsigned __wrap_sleep(unsigned s) { h_sleep(s * 1000000000L); return 0; }
long __wrap__ZNSt6chrono3_V212steady_clock3nowEv() { return h_steady(); }
long __wrap__ZNSt6chrono3_V212system_clock3nowEv() { return h_system(); }
int __wrap_clock_gettime(int c, struct timespec *t) { long v = c == CLOCK_REALTIME ? h_system() : h_steady(); t->tv_sec = v / 1000000000L; t->tv_nsec = v % 1000000000L; return 0; }
int __wrap_gettimeofday(struct timeval *t, void *) { long v = h_system(); t->tv_sec = v / 1000000000L; t->tv_usec = v % 1000000000L / 1000; return 0; }
time_t __wrap_time(time_t *t) { time_t v = h_system() / 1000000000L; if (t) *t = v; return v; }

// standard streams
struct WFile { int obj; long pos; uint8_t open, err, eof; };
static WFile wf[4];
static int streamOf(FILE *f) { return f == stdin ? 0 : f == stdout ? 1 : f == stderr ? 2 : -1; }
static uint8_t stdClosed[3], stdErr[3];
static WFile *fileOf(FILE *f) { for (auto &w : wf) if ((FILE *)&w == f) { if (!w.open) sym_fail("use of a closed FILE"); return &w; } sym_fail("use of an unknown FILE"); }
FILE *__wrap_fopen(const char *p, const char *m) { int o = h_fopen(p, m); if (o < 0) { errno = -o; return nullptr; } for (auto &w : wf) if (!w.open) { w = WFile{o, 0, 1, 0, 0}; return (FILE *)&w; } errno = EMFILE; return nullptr; }
FILE *__wrap_fopen64(const char *p, const char *m) { return __wrap_fopen(p, m); }
int __wrap_fclose(FILE *f) {
	int s = streamOf(f);
	if (s < 0) { fileOf(f)->open = 0; return 0; }
	if (stdClosed[s]) sym_fail("a standard stream is closed twice");
	int r = h_fclose(s); stdClosed[s] = 1; if (w_fd[s].kind != W_FREE) drop(s); return r;
}
size_t __wrap_fwrite(const void *p, size_t a, size_t b, FILE *f) {
	int s = streamOf(f); size_t n = a * b; if (!n) return 0;
	if (s <= 0) sym_fail("write to a file that is not open for writing");
	if (stdClosed[s]) { sym_readable(p, n); if (h_fwrite_closed(s, p, n)) { errno = EBADF; return 0; } sym_fail("write to a closed standard stream"); }
	sym_readable(p, n); size_t k = h_fwrite(s, p, n); if (k < n) stdErr[s] = 1; return k == n ? b : k / a;
}
int __wrap_fputs(const char *t, FILE *f) { size_t n = strlen(t); return n && __wrap_fwrite(t, n, 1, f) != 1 ? -1 : 1; }
int __wrap_fputc(int c, FILE *f) { char d = (char)c; return __wrap_fwrite(&d, 1, 1, f) == 1 ? (unsigned char)d : -1; }
int __wrap_putc(int c, FILE *f) { return __wrap_fputc(c, f); }
int __wrap_putchar(int c) { return __wrap_fputc(c, stdout); }
int __wrap_puts(const char *t) { return __wrap_fputs(t, stdout) < 0 ? -1 : __wrap_fputc('\n', stdout); }
int __wrap_fflush(FILE *f) { if (!f) { int r = 0; for (int s = 1; s < 3; s++) if (!stdClosed[s]) r |= h_fflush(s); return r; } int s = streamOf(f); if (s < 0) return 0; if (stdClosed[s]) sym_fail("flush of a closed standard stream"); int r = h_fflush(s); if (r) stdErr[s] = 1; return r; }
int __wrap_ferror(FILE *f) { int s = streamOf(f); return s < 0 ? fileOf(f)->err : stdErr[s]; }
int __wrap_feof(FILE *f) { int s = streamOf(f); return s < 0 ? fileOf(f)->eof : 0; }
void __wrap_clearerr(FILE *f) { int s = streamOf(f); if (s >= 0) stdErr[s] = 0; }
int __wrap_fileno(FILE *f) { int s = streamOf(f); return s < 0 ? 40 : s; }
int __wrap_setvbuf(FILE *, char *, int, size_t) { return 0; }
void __wrap_setbuf(FILE *, char *) { }
size_t __wrap_fread(void *p, size_t a, size_t b, FILE *f) {
	size_t n = a * b; if (!n) return 0;
	int s = streamOf(f); if (s == 0) { size_t r = h_fread(p, n); return r / a; } if (s > 0) return 0;
	WFile *w = fileOf(f); size_t at = 0;
	while (at < n) { long r = h_file_read(-1 - (int)w->pos, w->obj, (char *)p + at, n - at); if (r < 0) { w->err = 1; break; } if (r == 0) { w->eof = 1; break; } at += r; w->pos += r; }
	return at / a;
}
int __wrap_fseek(FILE *f, long o, int wh) { WFile *w = fileOf(f); if (h_fsize(w->obj) < 0) return w_err(ESPIPE); w->pos = wh == SEEK_SET ? o : wh == SEEK_CUR ? w->pos + o : h_fsize(w->obj) + o; return 0; }
int __wrap_fseeko(FILE *f, long o, int wh) { return __wrap_fseek(f, o, wh); }
long __wrap_ftell(FILE *f) { WFile *w = fileOf(f); return h_fsize(w->obj) < 0 ? w_err(ESPIPE) : w->pos; }
long __wrap_ftello(FILE *f) { return __wrap_ftell(f); }
void __wrap_rewind(FILE *f) { (void)__wrap_fseek(f, 0, SEEK_SET); }
void k8v_stream_write(int fd, const char *p, unsigned long n) { if (n && !stdClosed[fd]) { sym_readable(p, n); size_t k = h_fwrite(fd, p, n); if (k < n) { stdErr[fd] = 1; } } }
void k8v_stream_flush(int fd) { if (fd > 0 && fd < 3 && !stdClosed[fd]) h_fflush(fd); }
long k8v_stream_read(int, char *p, unsigned long n) { return (long)h_fread(p, n); }
}
