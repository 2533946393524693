// The operating system as the code under test sees it: every system call the code can make ends in one of these
// functions (symbolically by name, in native replays through the linker's --wrap). A harness redefines the h_* hooks it
// needs; the rest keep the default behaviour in world.cpp.
#pragma once
#include <cerrno>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <unistd.h>
#include "k8v.h"

enum WKind : uint8_t { W_FREE, W_STDIN, W_STDOUT, W_STDERR, W_PIPE_R, W_PIPE_W, W_SOCK, W_LISTEN, W_FILE, W_NULL };
struct WFd { uint8_t kind, nonblock, cloexec, owned; int obj; };
enum { W_MAXFD = 48, W_MAXOBJ = 64 };
extern WFd w_fd[W_MAXFD];
extern int w_checkFd;          // report descriptor misuse (use after close, double close)
extern int w_nextPipe, w_nextSock, w_nextFile;
extern long w_openCount;       // descriptors opened by the code and still open
extern char *w_cwd;

int w_open(uint8_t kind, int obj);                 // lowest free descriptor
int w_err(int e);                                  // errno = e; return -1
bool w_valid(int fd);
int w_use(int fd, const char *what);               // 0, or -1 with EBADF (reported when w_checkFd)
int w_refs(uint8_t kind, int obj);                 // descriptors that refer to this object

extern "C" {
// data transfer
long h_sock_recv(int fd, int obj, void *buf, size_t n, int flags);
long h_sock_send(int fd, int obj, const void *buf, size_t n, int flags);
long h_pipe_read(int fd, int obj, void *buf, size_t n);
long h_pipe_write(int fd, int obj, const void *buf, size_t n);
long h_std_read(void *buf, size_t n);
long h_std_write(int which, const void *buf, size_t n);   // raw write(2) on 1 or 2
long h_file_read(int fd, int obj, void *buf, size_t n);
long h_file_write(int fd, int obj, const void *buf, size_t n);
int h_poll(struct pollfd *p, unsigned n, int timeout);
void h_closed(int fd, int kind, int obj);                 // a descriptor has been closed
// sockets
int h_socket(); int h_bind(int fd, int obj, const struct sockaddr *a, unsigned n); int h_listen(int fd, int obj, int backlog);
int h_accept(int fd, int obj); int h_connect(int fd, int obj, const struct sockaddr *a, unsigned n);
int h_setsockopt(int fd, int obj, int level, int name, const void *v, unsigned n); int h_shutdown(int fd, int obj, int how);
int h_getsockname(int fd, int obj, struct sockaddr *a, unsigned *n);
int h_pipe();                                             // 0 or an errno value
int h_fcntl(int fd, int cmd, long arg);                   // 0 or an errno value
int h_dup2(int from, int to);                             // 0 or an errno value
// processes
int h_fork(); void h_exec(const char *path, char *const argv[], char *const envp[], int search); int h_wait(int pid, int *status, int options);
int h_kill(int pid, int sig); int h_getpid(); int h_setsid();
void h_exit(int code); void h_abort(); void h_terminate();
void *h_signal(int sig, void *handler);
// files
int h_open(const char *path, int flags, int mode);       // object number >= 0, or -errno
int h_unlink(const char *path); int h_symlink(const char *to, const char *path); int h_link(const char *from, const char *path); int h_rename(const char *from, const char *to);
int h_chdir(const char *path); long h_readlink(const char *path, char *buf, size_t n); char *h_realpath(const char *path, char *buf); char *h_getcwd(char *buf, size_t n);
int h_fopen(const char *path, const char *mode);         // object number >= 0, or -errno
long h_fsize(int obj);
int h_stat(const char *path, struct stat *s, int follow);
unsigned h_umask(unsigned m);
// standard streams (stdio level): which is 0, 1 or 2
size_t h_fwrite(int which, const void *p, size_t n);     // bytes accepted
int h_fwrite_closed(int which, const void *p, size_t n); // nonzero: tolerated
int h_fflush(int which); int h_fclose(int which); size_t h_fread(void *p, size_t n);
// environment variables, names and time
char *h_getenv(const char *name); int h_setenv(const char *name, const char *value); int h_gethostname(char *buf, size_t n);
long h_steady(); long h_system(); int h_sleep(long ns); // time in nanoseconds
// harness entry points finish with this
void verif_on_terminate();
}
