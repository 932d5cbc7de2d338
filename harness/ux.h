// Cygwin as src/unix-adapter sees it: included before each of its files, with empty headers in the place of Cygwin's own.
// The calls go to the hooks below, which ux.cc defines.
#ifndef HARNESS_UX_H
#define HARNESS_UX_H
#include <winsock2.h>
#include <windows.h>
#include <assert.h>
#include <ctype.h>
#include <errno.h>
#include <fcntl.h>
#include <io.h>
#include <limits.h>
#include <locale.h>
#include <process.h>
#include <pthread.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <time.h>
#include <unistd.h>
#include <wchar.h>
#include <algorithm>
#include <map>
#include <string>
#include <utility>
#include <vector>

extern int ux_errno;
void ux_fail(const char *msg);
void ux_abort();
void ux_exit(int code);
void ux_print(const void *, ...);
const char *ux_getenv(const char *name);
intptr_t ux_read(int fd, void *b, size_t n);
intptr_t ux_write(int fd, const void *b, size_t n);
int ux_pipe(int *fd);
int ux_close(int fd);
int ux_fcntl(int fd, int cmd, int v = 0);
struct ux_fd_set { uint32_t bits; };
struct ux_timeval { long tv_sec, tv_usec; };
int ux_select(int n, ux_fd_set *r, ux_fd_set *w, ux_fd_set *e, ux_timeval *t);
struct winsize { unsigned short ws_row, ws_col, ws_xpixel, ws_ypixel; };
int ux_ioctl(int fd, unsigned long what, void *p);
typedef uint32_t tcflag_t;
struct termios { tcflag_t c_iflag, c_oflag, c_cflag, c_lflag; char c_line; uint8_t c_cc[18]; uint32_t c_ispeed, c_ospeed; };
int ux_isatty(int fd);
int ux_tcgetattr(int fd, termios *t);
int ux_tcsetattr(int fd, int when, const termios *t);
struct sigaction { void (*sa_handler)(int); int sa_flags; uint32_t sa_mask; };
int ux_sigaction(int sig, const struct sigaction *a, struct sigaction *old);
int ux_pthread_create(void *(*proc)(void *), void *arg, pthread_t *t);
int ux_pthread_join(pthread_t t, void **r);
int ux_access(const char *path, int how);
char *ux_realpath(const char *path, char *out);
intptr_t ux_conv_path(unsigned what, const char *from, void *to, size_t n);
uintptr_t ux_cygwin(int what);
size_t ux_mbstowcs(wchar_t *out, const char *in, size_t n);
size_t ux_wcstombs(char *out, const wchar_t *in, size_t n);

#undef assert
#define assert(e) ((e) ? (void)0 : ux_fail("an internal assert of the adapter fails"))
#undef errno
#define errno ux_errno
#undef FD_ZERO
#undef FD_SET
#undef FD_CLR
#undef FD_ISSET
#define FD_ZERO(s) ((void)((s)->bits = 0))
#define FD_SET(f, s) ((void)((s)->bits |= 1u << (f)))
#define FD_CLR(f, s) ((void)((s)->bits &= ~(1u << (f))))
#define FD_ISSET(f, s) (((s)->bits >> (f) & 1) != 0)
#define fd_set ux_fd_set
#define timeval ux_timeval
#define STDIN_FILENO 0
#define STDOUT_FILENO 1
#define STDERR_FILENO 2
#define F_GETFL 3
#define F_SETFL 4
#define O_NONBLOCK 0x4000
#define TIOCGWINSZ 0x5401
#define SIGWINCH 28
#define SA_RESTART 0x10000000
#ifndef R_OK
#define R_OK 4
#endif
#undef X_OK
#define X_OK 1
#ifndef PATH_MAX
#define PATH_MAX 260
#endif
#define BRKINT 2
#define ICRNL 0x100
#define INPCK 0x10
#define ISTRIP 0x20
#define IXON 0x400
#define OPOST 1
#define CSIZE 0x30
#define CS8 0x30
#define PARENB 0x100
#define ISIG 1
#define ICANON 2
#define ECHO 4
#define IEXTEN 0x100
#define VTIME 16
#define VMIN 9
#define TCSANOW 2
#define TCSADRAIN 3
#define TCSAFLUSH 1
#define CYGWIN_VERSION_API_MINOR 300
#define CYGWIN_VERSION_CYGWIN_CONV 181
#define CCP_POSIX_TO_WIN_A 0
#define CCP_ABSOLUTE 0
#define CW_SYNC_WINENV 33
#define read(f, b, n) ux_read(f, b, n)
#define write(f, b, n) ux_write(f, b, n)
#define pipe(f) ux_pipe(f)
#define close(f) ux_close(f)
#define fcntl(...) ux_fcntl(__VA_ARGS__)
#define select(n, r, w, e, t) ux_select(n, r, w, e, t)
#define ioctl(f, w, p) ux_ioctl(f, w, p)
#define isatty(f) ux_isatty(f)
#define tcgetattr(f, t) ux_tcgetattr(f, t)
#define tcsetattr(f, w, t) ux_tcsetattr(f, w, t)
#define sigaction(s, a, o) ux_sigaction(s, a, o)
#define pthread_create(t, at, p, a) ux_pthread_create(p, a, t)
#define pthread_join(t, r) ux_pthread_join(t, r)
#define access(p, h) ux_access(p, h)
#define realpath(p, o) ux_realpath(p, o)
#define cygwin_conv_path(w, f, t, n) ux_conv_path(w, f, t, n)
#define cygwin_internal(w) ux_cygwin(w)
#define mbstowcs(o, i, n) ux_mbstowcs(o, i, n)
#define wcstombs(o, i, n) ux_wcstombs(o, i, n)
#define setlocale(c, l) ((void)0)
#define getenv(n) ux_getenv(n)
#define exit(c) ux_exit(c)
#define abort() ux_abort()
#define fprintf(...) ux_print(__VA_ARGS__)
#define printf(...) ux_print(__VA_ARGS__)
#define perror(m) ux_print(m)
#define putchar(c) ((void)(c))
#define fflush(f) ((void)0)
#define strerror(e) ""
#endif
