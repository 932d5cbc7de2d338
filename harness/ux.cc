// The winpty program for Cygwin: its threads, the terminal, the file system and winpty.dll.
#define COMPILING_WINPTY_DLL
#include "ux.h"
#include "w32.h"
#include "include/winpty.h"
int adapterMain(int argc, char *argv[]);
enum { P_ARGS = 1, P_IN = 2, P_OUT = 4, P_TTY = 8, P_LIFE = 16, P_FIND = 32, P_RUN = 64 };
static int g_props;
#define CHK(p, c, msg) do { if (g_props & (p)) CHECK(c, msg); else if (!(c)) wsym_stop(); } while (0)
static bool choose(int &budget, const char *what) {
    if (budget <= 0 || !wsym_concretize(nd_bool(what))) return false;
    --budget;
    return true;
}
int ux_errno;
void ux_fail(const char *msg) { wsym_fail(msg); wsym_stop(); }
void ux_abort() { wsym_fail("the adapter aborts"); wsym_stop(); }
void ux_print(const void *, ...) {}

// ---- the program's own wakeup pipes
struct Wake { int bytes; bool nonblock[2], closed[2]; };
static Wake g_wake[6];
static int g_idle;                               // calls since something happened
static void progress() { g_idle = 0; }
static void noProgress() {
    if (++g_idle < 60) return;
    wsym_fail("a thread spins");
    wsym_stop();
}
static int g_nwakes, g_eintr;
enum { FIRST = 10 };
int ux_pipe(int *fd) {
    if (g_nwakes == 6) { wsym_fail("harness: too many pipes"); wsym_stop(); }
    const int i = g_nwakes++;
    fd[0] = FIRST + 2 * i; fd[1] = fd[0] + 1;
    return 0;
}
static Wake *wakeOf(int fd, int end) {
    const int i = (fd - FIRST) / 2;
    if (fd < FIRST || i >= g_nwakes || (fd - FIRST) % 2 != end || g_wake[i].closed[end]) return 0;
    return &g_wake[i];
}
int ux_close(int fd) {
    Wake *w = wakeOf(fd, (fd - FIRST) & 1);
    CHK(P_RUN, w != 0, "a descriptor is closed that is not the adapter's");
    w->closed[(fd - FIRST) & 1] = true;
    return 0;
}
int ux_fcntl(int fd, int cmd, int v) {
    Wake *w = wakeOf(fd, (fd - FIRST) & 1);
    if (fd >= 0 && fd <= 2) return 0;
    if (!w) { wsym_fail("a descriptor is changed that is not open"); wsym_stop(); }
    if (cmd == F_SETFL) w->nonblock[(fd - FIRST) & 1] = (v & O_NONBLOCK) != 0;
    return cmd == F_GETFL && w->nonblock[(fd - FIRST) & 1] ? O_NONBLOCK : 0;
}

// ---- threads: a thread runs while another one waits
struct Thread { void *(*proc)(void *); void *arg; bool done, joined; };
static Thread g_thread[4];
static int g_nthreads, g_cur;                    // 0: the main thread, otherwise 1 + index
static void runThread(int i) {
    const int was = g_cur;
    g_cur = i + 1;
    g_thread[i].proc(g_thread[i].arg);
    g_cur = was;
    g_thread[i].done = true;
}
static void tick();
int ux_pthread_create(void *(*proc)(void *), void *arg, pthread_t *t) {
    if (g_nthreads == 4) { wsym_fail("harness: too many threads"); wsym_stop(); }
    Thread &th = g_thread[g_nthreads++];
    th.proc = proc; th.arg = arg;
    *t = g_nthreads;
    tick();
    return 0;
}

// ---- the terminal
struct Device { termios orig, mode; };
static Device g_dev[2];
static bool g_tty[3];
static int g_devOf[3];
static winsize g_size;                           // of the terminal at standard input
static int g_resizes, g_winch;
static void (*g_onWinch)(int);
static bool known() { return g_tty[0] && g_size.ws_col && g_size.ws_row; }
static void setSize() {
    memset(&g_size, 0, sizeof g_size);
    g_size.ws_col = (unsigned short)nd_u16("terminal columns"); g_size.ws_row = (unsigned short)nd_u16("terminal rows");
}
// The user can resize the terminal whenever the main thread enters the system.
static void tick() {
    if (g_cur || !g_tty[0] || !choose(g_resizes, "the terminal is resized")) return;
    setSize();
    ++g_winch;
    if (g_onWinch) g_onWinch(SIGWINCH);
}
int ux_sigaction(int sig, const struct sigaction *a, struct sigaction *) {
    tick();
    if (sig == SIGWINCH) g_onWinch = a->sa_handler;
    tick();
    return 0;
}
int ux_ioctl(int fd, unsigned long what, void *p) {
    tick();
    if (fd < 0 || fd > 2 || !g_tty[fd] || what != TIOCGWINSZ) { ux_errno = ENOTTY; return -1; }
    *(winsize *)p = g_size;
    tick();
    return 0;
}
int ux_isatty(int fd) { return fd >= 0 && fd < 3 && g_tty[fd]; }
int ux_tcgetattr(int fd, termios *t) {
    if (!ux_isatty(fd)) { ux_errno = ENOTTY; return -1; }
    *t = g_dev[g_devOf[fd]].mode;
    return 0;
}
int ux_tcsetattr(int fd, int when, const termios *t) {
    CHK(P_TTY, ux_isatty(fd), "the mode of something that is not a terminal is set");
    CHK(P_TTY, when == TCSANOW || when == TCSADRAIN || when == TCSAFLUSH, "tcsetattr is called wrongly");
    tick();
    g_dev[g_devOf[fd]].mode = *t;
    return 0;
}
static void sameMode(const termios &a, const termios &b, const char *msg) {
    CHK(P_TTY, a.c_iflag == b.c_iflag, msg); CHK(P_TTY, a.c_oflag == b.c_oflag, msg); CHK(P_TTY, a.c_cflag == b.c_cflag, msg); CHK(P_TTY, a.c_lflag == b.c_lflag, msg);
    for (int i = 0; i < 18; ++i) CHK(P_TTY, a.c_cc[i] == b.c_cc[i], msg);
    CHK(P_TTY, a.c_ispeed == b.c_ispeed && a.c_ospeed == b.c_ospeed && a.c_line == b.c_line, msg);
}
static bool g_wantErr, g_allow;
static void checkModes(bool raw) {
    for (int d = 0; d < 2; ++d) {
        termios want = g_dev[d].orig;
        if (raw) {
            for (int fd = 0; fd < (g_wantErr ? 3 : 2); ++fd) {
                if (!g_tty[fd] || g_devOf[fd] != d) continue;
                want.c_cflag = (want.c_cflag & ~(CSIZE | PARENB)) | CS8;
                if (fd) want.c_oflag &= ~OPOST;
                else {
                    want.c_lflag &= ~(ECHO | ICANON | IEXTEN | ISIG);
                    want.c_iflag &= ~(BRKINT | ICRNL | INPCK | ISTRIP | IXON);
                    want.c_cc[VMIN] = 1; want.c_cc[VTIME] = 0;
                }
            }
        }
        sameMode(g_dev[d].mode, want, raw ? "the terminal is not in raw mode while the program runs" : "the terminal is not as it was before");
    }
}

// ---- the agent
enum { DATA = 40 };
static uint8_t g_typed[DATA], g_got[DATA], g_sent[2][DATA], g_shown[2][DATA];
static int g_ntyped, g_taken, g_ngot, g_nsent[2], g_nshown[2];
static bool g_eof, g_ttyError, g_inBroken, g_outError[2], g_open, g_freed, g_spawned;
static int g_typeMore, g_sendMore, g_splits, g_fails, g_chunk;
static HANDLE const CONIN = (HANDLE)(uintptr_t)0x501, CONOUT = (HANDLE)(uintptr_t)0x502, CONERR = (HANDLE)(uintptr_t)0x503, CHILD = (HANDLE)(uintptr_t)0x504;
static int g_opened;                             // bits of the handles that are open
static bool isOpen(HANDLE h) { return (uintptr_t)h > 0x500 && (uintptr_t)h < 0x505 && (g_opened >> ((uintptr_t)h - 0x500) & 1); }
static int conCols, conRows;                     // the size that the agent was told
static void sameIn() {
    CHK(P_IN, g_ngot == g_taken, "what has been typed is held back or lost");
    for (int i = 0; i < g_ngot; ++i) CHK(P_IN, g_got[i] == g_typed[i], "the agent gets something else than what was typed");
}
static void sameOut(int k) {
    CHK(P_OUT, g_nshown[k] == g_nsent[k], "what the agent has sent is held back or lost");
    for (int i = 0; i < g_nshown[k]; ++i) CHK(P_OUT, g_shown[k][i] == g_sent[k][i], "the terminal gets something else than what the agent has sent");
}

// ---- waiting
static bool g_endAsked;                          // of the input thread
static void (*g_mainWaits)(), (*g_asyncShutdown)(), (*g_onWake)();
static void maybeShutdown() { if (g_asyncShutdown && g_cur && !g_endAsked && wsym_concretize(nd_bool("shutdown"))) { g_endAsked = true; g_asyncShutdown(); } }
static void inputWaits() {
    if (!g_inBroken) sameIn();
    CHK(P_IN | P_LIFE, !g_freed && !g_endAsked, "the input thread waits though it should end");
    if (choose(g_typeMore, "something is typed")) {
        const int n = (int)wsym_concretize(nd_range("bytes typed", 1, g_chunk));
        for (int i = 0; i < n && g_ntyped < DATA; ++i) g_typed[g_ntyped++] = nd_u8("byte typed");
        return;
    }
    maybeShutdown();
    if (g_endAsked) return;
    if (wsym_concretize(nd_bool("the terminal fails"))) g_ttyError = true; else g_eof = true;
}
int ux_select(int n, ux_fd_set *r, ux_fd_set *w, ux_fd_set *e, ux_timeval *t) {
    CHK(P_IN | P_LIFE, !w && !e && r, "select waits for something else than input");
    for (int turn = 0; turn < 2; ++turn) {
        uint32_t ready = 0;
        for (int fd = 0; fd < n; ++fd) {
            if (!FD_ISSET(fd, r)) continue;
            Wake *p = wakeOf(fd, 0);
            CHK(P_IN | P_LIFE, p || fd == 0, "select waits for a descriptor that is not open");
            if (p ? p->bytes > 0 : g_ntyped > g_taken || g_eof || g_ttyError) ready |= 1u << fd;
        }
        if (ready) { noProgress(); r->bits = ready; int k = 0; for (int i = 0; i < 32; ++i) k += ready >> i & 1; return k; }
        if (turn) break;
        if (choose(g_eintr, "select is interrupted")) { ux_errno = EINTR; return -1; }
        progress();
        if (g_cur == 0) g_mainWaits(); else inputWaits();
    }
    wsym_fail(g_cur ? "the input thread is not woken" : "the main thread is not woken");
    wsym_stop();
    return -1;
}
intptr_t ux_read(int fd, void *b, size_t n) {
    if (Wake *p = wakeOf(fd, 0)) {
        maybeShutdown();
        if (p->bytes == 0) {
            if (!p->nonblock[0]) { CHK(P_IN | P_LIFE, false, "a thread blocks on its own wakeup pipe"); wsym_stop(); }
            maybeShutdown();
            noProgress();
            ux_errno = EAGAIN;
            return -1;
        }
        const int k = p->bytes < (int)n ? p->bytes : (int)n;
        memset(b, 0, k);
        p->bytes -= k;
        progress();
        return k;
    }
    CHK(P_IN, fd == 0, "something else than standard input is read");
    if (choose(g_eintr, "reading is interrupted")) { ux_errno = EINTR; return -1; }
    const int avail = g_ntyped - g_taken;
    if (avail == 0) {
        CHK(P_IN, g_eof || g_ttyError, "the input thread blocks where it cannot be told to end");
        noProgress();
        if (g_eof) return 0;
        ux_errno = EIO;
        return -1;
    }
    int k = avail < (int)n ? avail : (int)n;
    if (k > 1 && choose(g_splits, "partial read")) k = (int)wsym_concretize(nd_range("bytes read", 1, k - 1));
    memcpy(b, g_typed + g_taken, k);
    g_taken += k;
    progress();
    return k;
}
intptr_t ux_write(int fd, const void *b, size_t n) {
    if (choose(g_eintr, "writing is interrupted")) { ux_errno = EINTR; return -1; }
    if (Wake *p = wakeOf(fd, 1)) {
        CHK(P_LIFE, p->nonblock[1], "a signal handler may block on a full wakeup pipe");
        p->bytes += (int)n;
        if (g_onWake && p == &g_wake[0]) g_onWake();
        return n;
    }
    CHK(P_OUT, fd == 1 || fd == 2, "something else than standard output or standard error is written");
    const int o = fd - 1;
    CHK(P_OUT, o == 0 || g_wantErr, "standard error gets something though it was not asked for");
    if (choose(g_fails, "the terminal is gone")) { g_outError[o] = true; ux_errno = EIO; return -1; }
    int k = (int)n;
    if (k > 1 && choose(g_splits, "partial write")) k = (int)wsym_concretize(nd_range("bytes written", 1, k - 1));
    if (g_nshown[o] + k > DATA) { wsym_fail("harness: too much output"); wsym_stop(); }
    memcpy(g_shown[o] + g_nshown[o], b, k);
    g_nshown[o] += k;
    return k;
}
int ux_pthread_join(pthread_t t, void **) {
    Thread &th = g_thread[t - 1];
    CHK(P_LIFE, !th.joined, "a thread is awaited twice");
    CHK(P_LIFE, th.done || g_freed || g_asyncShutdown, "a thread is awaited while the agent keeps it going");
    if (!th.done) {
        g_endAsked = true;
        runThread((int)t - 1);
        g_endAsked = false;
    }
    th.joined = true;
    return 0;
}
static bool g_pipeEnded[2];
static void kernel() {
    w32_defaults();
    g_props = wsym_param("props", 127);
    w32.CreateFileW = [](LPCWSTR name, DWORD access, DWORD share, LPSECURITY_ATTRIBUTES, DWORD how, DWORD flags, HANDLE) -> HANDLE {
        const int i = name[0] - L'0';
        CHK(P_RUN, g_open && i >= 1 && i <= (g_wantErr ? 3 : 2) && name[1] == 0, "a pipe is opened that the agent does not have");
        CHK(P_RUN, access == (i == 1 ? GENERIC_WRITE : GENERIC_READ) && how == OPEN_EXISTING && !(flags & FILE_FLAG_OVERLAPPED), "the agent's pipe is opened in the wrong direction");
        CHK(P_RUN, !(g_opened >> i & 1), "a pipe is opened twice");
        g_opened |= 1 << i;
        tick();
        return (HANDLE)(uintptr_t)(0x500 + i);
    };
    w32.CloseHandle = [](HANDLE h) -> BOOL {
        CHK(P_LIFE, isOpen(h), "a handle is closed twice, or is not the adapter's");
        for (int i = 0; i < g_nthreads; ++i) CHK(P_LIFE, g_thread[i].joined || h == CHILD || i != (int)((uintptr_t)h - 0x501), "a pipe is closed while its thread runs");
        g_opened &= ~(1 << ((uintptr_t)h - 0x500));
        return TRUE;
    };
    w32.WriteFile = [](HANDLE h, LPCVOID b, DWORD n, LPDWORD a, LPOVERLAPPED ov) -> BOOL {
        CHK(P_IN, h == CONIN && isOpen(h) && !ov, "the input is written elsewhere than to the agent");
        maybeShutdown();
        if (g_freed || choose(g_fails, "the agent is gone")) { g_inBroken = true; w32_lastError = wsym_concretize(nd_bool("other error")) ? ERROR_NO_DATA : ERROR_BROKEN_PIPE; *a = 0; return FALSE; }
        if (g_ngot + (int)n > DATA) { wsym_fail("harness: too much input"); wsym_stop(); }
        memcpy(g_got + g_ngot, b, n);
        g_ngot += n;
        *a = n;
        return TRUE;
    };
    w32.ReadFile = [](HANDLE h, LPVOID b, DWORD n, LPDWORD a, LPOVERLAPPED ov) -> BOOL {
        CHK(P_OUT, (h == CONOUT || (g_wantErr && h == CONERR)) && isOpen(h) && !ov && n > 0, "something else than the agent's output is read");
        const int o = h == CONERR;
        sameOut(o);
        *a = 0;
        if (!g_freed && choose(g_sendMore, "the agent sends something")) {
            int k = (int)wsym_concretize(nd_range("bytes sent", 1, g_chunk));
            for (int i = 0; i < k; ++i) g_sent[o][g_nsent[o] + i] = nd_u8("byte sent");
            memcpy(b, g_sent[o] + g_nsent[o], k);
            g_nsent[o] += k;
            *a = k;
            return TRUE;
        }
        g_pipeEnded[o] = true;
        w32_lastError = wsym_concretize(nd_bool("other error")) ? ERROR_NO_DATA : ERROR_BROKEN_PIPE;
        return FALSE;
    };
}

// ---- winpty.dll, the file system and the environment
struct winpty_config_s {} g_cfg;
struct winpty_spawn_config_s {} g_spawnCfg;
struct winpty_s {} g_wp;
struct winpty_error_s {} g_err;
static int g_cfgs, g_spawnCfgs, g_errs, g_openFails, g_spawnFails, g_mouse;
static uint64_t g_flags;
static DWORD g_exitCode;
static bool g_exitUnknown;
static void (*g_onCommand)(const wchar_t *);
static void (*g_onExit)(int);
static int g_debug, g_synced;                    // WINPTY_DEBUG: 0 not set, 1 empty, 2 set
static bool g_termGone, g_debugSet;
winpty_result_t winpty_error_code(winpty_error_ptr_t e) { return g_spawnFails == 1 ? WINPTY_ERROR_SPAWN_CREATE_PROCESS_FAILED : WINPTY_ERROR_LOST_CONNECTION; }
LPCWSTR winpty_error_msg(winpty_error_ptr_t e) { CHK(P_RUN, e == (winpty_error_ptr_t)&g_err, "an error is described that has not happened"); return L"no"; }
void winpty_error_free(winpty_error_ptr_t e) {}
winpty_config_t *winpty_config_new(UINT64 flags, winpty_error_ptr_t *) { g_flags = flags; ++g_cfgs; return (winpty_config_t *)&g_cfg; }
void winpty_config_free(winpty_config_t *c) { --g_cfgs; }
void winpty_config_set_initial_size(winpty_config_t *, int cols, int rows) { CHK(P_LIFE | P_RUN, cols > 0 && rows > 0, "the console is to start with a size of zero, which winpty.dll does not accept"); conCols = cols; conRows = rows; }
void winpty_config_set_mouse_mode(winpty_config_t *, int m) { g_mouse = m; }
void winpty_config_set_agent_timeout(winpty_config_t *, DWORD) {}
winpty_t *winpty_open(const winpty_config_t *, winpty_error_ptr_t *e) {
    CHK(P_RUN, g_cfgs == 1 && !g_open, "winpty_open is called wrongly");
    CHK(P_RUN, g_termGone && g_synced, "the program inherits the terminal's TERM");
    CHK(P_RUN, g_debugSet == (g_debug == 2), "WINPTY_DEBUG does not reach the agent");
    tick();
    if (choose(g_openFails, "winpty_open fails")) { *e = (winpty_error_ptr_t)&g_err; return 0; }
    *e = 0;
    g_open = true;
    return (winpty_t *)&g_wp;
}
HANDLE winpty_agent_process(winpty_t *) { return 0; }
LPCWSTR winpty_conin_name(winpty_t *) { return L"1"; }
LPCWSTR winpty_conout_name(winpty_t *) { return L"2"; }
LPCWSTR winpty_conerr_name(winpty_t *) { return g_wantErr ? L"3" : 0; }
winpty_spawn_config_t *winpty_spawn_config_new(UINT64 flags, LPCWSTR app, LPCWSTR cmd, LPCWSTR dir, LPCWSTR env, winpty_error_ptr_t *) {
    ++g_spawnCfgs;
    CHK(P_LIFE, flags == WINPTY_SPAWN_FLAG_AUTO_SHUTDOWN, "the session would not end with the program");
    CHK(P_ARGS, !app && cmd, "the program is not named by the command line");
    CHK(P_RUN, !dir && !env, "the program gets another folder or environment than the adapter's");
    if (g_onCommand) g_onCommand(cmd);
    return (winpty_spawn_config_t *)&g_spawnCfg;
}
void winpty_spawn_config_free(winpty_spawn_config_t *) { --g_spawnCfgs; }
BOOL winpty_spawn(winpty_t *wp, const winpty_spawn_config_t *, HANDLE *process, HANDLE *thread, DWORD *error, winpty_error_ptr_t *e) {
    CHK(P_LIFE, g_open && g_spawnCfgs == 1 && !g_spawned && process, "the program is started wrongly");
    CHK(P_LIFE, (g_opened & 6) == 6, "the program is started before the agent's pipes are open");
    tick();
    if (g_spawnFails) { *e = (winpty_error_ptr_t)&g_err; *error = 2; return FALSE; }
    *e = 0;
    g_spawned = true;
    *process = CHILD;
    g_opened |= 1 << 4;
    return TRUE;
}
BOOL winpty_set_size(winpty_t *, int cols, int rows, winpty_error_ptr_t *e) {
    CHK(P_LIFE, g_open && !g_freed, "the size is set of a session that has ended");
    CHK(P_LIFE, cols > 0 && rows > 0, "a size of zero is passed on, which winpty.dll does not accept");
    CHK(P_LIFE, g_tty[0], "a size is passed on though the terminal does not tell one");
    conCols = cols; conRows = rows;
    tick();
    return TRUE;
}
int winpty_get_console_process_list(winpty_t *, int *, const int, winpty_error_ptr_t *) { return 0; }
void winpty_free(winpty_t *) {
    CHK(P_LIFE, g_open && !g_freed, "the session is ended twice");
    bool over = false;
    for (int i = 0; i < g_nthreads; ++i) over = over || g_thread[i].done;
    CHK(P_LIFE, over, "the session is ended though nothing has ended");
    g_freed = true;
}
const char *ux_getenv(const char *name) {
    static char path[] = "/usr/bin:/my dir/bin/::/opt";
    if (!strcmp(name, "PATH")) return wsym_param("nopath", 0) ? 0 : path;
    if (!strcmp(name, "WINPTY_DEBUG")) return g_debug == 0 ? 0 : g_debug == 1 ? "" : "trace";
    return 0;
}
uintptr_t ux_cygwin(int what) { g_synced = 1; g_termGone = false; return 0; }
size_t ux_mbstowcs(wchar_t *out, const char *in, size_t n) {
    size_t i = 0;
    for (; i < n; ++i) { out[i] = (unsigned char)in[i]; if (!in[i]) return i; }
    return i;
}
size_t ux_wcstombs(char *out, const wchar_t *in, size_t n) {
    size_t i = 0;
    for (; i < n; ++i) { out[i] = (char)in[i]; if (!in[i]) return i; }
    return i;
}
// Files that exist: 0 no, 1 yes, 2 yes and executable.
struct File { const char *path; int state; };
static File g_file[8];
static int g_nfiles;
static int stateOf(const char *path) { for (int i = 0; i < g_nfiles; ++i) if (!strcmp(path, g_file[i].path)) return g_file[i].state; return 0; }
static int stateExe(const char *path) {
    const int s = stateOf(path);
    const size_t n = strlen(path);
    char b[64];
    if (s || n > 50) return s;
    strcpy(b, path); strcpy(b + n, ".exe");
    return stateOf(b);
}
int ux_access(const char *path, int how) {
    const int s = stateExe(path);
    if (s >= (how == X_OK ? 2 : 1)) return 0;
    ux_errno = s ? EACCES : ENOENT;
    return -1;
}
char *ux_realpath(const char *path, char *out) {
    char b[64];
    if (strlen(path) > 50) { ux_errno = ENAMETOOLONG; return 0; }
    b[0] = 0;
    if (path[0] != '/') strcpy(b, "/home/");
    strcpy(b + strlen(b), path);
    if (!stateExe(b)) { ux_errno = ENOENT; return 0; }
    strcpy(out, b);
    return out;
}
intptr_t ux_conv_path(unsigned, const char *from, void *to, size_t n) {
    const size_t need = strlen(from) + 3;
    if (n == 0) return need;
    if (n < need) { ux_errno = ENOSPC; return -1; }
    strcpy((char *)to, "C:");
    strcpy((char *)to + 2, from);
    return 0;
}
static void endChecks() {
    checkModes(false);
    wsym_reach("ended");
}
void ux_exit(int code) {
    if (g_onExit) g_onExit(code);
    endChecks();
    wsym_reach("exit");
    wsym_stop();
}

// ---- the whole program
static int g_argc;
static char g_argText[10][24];
static char *g_argv[11];
static void arg(const char *s) { strcpy(g_argText[g_argc], s); g_argv[g_argc] = g_argText[g_argc]; ++g_argc; }
static int g_acts;
static void mainWaits() {
    CHK(P_LIFE, g_spawned && !g_freed, "the adapter waits without a session");
    for (int i = 0; i < g_nthreads; ++i) CHK(P_LIFE, !g_thread[i].done, "the adapter waits though the session is over");
    if (known()) CHK(P_LIFE, (conCols == g_size.ws_col) & (conRows == g_size.ws_row), "the console has not the terminal's size");
    checkModes(true);
    wsym_reach("waits");
    if (choose(g_resizes, "the terminal is resized")) { setSize(); if (g_onWinch) g_onWinch(SIGWINCH); return; }
    if (g_onCommand) { runThread(0); return; }
    // Something ends: the program (the agent closes its pipes), or the terminal.
    CHK(P_LIFE, g_nthreads == (g_wantErr ? 3 : 2), "not every pipe has its thread");
    const int i = (int)wsym_concretize(nd_range("thread that ends first", 0, g_nthreads - 1));
    runThread(i);
    if (wsym_concretize(nd_bool("another ends too"))) { const int k = (i + 1) % g_nthreads; runThread(k); }
}
static void world() {
    kernel();
    g_mainWaits = mainWaits;
    g_debug = (int)wsym_concretize(nd_range("WINPTY_DEBUG", 0, wsym_param("debug", 0) ? 2 : 0));
    w32.SetEnvironmentVariableW = [](LPCWSTR n, LPCWSTR v) -> BOOL {
        if (n[0] == 'T' && n[1] == 'E' && n[2] == 'R' && n[3] == 'M' && n[4] == 0) g_termGone = v == 0;
        if (n[0] == 'W' && n[7] == 'D') { bool same = v != 0; for (int i = 0; same && i < 6; ++i) same = v[i] == L"trace"[i]; g_debugSet = same && g_synced; }
        return TRUE;
    };
    w32.FormatMessageW = [](DWORD flags, LPCVOID, DWORD, DWORD, LPWSTR out, DWORD, va_list *) -> DWORD {
        if (!wsym_concretize(nd_bool("message known"))) return 0;
        static wchar_t m[] = L"no such file.\r\n";
        *(wchar_t **)out = m;
        return 15;
    };
    w32.LocalFree = [](HLOCAL) -> HLOCAL { return 0; };
    w32.GetExitCodeProcess = [](HANDLE h, LPDWORD c) -> BOOL { CHK(P_LIFE, h == CHILD && isOpen(h), "the exit code of another process is taken"); if (g_exitUnknown) return FALSE; *c = g_exitCode; return TRUE; };
    static const char *const exe = "/usr/bin/prog.exe";
    g_file[g_nfiles].path = exe; g_file[g_nfiles++].state = 2;
    const bool tty = wsym_param("nontty", 0) == 0;
    for (int i = 0; i < 3; ++i) { g_tty[i] = tty || wsym_concretize(nd_bool("a terminal")); g_devOf[i] = i == 0 ? 0 : (int)wsym_concretize(nd_range("terminal", 0, wsym_param("devices", 0))); }
    for (int d = 0; d < 2; ++d) {
        termios &t = g_dev[d].orig;
        memset(&t, 0, sizeof t);
        t.c_iflag = nd_u32("iflag"); t.c_oflag = nd_u32("oflag"); t.c_cflag = nd_u32("cflag"); t.c_lflag = nd_u32("lflag");
        for (int i = 0; i < 18; ++i) t.c_cc[i] = nd_u8("cc");
        t.c_ispeed = nd_u32("speed"); t.c_ospeed = nd_u32("speed"); t.c_line = (char)nd_u8("line");
        g_dev[d].mode = t;
    }
    setSize();
    g_resizes = wsym_param("resizes", 0); g_eintr = wsym_param("eintr", 0); g_splits = wsym_param("splits", 0); g_fails = wsym_param("fails", 0);
    g_typeMore = wsym_param("types", 0); g_sendMore = wsym_param("sends", 0); g_chunk = wsym_param("chunk", 2);
    g_openFails = wsym_param("openfails", 0);
    g_spawnFails = (int)wsym_concretize(nd_range("spawn fails", 0, wsym_param("spawnfails", 0)));
    g_exitCode = nd_u32("exit code");
    g_exitUnknown = wsym_concretize(nd_bool("exit code unknown"));
    arg("winpty");
}
static void runMain() {
    const int rc = adapterMain(g_argc, g_argv);
    CHK(P_LIFE, g_freed, "the session is left open");
    for (int i = 0; i < g_nthreads; ++i) CHK(P_LIFE, g_thread[i].joined, "a thread is left running");
    CHK(P_LIFE, rc == (g_exitUnknown ? 1 : (int)g_exitCode), "the exit code is not the program's");
    CHK(P_RUN, g_cfgs == 0 && g_spawnCfgs == 0, "a configuration leaks");
    for (int o = 0; o < (g_wantErr ? 2 : 1); ++o) {
        if (!g_outError[o]) sameOut(o);
        CHK(P_OUT, g_pipeEnded[o] || g_outError[o], "the output thread ends though there may be more");
    }
    endChecks();
    wsym_reach("done");
}
// A whole session: sizes, modes, threads, the end.
extern "C" void harness_ux_session() {
    world();
    g_wantErr = wsym_param("conerr", 0); g_allow = wsym_param("nontty", 0) && wsym_concretize(nd_bool("non-terminals allowed"));
    if (g_wantErr) arg("-Xconerr");
    if (g_allow) arg("-Xallow-non-tty");
    arg("prog");
    g_onExit = [](int code) {
        bool all = true;
        for (int i = 0; i < (g_wantErr ? 3 : 2); ++i) all = all && g_tty[i];
        CHK(P_LIFE, code != 0, "the adapter fails but says that it succeeds");
        CHK(P_LIFE | P_TTY, !g_open || g_spawnFails || (!all && !g_allow), "the adapter gives up for no reason");
    };
    runMain();
}

// The threads by themselves: told to end at any moment.
#include "unix-adapter/InputHandler.h"
#include "unix-adapter/OutputHandler.h"
static InputHandler *g_input;
static OutputHandler *g_output;
static void settings() {
    g_eintr = wsym_param("eintr", 0); g_splits = wsym_param("splits", 0); g_fails = wsym_param("fails", 0);
    g_typeMore = wsym_param("types", 0); g_sendMore = wsym_param("sends", 0); g_chunk = wsym_param("chunk", 2);
    g_wantErr = true;
}
extern "C" void harness_ux_input() {
    kernel();
    settings();
    WakeupFd done;
    g_opened = 1 << 1;
    InputHandler h(CONIN, 0, done);
    g_input = &h;
    g_asyncShutdown = []() { g_input->startShutdown(); };
    g_onWake = []() { CHK(P_IN, g_input->isComplete(), "the main thread is woken before there is anything to see"); };
    if (wsym_concretize(nd_bool("shutdown at once"))) { g_endAsked = true; h.startShutdown(); }
    CHK(P_IN, g_nthreads == 1, "the input has no thread");
    runThread(0);
    if (!g_inBroken) sameIn();
    CHK(P_IN, g_endAsked || g_inBroken || g_eof || g_ttyError, "the input thread ends for no reason");
    CHK(P_IN, h.isComplete() && g_wake[0].bytes > 0, "nobody notices the end of the input thread");
    if (g_ngot) wsym_reach("typed");
    if (g_endAsked) wsym_reach("asked");
    h.shutdown();
    wsym_reach("done");
}
extern "C" void harness_ux_output() {
    kernel();
    settings();
    WakeupFd done;
    g_opened = 1 << 2 | 1 << 3;
    const int o = (int)wsym_concretize(nd_bool("errors"));
    OutputHandler h(o ? CONERR : CONOUT, o ? 2 : 1, done);
    g_output = &h;
    g_onWake = []() { CHK(P_OUT, g_output->isComplete(), "the main thread is woken before there is anything to see"); };
    CHK(P_OUT, g_nthreads == 1, "the output has no thread");
    runThread(0);
    if (!g_outError[o]) sameOut(o);
    CHK(P_OUT, g_pipeEnded[o] || g_outError[o], "the output thread ends though there may be more");
    CHK(P_OUT, h.isComplete() && g_wake[0].bytes > 0, "nobody notices the end of the output thread");
    if (g_nshown[o]) wsym_reach("shown");
    h.shutdown();
    wsym_reach("done");
}

// ---- the command line of the program
static int g_wantFirst;                          // of g_argText
static const char *g_wantPath;
// As the C runtime of a Windows program splits it.
static void splits(const wchar_t *c) {
    // The program's name: up to the next quote, or the next blank.
    const char *w = g_wantPath;
    const bool quoted = *c == '"';
    if (quoted) ++c;
    bool same = true;
    while (*c && (quoted ? *c != '"' : *c != ' ' && *c != '\t')) { same = same && *w && *c == (wchar_t)(*w == '/' ? '\\' : *w); if (*w) ++w; ++c; }
    CHK(P_ARGS | P_FIND, same && !*w, "another program is started than the one found");
    if (quoted) ++c;
    for (int i = g_wantFirst; ; ++i) {
        while (*c == ' ' || *c == '\t') ++c;
        if (!*c) { CHK(P_ARGS, i == g_argc, "the program gets too few arguments"); break; }
        CHK(P_ARGS, i < g_argc, "the program gets too many arguments");
        const char *a = g_argText[i];
        int n = 0;
        bool in = false;
        while (*c && (in || (*c != ' ' && *c != '\t'))) {
            int bs = 0;
            while (*c == '\\') { ++c; ++bs; }
            if (*c != '"') { while (bs--) { CHK(P_ARGS, a[n] == '\\', "an argument reaches the program changed"); ++n; } if (*c && (in || (*c != ' ' && *c != '\t'))) { CHK(P_ARGS, *c == (wchar_t)(unsigned char)a[n] && a[n], "an argument reaches the program changed"); ++n; ++c; } continue; }
            for (int k = bs / 2; k--; ) { CHK(P_ARGS, a[n] == '\\', "an argument reaches the program changed"); ++n; }
            ++c;
            if (bs % 2) { CHK(P_ARGS, a[n] == '"', "an argument reaches the program changed"); ++n; continue; }
            if (in && *c == '"') { CHK(P_ARGS, a[n] == '"', "an argument reaches the program changed"); ++n; ++c; continue; }
            in = !in;
        }
        CHK(P_ARGS, a[n] == 0, "an argument reaches the program cut short");
    }
}
extern "C" void harness_ux_args() {
    world();
    arg("prog");
    g_wantFirst = g_argc; g_wantPath = "C:/usr/bin/prog.exe";
    const int n = (int)wsym_concretize(nd_range("arguments", 0, wsym_param("nargs", 2)));
    int left = wsym_param("chars", 4);
    for (int i = 0; i < n; ++i) {
        char *t = g_argText[g_argc];
        const int len = (int)wsym_concretize(nd_range("argument length", 0, left));
        left -= len;
        for (int k = 0; k < len; ++k) t[k] = (char)nd_range("argument character", 1, 127);
        t[len] = 0;
        g_argv[g_argc] = t; ++g_argc;
    }
    g_onCommand = [](const wchar_t *c) { splits(c); };
    runMain();
}
// Options before the program.
extern "C" void harness_ux_options() {
    world();
    static const char *const words[] = { "--mouse", "-Xplain", "-Xcolor", "-Xconerr", "-Xallow-non-tty", "--", "prog", "-x", "--help", "-h", "--version", "-" };
    const int n = (int)wsym_concretize(nd_range("words", 0, wsym_param("words", 3)));
    static bool ended, bad, help;
    static int prog;
    static uint64_t want;
    static bool mouse;
    prog = 0; want = WINPTY_FLAG_ALLOW_CURPROC_DESKTOP_CREATION;
    for (int i = 0; i < n; ++i) {
        const int w = (int)wsym_concretize(nd_range("word", 0, 11));
        arg(words[w]);
        if (prog || bad || help) continue;
        if (ended || w == 6) { prog = i + 1; continue; }
        if (w == 0) mouse = true;
        else if (w == 1) want |= WINPTY_FLAG_PLAIN_OUTPUT;
        else if (w == 2) want |= WINPTY_FLAG_COLOR_ESCAPES;
        else if (w == 3) { want |= WINPTY_FLAG_CONERR; g_wantErr = true; }
        else if (w == 5) ended = true;
        else if (w == 7 || w == 11) bad = true;
        else if (w >= 8) help = true;
    }
    g_onExit = [](int code) {
        const bool found = prog && !strcmp(g_argText[prog], "prog");
        CHK(P_FIND, !found, "the adapter refuses a proper command line");
        CHK(P_FIND, code == (help ? 0 : 1), "the adapter's exit code does not say whether it did what was asked");
        CHK(P_FIND, !g_open || (prog && !found), "a session is started without a program");
    };
    g_onCommand = [](const wchar_t *c) {
        CHK(P_FIND, prog && !bad && !help, "a program is started though the command line asks for none");
        CHK(P_FIND, g_flags == want && g_mouse == (mouse ? WINPTY_MOUSE_MODE_FORCE : 0), "an option does not reach the agent, or one that was not given does");
        g_wantFirst = prog + 1; g_wantPath = "C:/usr/bin/prog.exe";
        splits(c);
    };
    runMain();
}
// Where the program is found.
extern "C" void harness_ux_find() {
    world();
    g_nfiles = 0;
    static const char *const names[] = { "prog", "prog.bat", "prog.CMD", "prog.com", "/opt/prog", "bin/prog.exe" };
    static int name;
    static char files[8][40];
    name = (int)wsym_concretize(nd_range("name", 0, 5));
    static const char *const dirs[] = { "/usr/bin/", "/my dir/bin/", "/home/", "/opt/" };
    const bool path = name < 4;
    static bool suffix;
    suffix = path && name > 0;
    static char want[40];
    want[0] = 0;
    for (int d = 0; d < (path ? 4 : 1); ++d) {
        char b[40];
        if (path) { strcpy(b, dirs[d]); strcpy(b + strlen(b), names[name]); } else if (name == 4) strcpy(b, names[4]); else { strcpy(b, "/home/"); strcpy(b + 6, names[5]); }
        File &f = g_file[g_nfiles];
        strcpy(files[g_nfiles], b);
        f.path = files[g_nfiles++];
        f.state = (int)wsym_concretize(nd_range("file", 0, 2));
        bool ok = f.state == 2;
        if (!suffix && path) {
            File &e = g_file[g_nfiles];
            strcpy(files[g_nfiles], b); strcpy(files[g_nfiles] + strlen(b), ".exe");
            e.path = files[g_nfiles++];
            e.state = (int)wsym_concretize(nd_range("file", 0, 2));
            ok = e.state == 2;
            strcpy(b + strlen(b), ".exe");
        }
        if (!path) ok = f.state != 0;
        if (ok && !want[0]) { strcpy(want, "C:"); strcpy(want + 2, b); }
    }
    arg(names[name]);
    g_onExit = [](int code) { CHK(P_FIND, want[0] == 0 && code != 0 && !g_spawned, "a program that is there is not found"); };
    g_onCommand = [](const wchar_t *c) {
        CHK(P_FIND, want[0] != 0, "a program is started that cannot be");
        g_wantFirst = g_argc; g_wantPath = want;
        splits(c);
    };
    runMain();
}
