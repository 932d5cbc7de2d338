// The agent itself: its answers on the control pipe, the program it starts, and how it ends.
#include "agentk.h"
#include "con.h"
#include <string>
#include "agent/Agent.h"
#include "include/winpty_constants.h"
#include "shared/AgentMsg.h"

enum { CONTROL = 0, CONIN = 1, CONOUT = 2, CONERR = 3 };
enum { W = 4 };

// ---- requests of the client, and the replies they should get
enum { NREQ = 6, REQ_MAX = 256 };
struct Req { int type, end, cols, rows; uint64_t flags; int wantP, wantT; int slen[5]; uint16_t str[5][8]; bool fail; };
static Req g_req[NREQ];
static int g_nreq, g_ctlLen;
#ifndef REQ_BIG
#define REQ_BIG (NREQ * REQ_MAX)
#endif
static uint8_t g_ctl[REQ_BIG];
static uint8_t g_reply[4096];                    // what should have been answered so far
static int g_replyLen;

static int least(int a, int b) { return a < b ? a : b; }
// The size a window gets: what was asked for, limited by the agent and by the screen.
static int getsCols(int n) { return least(least(n, 2500), con_[0].largestX); }
static int getsRows(int n) { return least(least(n, 2000), con_[0].largestY); }
static void ctl(const void *p, int n) { memcpy(g_ctl + g_ctlLen, p, n); g_ctlLen += n; }
template <class T> static void raw(T v) { ctl(&v, sizeof v); }
static void i32(uint32_t v) { raw<uint8_t>(0); raw(v); }
static void i64(uint64_t v) { raw<uint8_t>(1); raw(v); }
static void str(const uint16_t *s, int n) { raw<uint8_t>(2); raw<uint64_t>(n); ctl(s, 2 * n); }
static int begin() { const int at = g_ctlLen; raw<uint64_t>(0); return at; }
static void finish(int at) { const uint64_t n = g_ctlLen - at; memcpy(g_ctl + at, &n, 8); g_req[g_nreq++].end = g_ctlLen; }
static void replyRaw(const void *p, int n) {
    if (g_replyLen + n > (int)sizeof g_reply) { wsym_fail("harness: reply buffer full"); wsym_stop(); }
    memcpy(g_reply + g_replyLen, p, n); g_replyLen += n;
}
template <class T> static void replyPut(T v) { replyRaw(&v, sizeof v); }
static void replyInt(uint32_t v) { replyPut<uint8_t>(0); replyPut(v); }
static void replyI64(uint64_t v) { replyPut<uint8_t>(1); replyPut(v); }

static void addSize() {
    Req &r = g_req[g_nreq];
    r.type = AgentMsg::SetSize;
#ifdef CON_FLAT
    static const int sz[][2] = { { 80, 24 }, { 1, 1 }, { 2499, 1 }, { 2500, 2 }, { 2501, 1 }, { 0x7fffffff, 1 }, { 1, 1999 }, { 1, 2000 }, { 2, 2001 }, { 1, 0x7fffffff }, { 65616, 65560 }, { 200, 60 } };
    const int i = (int)wsym_concretize(nd_range("size", 0, 11));
    r.cols = sz[i][0]; r.rows = sz[i][1];
#else
    static const int cs[] = { 4, 2, 1, 3 }, rs[] = { 5, 1, 3 };
    const int k = wsym_param("sizes", 1);
    r.cols = cs[wsym_concretize(nd_range("columns", 0, k))]; r.rows = rs[wsym_concretize(nd_range("rows", 0, k ? 1 : 0))];
#endif
    const int at = begin();
    i32(r.type); i32(r.cols); i32(r.rows);
    finish(at);
}
static void addList() { Req &r = g_req[g_nreq]; r.type = AgentMsg::GetConsoleProcessList; const int at = begin(); i32(r.type); finish(at); }
static void addUnknown() {
    Req &r = g_req[g_nreq];
    const uint32_t t = nd_u32("unknown message");
    wsym_assume(t > 2);
    r.type = -1;
    const int at = begin();
    i32(t);
    if (wsym_concretize(nd_bool("unknown message has content"))) { i32(nd_u32("content")); }
    finish(at);
}
// Programs: strings of up to `text` arbitrary characters.
static void addStart(uint64_t flags, bool fail) {
    Req &r = g_req[g_nreq];
    r.type = AgentMsg::StartProcess;
    if (fail) r.cols = (int)nd_u32("error");
    r.flags = flags; r.fail = fail;
    const int text = wsym_param("text", 0);
    r.wantP = text ? (int)wsym_concretize(nd_bool("process handle wanted")) : 1; r.wantT = text ? (int)wsym_concretize(nd_bool("thread handle wanted")) : 0;
    const int at = begin();
    i32(r.type); i64(flags); i32(r.wantP); i32(r.wantT);
    for (int i = 0; i < 5; ++i) {
        const int n = i == 3 && text ? (int)wsym_concretize(nd_range("environment", 0, text)) * 2 : text ? (int)wsym_concretize(nd_range("length", 0, text)) : i == 1;
        for (int k = 0; k < n; ++k) {
            r.str[i][k] = nd_u16("character");
            if (i == 3 && (k & 1)) r.str[i][k] = 0;       // one-letter strings, each with its NUL
            else wsym_assume(r.str[i][k] != 0);
        }
        if (i == 3 && n) r.str[i][n] = 0;
        r.slen[i] = n + (i == 3 && n);                    // and the NUL that ends the block
        str(r.str[i], r.slen[i]);
    }
    finish(at);
}

// ---- the program on the console
static KObj *g_proc;
static bool g_exited, g_noticed;                 // it has ended; the agent knows
static int g_starts, g_shown, g_prints;          // programs asked for; characters printed
static char g_text[2][16];                       // by buffer
static int g_ntext[2];
static uint64_t g_given[2];                      // handles of the program's process and thread duplicated for the client
static int g_ngiven;
static DWORD g_pids[320];
static int g_npids, g_listed[4], g_nlists, g_listAnswers;   // processes now, and at each list that succeeded
static int g_sizeEvents, g_sizeDone;
static uint64_t g_flags;
static int g_races;

static void printChar(int buf) {
    Con *was = g_con;
    g_con = con_ + buf;
    const char c = (char)('!' + g_shown++);
    conPut(con.cx, con.cy, c, 7);
    if (++con.cx >= con.w) conNewLine();
    g_con = was;
    g_text[buf][g_ntext[buf]++] = c;
}
static bool shows(const Pipe &p, char c) { for (int i = 0; i < p.nout; ++i) if (p.out[i] == (uint8_t)c) return true; return false; }
static bool found(const Pipe &p, int i, const char *s) { for (int k = 0; s[k]; ++k) if (i + k >= p.nout || p.out[i + k] != (uint8_t)s[k]) return false; return true; }
static int startOf(int type, int nth) { for (int i = 0; i < g_nreq; ++i) if (g_req[i].type == type && !nth--) return i; return -1; }
static bool created() { return g_proc != 0; }
static bool autoShutdown() { return created() && (g_flags & WINPTY_SPAWN_FLAG_AUTO_SHUTDOWN); }

// ---- what has been answered
static int g_handled;
static void handled() {
    Pipe &p = g_pipe[CONTROL];
    for (; g_handled < g_nreq && g_req[g_handled].end <= p.atin; ++g_handled) {
        Req &r = g_req[g_handled];
        if (r.type == AgentMsg::SetSize) { replyPut<uint64_t>(8); ++g_sizeDone; }
        else if (r.type == AgentMsg::GetConsoleProcessList) {
            CHK(P_PROC | P_PKT, g_nlists > g_listAnswers, "the process list is answered without being read in full");
            const int n = g_listed[g_listAnswers++];
            replyPut<uint64_t>(8 + 5 + 5 * n);
            replyInt(n);
            for (int i = 0; i < n; ++i) replyInt(g_pids[i]);
        } else if (r.type == AgentMsg::StartProcess) {
            if (r.fail) { replyPut<uint64_t>(8 + 5 + 5); replyInt(0); replyInt(r.cols); }
            else {
                replyPut<uint64_t>(8 + 5 + 9 + 9); replyInt(1);
                CHK(P_LAUNCH, g_ngiven == r.wantP + r.wantT, "other handles are duplicated than the client asked for");
                replyI64(r.wantP ? g_given[0] : 0); replyI64(r.wantT ? g_given[1] : 0);
            }
        }
        int starts = 0;
        for (int i = 0; i <= g_handled; ++i) starts += g_req[i].type == AgentMsg::StartProcess;
        CHK(P_LAUNCH | P_PKT, g_starts >= starts, "a program that was asked for is not started");
    }
    if (!p.wr.active && !p.closed && !p.broken) CHK(P_PKT, p.nout == g_replyLen, "a request that came in is not answered, or too much is sent");
    CHK(P_SIZE, g_sizeEvents == g_sizeDone, "the program is not told of a resize exactly once");
    if (g_sizeDone) {
        const Req &r = g_req[startOf(AgentMsg::SetSize, g_sizeDone - 1)];
        for (int i = 0; i < (g_npipes > CONERR ? 2 : 1); ++i)
            CHK(P_SIZE, con_[i].right - con_[i].left + 1 == getsCols(r.cols) && con_[i].bottom - con_[i].top + 1 == getsRows(r.rows), "a console buffer's window does not have the size asked for");
    }
}

// ---- what can happen while the agent waits
enum { A_NONE = 1, A_CTL = 2, A_CONNECT = 4, A_READ = 8, A_PRINT = 16, A_EXIT = 32, A_HANGUP = 64, A_CLOSE = 128, A_TYPE = 256 };
static int g_steps, g_K, g_idle;
static bool g_drain, g_hungup;

static void finishProgram() { g_exited = true; g_proc->set = true; }
// What is typed at the terminal, and the clicks there.
static uint8_t g_typed[16];
static int g_ntyped, g_keys, g_clicks, g_clickSent;
static void type(const void *s, int n) { Pipe &p = g_pipe[CONIN]; memcpy(p.in + p.nin, s, n); p.nin += n; clientWrites(p); }
static bool act(int a) {
    bool any = false;
    switch (a) {
    case A_TYPE: {
        if (!g_pipe[CONIN].connected || g_ntyped >= wsym_param("typed", 3)) return false;
        const int n = 1 + (int)wsym_concretize(nd_bool("two keys at once")), was = g_ntyped;
        for (int i = 0; i < n; ++i) { g_typed[g_ntyped] = nd_u8("key"); wsym_assume(g_typed[g_ntyped] >= 'a' && g_typed[g_ntyped] <= 'z'); ++g_ntyped; }
        type(g_typed + was, n);
        return true; }
    case A_CTL: {
        Pipe &p = g_pipe[CONTROL];
        const int left = g_ctlLen - p.nin;
        if (!left) return clientWrites(p);
        static const int pieces[] = { 1, 8, 65535, 65536, 65537, 131072 };
        const int piece = wsym_param("pieces", 0) && !g_drain ? pieces[wsym_concretize(nd_range("piece", 0, 5))] : 0;
        const int n = piece ? least(piece, left) : g_drain || !wsym_param("split", 1) ? left : 1 + (int)wsym_concretize(nd_range("request bytes sent", 0, left - 1));
        memcpy(p.in + p.nin, g_ctl + p.nin, n);
        p.nin += n;
        clientWrites(p);
        return true; }
    case A_CONNECT: {
        const int which = g_drain ? 7 : 1 + (int)wsym_concretize(nd_range("client connects to", 0, g_npipes == 4 ? 6 : 2));
        for (int i = 1; i < g_npipes; ++i) if ((which >> (i - 1) & 1) && g_pipe[i].cn.active && !g_pipe[i].cn.done) { clientConnects(g_pipe[i]); any = true; }
        return any; }
    case A_READ:
        for (int i = 0; i < g_npipes; ++i) if (g_pipe[i].wr.active && !g_pipe[i].wr.done) { clientReads(g_pipe[i]); any = true; }
        return any;
    case A_PRINT:
        if (!created() || g_exited || g_prints >= wsym_param("prints", 2)) return false;
        ++g_prints;
        printChar(g_npipes > CONERR ? (int)wsym_concretize(nd_bool("to standard error")) : 0);
        return true;
    case A_EXIT:
        if (!created() || g_exited) return false;
        if (wsym_concretize(nd_bool("last words"))) printChar(0);
        finishProgram();
        return true;
    case A_HANGUP:
        if (g_hungup) return false;
        g_hungup = true;
        clientCloses(g_pipe[CONTROL]);
        return true;
    case A_CLOSE:
        if (g_pipe[CONOUT].broken || !g_pipe[CONOUT].connected) return false;
        clientCloses(g_pipe[CONOUT]);
        return true;
    }
    return false;
}
// Whether the agent should have ended by itself.
static bool over() {
    if (!(g_flags & WINPTY_SPAWN_FLAG_EXIT_AFTER_SHUTDOWN) || !autoShutdown() || !g_exited) return false;
    return true;
}
static void env(DWORD ms) {
    CHK(P_SIZE, !con_[0].frozen, "the agent rests while the console is frozen");
    CHK(P_DOWN, !g_hungup, "the agent goes on though its client is gone");
    CHK(P_LOOP, ms <= 25, "the agent sleeps through its polls");
    handled();
    for (int i = 0; i < g_nobj; ++i) CHK(P_OWN, !(kobj[i].open && kobj[i].kind == K_FILE && !kobj[i].set), "the agent keeps a console handle it does not need");
    if (ms > 25) ms = 25;
    g_tick += ms;
    if (g_steps < g_K) {
        ++g_steps;
        const int acts = wsym_param("acts", 0);
        int list[12], n = 0;
        for (int b = 1; b <= acts; b <<= 1) if (acts & b) list[n++] = b;
        act(list[wsym_concretize(nd_range("what happens", 0, n - 1))]);
        return;
    }
    g_drain = true;
    if (act(A_CONNECT) || act(A_READ) || act(A_CTL)) { g_idle = 0; return; }
    if (wsym_param("exit", 0) && act(A_EXIT)) { g_idle = 0; return; }
    if (++g_idle < 3) return;
    CHK(P_PKT, g_hungup || g_handled == g_nreq, "a request is never read to its end");
    CHK(P_FIFO, g_keys == g_ntyped, "typed text does not reach the console");
    if (wsym_param("click", 0) && g_clickSent < 3) {
        ++g_clickSent;
        if (g_clickSent == 1) { if (wsym_concretize(nd_bool("window moves"))) { con_[0].top += 7; con_[0].bottom += 7; con_[0].cy = con_[0].top; } g_idle = 0; return; }
        CHK(P_SIZE, g_clicks == (g_clickSent == 3 ? 1 : 0), "a click does not reach the console");
        if (g_clickSent == 2) { type("\x1b[<0;1;1M\x1b[<0;1;1m", 18); g_idle = 0; return; }
    }
    CHK(P_DOWN, !over(), "the agent does not end after the program, as it was told to");
    if (!act(A_HANGUP)) wsym_stop();
}

static void closing(Pipe &p) {
    const int i = (int)(&p - g_pipe);
    if (p.broken) return;
    CHK(P_DOWN, i == CONOUT || i == CONERR, "the agent closes a pipe other than for output");
    if (i < CONOUT) return;
    CHK(P_DOWN, autoShutdown() && g_exited, "an output pipe closes though the program has not ended or nobody asked for it");
    CHK(P_DOWN, p.connected, "an output pipe closes before the client has connected to it");
    for (int k = 0; k < g_ntext[i - CONOUT]; ++k) CHK(P_DOWN, shows(p, g_text[i - CONOUT][k]), "an output pipe closes before all of the program's output has been sent");
    int mouse = 0;
    for (int k = 0; k < p.nout; ++k) if (found(p, k, "\x1b[?1000h")) mouse = 1; else if (found(p, k, "\x1b[?1000l")) mouse = 0;
    CHK(P_DOWN, !mouse, "the output pipe closes with the terminal's mouse reporting still on");
}

static bool sameText(const wchar_t *s, const uint16_t *w, int n) {
    bool same = true;
    for (int i = 0; i < n; ++i) same &= (uint16_t)s[i] == w[i];
    return same;
}
static void optional(const wchar_t *s, const Req &r, int i, bool zero, const char *msg) {
    CHK(P_LAUNCH, (s != 0) == (r.slen[i] > 0), msg);
    if (s && r.slen[i]) { CHK(P_LAUNCH, sameText(s, r.str[i], r.slen[i]), msg); if (zero) CHK(P_LAUNCH, s[r.slen[i]] == 0, msg); }
}
static void world() {
    agentKernel();
    g_con = con_ + 1; conWorld(W, 300, 3);
    g_con = con_; conWorld(W, 300, 3);
    for (int i = 0; i < 2; ++i) { con_[i].largestX = wsym_param("largestx", 200); con_[i].largestY = wsym_param("largesty", 100); }
    g_env = env;
    g_K = wsym_param("k", 2);
    g_connPend = wsym_param("late", 2);
    g_races = wsym_param("races", 0);
    g_onClose = closing;
    w32.GetStdHandle = [](DWORD n) -> HANDLE { return (HANDLE)(uintptr_t)(n == STD_INPUT_HANDLE ? 0x201 : 0x202); };
    w32.SetConsoleMode = [](HANDLE, DWORD) -> BOOL { return TRUE; };
    w32.GetConsoleMode = [](HANDLE, LPDWORD m) -> BOOL { *m = 0x1b7; return TRUE; };
    w32.GetDoubleClickTime = []() -> UINT { return 500; };
    w32.MapVirtualKeyW = [](UINT vk, UINT) -> UINT { return vk ^ 0x55; };
    w32.VkKeyScanW = [](WCHAR) -> SHORT { return -1; };
    w32.GenerateConsoleCtrlEvent = [](DWORD, DWORD) -> BOOL { return TRUE; };
    w32.SetConsoleCtrlHandler = [](PHANDLER_ROUTINE, BOOL) -> BOOL { return TRUE; };
    w32.GetConsoleTitleW = [](LPWSTR s, DWORD n) -> DWORD { s[0] = ' '; s[1] = 0; return 1; };
    w32.SetConsoleTitleW = [](LPCWSTR) -> BOOL { return TRUE; };
    w32.CreateConsoleScreenBuffer = [](DWORD, DWORD, const SECURITY_ATTRIBUTES *sa, DWORD, LPVOID) -> HANDLE {
        CHK(P_LAUNCH, sa && sa->bInheritHandle, "programs cannot inherit the error buffer");
        g_con2 = kNew(K_FILE, -1);
        kGet(g_con2)->set = true;
        return g_con2;
    };
    w32.WriteConsoleInputW = [](HANDLE, const INPUT_RECORD *r, DWORD n, LPDWORD actual) -> BOOL {
        for (DWORD i = 0; i < n; ++i) if (r[i].EventType == KEY_EVENT) {
            if (!r[i].Event.KeyEvent.bKeyDown) continue;
            CHK(P_FIFO, g_keys < g_ntyped && r[i].Event.KeyEvent.uChar.UnicodeChar == g_typed[g_keys], "another key reaches the console than was typed next");
            ++g_keys;
        } else if (r[i].EventType == MOUSE_EVENT) {
            const MOUSE_EVENT_RECORD &m = r[i].Event.MouseEvent;
            CHK(P_SIZE, m.dwMousePosition.X == con_[0].left && m.dwMousePosition.Y == con_[0].top, "a click in the terminal's corner does not reach the corner of the console's window");
            if (m.dwButtonState == 1) ++g_clicks;
        } else if (r[i].EventType == WINDOW_BUFFER_SIZE_EVENT) {
            const int q = startOf(AgentMsg::SetSize, g_sizeEvents++);
            CHK(P_SIZE, r[i].Event.WindowBufferSizeEvent.dwSize.X == con_[0].w && r[i].Event.WindowBufferSizeEvent.dwSize.Y == con_[0].h, "the program is told another buffer size than the console has");
            CHK(P_SIZE, q >= 0 && con_[0].right - con_[0].left + 1 == getsCols(g_req[q].cols) && con_[0].bottom - con_[0].top + 1 == getsRows(g_req[q].rows), "the program is told of a resize before the window has its size");
        }
        *actual = n;
        return TRUE;
    };
    w32.GetConsoleProcessList = [](LPDWORD out, DWORD n) -> DWORD {
        if (g_races > 0 && wsym_concretize(nd_bool("another process"))) { --g_races; g_npids += (int)wsym_concretize(nd_bool("many")) ? 70 : 1; }
        if (wsym_param("listfails", 0)) { g_listed[g_nlists++] = 0; return 0; }
        if ((int)n < g_npids) return g_npids;
        g_listed[g_nlists++] = g_npids;
        for (int i = 0; i < g_npids; ++i) out[i] = g_pids[i];
        return g_npids;
    };
    w32.CreateProcessW = [](LPCWSTR app, LPWSTR cmd, LPSECURITY_ATTRIBUTES pa, LPSECURITY_ATTRIBUTES ta, BOOL inherit, DWORD flags, LPVOID envp, LPCWSTR cwd, LPSTARTUPINFOW si, LPPROCESS_INFORMATION pi) -> BOOL {
        const int q = startOf(AgentMsg::StartProcess, g_starts++);
        CHK(P_LAUNCH | P_PKT, q >= 0 && g_req[q].end <= g_pipe[CONTROL].atin, "a program is started that nobody asked for");
        if (q < 0) wsym_stop();
        Req &r = g_req[q];
        optional(app, r, 0, true, "another program is started than asked for");
        optional(cmd, r, 1, true, "the program gets another command line");
        optional(cwd, r, 2, true, "the program gets another directory");
        optional((wchar_t *)envp, r, 3, false, "the program gets another environment");
        optional(si->lpDesktop, r, 4, true, "the program gets another desktop");
        CHK(P_LAUNCH, flags == CREATE_UNICODE_ENVIRONMENT && !pa && !ta && si->cb == sizeof(*si), "the program is started in another way");
        const bool err = g_npipes > CONERR;
        CHK(P_LAUNCH, inherit == (err ? TRUE : FALSE) && si->dwFlags == (err ? STARTF_USESTDHANDLES : 0u), "the program inherits handles it should not, or not those it needs");
        if (err) CHK(P_LAUNCH, si->hStdInput == (HANDLE)0x201 && si->hStdOutput == (HANDLE)0x202 && si->hStdError == g_con2, "the program's standard handles are wrong");
        if (r.fail) { w32_lastError = r.cols; return FALSE; }
        CHK(P_LAUNCH, !created(), "two programs are started");
        pi->hProcess = kNew(K_PROCESS, -1); pi->hThread = kNew(K_THREAD, -1); pi->dwProcessId = 77; pi->dwThreadId = 78;
        g_proc = kGet(pi->hProcess);
        g_flags = r.flags;
        return TRUE;
    };
    w32.DuplicateHandle = [](HANDLE sp, HANDLE s, HANDLE tp, LPHANDLE t, DWORD, BOOL inherit, DWORD opt) -> BOOL {
        KObj *o = kGet(s);
        const Req &r = g_req[startOf(AgentMsg::StartProcess, g_starts - 1)];
        CHK(P_LAUNCH | P_OWN, o && o->open && (o->kind == K_PROCESS || o->kind == K_THREAD), "something other than the program's handles is duplicated");
        CHK(P_LAUNCH, sp == (HANDLE)-1 && tp == (HANDLE)-1 && !inherit && opt == DUPLICATE_SAME_ACCESS, "a handle is duplicated in another way");
        const bool thread = o && o->kind == K_THREAD;
        CHK(P_LAUNCH, (thread ? r.wantT : r.wantP) && !g_given[thread], "the client is given another handle than it asked for");
        *t = kNew(K_TOKEN, -1);
        ++g_ngiven;
        g_given[thread] = (uint64_t)(uintptr_t)*t;
        return TRUE;
    };
    w32.WaitForSingleObject = [](HANDLE h, DWORD ms) -> DWORD {
        KObj *o = kUse(h, K_PROCESS);
        CHK(P_LOOP, ms == 0, "the agent waits for the program and does nothing else");
        if (g_races > 0 && !g_exited && !g_hungup && wsym_concretize(nd_bool("it ends just now"))) { --g_races; printChar(0); finishProgram(); g_idle = 0; }
        return o->set ? WAIT_OBJECT_0 : WAIT_TIMEOUT;
    };
}
static void atEnd() {
    Pipe &p = g_pipe[CONTROL];
    for (int i = 0; i < g_replyLen; ++i) CHK(P_PKT | P_LAUNCH | P_PROC, i < p.nout && p.out[i] == g_reply[i], "an answer is wrong");
    if (!g_hungup) CHK(P_DOWN, over(), "the agent ends though its client is still there");
    if (!g_hungup) for (int i = CONOUT; i < g_npipes; ++i) CHK(P_DOWN, g_pipe[i].closed, "the agent ends with an output pipe open");
    if (g_drain && autoShutdown() && g_exited) for (int i = CONOUT; i < g_npipes; ++i) CHK(P_DOWN, g_pipe[i].closed, "the client is not told that the program has ended");
    int procs = 0, threads = 0;
    for (int i = 0; i < g_nobj; ++i) { procs += kobj[i].open && kobj[i].kind == K_PROCESS; threads += kobj[i].open && kobj[i].kind == K_THREAD; }
    CHK(P_OWN, threads == 0 && procs <= (created() ? 1 : 0), "a handle of the program leaks");
}
static void session(uint64_t flags, int mouse) {
    for (int i = 0; i < 320; ++i) g_pids[i] = i == wsym_param("sympid", 0) ? nd_u32("process id") : 4 * i + 4;
    Agent *a = new Agent(L"\\\\.\\pipe\\control", flags, mouse, W, 3);
    CHK(P_DOWN | P_PKT, g_npipes == (flags & WINPTY_FLAG_CONERR ? 4 : 3), "the wrong number of pipes is made");
    CHK(P_SEC, g_sds == 0 && g_sids == 0 && g_aclLive == 0, "security objects leak");
    // What the agent tells its client first: the names of the pipes.
    int n = 8;
    for (int i = CONIN; i < g_npipes; ++i) n += 9 + 2 * (int)wcslen(g_pipe[i].name);
    replyPut<uint64_t>(n);
    for (int i = CONIN; i < g_npipes; ++i) { replyPut<uint8_t>(2); replyPut<uint64_t>(wcslen(g_pipe[i].name)); replyRaw(g_pipe[i].name, 2 * (int)wcslen(g_pipe[i].name)); }
    for (int i = CONIN; i < g_npipes; ++i) CHK(P_PKT, g_pipe[i].server && g_pipe[i].access == (i == CONIN ? 1u : 2u), "a data pipe is open for the wrong direction");
    CHK(P_PKT, !g_pipe[CONTROL].server && g_pipe[CONTROL].access == 3, "the control pipe is not open both ways");
    g_pipe[CONTROL].splits = wsym_param("splits", 0); g_pipe[CONTROL].pends = wsym_param("pends", 0);
    g_pipe[CONOUT].pends = wsym_param("outpends", 0);
    a->run();
    atEnd();
    wsym_log("replies", g_pipe[CONTROL].nout);
    wsym_log("output", g_pipe[CONOUT].nout);
    wsym_reach("done");
}

// Any requests, in any pieces.
extern "C" void harness_agent_requests() {
    world();
    g_npids = 2;
    const int kinds = wsym_param("kinds", 15), n = wsym_param("n", 2);
    bool started = false;
    for (int i = 0; i < n; ++i) {
        int list[5], k = 0;
        for (int b = 0; b < 5; ++b) if ((kinds >> b & 1) && !(b >= 3 && started)) list[k++] = b;
        switch (list[wsym_concretize(nd_range("request", 0, k - 1))]) {
        case 0: addSize(); break;
        case 1: addList(); break;
        case 2: addUnknown(); break;
        case 3: addStart(wsym_concretize(nd_range("spawn flags", 0, 3)), false); started = true; break;
        case 4: addStart(3, true); break;
        }
    }
    session(wsym_param("flags", 0), wsym_param("mouse", 1));
}
// A request of more than a read can carry, and one after it.
extern "C" void harness_agent_big() {
    world();
    g_npids = 2;
    static const int sizes[] = { 65535, 65536, 65537, 65544, 70001, 131071, 131072, 131073, 190001 };
    const int n = sizes[wsym_concretize(nd_range("size", 0, 8))];
    Req &r = g_req[g_nreq];
    r.type = -1;
    const int at = begin();
    i32(9);
    if (REQ_BIG > n + 100) { memset(g_ctl + g_ctlLen, 7, n - 13); g_ctlLen = at + n; }
    finish(at);
    addList();
    session(0, 1);
}
// A process list of any length, growing while it is read.
extern "C" void harness_agent_list() {
    world();
    static const int counts[] = { 1, 63, 64, 65, 128, 129, 3 };
    g_npids = counts[wsym_concretize(nd_range("processes", 0, 6))];
    addList();
    if (wsym_param("twice", 0)) addList();
    session(0, 1);
}
// A program that prints and ends.
extern "C" void harness_agent_shutdown() {
    world();
    addStart(wsym_concretize(nd_range("spawn flags", 0, 3)), false);
    if (wsym_param("after", 0)) addSize();
    session(wsym_param("flags", 0), 2);
}

// The program changes the console's title.
static uint16_t g_title[64];
static int g_titleLen, g_rounds, g_seen;
static uint8_t g_expect[1024];
static int g_nexpect, g_base = -1;
static void expectTitle() {
    uint8_t *e = g_expect + g_nexpect;
    memcpy(e, "\x1b]0;", 4); e += 4;
    for (int i = 0; i < g_titleLen; ++i) {
        uint32_t c = g_title[i];
        if (c >= 0xd800 && c < 0xdc00 && i + 1 < g_titleLen && g_title[i + 1] >= 0xdc00 && g_title[i + 1] < 0xe000) { c = 0x10000 + ((c - 0xd800) << 10) + (g_title[++i] - 0xdc00); }
        else if (c >= 0xd800 && c < 0xe000) c = 0xfffd;
        // Nothing in a title may act on the terminal.
        if (c < 0x20 || (c >= 0x7f && c < 0xa0)) c = '?';
        if (c < 0x80) *e++ = c;
        else if (c < 0x800) { *e++ = 0xc0 | c >> 6; *e++ = 0x80 | (c & 63); }
        else if (c < 0x10000) { *e++ = 0xe0 | c >> 12; *e++ = 0x80 | (c >> 6 & 63); *e++ = 0x80 | (c & 63); }
        else { *e++ = 0xf0 | c >> 18; *e++ = 0x80 | (c >> 12 & 63); *e++ = 0x80 | (c >> 6 & 63); *e++ = 0x80 | (c & 63); }
    }
    *e++ = 7;
    g_nexpect = (int)(e - g_expect);
}
static void titleEnv(DWORD ms) {
    g_drain = true;
    Pipe &p = g_pipe[CONOUT];
    CHK(P_TITLE, !con_[0].frozen, "the agent rests while the console is frozen");
    g_tick += ms > 25 ? 25 : ms;
    if (act(A_CONNECT) || act(A_READ)) return;
    if (g_base < 0) { if (++g_idle > 2) g_base = p.nout; else return; }
    CHK(P_TITLE, p.nout - g_base == g_nexpect, "a title reaches the terminal not once, or something else does");
    for (int i = g_seen; i < g_nexpect; ++i) CHK(P_TITLE, g_base + i < p.nout && p.out[g_base + i] == g_expect[i], "the terminal gets another title, or is acted upon by it");
    g_seen = g_nexpect;
    if (g_rounds++ == wsym_param("k", 2)) { act(A_HANGUP); return; }
    const int how = (int)wsym_concretize(nd_range("title", 0, 2));
    if (how == 0) return;                       // stays
    bool same = false;
    if (how == 1) {
        // Any short title.
        uint16_t was[4] = { g_title[0], g_title[1], g_title[2], g_title[3] };
        const int n = g_titleLen;
        g_titleLen = (int)wsym_concretize(nd_range("title length", 0, wsym_param("len", 2)));
        for (int i = 0; i < g_titleLen; ++i) { g_title[i] = nd_u16("title character"); wsym_assume(g_title[i] != 0); }
        same = n == g_titleLen;
        for (int i = 0; i < n && same; ++i) same = was[i] == g_title[i];
    } else {
        // Any length.
        static const int lens[] = { 7, 8, 15, 16, 17, 33, 50 };
        const int n = g_titleLen;
        g_titleLen = lens[wsym_concretize(nd_range("long title", 0, 6))];
        same = n == g_titleLen;
        for (int i = 0; i < g_titleLen; ++i) g_title[i] = 'a' + i % 26;
    }
    g_title[g_titleLen] = 0;
    if (!same && !wsym_param("plain", 0)) expectTitle();
}
extern "C" void harness_agent_title() {
    world();
    g_env = titleEnv;
    g_title[0] = 'c'; g_titleLen = 1;
    w32.SetConsoleTitleW = [](LPCWSTR s) -> BOOL {
        CHK(P_TITLE, s[0] && wcslen(s) < 60, "the agent empties the title");
        for (g_titleLen = 0; s[g_titleLen] && g_titleLen < 60; ++g_titleLen) g_title[g_titleLen] = s[g_titleLen];
        return TRUE;
    };
    w32.GetConsoleTitleW = [](LPWSTR s, DWORD n) -> DWORD {
        const int ver = wsym_param("winver", 62);
        const DWORD len = g_titleLen, room = ver == 60 || ver == 61 ? n / 2 : n;      // Vista and 7 take the size for bytes
        CHK(P_TITLE, n >= 2, "the agent asks for the title without room for it");
        const DWORD k = len < room - 1 ? len : room - 1;
        if (ver < 60 && len == 0) return 0;                                            // and XP does not end an empty title
        for (DWORD i = 0; i < k; ++i) s[i] = g_title[i];
        s[k] = 0;
        return ver < 60 ? k : len;
    };
    Agent *a = new Agent(L"\\\\.\\pipe\\control", wsym_param("plain", 0) ? WINPTY_FLAG_PLAIN_OUTPUT : 0, 0, W, 3);
    a->run();
    CHK(P_TITLE, g_hungup, "the agent ends by itself");
    wsym_log("output", g_pipe[CONOUT].nout);
    wsym_reach("done");
}
