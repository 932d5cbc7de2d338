// The kernel as winpty-agent.exe sees it: pipes with a client at the other end, events, time, processes.
// The client and the passing of time act only while the agent waits.
#ifndef HARNESS_AGENTK_H
#define HARNESS_AGENTK_H
#include <stdint.h>
#include <string.h>
#include <wchar.h>
#include "w32.h"

// Which property's checks are on.
enum { P_FIFO = 1, P_PKT = 2, P_DOWN = 4, P_LOOP = 8, P_PROC = 16, P_SEC = 32, P_TITLE = 64, P_SIZE = 128, P_OWN = 256, P_LAUNCH = 512, P_DESKTOP = 1024 };
static inline bool on(int p) { return (wsym_param("props", 0) & p) != 0; }
#define CHK(p, c, msg) do { if (on(p)) CHECK(c, msg); } while (0)
static bool fault() { return false; }

enum Kind { K_NONE, K_EVENT, K_PIPE, K_PROCESS, K_THREAD, K_TOKEN, K_FILE };
struct KObj { Kind kind; bool open, set; int pipe; };
static const int NOBJ = 2000;
static KObj kobj[NOBJ];
static int g_nobj;
static HANDLE kNew(Kind k, int pipe) {
    if (g_nobj == NOBJ) { wsym_fail("harness: too many handles"); wsym_stop(); }
    KObj &o = kobj[g_nobj];
    o.kind = k; o.open = true; o.pipe = pipe; o.set = false;
    return (HANDLE)(uintptr_t)(0x400 + 4 * g_nobj++);
}
static KObj *kGet(HANDLE h) {
    const uintptr_t i = ((uintptr_t)h - 0x400) / 4;
    if ((uintptr_t)h < 0x400 || i >= (uintptr_t)g_nobj || ((uintptr_t)h & 3)) return 0;
    return &kobj[i];
}
static KObj *kUse(HANDLE h, Kind kind) {
    KObj *o = kGet(h);
    CHK(P_OWN, o && o->open && o->kind == kind, "a handle is used that is not open or of another kind");
    if (!o || !o->open) wsym_stop();
    return o;
}
static int kOpen() { int n = 0; for (int i = 0; i < g_nobj; ++i) n += kobj[i].open && kobj[i].kind != K_FILE; return n; }
#include "sec.h"

#ifndef PIPE_IN
#define PIPE_IN 256
#define PIPE_OUT 4096
#endif
struct Op { OVERLAPPED *ov; uint8_t *buf; DWORD n, result; bool active, done, cancelled, failed; };
struct Pipe {
    HANDLE h; wchar_t name[80]; DWORD access;
    bool server, connected, broken, closed;
    Op rd, wr, cn;
    uint8_t in[PIPE_IN]; int nin, atin;     // from the client; up to nin has been sent by it, atin taken by the agent
    uint8_t out[PIPE_OUT]; int nout;        // to the client
    int limit;                              // the agent's read buffer size, if the harness knows it
    int consumed;                           // bytes the harness took from the agent's buffer
    int pends, splits;                      // how often I/O can turn out pending, or partial, at a place of the solver's choice
    int reads, writes;
};
static Pipe g_pipe[6];
static int g_npipes;
static DWORD g_tick;
static int g_waits;
static int g_connPend;                      // ways a client can be late: 0 connected at once, 1 arbitrary, 2 late
static void (*g_onClose)(Pipe &) = 0;       // before the agent closes a pipe
static void (*g_env)(DWORD ms) = 0;         // what happens during a wait; it lets time pass and completes operations

static bool choose(int &budget, const char *what) {
    if (budget <= 0 || !wsym_concretize(nd_bool(what))) return false;
    --budget;
    return true;
}
static KObj *opEvent(const Op &op) { return kGet(op.ov->hEvent); }
static void opStart(Op &op, OVERLAPPED *ov, const void *buf, DWORD n) {
    CHK(P_FIFO, !op.active, "an operation starts while the last one of its kind is in flight");
    CHK(P_LOOP, ov != 0, "an I/O operation could block for ever");
    KObj *e = kUse(ov->hEvent, K_EVENT);
    e->set = false;
    op.ov = ov; op.buf = (uint8_t *)buf; op.n = n; op.result = 0; op.active = true; op.done = op.cancelled = op.failed = false;
}
static void opEnd(Op &op, bool ok, DWORD result) { op.done = true; op.failed = !ok; op.result = result; opEvent(op)->set = true; }

// Completes the operations in flight.
static void clientReads(Pipe &p) {
    if (!p.wr.active || p.wr.done) return;
    if (p.nout + (int)p.wr.n > PIPE_OUT) { wsym_fail("harness: output buffer full"); wsym_stop(); }
    memcpy(p.out + p.nout, p.wr.buf, p.wr.n);
    p.nout += p.wr.n;
    opEnd(p.wr, true, p.wr.n);
}
static DWORD takeInput(Pipe &p, void *buf, DWORD n) {
    const int avail = p.nin - p.atin;
    int k = avail < (int)n ? avail : (int)n;
    if (k > 1 && choose(p.splits, "partial read")) k = (int)wsym_concretize(nd_range("bytes read", 1, k - 1));
    memcpy(buf, p.in + p.atin, k);
    p.atin += k;
    return k;
}
static bool clientWrites(Pipe &p) {
    if (!p.rd.active || p.rd.done || p.atin == p.nin) return false;
    opEnd(p.rd, true, takeInput(p, p.rd.buf, p.rd.n));
    return true;
}
static void clientConnects(Pipe &p) { p.connected = true; if (p.cn.active && !p.cn.done) opEnd(p.cn, true, 0); }
static void clientCloses(Pipe &p) {
    p.broken = true;
    if (p.rd.active && !p.rd.done && !clientWrites(p)) opEnd(p.rd, false, ERROR_BROKEN_PIPE);
    if (p.wr.active && !p.wr.done) opEnd(p.wr, false, ERROR_NO_DATA);
}
static Pipe &kPipe(HANDLE h) { return g_pipe[kUse(h, K_PIPE)->pipe]; }
static Op *opOf(Pipe &p, OVERLAPPED *ov) { return p.rd.ov == ov ? &p.rd : p.wr.ov == ov ? &p.wr : p.cn.ov == ov ? &p.cn : 0; }

static DWORD agentWait(DWORD n, const HANDLE *h, BOOL all, DWORD ms) {
    ++g_waits;
    CHK(P_LOOP, n >= 1 && n <= 64 && !all, "a wait for no handle, too many, or all of them");
    for (DWORD i = 0; i < n; ++i) kUse(h[i], K_EVENT);
    for (int k = 0; k < g_npipes; ++k) {
        Pipe &p = g_pipe[k];
        if (p.closed) continue;
        Op *op[3] = { &p.rd, &p.wr, &p.cn };
        for (int j = 0; j < 3; ++j) {
            if (!op[j]->active) continue;
            bool watched = false;
            for (DWORD i = 0; i < n; ++i) watched = watched || h[i] == op[j]->ov->hEvent;
            CHK(P_LOOP, watched, "the agent would not notice the end of an I/O operation");
        }
        if (p.limit) {
            const bool room = p.atin - p.consumed < p.limit;
            CHK(P_LOOP, !room || p.rd.active, "the agent waits without reading though it has room for input");
        }
    }
    bool any = false;
    for (DWORD i = 0; i < n; ++i) any = any || kGet(h[i])->set;
    if (!any) g_env(ms);
    for (DWORD i = 0; i < n; ++i) if (kGet(h[i])->set) return WAIT_OBJECT_0 + i;
    if (ms == INFINITE) { wsym_fail("harness: the agent waits for ever"); wsym_stop(); }
    return WAIT_TIMEOUT;
}

static void agentKernel() {
    w32_defaults();
    secWorld();
    w32.GetTickCount = []() -> DWORD { return g_tick; };
    w32.Sleep = [](DWORD ms) { ++g_waits; if (g_env) g_env(ms); };
    w32.GetVersionExW = [](LPOSVERSIONINFOW v) -> BOOL { const int m = wsym_param("winver", 62); v->dwMajorVersion = m / 10; v->dwMinorVersion = m % 10; return TRUE; };
    w32.CreateEventW = [](LPSECURITY_ATTRIBUTES sa, BOOL manual, BOOL set, LPCWSTR name) -> HANDLE {
        CHK(P_SEC, name == 0 && sa == 0, "an event other processes could open is created");
        CHK(P_LOOP, manual && !set, "the event for I/O is not manual-reset, or set from the start");
        return kNew(K_EVENT, -1);
    };
    w32.ResetEvent = [](HANDLE h) -> BOOL { kUse(h, K_EVENT)->set = false; return TRUE; };
    w32.CloseHandle = [](HANDLE h) -> BOOL {
        KObj *o = kGet(h);
        CHK(P_OWN, o && o->open, "a handle is closed twice or was never open");
        if (!o || !o->open) wsym_stop();
        if (o->kind == K_PIPE) {
            Pipe &p = g_pipe[o->pipe];
            CHK(P_FIFO | P_OWN, !p.rd.active && !p.wr.active && !p.cn.active, "a pipe is closed while an operation is still in flight");
            if (g_onClose) g_onClose(p);
            p.closed = true;
        }
        if (o->kind == K_EVENT) for (int i = 0; i < g_npipes; ++i) {
            Pipe &p = g_pipe[i];
            CHK(P_FIFO | P_OWN, !(p.rd.active && p.rd.ov->hEvent == h) && !(p.wr.active && p.wr.ov->hEvent == h) && !(p.cn.active && p.cn.ov->hEvent == h), "the event of an operation in flight is closed");
        }
        o->open = false;
        return TRUE;
    };
    w32.CancelIo = [](HANDLE h) -> BOOL {
        Pipe &p = kPipe(h);
        Op *op[3] = { &p.rd, &p.wr, &p.cn };
        for (int j = 0; j < 3; ++j) if (op[j]->active && !op[j]->done) { op[j]->cancelled = true; opEnd(*op[j], false, ERROR_OPERATION_ABORTED); }
        return TRUE;
    };
    w32.CancelIoEx = [](HANDLE h, LPOVERLAPPED) -> BOOL { return w32.CancelIo(h); };
    w32.GetOverlappedResult = [](HANDLE h, LPOVERLAPPED ov, LPDWORD n, BOOL wait) -> BOOL {
        Pipe &p = kPipe(h);
        Op *op = opOf(p, ov);
        CHK(P_FIFO, op != 0, "the result of an operation that was not started is asked for");
        if (!op) wsym_stop();
        *n = 0;
        if (!op->done) {
            CHK(P_LOOP, !wait, "the agent blocks until the client acts");
            w32_lastError = ERROR_IO_INCOMPLETE;
            return FALSE;
        }
        op->active = false;
        ov->Internal = 0;                       // the kernel writes to it until now
        if (op->failed) { w32_lastError = op->result; return FALSE; }
        *n = op->result;
        return TRUE;
    };
    w32.WaitForMultipleObjects = agentWait;
    w32.CreateFileW = [](LPCWSTR name, DWORD access, DWORD, LPSECURITY_ATTRIBUTES, DWORD how, DWORD flags, HANDLE) -> HANDLE {
        if (name[0] == L'C') return kNew(K_FILE, -1);
        CHK(P_SEC, (flags & SECURITY_SQOS_PRESENT) && (flags & 0x30000) == SECURITY_IDENTIFICATION, "the server of the control pipe could impersonate the agent");
        CHK(P_LOOP, (flags & FILE_FLAG_OVERLAPPED) && how == OPEN_EXISTING, "the control pipe is not opened for overlapped use");
        Pipe &p = g_pipe[g_npipes];
        p.h = kNew(K_PIPE, g_npipes); p.connected = true; p.access = 3;
        for (int i = 0; i < 79 && name[i]; ++i) p.name[i] = name[i];
        ++g_npipes;
        return p.h;
    };
    w32.CreateNamedPipeW = [](LPCWSTR name, DWORD mode, DWORD pmode, DWORD inst, DWORD, DWORD, DWORD, LPSECURITY_ATTRIBUTES sa) -> HANDLE {
        CHK(P_SEC, (mode & FILE_FLAG_FIRST_PIPE_INSTANCE) && inst == 1, "another process could own or add an instance of a data pipe");
        CHK(P_LOOP, (mode & FILE_FLAG_OVERLAPPED) != 0, "a data pipe is not opened for overlapped use");
        CHK(P_SEC, (pmode & 7) == 0, "a data pipe is not a blocking byte pipe");
        CHK(P_SEC, ((pmode & 8) != 0) == (wsym_param("winver", 62) >= 60), "remote clients are not rejected where the system can, or the flag is used where it is unknown");
        secOwnerOnly(sa);
        // The agent's pipes in the order input, output, errors, whichever is made first.
        int at = g_npipes;
        if (g_pipe[0].h && !g_pipe[0].server) { for (at = (mode & 3) == 1 ? 1 : 2; at < 3 && g_pipe[at].h; ) ++at; }
        Pipe &p = g_pipe[at];
        p.h = kNew(K_PIPE, at); p.server = true; p.access = mode & 3;
        for (int i = 0; i < 79 && name[i]; ++i) p.name[i] = name[i];
        for (int k = 0; k < 4; ++k) { bool same = k != at && g_pipe[k].h != 0; for (int i = 0; i < 80; ++i) same = same && p.name[i] == g_pipe[k].name[i]; CHK(P_SEC, !same, "two pipes have the same name"); }
        if (g_npipes <= at) g_npipes = at + 1;
        return p.h;
    };
    w32.ConnectNamedPipe = [](HANDLE h, LPOVERLAPPED ov) -> BOOL {
        Pipe &p = kPipe(h);
        CHK(P_FIFO, p.server && !p.connected, "a pipe is connected twice");
        int how = g_connPend == 1 ? (int)wsym_concretize(nd_range("connect", 0, 2)) : g_connPend;
        if (how == 2) { opStart(p.cn, ov, 0, 0); w32_lastError = ERROR_IO_PENDING; return FALSE; }
        p.connected = true;
        if (how == 1) return TRUE;
        w32_lastError = ERROR_PIPE_CONNECTED;
        return FALSE;
    };
    w32.ReadFile = [](HANDLE h, LPVOID b, DWORD n, LPDWORD a, LPOVERLAPPED ov) -> BOOL {
        Pipe &p = kPipe(h);
        ++p.reads;
        CHK(P_FIFO, (p.access & 1) && p.connected, "a pipe is read that is not open for reading or not connected");
        CHK(P_FIFO, !p.limit || p.atin - p.consumed < p.limit, "input is read though the buffer is full");
        CHK(P_FIFO, !p.rd.active, "two reads are in flight on one pipe");
        if (p.broken && p.atin == p.nin) { w32_lastError = ERROR_BROKEN_PIPE; return FALSE; }
        opStart(p.rd, ov, b, n);
        if (p.atin < p.nin && !choose(p.pends, "pending read")) {
            p.rd.active = false;
            *a = takeInput(p, b, n);
            kGet(ov->hEvent)->set = true;
            return TRUE;
        }
        w32_lastError = ERROR_IO_PENDING;
        return FALSE;
    };
    w32.WriteFile = [](HANDLE h, LPCVOID b, DWORD n, LPDWORD a, LPOVERLAPPED ov) -> BOOL {
        Pipe &p = kPipe(h);
        ++p.writes;
        CHK(P_FIFO, (p.access & 2) && p.connected, "a pipe is written that is not open for writing or not connected");
        CHK(P_FIFO, n > 0, "nothing is written");
        CHK(P_FIFO, !p.wr.active, "two writes are in flight on one pipe");
        if (p.broken) { w32_lastError = ERROR_NO_DATA; return FALSE; }
        opStart(p.wr, ov, b, n);
        if (choose(p.pends, "pending write")) { w32_lastError = ERROR_IO_PENDING; return FALSE; }
        clientReads(p);
        p.wr.active = false;
        *a = n;
        return TRUE;
    };
    w32.LoadLibraryW = [](LPCWSTR) -> HMODULE { return (HMODULE)0x7000; };
    w32.FreeLibrary = [](HMODULE) -> BOOL { return TRUE; };
    w32.GetProcAddress = [](HMODULE, LPCSTR) -> FARPROC { return NULL; };
    w32.WideCharToMultiByte = [](UINT, DWORD, LPCWCH in, int n, LPSTR out, int outn, LPCCH, LPBOOL) -> int {
        // UTF-8, with U+FFFD for unpaired surrogates, as since Windows Vista.
        int k = 0;
        for (int i = 0; i < n; ++i) {
            uint32_t c = (uint16_t)in[i];
            if (c >= 0xd800 && c < 0xdc00 && i + 1 < n && (uint16_t)in[i + 1] >= 0xdc00 && (uint16_t)in[i + 1] < 0xe000) { c = 0x10000 + ((c & 0x3ff) << 10) + ((uint16_t)in[i + 1] & 0x3ff); ++i; }
            else if (c >= 0xd800 && c < 0xe000) c = 0xfffd;
            const int len = c < 0x80 ? 1 : c < 0x800 ? 2 : c < 0x10000 ? 3 : 4;
            if (outn) {
                if (k + len > outn) return 0;
                if (len == 1) out[k] = (char)c;
                else {
                    out[k] = (char)((len == 2 ? 0xc0 : len == 3 ? 0xe0 : 0xf0) | c >> (6 * (len - 1)));
                    for (int j = 1; j < len; ++j) out[k + j] = (char)(0x80 | ((c >> (6 * (len - 1 - j))) & 0x3f));
                }
            }
            k += len;
        }
        return k;
    };
    w32.GetCurrentProcess = []() -> HANDLE { return (HANDLE)-1; };
    w32.GetCurrentThread = []() -> HANDLE { return (HANDLE)-2; };
    w32.GetCurrentProcessId = []() -> DWORD { return 4321; };
    w32.CryptAcquireContextW = [](HCRYPTPROV *p, LPCWSTR, LPCWSTR, DWORD, DWORD) -> BOOL { *p = 7; return TRUE; };
    w32.CryptGenRandom = [](HCRYPTPROV, DWORD n, BYTE *p) -> BOOL { for (DWORD i = 0; i < n; ++i) p[i] = (uint8_t)(0x11 * (i + 1)); return TRUE; };
    w32.CryptReleaseContext = [](HCRYPTPROV, DWORD) -> BOOL { return TRUE; };
    w32.GetSystemTimeAsFileTime = [](LPFILETIME t) { t->dwHighDateTime = 0x01d2; t->dwLowDateTime = 0x3456789a; };
}
#endif
