// The world around winpty.dll: kernel handles, control pipes with an agent at the other end, processes, desktops,
// security objects.  One scenario can have a few faults at arbitrary places.
#ifndef HARNESS_LIB_H
#define HARNESS_LIB_H
#include <stdint.h>
#include <string.h>
#include <wchar.h>
#include "w32.h"
#include "include/winpty.h"

// Which property's checks are on (bits, see the P_* names); the world's own rules are always checked by the property
// that owns them.
enum { P_ERR = 1, P_RPC = 2, P_TIME = 4, P_SPAWN = 8, P_SEC = 16, P_OOM = 32, P_LIST = 64, P_OWN = 128, P_DESK = 256, P_LOC = 512 };
static inline bool on(int p) { return (wsym_param("props", 0) & p) != 0; }
#define CHK(p, c, msg) do { if (on(p)) CHECK(c, msg); } while (0)

// ---- kernel handles
enum Kind { K_NONE, K_EVENT, K_PIPE, K_PROCESS, K_THREAD, K_TOKEN };
struct KObj { Kind kind; bool open; int session; };
static const int NOBJ = 64;
static struct KObj kobj[NOBJ];
static int g_nobj;
static HANDLE kNew(Kind k, int session) {
    KObj &o = kobj[g_nobj];
    o.kind = k; o.open = true; o.session = session;
    return (HANDLE)(uintptr_t)(0x400 + 4 * g_nobj++);
}
static KObj *kGet(HANDLE h) {
    const uintptr_t i = ((uintptr_t)h - 0x400) / 4;
    if ((uintptr_t)h < 0x400 || i >= (uintptr_t)g_nobj || ((uintptr_t)h & 3)) return 0;
    return &kobj[i];
}
static KObj *kUse(HANDLE h, Kind kind) {
    KObj *o = kGet(h);
    CHK(P_OWN, o && o->open && o->kind == kind, "a handle is used that is not open or of another kind");
    if (!o || !o->open) wsym_stop();
    return o;
}
static int kOpen() { int n = 0; for (int i = 0; i < g_nobj; ++i) n += kobj[i].open; return n; }

// ---- faults: the f1-th and f2-th fallible call fails (numbered from 1)
static int g_ops, g_f1, g_f2;
static DWORD g_faultErr = 5;
static int g_faulted;
static bool g_createFailed;      // the last fault was in starting the agent
static bool fault() {
    ++g_ops;
    if (g_ops == g_f1 || g_ops == g_f2) {
        static const DWORD errs[2] = { 5, 1450 };       // access denied, no system resources
        if (g_faulted == 0) g_faultErr = errs[wsym_concretize(nd_range("error", 0, 1))];
        w32_lastError = g_faultErr; ++g_faulted; g_createFailed = false;
        return true;
    }
    return false;
}

#include "sec.h"

// ---- I/O and the agent
struct Session {
    HANDLE pipe, process, thread;
    bool created, connected, verified;
    wchar_t name[128];
    DWORD pid;
    uint8_t in[600]; int nin, atin;        // what the agent will send
    uint8_t out[1400]; int nout;            // what it was sent
    // one operation in flight
    int op;                                 // 0 none, 1 connect, 2 read, 3 write
    OVERLAPPED *over; uint8_t *buf; DWORD amount; bool cancelled, ioDone, signaled; DWORD ioErr;
    bool dead;
    int ios;                                // operations ever started
};
static Session g_ses[3];
static int g_nses, g_curSes = -1;
static int g_special, g_special2, g_io;     // the I/O operations (numbered from 1) with arbitrary behaviour
static DWORD g_timeout;
static int g_waits;
static DWORD g_clientPid; static bool g_clientPidSet;
static int g_outcome;                       // how the special operation ended: 1 lost connection, 2 died, 3 timeout, 4 other
static bool g_noPidApi;
static bool g_pidMismatch;
static bool g_deskNeeded;      // an agent is started on the background desktop and has not yet connected

static void (*g_onRequest)(Session &) = 0;      // after each message the agent has received
static void ioWrite(Session &s, const void *p, DWORD n) {
    if (s.nout + (int)n > (int)sizeof s.out) wsym_stop();
    memcpy(s.out + s.nout, p, n);
    s.nout += n;
    if (g_onRequest) g_onRequest(s);
}
static DWORD ioRead(Session &s, void *p, DWORD n) {
    const int left = s.nin - s.atin;
    if ((int)n > left) n = left;
    memcpy(p, s.in + s.atin, n);
    s.atin += n;
    return n;
}
// The errors a broken connection can give.
static DWORD brokenError() {
    static const DWORD e[4] = { ERROR_BROKEN_PIPE, ERROR_NO_DATA, ERROR_PIPE_NOT_CONNECTED, ERROR_ACCESS_DENIED };
    const int i = (int)wsym_concretize(nd_range("I/O error", 0, 3));
    g_outcome = i < 3 ? 1 : 4;
    return e[i];
}
static BOOL startIo(HANDLE h, int op, void *buf, DWORD amount, DWORD *actual, OVERLAPPED *ov) {
    KObj *o = kUse(h, K_PIPE);
    Session &s = g_ses[o->session];
    CHK(P_TIME, s.op == 0, "an I/O operation starts while another one is in flight on the pipe");
    CHK(P_TIME, ov != 0, "an I/O operation could block for ever");
    KObj *ev = kUse(ov->hEvent, K_EVENT);
    (void)ev;
    CHK(P_RPC, !s.dead, "the control pipe is used after it has failed");
    if (op != 1) CHK(P_SEC, s.verified, "the control pipe is used before the client was verified");
    ++s.ios;
    ++g_io;
    if (actual) *actual = 0;
    int how = 0;
    if (g_io == g_special || g_io == g_special2) {
        how = 1 + (int)wsym_concretize(nd_range("I/O result", 0, op == 2 ? 2 : op == 1 ? 3 : 1));
        if (op == 2 && s.atin >= s.nin) how = 1;
    }
    if (op == 2 && how == 0 && s.atin >= s.nin) how = 4;   // nothing more comes: wait until the timeout
    if (how == 1) { s.op = op; s.over = ov; s.buf = (uint8_t *)buf; s.amount = amount; s.cancelled = s.ioDone = s.signaled = false; w32_lastError = ERROR_IO_PENDING; return FALSE; }
    if (how == 4 && op == 2) { s.op = op; s.over = ov; s.buf = (uint8_t *)buf; s.amount = amount; s.cancelled = s.ioDone = s.signaled = false; w32_lastError = ERROR_IO_PENDING; return FALSE; }
    if (how == 2) { w32_lastError = brokenError(); s.dead = true; g_deskNeeded = false; return FALSE; }
    if (op == 1) {
        s.connected = true; g_deskNeeded = false;
        if (how == 4) { w32_lastError = 0; return TRUE; }
        w32_lastError = ERROR_PIPE_CONNECTED;
        return FALSE;
    }
    if (op == 3) { ioWrite(s, buf, amount); *actual = amount; }
    else if (how == 3) *actual = ioRead(s, buf, amount > 1 ? 1 + (DWORD)wsym_concretize(nd_range("partial read", 0, 1)) * (amount / 2) : amount);
    else *actual = ioRead(s, buf, amount);
    w32_lastError = 0;
    return TRUE;
}

static DWORD libWait(DWORD n, const HANDLE *h, BOOL all, DWORD ms) {
    ++g_waits;
    Session *s = 0;
    DWORD ev = 0;
    for (int i = 0; i < g_nses; ++i) for (DWORD j = 0; j < n; ++j) if (g_ses[i].op && g_ses[i].over->hEvent == h[j]) { s = &g_ses[i]; ev = j; }
    CHK(P_TIME, s != 0, "a wait for no operation");
    if (!s) wsym_stop();
    CHK(P_TIME, n == 2 && !all && h[1 - ev] == s->process && kGet(h[1 - ev])->open, "a wait for the agent does not watch the agent process");
    if (n != 2) wsym_stop();
    CHK(P_TIME, ms == g_timeout, "a wait for the agent is not limited by the configured timeout");
    const bool starved = s->op == 2 && s->atin >= s->nin;
    const int r = starved ? 1 + (int)wsym_concretize(nd_range("wait result", 0, 1)) : (int)wsym_concretize(nd_range("wait result", 0, 3));
    if (r == 0) { s->signaled = true; return WAIT_OBJECT_0 + ev; }
    s->dead = true; g_deskNeeded = false;
    if (r == 1) { g_outcome = 2; return WAIT_OBJECT_0 + (1 - ev); }
    if (r == 2) { g_outcome = 3; return WAIT_TIMEOUT; }
    g_outcome = 4;
    w32_lastError = 6;
    return WAIT_FAILED;
}
static BOOL libGetOverlappedResult(HANDLE h, LPOVERLAPPED ov, LPDWORD n, BOOL wait) {
    KObj *o = kUse(h, K_PIPE);
    Session &s = g_ses[o->session];
    CHK(P_TIME, s.op != 0 && ov == s.over, "the result of an operation that was not started is asked for");
    CHK(P_TIME, wait || s.signaled, "the result of an operation is taken without waiting for its end");
    CHK(P_TIME, !s.dead || s.cancelled, "an operation that may never end is waited for without being cancelled");
    const int op = s.op;
    s.op = 0;
    ov->Internal = 0;                       // the kernel writes to it until now
    *n = 0;
    if (s.cancelled) {
        // It may have completed just before it was cancelled.
        if (op == 2 && s.atin < s.nin && wsym_concretize(nd_bool("completed before the cancel"))) { *n = ioRead(s, s.buf, s.amount); return TRUE; }
        w32_lastError = ERROR_OPERATION_ABORTED;
        return FALSE;
    }
    if (wsym_concretize(nd_bool("operation fails"))) { w32_lastError = brokenError(); s.dead = true; g_deskNeeded = false; return FALSE; }
    if (op == 1) { s.connected = true; g_deskNeeded = false; }
    else if (op == 2) *n = ioRead(s, s.buf, s.amount);
    else { ioWrite(s, s.buf, s.amount); *n = s.amount; }
    return TRUE;
}

// ---- processes
struct Launch { wchar_t app[300], cmd[500], desktop[64]; bool hasDesktop, hidden, inherit; DWORD flags; };
static Launch g_launch[3];
static int g_nlaunch;
static void wcopy(wchar_t *d, const wchar_t *s, int n) { int i = 0; for (; s[i] && i < n - 1; ++i) d[i] = s[i]; d[i] = 0; }
static bool weq(const wchar_t *a, const wchar_t *b) { for (; *a && *a == *b; ++a, ++b) {} return *a == *b; }
static bool wprefix(const wchar_t *a, const wchar_t *b) { for (; *b; ++a, ++b) if (*a != *b) return false; return true; }
static bool beq(const char *a, const char *b) { for (; *a && *a == *b; ++a, ++b) {} return *a == *b; }

// ---- desktops
static int g_station = 1, g_newStations, g_newDesktops, g_threadDesk = 1;
static bool g_stationOpen[8], g_deskOpen[8]; static int g_deskStation[8];
static int g_names;

static const wchar_t *g_module = L"C:\\dir one\\winpty.dll";
static bool g_agentExists = true;
static DWORD g_winver = 61;
static const char *g_debug = "";
static bool g_showConsole;
static void (*g_onLaunch)(Session &) = 0;
static void (*g_onSteal)(HANDLE proc, HANDLE src) = 0;
static int g_stolen; static HANDLE g_stolenSrc[4], g_stolenAs[4];
static bool stolenFrom(HANDLE h, HANDLE src) { for (int i = 0; i < g_stolen; ++i) if (g_stolenAs[i] == h) return g_stolenSrc[i] == src; return false; }

static BOOL WINAPI fakePid(HANDLE h, PULONG pid) {
    KObj *o = kUse(h, K_PIPE);
    if (fault()) return FALSE;
    Session &s = g_ses[o->session];
    CHK(P_SEC, s.connected, "the client's process is asked for before a client is connected");
    *pid = s.pid;
    if (wsym_param("pid", 0)) { const DWORD p = nd_u32("client pid"); *pid = p; if (p != s.pid) { g_pidMismatch = true; return TRUE; } }
    s.verified = true;
    return TRUE;
}
static BOOLEAN WINAPI fakeRandom(PVOID p, ULONG n) {
    if (fault()) return FALSE;
    for (ULONG i = 0; i < n; ++i) ((uint8_t *)p)[i] = (uint8_t)(0x11 * (i + 1));
    return TRUE;
}

static inline void libWorld() {
    w32_defaults();
    w32.GetVersionExW = [](LPOSVERSIONINFOW v) -> BOOL { v->dwMajorVersion = g_winver / 10; v->dwMinorVersion = g_winver % 10; return TRUE; };
    w32.GetEnvironmentVariableA = [](LPCSTR name, LPSTR buf, DWORD n) -> DWORD {
        if (beq(name, "WINPTY_DEBUG")) { const DWORD l = (DWORD)strlen(g_debug); if (l >= n) return l + 1; memcpy(buf, g_debug, l + 1); return l; }
        if (beq(name, "WINPTY_SHOW_CONSOLE") && g_showConsole) { buf[0] = '1'; buf[1] = 0; return 1; }
        return 0;
    };
    w32.WideCharToMultiByte = [](UINT, DWORD, LPCWCH in, int n, LPSTR out, int outn, LPCCH, LPBOOL) -> int {
        if (outn) for (int i = 0; i < n; ++i) out[i] = in[i] < 128 ? (char)in[i] : '?';
        return n;
    };
    w32.CloseHandle = [](HANDLE h) -> BOOL {
        KObj *o = kGet(h);
        CHK(P_OWN, o && o->open, "a handle is closed twice or was never open");
        if (!o || !o->open) wsym_stop();
        if (o->kind == K_PIPE && o->session == 0 && g_deskNeeded) CHK(P_DESK, false, "the desktop's maker is let go before the agent has connected");
        if (o->kind == K_PIPE) CHK(P_TIME, g_ses[o->session].op == 0, "a pipe is closed while an operation is still in flight");
        if (o->kind == K_EVENT) for (int i = 0; i < g_nses; ++i) CHK(P_TIME, !(g_ses[i].op && g_ses[i].over->hEvent == h), "the event of an operation in flight is closed");
        o->open = false;
        return TRUE;
    };
    w32.CreateEventW = [](LPSECURITY_ATTRIBUTES sa, BOOL manual, BOOL set, LPCWSTR name) -> HANDLE {
        CHK(P_SEC, name == 0 && sa == 0, "an event other processes could open is created");
        CHK(P_TIME, manual && !set, "the event for I/O is not manual-reset, or set from the start");
        return fault() ? NULL : kNew(K_EVENT, -1);
    };
    w32.ConnectNamedPipe = [](HANDLE h, LPOVERLAPPED ov) -> BOOL { return startIo(h, 1, 0, 0, 0, ov); };
    w32.ReadFile = [](HANDLE h, LPVOID b, DWORD n, LPDWORD a, LPOVERLAPPED ov) -> BOOL { return startIo(h, 2, b, n, a, ov); };
    w32.WriteFile = [](HANDLE h, LPCVOID b, DWORD n, LPDWORD a, LPOVERLAPPED ov) -> BOOL { return startIo(h, 3, (void *)b, n, a, ov); };
    w32.CancelIo = [](HANDLE h) -> BOOL { Session &s = g_ses[kUse(h, K_PIPE)->session]; CHK(P_TIME, s.op != 0, "nothing to cancel"); s.cancelled = true; return TRUE; };
    w32.CancelIoEx = [](HANDLE h, LPOVERLAPPED) -> BOOL { return w32.CancelIo(h); };
    w32.GetOverlappedResult = libGetOverlappedResult;
    w32.WaitForMultipleObjects = libWait;
    w32.CreateNamedPipeW = [](LPCWSTR name, DWORD mode, DWORD pmode, DWORD inst, DWORD, DWORD, DWORD, LPSECURITY_ATTRIBUTES sa) -> HANDLE {
        CHK(P_SEC, wprefix(name, L"\\\\.\\pipe\\winpty-control-"), "the control pipe's name has another prefix");
        CHK(P_SEC, (mode & 3) == PIPE_ACCESS_DUPLEX && (mode & FILE_FLAG_OVERLAPPED), "the control pipe is not opened for overlapped duplex use");
        CHK(P_SEC, (mode & FILE_FLAG_FIRST_PIPE_INSTANCE) && inst == 1, "another process could own or add an instance of the control pipe");
        CHK(P_SEC, (pmode & 6) == 0, "the control pipe is not a byte pipe");
        CHK(P_SEC, ((pmode & 8) != 0) == (g_winver >= 60), "remote clients are not rejected where the system can, or the flag is used where it is unknown");
        secOwnerOnly(sa);
        // Names must be fresh.
        for (int i = 0; i < g_nses; ++i) CHK(P_SEC, !weq(g_ses[i].name, name), "two control pipes have the same name");
        if (fault()) return INVALID_HANDLE_VALUE;
        Session &s = g_ses[g_nses];
        wcopy(s.name, name, 128);
        s.pipe = kNew(K_PIPE, g_nses);
        g_curSes = g_nses++;
        return s.pipe;
    };
    w32.CreateProcessW = [](LPCWSTR app, LPWSTR cmd, LPSECURITY_ATTRIBUTES psa, LPSECURITY_ATTRIBUTES tsa, BOOL inherit, DWORD flags, LPVOID env, LPCWSTR cwd, LPSTARTUPINFOW si, LPPROCESS_INFORMATION pi) -> BOOL {
        Launch &l = g_launch[g_nlaunch++];
        wcopy(l.app, app, 300); wcopy(l.cmd, cmd, 500);
        l.inherit = inherit != 0; l.flags = flags; l.hasDesktop = si->lpDesktop != 0;
        if (si->lpDesktop) wcopy(l.desktop, si->lpDesktop, 64);
        l.hidden = (si->dwFlags & STARTF_USESHOWWINDOW) && si->wShowWindow == SW_HIDE;
        CHK(P_SEC, !inherit, "the agent inherits the client's handles");
        CHK(P_LOC, si->cb == sizeof *si && !psa && !tsa && !env && !cwd, "the agent is started with odd parameters");
        if (fault()) { g_createFailed = true; return FALSE; }
        Session &s = g_ses[g_curSes];
        s.process = pi->hProcess = kNew(K_PROCESS, g_curSes);
        pi->hThread = kNew(K_THREAD, g_curSes);
        s.pid = pi->dwProcessId = 1000 + g_curSes;
        pi->dwThreadId = 2000;
        s.verified = g_noPidApi;
        s.created = true;
        if (l.hasDesktop) g_deskNeeded = true;
        if (g_onLaunch) g_onLaunch(s);
        return TRUE;
    };
    // modules
    w32.LoadLibraryW = [](LPCWSTR) -> HMODULE { return (HMODULE)0x7000; };
    w32.FreeLibrary = [](HMODULE) -> BOOL { return TRUE; };
    w32.GetProcAddress = [](HMODULE, LPCSTR n) -> FARPROC {
        if (beq(n, "SystemFunction036")) return wsym_param("norng", 0) ? NULL : (FARPROC)fakeRandom;
        if (beq(n, "GetNamedPipeClientProcessId")) return g_noPidApi ? NULL : (FARPROC)fakePid;
        return NULL;
    };
    w32.CryptAcquireContextW = [](HCRYPTPROV *p, LPCWSTR, LPCWSTR, DWORD, DWORD) -> BOOL { if (fault()) return FALSE; *p = 7; ++g_names; return TRUE; };
    w32.CryptGenRandom = [](HCRYPTPROV, DWORD n, BYTE *p) -> BOOL { return fakeRandom(p, n); };
    w32.CryptReleaseContext = [](HCRYPTPROV, DWORD) -> BOOL { --g_names; return TRUE; };
    w32.GetSystemTimeAsFileTime = [](LPFILETIME t) { t->dwHighDateTime = 0x01d2; t->dwLowDateTime = 0x3456789a; };
    w32.GetModuleHandleExW = [](DWORD, LPCWSTR, HMODULE *m) -> BOOL { *m = (HMODULE)0x8000; return TRUE; };
    w32.GetModuleFileNameW = [](HMODULE m, LPWSTR b, DWORD n) -> DWORD {
        CHK(P_LOC, m == (HMODULE)0x8000, "the agent is looked for beside another module");
        const int l = (int)wcslen(g_module); wcopy(b, g_module, (int)n); return l < (int)n ? l : n;
    };
    w32.GetFileAttributesW = [](LPCWSTR) -> DWORD { return g_agentExists ? 0x20 : 0xFFFFFFFF; };
    w32.GetCurrentProcess = []() -> HANDLE { return (HANDLE)-1; };
    w32.GetCurrentThread = []() -> HANDLE { return (HANDLE)-2; };
    w32.GetCurrentProcessId = []() -> DWORD { return 4321; };
    w32.GetCurrentThreadId = []() -> DWORD { return 4322; };
    w32.DuplicateHandle = [](HANDLE sp, HANDLE sh, HANDLE tp, LPHANDLE out, DWORD access, BOOL inherit, DWORD opt) -> BOOL {
        kUse(sp, K_PROCESS);
        CHK(P_SPAWN, tp == (HANDLE)-1 && !inherit && opt == (DUPLICATE_CLOSE_SOURCE | DUPLICATE_SAME_ACCESS), "a handle is not moved out of the agent");
        CHK(P_SPAWN, sp == g_ses[g_nses - 1].process, "a handle is taken from another process");
        if (fault()) return FALSE;
        *out = kNew(K_PROCESS, -1);
        g_stolenAs[g_stolen] = *out; g_stolenSrc[g_stolen++] = sh;
        return TRUE;
    };
    secWorld();
    // desktops: stations and desktops 1 are the process's own, the others are made here
    w32.GetProcessWindowStation = []() -> HWINSTA { return fault() ? NULL : (HWINSTA)(uintptr_t)(0x100 + g_station); };
    w32.SetProcessWindowStation = [](HWINSTA h) -> BOOL {
        const int i = (int)(uintptr_t)h - 0x100;
        CHK(P_DESK, i == 1 || (i > 1 && i < 8 && g_stationOpen[i]), "a window station that is not open is set");
        if (i != 1 && fault()) return FALSE;
        g_station = i;
        return TRUE;
    };
    w32.CreateWindowStationW = [](LPCWSTR, DWORD, ACCESS_MASK, LPSECURITY_ATTRIBUTES) -> HWINSTA { if (fault()) return NULL; const int i = 2 + g_newStations++; g_stationOpen[i] = true; return (HWINSTA)(uintptr_t)(0x100 + i); };
    w32.CreateDesktopW = [](LPCWSTR, LPCWSTR, LPDEVMODEW, DWORD, ACCESS_MASK, LPSECURITY_ATTRIBUTES) -> HDESK {
        if (fault()) return NULL;
        const int i = 2 + g_newDesktops++;
        CHK(P_DESK, g_station != 1, "the desktop is made on the user's own window station");
        g_deskOpen[i] = true; g_deskStation[i] = g_station;
        return (HDESK)(uintptr_t)(0x200 + i);
    };
    w32.CloseDesktop = [](HDESK h) -> BOOL {
        const int i = (int)(uintptr_t)h - 0x200;
        CHK(P_DESK, i > 1 && i < 8 && g_deskOpen[i], "a desktop is closed that is not open");
        CHK(P_DESK, !g_deskNeeded, "the background desktop is closed before the agent has connected");
        g_deskOpen[i] = false;
        return TRUE;
    };
    w32.CloseWindowStation = [](HWINSTA h) -> BOOL {
        const int i = (int)(uintptr_t)h - 0x100;
        CHK(P_DESK, i > 1 && i < 8 && g_stationOpen[i], "a window station is closed that is not open");
        CHK(P_DESK, g_station != i, "the window station in use is closed");
        CHK(P_DESK, !g_deskNeeded, "the background window station is closed before the agent has connected");
        g_stationOpen[i] = false;
        return TRUE;
    };
    w32.GetThreadDesktop = [](DWORD) -> HDESK { return fault() ? NULL : (HDESK)(uintptr_t)(0x200 + g_threadDesk); };
    w32.GetUserObjectInformationW = [](HANDLE h, int what, PVOID b, DWORD n, LPDWORD need) -> BOOL {
        static wchar_t name[5];
        const uintptr_t i = (uintptr_t)h;
        name[0] = i >= 0x200 ? L'D' : L'S'; name[1] = (wchar_t)(L'0' + (i & 15)); name[2] = 0;
        if (need) *need = 3 * sizeof(wchar_t);
        if (n < 3 * sizeof(wchar_t)) { w32_lastError = ERROR_INSUFFICIENT_BUFFER; return FALSE; }
        if (fault()) return FALSE;
        memcpy(b, name, 3 * sizeof(wchar_t));
        return TRUE;
    };
}

// ---- the agent's replies, in the wire format
static void inRaw(Session &s, const void *p, int n) { if (s.nin + n > (int)sizeof s.in) wsym_stop(); memcpy(s.in + s.nin, p, n); s.nin += n; }
static void inByte(Session &s, int b) { uint8_t x = (uint8_t)b; inRaw(s, &x, 1); }
static int inBegin(Session &s) { const int at = s.nin; uint64_t z = 0; inRaw(s, &z, 8); return at; }
static void inEnd(Session &s, int at) { uint64_t n = s.nin - at; memcpy(s.in + at, &n, 8); }
static void inInt32(Session &s, uint32_t v) { inByte(s, 0); inRaw(s, &v, 4); }
static void inInt64(Session &s, uint64_t v) { inByte(s, 1); inRaw(s, &v, 8); }
static void inStr(Session &s, const wchar_t *v, int n) { inByte(s, 2); uint64_t l = n; inRaw(s, &l, 8); inRaw(s, v, n * 2); }
static void inStr(Session &s, const wchar_t *v) { inStr(s, v, (int)wcslen(v)); }

// ---- what the agent received
struct Req {
    const uint8_t *p; int n, at; bool bad;
    void need(int k) { if (at + k > n) { bad = true; at = n; } }
    uint32_t u32() { need(5); if (bad) return 0; if (p[at] != 0) bad = true; uint32_t v; memcpy(&v, p + at + 1, 4); at += 5; return v; }
    uint64_t u64() { need(9); if (bad) return 0; if (p[at] != 1) bad = true; uint64_t v; memcpy(&v, p + at + 1, 8); at += 9; return v; }
    int str(uint16_t *out, int max) {
        need(9); if (bad) return 0;
        if (p[at] != 2) bad = true;
        uint64_t l; memcpy(&l, p + at + 1, 8); at += 9;
        if ((int)l > max) { bad = true; return 0; }
        need((int)l * 2); if (bad) return 0;
        memcpy(out, p + at, (int)l * 2); at += (int)l * 2;
        return (int)l;
    }
};
static inline Req reqAt(Session &s, int at) {
    Req r; r.p = s.out; r.at = at + 8; r.bad = at + 8 > s.nout; r.n = s.nout;
    uint64_t n = 0;
    if (!r.bad) memcpy(&n, s.out + at, 8);
    if ((int)n != s.nout - at) r.bad = true;
    return r;
}

// The scenario's faults and I/O troubles.
static inline void libFaults() {
    const int F = wsym_param("faults", 0);
    g_f1 = F >= 1 ? nd_range("fault at", 0, wsym_param("maxop", 60)) : 0;
    g_f2 = F >= 2 ? nd_range("second fault at", 0, wsym_param("maxop", 60)) : 0;
    const int X = wsym_param("io", 0);
    g_special = X >= 1 ? nd_range("I/O trouble at", 0, wsym_param("maxio", 20)) : 0;
    g_special2 = X >= 2 ? nd_range("second I/O trouble at", 0, wsym_param("maxio", 20)) : 0;
}
#endif
