// winpty-agent.exe --create-desktop: the helper that makes a desktop for its client and keeps it while the client is there.
#include "agentk.h"
#include <string>
int agentMain();
static wchar_t *g_args[8];
static int g_nargs;
static bool g_assert;
struct Ended {};
void agentAssertFail(const char *, int, const char *) { wsym_fail("an internal ASSERT of the agent fails"); wsym_stop(); }
void assertTrace(const char *, int, const char *) {}
void agentShutdown() {}

static int g_station = 1, g_originalSet;
static bool g_stationOpen, g_deskOpen, g_failed, g_hungUp, g_looked;
static int g_failAt, g_calls;
static wchar_t g_name[2][40];
static int g_len[2];
static bool failing() { if (++g_calls != g_failAt) return false; w32_lastError = 5; g_failed = true; return true; }

static void checkName(const Pipe &p) {
    uint8_t want[300];
    int n = 8, total = g_len[0] + 1 + g_len[1];
    want[n++] = 2;
    for (int i = 0; i < 8; ++i) want[n++] = i ? 0 : total;
    for (int s = 0; s < 2; ++s) {
        if (s) { want[n++] = '\\'; want[n++] = 0; }
        for (int i = 0; i < g_len[s]; ++i) { want[n++] = (uint8_t)g_name[s][i]; want[n++] = (uint8_t)(g_name[s][i] >> 8); }
    }
    for (int i = 0; i < 8; ++i) want[i] = (uint8_t)((unsigned)n >> 8 * i * (i < 4));
    for (int i = 4; i < 8; ++i) want[i] = 0;
    CHK(P_DESKTOP, p.nout == n, "the client does not get the desktop's name as one message of the right length");
    if (p.nout == n) for (int i = 0; i < n; ++i) CHK(P_DESKTOP, p.out[i] == want[i], "the client gets another name than the desktop's");
}
static void desktopEnv(DWORD) {
    Pipe &p = g_pipe[0];
    CHK(P_DESKTOP, g_npipes == 1, "the helper connects to other pipes than its client's");
    CHK(P_DESKTOP, g_deskOpen & g_stationOpen, "the desktop is gone while the client needs it");
    if (p.wr.active && !p.wr.done && choose(p.pends, "the client is slow")) { if (p.rd.active && !p.rd.done && choose(p.splits, "the client says something")) { p.in[p.nin++] = 7; clientWrites(p); } return; }
    if (p.wr.active && !p.wr.done && !wsym_concretize(nd_bool("client hangs up early"))) { clientReads(p); return; }
    if (p.nout) { checkName(p); g_looked = true; }
    if (choose(p.splits, "the client says something")) { p.in[p.nin++] = 7; clientWrites(p); return; }
    g_hungUp = true;
    clientCloses(p);
}
extern "C" void harness_desktop() {
    agentKernel();
    g_env = desktopEnv;
    static wchar_t a0[] = L"exe", a1[] = L"\\\\.\\pipe\\winpty-control-7", a2[] = L"--create-desktop";
    g_args[0] = a0; g_args[1] = a1; g_args[2] = a2; g_nargs = 3;
    g_pipe[0].pends = 1; g_pipe[0].splits = 1;
    // Station and desktop names: short and arbitrary, or as long as Windows makes them.
    for (int s = 0; s < 2; ++s) {
        g_len[s] = wsym_concretize(nd_bool("long name")) ? 30 : (int)wsym_concretize(nd_range("name length", 1, 3));
        for (int i = 0; i < g_len[s]; ++i) g_name[s][i] = g_len[s] > 3 ? L'a' + i % 26 : (wchar_t)nd_range("name character", 1, 0xffff);
    }
    g_failAt = (int)wsym_concretize(nd_range("failing call", 0, 6));
    w32.GetCommandLineW = []() -> LPWSTR { return g_args[0]; };
    w32.CommandLineToArgvW = [](LPCWSTR, int *n) -> LPWSTR * { *n = g_nargs; return g_args; };
    w32.GetProcessWindowStation = []() -> HWINSTA { return failing() ? NULL : (HWINSTA)(uintptr_t)(0x100 + g_station); };
    w32.SetProcessWindowStation = [](HWINSTA h) -> BOOL {
        const int i = (int)(uintptr_t)h - 0x100;
        CHK(P_DESKTOP, i == 1 || (i == 2 && g_stationOpen), "a window station that is not open is set");
        if (i == 2 && failing()) return FALSE;
        g_station = i;
        return TRUE;
    };
    w32.CreateWindowStationW = [](LPCWSTR name, DWORD flags, ACCESS_MASK, LPSECURITY_ATTRIBUTES sa) -> HWINSTA {
        CHK(P_DESKTOP, name == 0 && sa == 0 && !g_stationOpen, "the window station is not a fresh one of the client's user");
        if (failing()) return NULL;
        g_stationOpen = true;
        return (HWINSTA)(uintptr_t)0x102;
    };
    w32.CreateDesktopW = [](LPCWSTR, LPCWSTR, LPDEVMODEW, DWORD, ACCESS_MASK, LPSECURITY_ATTRIBUTES sa) -> HDESK {
        CHK(P_DESKTOP, g_station == 2, "the desktop is made on the user's own window station");
        CHK(P_DESKTOP, !g_deskOpen && (sa == 0 || !sa->bInheritHandle), "a second desktop is made, or one that programs inherit");
        if (failing()) return NULL;
        g_deskOpen = true;
        return (HDESK)(uintptr_t)0x202;
    };
    w32.CloseDesktop = [](HDESK h) -> BOOL { CHK(P_DESKTOP, g_deskOpen && (uintptr_t)h == 0x202, "a desktop is closed that is not open"); g_deskOpen = false; return TRUE; };
    w32.CloseWindowStation = [](HWINSTA h) -> BOOL {
        CHK(P_DESKTOP, g_stationOpen && (uintptr_t)h == 0x102, "a window station is closed that is not open");
        CHK(P_DESKTOP, g_station != 2, "the window station in use is closed");
        g_stationOpen = false;
        return TRUE;
    };
    w32.GetUserObjectInformationW = [](HANDLE h, int what, PVOID b, DWORD n, LPDWORD need) -> BOOL {
        const int s = (uintptr_t)h >= 0x200;
        const DWORD bytes = (g_len[s] + 1) * sizeof(wchar_t);
        CHK(P_DESKTOP, what == UOI_NAME && ((uintptr_t)h == 0x102 || (uintptr_t)h == 0x202), "another name than that of the new desktop is asked for");
        if (need) *need = bytes;
        if (n < bytes) { w32_lastError = ERROR_INSUFFICIENT_BUFFER; return FALSE; }
        if (failing()) return FALSE;
        memcpy(b, g_name[s], g_len[s] * sizeof(wchar_t));
        ((wchar_t *)b)[g_len[s]] = 0;
        return TRUE;
    };
    const int rc = agentMain();
    const Pipe &p = g_pipe[0];
    wsym_log("result", rc);
    CHK(P_DESKTOP, g_failed || g_hungUp, "the helper ends before its client has gone");
    CHK(P_DESKTOP, !g_failed || p.nout == 0, "a desktop that could not be made is announced");
    CHK(P_DESKTOP, !g_deskOpen & !g_stationOpen & (g_station == 1), "the helper leaves its desktop open, or itself on it");
    CHK(P_DESKTOP, kOpen() == 0, "the helper leaves handles open");
    for (int i = 0; a1[i]; ++i) if (p.h) CHK(P_DESKTOP, p.name[i] == a1[i], "the helper connects to another pipe than its command line names");
    if (g_looked) wsym_reach("named");
    if (g_failed) wsym_reach("failed");
    wsym_reach("done");
}
// Command lines of any other shape.
extern "C" void harness_usage() {
    agentKernel();
    static wchar_t text[7][20];
    g_nargs = (int)wsym_concretize(nd_range("arguments", 1, wsym_param("nargs", 7)));
    for (int i = 0; i < g_nargs; ++i) {
        static const wchar_t *const words[] = { L"x", L"--create-desktop", L"--version", L"--nonsense", L"5", L"" };
        const wchar_t *w = words[i == 0 ? 0 : wsym_concretize(nd_range("word", 0, 5))];
        for (int k = 0; (text[i][k] = w[k]) != 0; ++k) {}
        g_args[i] = text[i];
    }
    const bool helper = g_nargs == 3 && wcscmp(text[2], L"--create-desktop") == 0, version = g_nargs == 2 && wcscmp(text[1], L"--version") == 0;
    if (helper || g_nargs == 6) wsym_stop();
    w32.GetCommandLineW = []() -> LPWSTR { return g_args[0]; };
    w32.CommandLineToArgvW = [](LPCWSTR, int *n) -> LPWSTR * { *n = g_nargs; return g_args; };
    const int rc = agentMain();
    CHECK(version ? rc == 0 : rc != 0, "a command line that asks for nothing sensible does not fail");
    CHECK(g_npipes == 0 && g_waits == 0, "a command line of another shape starts something");
    wsym_log("result", rc);
    wsym_reach("done");
}
