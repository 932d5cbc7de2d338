// winpty-agent.exe's command line.
#include "agent.cc"
int agentMain();
static wchar_t g_argText[6][48];
static wchar_t *g_args[8];
static int g_nargs;
static bool g_shut;
static uint64_t g_wantFlags;
static int g_wantMouse, g_wantCols, g_wantRows;
void agentAssertFail(const char *, int, const char *) { wsym_fail("an internal ASSERT of the agent fails"); wsym_stop(); }
void assertTrace(const char *, int, const char *) {}
void agentShutdown() { g_shut = true; }
static void num(int i, uint64_t v) { wchar_t b[24]; int n = 0; do b[n++] = '0' + v % 10; while (v /= 10); for (int k = 0; k < n; ++k) g_argText[i][k] = b[n - 1 - k]; g_argText[i][n] = 0; }
static void mainEnv(DWORD ms) {
    g_drain = true;
    g_tick += ms > 25 ? 25 : ms;
    if (act(A_CONNECT) || act(A_READ)) return;
    if (++g_idle < 3) return;
    const bool err = g_wantFlags & WINPTY_FLAG_CONERR, plain = g_wantFlags & WINPTY_FLAG_PLAIN_OUTPUT, colour = !plain || (g_wantFlags & WINPTY_FLAG_COLOR_ESCAPES);
    CHECK(g_npipes == (err ? 4 : 3), "standard error has a pipe of its own though it should not, or the other way round");
    CHECK(wcscmp(g_pipe[CONTROL].name, L"\\\\.\\pipe\\winpty-control-7") == 0, "the agent connects to another pipe than its command line names");
    for (int i = 0; i < (err ? 2 : 1); ++i)
        CHECK(con_[i].right - con_[i].left + 1 == getsCols(g_wantCols) && con_[i].bottom - con_[i].top + 1 == getsRows(g_wantRows), "the console does not start with the size on the command line");
    if (!g_prints++) { for (int i = 0; i < (err ? 2 : 1); ++i) { Con &c = con_[i]; c.cell[c.cy * CON_COLS + c.cx].Char.UnicodeChar = '#'; c.cell[c.cy * CON_COLS + c.cx].Attributes = 0x1e; } g_idle = 0; return; }
    for (int k = CONOUT; k < g_npipes; ++k) {
        Pipe &p = g_pipe[k];
        bool esc = false, sgr = false, mouse = false;
        for (int i = 0; i < p.nout; ++i) {
            if (p.out[i] == 0x1b) {
                int j = i + 2;
                while (j < p.nout && ((p.out[j] >= '0' && p.out[j] <= '9') || p.out[j] == ';')) ++j;
                if (j < p.nout && p.out[j] == 'm') sgr = true; else esc = true;
            }
            if (found(p, i, "\x1b[?1000h")) mouse = true;
        }
        CHECK(shows(p, '#'), "what a program prints does not reach the terminal");
        CHECK(!(plain && esc), "plain output has escape sequences");
        CHECK(plain || esc, "the terminal gets no escape sequences though output is not plain");
        CHECK(sgr == colour, "colours are sent though they should not be, or the other way round");
        CHECK(mouse == (!plain && k == CONOUT && g_wantMouse != 0), "the terminal's mouse reporting is not as the command line asks");
    }
    if (!act(A_HANGUP)) wsym_stop();
}
extern "C" void harness_agent_main() {
    world();
    g_env = mainEnv;
    g_onClose = 0;
    w32.GetCommandLineW = []() -> LPWSTR { return g_argText[0]; };
    w32.CommandLineToArgvW = [](LPCWSTR, int *n) -> LPWSTR * { *n = g_nargs; return g_args; };
    static const wchar_t *const name = L"\\\\.\\pipe\\winpty-control-7";
    for (int i = 0; i < 6; ++i) g_args[i] = g_argText[i];
    for (int i = 0; name[i]; ++i) g_argText[1][i] = name[i];
    for (int i = 0; i < 3; ++i) g_argText[0][i] = L"exe"[i];
    static const int sizes[][2] = { { 1, 1 }, { 4, 3 }, { 2, 100000 }, { 3, 50 } };
    g_wantFlags = wsym_concretize(nd_range("flags", 0, 15)) | (uint64_t)wsym_concretize(nd_bool("high flag")) << 32;
    g_wantMouse = (int)wsym_concretize(nd_range("mouse mode", 0, 2));
    const int z = (int)wsym_concretize(nd_range("size", 0, 3));
    g_wantCols = sizes[z][0]; g_wantRows = sizes[z][1];
    num(2, g_wantFlags); num(3, g_wantMouse); num(4, g_wantCols); num(5, g_wantRows);
    g_nargs = 6;
    const int rc = agentMain();
    CHECK(g_shut && rc != 0, "the agent does not close its console at the end");
    wsym_log("output", g_pipe[CONOUT].nout);
    wsym_reach("done");
}
