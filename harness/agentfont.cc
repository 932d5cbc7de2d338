// The agent gives every console buffer the font for its number of columns, and not while the console is frozen.
#define CON_FLAT
#include "font.h"
#include "agent.cc"
static int g_height[2];
static unsigned g_cp;
static void fontEnv(DWORD ms) {
    const int q = g_sizeEvents ? startOf(AgentMsg::SetSize, g_sizeEvents - 1) : -1;
    const wchar_t *face;
    const Size *sizes;
    fontOf(g_cp, false, wsym_param("w10", 0), wsym_param("winver", 62), face, sizes);
    for (int i = 0; i < (g_npipes > CONERR ? 2 : 1); ++i)
        CHECK(g_height[i] == wantedFont(sizes, q >= 0 ? least(g_req[q].cols, 2500) : W), "a console buffer does not have the font for its number of columns");
    env(ms);
}
static BOOL WINAPI fGet(HANDLE, BOOL, Info *i) { memset(i, 0, sizeof *i); return TRUE; }
static COORD WINAPI fSize(HANDLE, DWORD) { COORD c = { 0, 0 }; return c; }
static WCHAR g_face[2][32];
static BOOL WINAPI fGetEx(HANDLE h, BOOL, InfoEx *i) { conUse(h); const int k = g_con != con_; memcpy(i->face, g_face[k], 64); i->size.Y = (SHORT)g_height[k]; return TRUE; }
static BOOL WINAPI fSetEx(HANDLE h, BOOL, InfoEx *i) {
    conUse(h);
    CHECK(!con.frozen, "the font is set while the console is frozen");
    const int k = g_con != con_;
    memcpy(g_face[k], i->face, 64);
    g_height[k] = i->size.Y;
    return TRUE;
}
// The mark command of old consoles moves the cursor to the window's corner until it ends.
static LRESULT (WINAPI *g_send)(HWND, UINT, WPARAM, LPARAM);
static int g_markX = -1, g_markY;
extern "C" void harness_agent_font() {
    world();
    if (wsym_param("w10", 0) == 0) {
        g_send = w32.SendMessageW;
        w32.SendMessageW = [](HWND h, UINT m, WPARAM p, LPARAM l) -> LRESULT {
            const LRESULT r = g_send(h, m, p, l);
            Con &c = con_[0];
            if (m == WM_SYSCOMMAND && p == 0xFFF2) { g_markX = c.cx; g_markY = c.cy; c.cx = c.left; c.cy = c.top; }
            if (m == WM_CHAR && g_markX >= 0) { c.cx = g_markX; c.cy = g_markY; g_markX = -1; }
            return r;
        };
    }
    static const unsigned pages[] = { 437, 932 };
    g_cp = pages[wsym_concretize(nd_bool("Japanese"))];
    w32.GetConsoleCP = w32.GetConsoleOutputCP = []() -> UINT { return g_cp; };
    w32.GetProcAddress = [](HMODULE, LPCSTR n) -> FARPROC {
        if (!strcmp(n, "GetCurrentConsoleFont")) return (FARPROC)fGet;
        if (!strcmp(n, "GetConsoleFontSize")) return (FARPROC)fSize;
        if (!strcmp(n, "GetCurrentConsoleFontEx")) return (FARPROC)fGetEx;
        if (!strcmp(n, "SetCurrentConsoleFontEx")) return (FARPROC)fSetEx;
        return NULL;
    };
    if (wsym_concretize(nd_bool("window of one cell"))) { con_[0].right = con_[0].left; con_[0].bottom = con_[0].top; }
    g_env = fontEnv;
    for (int i = wsym_param("n", 1); i > 0; --i) addSize();
    session(wsym_param("flags", 0), 1);
}
