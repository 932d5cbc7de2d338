// The console's font: what setSmallFont leaves the console with.
#include "font.h"
#include "agent/ConsoleFont.h"
static bool fault() { return false; }

static int g_sets, g_how[3], g_win, g_columns;
static bool g_w10, g_east, g_unreadable;
static unsigned g_cp;
static WCHAR g_face[32];
static int g_height;
static HANDLE const kOut = (HANDLE)(uintptr_t)0x333;

static BOOL WINAPI getFont(HANDLE h, BOOL max, Info *i) { CHECK(h == kOut, "another buffer's font is read"); memset(i, 0, sizeof *i); return TRUE; }
static COORD WINAPI getSize(HANDLE, DWORD) { COORD c = { 0, 0 }; return c; }
static BOOL WINAPI getFontEx(HANDLE h, BOOL max, InfoEx *i) {
    CHECK(h == kOut && i->cb == sizeof *i, "the console's font is read wrongly");
    if (g_unreadable) return FALSE;
    memcpy(i->face, g_face, sizeof g_face);
    i->size.X = 1; i->size.Y = (SHORT)g_height;
    return TRUE;
}
static BOOL WINAPI setFontEx(HANDLE h, BOOL max, InfoEx *i) {
    CHECK(h == kOut && i->cb == sizeof *i && !max, "the font is set in another buffer, or for another size of window");
    CHECK(g_sets < (g_east ? 2 : 1), "the font is set again though it has been set or cannot be");
    if (g_sets >= 2) wsym_stop();
    CHECK(g_sets == 0 || g_how[0] != 0, "the font that the code page needs is replaced");
    const wchar_t *face;
    const Size *sizes;
    fontOf(g_cp, g_sets > 0, g_w10, g_win, face, sizes);
    bool same = true;
    for (int k = 0; k < 32; ++k) { same = same && i->face[k] == face[k]; if (!face[k]) break; }
    CHECK(same, "the font is not the one for the code page");
    CHECK(i->size.Y == wantedFont(sizes, g_columns), "the font is not the smallest that keeps the window wide enough");
    CHECK(i->family == 0x36 && i->weight == 400, "the font is not a regular one of fixed width");
    const int how = g_how[g_sets++];
    if (how == 2) { w32_lastError = 87; return FALSE; }
    if (how == 0) memcpy(g_face, i->face, sizeof g_face);
    else g_face[0] = L'?', g_face[1] = 0;
    g_height = i->size.Y;
    return TRUE;
}
static void common() {
    w32_defaults();
    static const int versions[] = { 51, 60, 61, 62, 100 };
    g_win = versions[wsym_concretize(nd_range("windows", 0, 4))];
    w32.GetVersionExW = [](LPOSVERSIONINFOW v) -> BOOL { v->dwMajorVersion = g_win / 10; v->dwMinorVersion = g_win % 10; return TRUE; };
    w32.GetConsoleCP = []() -> UINT { return 437; };
    w32.GetConsoleOutputCP = []() -> UINT { return g_cp; };
    w32.LoadLibraryW = [](LPCWSTR) -> HMODULE { return (HMODULE)0x7000; };
    w32.FreeLibrary = [](HMODULE) -> BOOL { return TRUE; };
}
extern "C" void harness_font_vista() {
    common();
    static const unsigned pages[] = { 932, 936, 949, 950, 437, 65001 };
    const int k = (int)wsym_concretize(nd_range("code page", 0, 6));
    g_cp = k < 6 ? pages[k] : (unsigned)nd_range("other code page", 0, 65535);
    g_east = (g_cp == 932) | (g_cp == 936) | (g_cp == 949) | (g_cp == 950);
    g_w10 = wsym_concretize(nd_bool("new console"));
    g_columns = (int)nd_range("columns", 1, 2500);
    for (int i = 0; i < 2; ++i) g_how[i] = (int)wsym_concretize(nd_range("font is: set, another, refused", 0, 2));
    g_unreadable = wsym_concretize(nd_bool("font cannot be read"));
    if (g_unreadable) g_how[0] = g_how[1] = 1;
    w32.GetProcAddress = [](HMODULE, LPCSTR n) -> FARPROC {
        if (!strcmp(n, "GetCurrentConsoleFont")) return (FARPROC)getFont;
        if (!strcmp(n, "GetConsoleFontSize")) return (FARPROC)getSize;
        if (!strcmp(n, "GetCurrentConsoleFontEx")) return (FARPROC)getFontEx;
        if (!strcmp(n, "SetCurrentConsoleFontEx")) return (FARPROC)setFontEx;
        return NULL;
    };
    setSmallFont(kOut, g_columns, g_w10);
    CHECK(g_sets >= 1, "the font is not set");
    CHECK(g_sets == 2 || g_how[0] == 0 || !g_east, "no other font is tried when the code page's is not there");
    wsym_log("sets", g_sets);
    wsym_reach("done");
}

// Windows XP: a table of fonts.
static int g_n, g_current = -1, g_tries;
static COORD g_table[6];
static int g_refuse[6];
static bool g_failed;
static DWORD WINAPI xpCount() { return g_n; }
static COORD WINAPI xpSize(HANDLE h, DWORD i) { COORD none = { 0, 0 }; return i < (DWORD)g_n ? g_table[i] : none; }
static BOOL WINAPI xpGet(HANDLE h, BOOL max, Info *i) {
    CHECK(h == kOut, "another buffer's font is read");
    if (g_failed) return FALSE;
    memset(i, 0, sizeof *i);
    i->index = g_current;
    return TRUE;
}
static BOOL WINAPI xpSet(HANDLE h, DWORD i) {
    CHECK(h == kOut, "the font is set in another buffer");
    CHECK(i < (DWORD)g_n, "a font is set that does not exist");
    CHECK(g_current < 0, "the font is set again though it has been set");
    if (i >= (DWORD)g_n) wsym_stop();
    ++g_tries;
    const int j = (int)wsym_concretize(i);
    if (g_refuse[j] == 1) { w32_lastError = 87; return FALSE; }
    if (g_refuse[j] == 0) g_current = j;
    return TRUE;
}
extern "C" void harness_font_xp() {
    common();
    g_cp = 437;
    g_n = (int)wsym_concretize(nd_range("fonts", 0, wsym_param("fonts", 3)));
    for (int i = 0; i < g_n; ++i) {
        g_table[i].X = (SHORT)nd_range("width", 1, 40); g_table[i].Y = (SHORT)nd_range("height", 1, 80);
        g_refuse[i] = (int)wsym_concretize(nd_range("font is: set, refused, ignored", 0, 2));
    }
    g_failed = wsym_concretize(nd_bool("font cannot be read"));
    w32.GetProcAddress = [](HMODULE, LPCSTR n) -> FARPROC {
        if (!strcmp(n, "GetCurrentConsoleFont")) return (FARPROC)xpGet;
        if (!strcmp(n, "GetConsoleFontSize")) return (FARPROC)xpSize;
        if (wsym_param("none", 0)) return NULL;
        if (!strcmp(n, "SetConsoleFont")) return (FARPROC)xpSet;
        if (!strcmp(n, "GetNumberOfConsoleFonts")) return (FARPROC)xpCount;
        return NULL;
    };
    setSmallFont(kOut, 80, false);
    if (wsym_param("none", 0)) CHECK(g_tries == 0, "a font is set without the functions for it");
    else if (!g_failed) for (int i = 0; i < g_n; ++i) {
        if (g_refuse[i] != 0) continue;
        CHECK((g_table[i].X < 4) | (g_current >= 0), "no font is set though Windows accepts one");
        if (g_current >= 0) CHECK((g_table[i].X < 4) | (g_table[i].X + g_table[i].Y >= g_table[g_current].X + g_table[g_current].Y), "the font is not the smallest that can be set");
    }
    if (g_current >= 0) CHECK(g_table[g_current].X >= 4, "the font is too narrow");
    wsym_log("font", g_current);
    wsym_reach("done");
}
