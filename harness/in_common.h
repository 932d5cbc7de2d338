// Common parts of the terminal-input harnesses: a console input world with recorded events.
#ifndef IN_COMMON_H
#define IN_COMMON_H
#include <stdint.h>
#include <memory>
#include <string>
#include <vector>
#include "w32.h"
#include "agent/ConsoleInput.h"
#include "agent/DsrSender.h"
#include "agent/Win32Console.h"
#include "include/winpty_constants.h"

enum { EV_KEY = 1, EV_MOUSE = 2, EV_CTRLC = 3, EV_HWND = 4, EV_OTHER = 5 };
struct Ev { uint32_t kind, a, b, c, d, e; };
struct EvLog { Ev ev[160]; int n; };
static EvLog *g_log;
static DWORD g_mode;      // console mode
static DWORD g_tick;      // current tick count
static int g_dsr;         // device-status requests sent
static int g_writes;      // WriteConsoleInput calls
static unsigned g_wmax = 0;

static void logEv(const Ev &e) {
    if (!g_log) return;
    if (g_log->n >= 160) { wsym_fail("harness: event log full"); wsym_stop(); }
    g_log->ev[g_log->n++] = e;
}

static inline uint32_t sel(bool c, uint32_t a, uint32_t b) { uint32_t m = 0u - (uint32_t)c; return (a & m) | (b & ~m); }

// VkKeyScan, as a function of the UTF-16 unit: an arbitrary key code for any one character, with arbitrary modifiers
// that are the same for every character of a run.
static uint32_t g_vkKey, g_vkMods;
static bool g_vkHave, g_vkNone;
static bool g_vkPlain;   // no character of the layout is a Shift, Control or Alt key itself
static int g_vkMode; // 0: never on the layout (-1); 1: any result
static SHORT vkScan(WCHAR ch) {
    if (g_vkMode == 0) return -1;
    if (!g_vkHave) { g_vkKey = nd_u8("layout"); g_vkMods = nd_u8("layout modifiers"); g_vkNone = nd_bool("not on layout"); g_vkHave = true; }
    if (g_vkNone) return -1;
    if (g_vkPlain) {
        const uint32_t k = (ch ^ ch >> 8 ^ g_vkKey) & 0xff;
        wsym_assume((k != VK_SHIFT) & (k != VK_CONTROL) & (k != VK_MENU));
    }
    return (SHORT)(((ch ^ ch >> 8 ^ g_vkKey) & 0xff) | (g_vkMods & 0x7f) << 8);
}

struct CountingDsr : public DsrSender { virtual void sendDsr() { ++g_dsr; } };

static void inputWorld() {
    w32_defaults();
    w32.GetConsoleWindow = []() -> HWND { return (HWND)0x1234; };
    w32.GetConsoleMode = [](HANDLE, LPDWORD m) -> BOOL { *m = g_mode; return TRUE; };
    w32.SetConsoleMode = [](HANDLE, DWORD m) -> BOOL { g_mode = m; return TRUE; };
    w32.GetTickCount = []() -> DWORD { return g_tick; };
    w32.GetDoubleClickTime = []() -> UINT { return 500; };
    w32.MapVirtualKeyW = [](UINT vk, UINT) -> UINT { return vk ^ 0x55; };
    w32.VkKeyScanW = [](WCHAR ch) -> SHORT { return vkScan(ch); };
    w32.GenerateConsoleCtrlEvent = [](DWORD ev, DWORD grp) -> BOOL { Ev e = { EV_CTRLC, ev, grp, 0, 0, 0 }; logEv(e); return TRUE; };
    w32.SendMessageW = [](HWND, UINT m, WPARAM w, LPARAM l) -> LRESULT { Ev e = { EV_HWND, m, (uint32_t)w, (uint32_t)l, 0, 0 }; logEv(e); return 0; };
    w32.WriteConsoleInputW = [](HANDLE, const INPUT_RECORD *r, DWORD n, LPDWORD actual) -> BOOL {
        ++g_writes;
        if (n > g_wmax) g_wmax = n;
        for (DWORD i = 0; i < n; ++i) {
            Ev e = { 0, 0, 0, 0, 0, 0 };
            if (r[i].EventType == KEY_EVENT) {
                const KEY_EVENT_RECORD &k = r[i].Event.KeyEvent;
                e.kind = EV_KEY; e.a = k.bKeyDown; e.b = k.wVirtualKeyCode; e.c = k.uChar.UnicodeChar; e.d = k.dwControlKeyState;
                e.e = k.wRepeatCount | (uint32_t)k.wVirtualScanCode << 16;
            } else if (r[i].EventType == MOUSE_EVENT) {
                const MOUSE_EVENT_RECORD &m = r[i].Event.MouseEvent;
                e.kind = EV_MOUSE; e.a = (uint16_t)m.dwMousePosition.X; e.b = (uint16_t)m.dwMousePosition.Y; e.c = m.dwButtonState;
                e.d = m.dwControlKeyState; e.e = m.dwEventFlags;
            } else {
                e.kind = EV_OTHER;
            }
            logEv(e);
        }
        *actual = n;
        return TRUE;
    };
}

// One check per field: the solver then sees only the inputs each field depends on.
static void checkSame(const Ev &x, const Ev &y, const char *msg) {
    CHECK(x.kind == y.kind, msg); CHECK(x.a == y.a, msg); CHECK(x.b == y.b, msg);
    CHECK(x.c == y.c, msg); CHECK(x.d == y.d, msg); CHECK(x.e == y.e, msg);
}
#endif
