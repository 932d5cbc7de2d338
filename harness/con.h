// A model of the Windows console: one screen buffer, its window and cursor, and a program that writes to it.
#ifndef HARNESS_CON_H
#define HARNESS_CON_H
#include <stdint.h>
#include <string.h>
#include "w32.h"

#ifdef CON_FLAT                          // a console of any size that is always blank
enum { CON_ROWS = 32767, CON_COLS = 32767, CON_CELLS = 1 };
#else
enum { CON_ROWS = 3000, CON_COLS = 4, CON_CELLS = CON_ROWS * CON_COLS };
#endif
struct Con {
    CHAR_INFO cell[CON_CELLS];   // row-major, CON_COLS columns whatever the buffer's width
    int w, h;                        // buffer size
    int left, top, right, bottom;    // window
    int cx, cy;
    int largestX, largestY;
    WORD attr;
    bool cursorVisible, frozen;
    int freezes, thaws;
    int reads, bigReads;
    void (*race)();                  // runs whenever the unfrozen console is called
    bool badCall;
};
static Con con_[2];                  // the second is the buffer made for standard error
static Con *g_con = con_;
static HANDLE g_con2;
#define con (*g_con)
static void conUse(HANDLE h) { g_con = g_con2 && h == g_con2 ? con_ + 1 : con_; }

static inline CHAR_INFO &conCell(int x, int y) { return con.cell[y * CON_COLS + x]; }
static void conRace() { if (con.race && !con.frozen) con.race(); }
static void conBlankRow(int y) { if (CON_CELLS == 1) return; for (int x = 0; x < CON_COLS; ++x) { conCell(x, y).Char.UnicodeChar = ' '; conCell(x, y).Attributes = con.attr; } }
static void conFollow() {
    if (con.cy > con.bottom) { const int d = con.cy - con.bottom; con.top += d; con.bottom += d; }
    if (con.cy < con.top) { const int d = con.top - con.cy; con.top -= d; con.bottom -= d; }
}
// The program starts a new line.
static void conNewLine() {
    con.cx = 0;
    if (con.cy + 1 < con.h) ++con.cy;
    else {
        memmove(con.cell, con.cell + CON_COLS, (con.h - 1) * CON_COLS * sizeof(CHAR_INFO));
        conBlankRow(con.h - 1);
    }
    conFollow();
}
static void conPut(int x, int y, uint32_t c, uint32_t attr) { conCell(x, y).Char.UnicodeChar = c; conCell(x, y).Attributes = attr; }

static void conWorld(int w, int h, int rows) {
    con.w = w; con.h = h; con.attr = 7; con.cursorVisible = true;
    con.largestX = 200; con.largestY = 100;
    con.left = 0; con.top = 0; con.right = w - 1; con.bottom = rows - 1;
    for (int y = 0; y < h; ++y) conBlankRow(y);
    w32.GetConsoleWindow = []() -> HWND { return (HWND)0x1234; };
    w32.SendMessageW = [](HWND, UINT m, WPARAM p, LPARAM) -> LRESULT {
        if (m == WM_SYSCOMMAND) { CHECK(!con.frozen, "the console is frozen twice"); CHECK(p == 0xFFF2 || p == 0xFFF5, "an unknown console command is sent"); con_[0].frozen = con_[1].frozen = true; ++con.freezes; }
        else if (m == WM_CHAR) { CHECK(con.frozen, "an Escape is sent to a console that is not frozen"); CHECK(p == 27, "a key other than Escape is sent"); con_[0].frozen = con_[1].frozen = false; ++con.thaws; }
        else wsym_fail("an unexpected window message is sent");
        return 0;
    };
    w32.GetStdHandle = [](DWORD) -> HANDLE { return (HANDLE)0x200; };
    w32.GetConsoleScreenBufferInfo = [](HANDLE hc, PCONSOLE_SCREEN_BUFFER_INFO i) -> BOOL { conUse(hc);
        conRace();
        memset(i, 0, sizeof(*i));
        i->dwSize.X = con.w; i->dwSize.Y = con.h; i->dwCursorPosition.X = con.cx; i->dwCursorPosition.Y = con.cy; i->wAttributes = con.attr;
        i->srWindow.Left = con.left; i->srWindow.Top = con.top; i->srWindow.Right = con.right; i->srWindow.Bottom = con.bottom;
        i->dwMaximumWindowSize.X = con.largestX; i->dwMaximumWindowSize.Y = con.largestY;
        return TRUE;
    };
    w32.GetConsoleCursorInfo = [](HANDLE hc, PCONSOLE_CURSOR_INFO i) -> BOOL { conUse(hc); conRace(); i->dwSize = 25; i->bVisible = con.cursorVisible; return TRUE; };
    w32.ReadConsoleOutputW = [](HANDLE hc, PCHAR_INFO out, COORD size, COORD at, PSMALL_RECT r) -> BOOL { conUse(hc);
        conRace();
        ++con.reads;
        CHECK(at.X == 0 && at.Y == 0 && size.X == r->Right - r->Left + 1 && size.Y == r->Bottom - r->Top + 1, "the read buffer's size is not the rectangle's");
        // A rectangle outside the buffer crashes old consoles.
        CHECK(r->Left >= 0 && r->Top >= 0 && r->Right < con.w && r->Bottom < con.h && r->Left <= r->Right && r->Top <= r->Bottom, "cells outside the console buffer are read");
        if (CON_CELLS == 1) for (int i = 0; i < size.X * size.Y; ++i) { out[i].Char.UnicodeChar = ' '; out[i].Attributes = 7; }
        else for (int y = r->Top; y <= r->Bottom; ++y) memcpy(out + (y - r->Top) * size.X, &conCell(r->Left, y), size.X * sizeof(CHAR_INFO));
        return TRUE;
    };
    w32.WriteConsoleOutputW = [](HANDLE hc, const CHAR_INFO *in, COORD size, COORD at, PSMALL_RECT r) -> BOOL { conUse(hc);
        conRace();
        CHECK(con.frozen, "the agent writes into a console that is not frozen");
        CHECK(r->Left >= 0 && r->Top >= 0 && r->Right < con.w && r->Bottom < con.h, "cells outside the console buffer are written");
        CHECK(r->Bottom < con.top, "the agent writes into the visible window");
        if (CON_CELLS > 1) for (int y = r->Top; y <= r->Bottom; ++y) memcpy(&conCell(r->Left, y), in + (y - r->Top) * size.X, size.X * sizeof(CHAR_INFO));
        return TRUE;
    };
    w32.FillConsoleOutputCharacterW = [](HANDLE hc, WCHAR c, DWORD n, COORD at, LPDWORD actual) -> BOOL { conUse(hc);
        CHECK(at.X == 0 && at.Y >= 0 && n % con.w == 0 && at.Y + (int)(n / con.w) <= con.h, "cells outside the console buffer are filled");
        if (CON_CELLS > 1) for (DWORD k = 0; k < n / con.w; ++k) for (int x = 0; x < con.w; ++x) conCell(x, at.Y + k).Char.UnicodeChar = c;
        *actual = n;
        return TRUE;
    };
    w32.FillConsoleOutputAttribute = [](HANDLE hc, WORD a, DWORD n, COORD at, LPDWORD actual) -> BOOL { conUse(hc);
        CHECK(at.X == 0 && at.Y >= 0 && n % con.w == 0 && at.Y + (int)(n / con.w) <= con.h, "cells outside the console buffer are filled");
        if (CON_CELLS > 1) for (DWORD k = 0; k < n / con.w; ++k) for (int x = 0; x < con.w; ++x) conCell(x, at.Y + k).Attributes = a;
        *actual = n;
        return TRUE;
    };
    w32.SetConsoleWindowInfo = [](HANDLE hc, BOOL abs, const SMALL_RECT *r) -> BOOL { conUse(hc);
        conRace();
        if (!abs || r->Left < 0 || r->Top < 0 || r->Right >= con.w || r->Bottom >= con.h || r->Right < r->Left || r->Bottom < r->Top ||
            r->Right - r->Left >= con.largestX || r->Bottom - r->Top >= con.largestY) { con.badCall = true; w32_lastError = ERROR_INVALID_PARAMETER; return FALSE; }
        con.left = r->Left; con.top = r->Top; con.right = r->Right; con.bottom = r->Bottom;
        return TRUE;
    };
    w32.SetConsoleScreenBufferSize = [](HANDLE hc, COORD s) -> BOOL { conUse(hc);
        CHECK(!con.frozen, "the screen buffer is resized while the console is frozen");
        conRace();
        if (s.X > CON_COLS || s.Y > CON_ROWS) { wsym_fail("harness: the console is too large"); wsym_stop(); }
        if (s.X < con.right - con.left + 1 || s.Y < con.bottom - con.top + 1) { con.badCall = true; w32_lastError = ERROR_INVALID_PARAMETER; return FALSE; }
        if (CON_CELLS > 1) for (int y = con.h; y < s.Y; ++y) conBlankRow(y);
        if (s.X > con.w && CON_CELLS > 1) for (int y = 0; y < s.Y; ++y) for (int x = con.w; x < s.X; ++x) conPut(x, y, ' ', con.attr);
        con.w = s.X; con.h = s.Y;
        if (con.cx >= con.w) con.cx = con.w - 1;
        if (con.cy >= con.h) con.cy = con.h - 1;
        if (con.bottom >= con.h) { const int d = con.bottom - con.h + 1; con.top -= d; con.bottom -= d; }
        if (con.right >= con.w) { const int d = con.right - con.w + 1; con.left -= d; con.right -= d; }
        return TRUE;
    };
    w32.SetConsoleCursorPosition = [](HANDLE hc, COORD p) -> BOOL { conUse(hc); con.cx = p.X; con.cy = p.Y; conFollow(); return TRUE; };
    w32.SetConsoleTextAttribute = [](HANDLE hc, WORD a) -> BOOL { conUse(hc); con.attr = a; return TRUE; };
    w32.GetLargestConsoleWindowSize = [](HANDLE hc) -> COORD { conUse(hc); COORD c; c.X = con.largestX; c.Y = con.largestY; return c; };
    w32.GetConsoleCP = []() -> UINT { return 437; };
    w32.GetConsoleOutputCP = []() -> UINT { return 437; };
    w32.GetConsoleMode = [](HANDLE, LPDWORD m) -> BOOL { *m = 3; return TRUE; };
    w32.LoadLibraryW = [](LPCWSTR) -> HMODULE { return (HMODULE)0x300; };
    w32.FreeLibrary = [](HMODULE) -> BOOL { return TRUE; };
    w32.GetProcAddress = [](HMODULE, LPCSTR) -> FARPROC { return nullptr; };
    w32.GetVersionExW = [](LPOSVERSIONINFOW v) -> BOOL { const int m = wsym_param("winver", 62); v->dwMajorVersion = m / 10; v->dwMinorVersion = m % 10; return TRUE; };
}
#endif
