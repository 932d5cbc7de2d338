// Change detection of single lines, and large reads of the console.
#include <stdint.h>
#include <memory>
#include "w32.h"
#include "agent/ConsoleLine.h"
#include "agent/LargeConsoleRead.h"
#include "agent/Scraper.h"
#include "agent/Win32ConsoleBuffer.h"

static inline uint32_t cellBits(const CHAR_INFO &c) { return c.Char.UnicodeChar | (uint32_t)c.Attributes << 16; }

// A line is reported unchanged only if a terminal that shows what was sent before, including what a narrower window
// had hidden, already shows it.
extern "C" void harness_line() {
    w32_defaults();
    const int K = wsym_param("k", 3), N = wsym_param("n", 3);
    ConsoleLine line;
    CHAR_INFO shown[8], cur[8];
    int shownLen = 0, curLen = 0;      // cells ever sent, the latest length
    uint32_t lastAttr = 0;
    bool have = false, blanked = false;
    for (int k = 0; k < K; ++k) {
        if (wsym_param("ops", 0)) {
            const int op = (int)wsym_concretize(nd_range("op", 0, 2));
            if (op == 1) { line.reset(); have = false; blanked = false; continue; }
            if (op == 2) { line.blank(7); have = false; blanked = true; continue; }
        }
        const int n = (int)wsym_concretize(nd_range("length", 1, N));
        for (int i = 0; i < n; ++i) {
            cur[i].Char.UnicodeChar = nd_u16("char"); cur[i].Attributes = nd_u16("attr");
        }
        const bool changed = line.detectChangeAndSetLine(cur, n);
        wsym_log("changed", changed);
        if (!have) {
            bool blank = blanked;
            for (int i = 0; i < n && blank; ++i) blank = cellBits(cur[i]) == (' ' | 7u << 16);
            CHECK(changed == !blank, blanked ? "a line that was erased is reported wrongly" : "the first sight of a line is not reported");
        } else {
            if (n == curLen) {
                bool same = true;
                for (int i = 0; i < n && same; ++i) same = cellBits(cur[i]) == cellBits(shown[i]);
                CHECK(changed == !same, "a line of the same length is reported wrongly");
            } else if (!changed) {
                for (int i = 0; i < n; ++i) {
                    if (i < shownLen) CHECK(cellBits(cur[i]) == cellBits(shown[i]), "a changed line is not reported after a resize");
                    else CHECK(cellBits(cur[i]) == (' ' | lastAttr << 16), "new columns with content are not reported");
                }
                if (n < curLen) for (int i = n; i < curLen; ++i) CHECK(shown[i].Char.UnicodeChar == ' ', "a line is not reported that lost text to a narrower window");
            } else {
                // Reported: it must differ somewhere, or hide or expose something that is not blank.
                bool same = true;
                const int m = n < curLen ? n : curLen, x = n < curLen ? curLen : n;
                for (int i = 0; i < m && same; ++i) same = cellBits(cur[i]) == cellBits(shown[i]);
                if (same && shownLen <= curLen) {
                    const uint32_t b = ' ' | (n < curLen ? (uint32_t)cur[n - 1].Attributes : lastAttr) << 16;
                    for (int i = m; i < x && same; ++i) same = cellBits(n < curLen ? shown[i] : cur[i]) == b;
                    CHECK(!same, "a line is sent again though only blank columns come or go");
                }
            }
        }
        if (blanked && !have && !changed) { shown[0] = cur[0]; }
        for (int i = 0; i < n; ++i) shown[i] = cur[i];
        if (!have) shownLen = 0;
        if (n > shownLen) shownLen = n;
        curLen = n;
        lastAttr = cur[n - 1].Attributes;
        have = true;
        blanked = false;
    }
    wsym_reach("done");
}

static int g_left, g_top, g_w, g_h, g_cells, g_max;
static bool g_overlap;
// A large read returns exactly the requested cells, in pieces that old consoles can answer.
extern "C" void harness_read() {
    w32_defaults();
    w32.GetVersionExW = [](LPOSVERSIONINFOW v) -> BOOL { const int m = wsym_param("winver", 61); v->dwMajorVersion = m / 10; v->dwMinorVersion = m % 10; return TRUE; };
    w32.GetStdHandle = [](DWORD) -> HANDLE { return (HANDLE)0x200; };
    w32.ReadConsoleOutputW = [](HANDLE, PCHAR_INFO out, COORD size, COORD at, PSMALL_RECT r) -> BOOL {
        const int n = size.X * size.Y;
        CHECK(at.X == 0 && at.Y == 0 && size.X == r->Right - r->Left + 1 && size.Y == r->Bottom - r->Top + 1, "the read buffer's size is not the rectangle's");
        CHECK(r->Left == g_left && size.X == g_w && r->Top >= g_top && r->Bottom < g_top + g_h, "cells outside the requested rectangle are read");
        g_cells += n;
        if (n > g_max) g_max = n;
        for (int y = 0; y < size.Y; ++y) for (int x = 0; x < size.X; ++x) { out[y * size.X + x].Char.UnicodeChar = r->Left + x; out[y * size.X + x].Attributes = r->Top + y; }
        return TRUE;
    };
    LargeConsoleReadBuffer out;
    auto buffer = Win32ConsoleBuffer::openStdout();
    const WORD mask = nd_u16("mask");
    for (int k = 0; k < wsym_param("k", 2); ++k) {
        g_left = (int)wsym_concretize(nd_range("left", 0, 1));
        g_top = (int)wsym_concretize(nd_range("top", 0, 1)) * 2900;
        const int wi = (int)wsym_concretize(nd_range("width", 0, 9));
        static const int ws[10] = { 1, 2, 3, 833, 834, 1249, 1250, 1251, 2499, 2500 };
        g_w = ws[wi];
        g_h = 1 + (int)wsym_concretize(nd_range("height", 0, wsym_param("h", 3)));
        if (g_w == 2 && wsym_param("tall", 0)) g_h = 2600 - (g_top ? 2500 : 0);
        g_cells = g_max = 0;
        largeConsoleRead(out, *buffer, SmallRect(g_left, g_top, g_w, g_h), mask);
        CHECK(g_cells == g_w * g_h, "cells are read twice or not at all");
        if (wsym_param("winver", 61) < 62) CHECK(g_max <= MAX_CONSOLE_WIDTH, "a read is too large for an old console");
        CHECK(out.rect() == SmallRect(g_left, g_top, g_w, g_h), "the result covers another rectangle");
        for (int y = 0; y < g_h; ++y) {
            const CHAR_INFO *d = out.lineData(g_top + y);
            const int step = g_w > 50 ? g_w - 1 : 1;
            for (int x = 0; x < g_w; x += step) {
                CHECK(d[x].Char.UnicodeChar == g_left + x, "a cell of another column is returned");
                CHECK(d[x].Attributes == (WORD)((g_top + y) & mask), "a cell of another line is returned, or its attributes are not masked");
            }
        }
    }
    wsym_log("cells", g_cells);
    wsym_reach("done");
}
