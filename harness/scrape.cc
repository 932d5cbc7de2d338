// The console's content, scraped: every line reaches the terminal, once and in order.
#define VT_ROWS 48
#define VT_COLS 4
#include <stdint.h>
#include <memory>
#include "w32.h"
#include "vt.h"
#include "con.h"
#include "pipe_out.h"
#include "agent/Scraper.h"
#include "agent/Terminal.h"
#include "agent/Win32Console.h"
#include "agent/Win32ConsoleBuffer.h"

static Vt vt;
enum { NLINES = 40, NROUNDS = 5 };
static uint32_t g_text[NLINES];      // the first column of every line the program has written; the rest is blank
static int g_lines;                  // index of the line with the program's last new line
static int g_scrolled;               // lines that have left the buffer at its top
static int g_row0;                   // buffer row of line 0
static int g_races;

static void printLine() {
    const uint32_t c = nd_u8("text");
    wsym_assume((c > 32) & (c < 127));
    const bool full = con.cy + 1 == con.h;
    conPut(0, con.cy, c, 7);
    const int v = con.cy - g_row0 + g_scrolled;
    g_text[v] = c;
    conNewLine();
    if (full) ++g_scrolled;
    if (v + 1 > g_lines) g_lines = v + 1;
    if (g_lines >= NLINES - 2) { wsym_fail("harness: too many lines"); wsym_stop(); }
}
static void raceLines() {
    if (g_races <= 0) return;
    if (!wsym_concretize(nd_bool("race"))) return;
    --g_races;
    printLine();
}

struct Snap { int end, lines, curLine, curX, visible; uint32_t text[NLINES]; bool cleared; };
static Snap snap[NROUNDS + 1];

static void takeSnap(Snap &s, NamedPipe &pipe) {
    s.end = (int)pipe.bytesToSend();
    s.lines = g_lines;
    s.curLine = con.cy - g_row0 + g_scrolled;
    s.curX = con.cx;
    s.visible = con.cursorVisible;
    memcpy(s.text, g_text, sizeof(g_text));
}

// A program prints lines, changes lines that are visible and moves the cursor; after every scrape the terminal shows
// exactly its lines.  start: the row of the console buffer the program starts at.
extern "C" void harness_scrape() {
    pipeWorld();
    int rows = wsym_param("rows", 4), W = wsym_param("w", 2);
    const int K = wsym_param("k", 3), start = wsym_param("start", 2996), burst = wsym_param("burst", 3);
    const bool edits = wsym_param("edits", 0) != 0;
    const int order = wsym_param("order", 0);
    const int resizes = wsym_param("resizes", 0);   // 1: rows, 2: columns too
    conWorld(W, CON_ROWS, rows);
    con.top = start > CON_ROWS - rows ? CON_ROWS - rows : start; con.bottom = con.top + rows - 1;
    con.cy = start;
    OutLoop loop;
    Win32Console console;
    console.setNewW10(wsym_param("w10", 0) != 0);
    auto buffer = Win32ConsoleBuffer::openStdout();
    Scraper scraper(console, *buffer, std::unique_ptr<Terminal>(new Terminal(loop.pipe, false, true)), Coord(W, rows));
    CHECK(con.w == W && con.h == CON_ROWS && con.top == 0 && con.left == 0 && con.bottom == rows - 1 && con.right == W - 1, "the console does not get the initial size");
    CHECK(!con.badCall, "a console call at start-up fails");
    con.top = start > CON_ROWS - rows ? CON_ROWS - rows : start; con.bottom = con.top + rows - 1;
    con.cx = 0; con.cy = start;
    g_row0 = start;
    for (int i = 0; i < NLINES; ++i) g_text[i] = ' ';
    ConsoleScreenBufferInfo info;
    { Win32Console::FreezeGuard guard(console, console.frozen()); scraper.scrapeBuffer(*buffer, info); }
    for (int k = 0; k < K; ++k) {
        // order: the operations as decimal digits, from the right; otherwise any.
        const int op = order ? (order / (k == 0 ? 1 : k == 1 ? 10 : k == 2 ? 100 : k == 3 ? 1000 : 10000)) % 10 : edits || resizes ? (int)wsym_concretize(nd_range("op", 0, 3)) : 0;
        if ((op == 1 || op == 2) && !edits) wsym_stop();
        if (op == 3) {
            if (!resizes) wsym_stop();
            const int r = (int)wsym_concretize(nd_range("rows", 0, 2));
            rows = r == 0 ? 2 : r == 1 ? 4 : 7;
            if (resizes > 1) W = 1 + (int)wsym_concretize(nd_range("columns", 1, 3));
            {
                Win32Console::FreezeGuard guard(console, console.frozen());
                scraper.resizeWindow(*buffer, Coord(W, rows), info);
            }
            CHECK(!con.frozen, "the console stays frozen after a resize");
            CHECK(!con.badCall, "a console call of a resize fails");
            CHECK(con.w == W, "the console buffer does not get the new width");
            CHECK(con.right - con.left + 1 == W && con.bottom - con.top + 1 == rows, "the console window does not get the new size");
            CHECK(con.cy >= con.top && con.cy <= con.bottom, "the cursor is outside the resized window");
            CHECK(con.bottom - g_row0 + g_scrolled >= g_lines - 1 || con.cy == con.top, "text slides out of the resized window");
            CHECK(info.srWindow.Left == con.left && info.srWindow.Top == con.top && info.srWindow.Right == con.right && info.srWindow.Bottom == con.bottom, "the reported window is not the console's");
        } else if (op == 0) {
            const int n = (int)wsym_concretize(nd_range("lines", 0, burst));
            for (int i = 0; i < n; ++i) printLine();
        } else if (op == 1) {
            const int r = (int)wsym_concretize(nd_range("row", 0, rows - 1));
            const uint32_t c = nd_u8("text");
            wsym_assume((c >= 32) & (c < 127));
            const int v = con.top + r - g_row0 + g_scrolled;
            conPut(0, con.top + r, c, 7);
            g_text[v] = c;
        } else {
            con.cy = con.top + (int)wsym_concretize(nd_range("row", 0, rows - 1));
            if (!order) {
                con.cx = (int)wsym_concretize(nd_range("column", 0, W - 1));
                con.cursorVisible = wsym_concretize(nd_bool("cursor visible")) != 0;
            }
        }
        g_races = wsym_param("races", 0);
        con.race = raceLines;
        {
            Win32Console::FreezeGuard guard(console, console.frozen());
            scraper.scrapeBuffer(*buffer, info);
        }
        con.race = nullptr;
        CHECK(!con.frozen, "the console stays frozen after a scrape");
        g_races = 0;
        if (wsym_param("races", 0)) { Win32Console::FreezeGuard guard(console, console.frozen()); scraper.scrapeBuffer(*buffer, info); }
        takeSnap(snap[k], loop.pipe);
    }
    loop.drain();
    vt.init(CON_COLS);
    vt.y = 1;
    for (int r = 0; r < VT_ROWS; ++r) for (int c = 0; c < VT_COLS; ++c) { vt.ch[r][c] = ' '; vt.pen[r][c] = 0; }
    int at = 0, line0 = 1;
    for (int k = 0; k < K; ++k) {
        const Snap &s = snap[k];
        vt.feed(g_out.b + at, s.end - at);
        at = s.end;
        CHECK(vt.clears == 0, "the terminal is cleared though nothing was lost");
        for (int v = 0; v <= s.lines; ++v) {
            CHECK(vt.ch[line0 + v][0] == s.text[v], "a line on the terminal is not the line the program wrote");
            for (int c = 1; c < CON_COLS; ++c) CHECK(vt.ch[line0 + v][c] == ' ', "a line on the terminal has extra text");
        }
        for (int r = 0; r < line0; ++r) CHECK(vt.ch[r][0] == ' ', "text appears above the first line");
        if (s.visible) CHECK(vt.visible && vt.x == s.curX && vt.y == line0 + s.curLine, "the terminal's cursor is not where the console's is");
        else CHECK(!vt.visible, "the terminal shows a cursor that the console hides");
    }
    wsym_log("bytes", g_out.n);
    wsym_log("lines", g_lines);
    wsym_reach("done");
}

// The whole buffer scrolls by any number of lines (also so far that the position marker reaches the top), the window
// stays; then the terminal is resized.
extern "C" void harness_marker() {
    pipeWorld();
    const int rows = 4, W = 2;
    const int start = 428 + (int)wsym_concretize(nd_range("start", 0, wsym_param("starts", 4)));
    conWorld(W, CON_ROWS, rows);
    con.top = start; con.bottom = con.top + rows - 1;
    con.cy = start;
    OutLoop loop;
    Win32Console console;
    auto buffer = Win32ConsoleBuffer::openStdout();
    Scraper scraper(console, *buffer, std::unique_ptr<Terminal>(new Terminal(loop.pipe, false, true)), Coord(W, rows));
    con.top = start; con.bottom = con.top + rows - 1; con.cx = 0; con.cy = start;
    g_row0 = start;
    for (int i = 0; i < NLINES; ++i) g_text[i] = ' ';
    ConsoleScreenBufferInfo info;
    { Win32Console::FreezeGuard guard(console, console.frozen()); scraper.scrapeBuffer(*buffer, info); }
    const int lo = wsym_param("lo", 0), hi = wsym_param("hi", 6);
    const int n = (int)wsym_concretize(nd_range("scrolled lines", lo, hi));
    memmove(con.cell, con.cell + n * CON_COLS, (con.h - n) * CON_COLS * sizeof(CHAR_INFO));
    for (int y = con.h - n; y < con.h; ++y) conBlankRow(y);
    const bool between = wsym_concretize(nd_bool("scrape between")) != 0;
    if (between) { Win32Console::FreezeGuard guard(console, console.frozen()); scraper.scrapeBuffer(*buffer, info); }
    {
        Win32Console::FreezeGuard guard(console, console.frozen());
        scraper.resizeWindow(*buffer, Coord(3, 6), info);
    }
    CHECK(con.w == 3 && con.bottom - con.top == 5, "the console does not get the new size");
    conPut(0, con.cy, 'a', 7);
    conNewLine();
    { Win32Console::FreezeGuard guard(console, console.frozen()); scraper.scrapeBuffer(*buffer, info); }
    CHECK(!con.frozen, "the console stays frozen");
    loop.drain();
    wsym_log("bytes", g_out.n);
    // The last line printed is on the terminal, above the cursor.
    int letters = 0;
    for (int i = 0; i < g_out.n; ++i) letters += g_out.b[i] == 'a';
    CHECK(letters == 1, "a line is not sent exactly once");
    wsym_reach("done");
}

// A program gives the console a buffer of its own size (as full-screen programs do): the terminal shows its window.
extern "C" void harness_direct() {
    pipeWorld();
    const int rows = 4, W = 3, K = wsym_param("k", 2);
    conWorld(W, CON_ROWS, rows);
    OutLoop loop;
    Win32Console console;
    console.setNewW10(wsym_param("w10", 0) != 0);
    auto buffer = Win32ConsoleBuffer::openStdout();
    Scraper scraper(console, *buffer, std::unique_ptr<Terminal>(new Terminal(loop.pipe, false, true)), Coord(W, rows));
    ConsoleScreenBufferInfo info;
    const int vary = wsym_param("vary", 15);   // what varies: 1 sizes, 2 windows, 4 cells, 8 colours and cursor
    struct Shot { int end, w, h, curX, curY; bool vis; uint32_t ch[4][4], pen[4][4]; } shot[3];
    for (int k = 0; k < K; ++k) {
        if (k == 0) {
            con.h = rows + (vary & 1 ? (int)wsym_concretize(nd_range("extra rows", 0, 1)) : 1);
            con.w = W + (vary & 1 ? (int)wsym_concretize(nd_range("extra columns", 0, 1)) : 1);
        }
        con.cursorVisible = vary & 8 ? wsym_concretize(nd_bool("cursor visible")) != 0 : true;
        if (k == 0 || (vary & 2)) {
            const int ww = vary & 2 ? (int)wsym_concretize(nd_range("window width", 2, 4)) : 3, wh = vary & 2 ? 3 + (int)wsym_concretize(nd_range("window height", 0, 2)) : 4;
            if (ww > con.w || wh > con.h) wsym_stop();
            con.left = con.w - ww; con.top = con.h - wh;
            con.right = con.left + ww - 1; con.bottom = con.top + wh - 1;
        }
        // A few cells change, to anything.
        for (int i = 0; i < wsym_param("cells", 2); ++i) {
            const int x = vary & 4 ? (int)wsym_concretize(nd_range("column", 0, 2)) : 2 - i, y = con.top + (vary & 4 ? (int)wsym_concretize(nd_range("row", 0, 1)) : k & 1) * 2;
            const uint32_t c = nd_u8("text");
            wsym_assume((c >= 32) & (c < 127));
            conPut(x < con.w ? x : 0, y < con.h ? y : con.top, c, !(vary & 8) || wsym_concretize(nd_bool("colour")) ? 0x1e : 7);
        }
        con.cx = con.left + 1; con.cy = vary & 8 && wsym_concretize(nd_bool("cursor row")) ? con.top + 2 : con.top;
        { Win32Console::FreezeGuard guard(console, console.frozen()); scraper.scrapeBuffer(*buffer, info); }
        CHECK(!con.frozen, "the console stays frozen after a scrape");
        Shot &s = shot[k];
        s.end = (int)loop.pipe.bytesToSend();
        s.w = con.right - con.left + 1 < W ? con.right - con.left + 1 : W;
        s.h = con.bottom - con.top + 1 < rows ? con.bottom - con.top + 1 : rows;
        s.curX = con.cx - con.left; s.curY = con.cy - con.top; s.vis = con.cursorVisible && s.curX < s.w && s.curY < s.h;
        for (int y = 0; y < s.h; ++y) for (int x = 0; x < s.w; ++x) { s.ch[y][x] = conCell(con.left + x, con.top + y).Char.UnicodeChar; s.pen[y][x] = penOf(conCell(con.left + x, con.top + y).Attributes); }
    }
    loop.drain();
    vt.init(W);
    int at = 0;
    for (int k = 0; k < K; ++k) {
        const Shot &s = shot[k];
        vt.feed(g_out.b + at, s.end - at);
        at = s.end;
        CHECK(vt.clears == 1, "the terminal is not cleared exactly once, when the program takes the screen");
        for (int y = 0; y < s.h; ++y) for (int x = 0; x < s.w; ++x) {
            CHECK(vt.ch[y][x] == s.ch[y][x], "the terminal does not show the console's window");
            CHECK(vt.pen[y][x] == s.pen[y][x], "the terminal shows other colours than the console's window");
        }
        if (s.vis) CHECK(vt.visible && vt.x == s.curX && vt.y == s.curY, "the terminal's cursor is not where the console's is");
        else CHECK(!vt.visible, "the terminal shows a cursor that the console hides");
    }
    wsym_log("bytes", g_out.n);
    wsym_reach("done");
}

// Which attributes count depends on the console's modes.
extern "C" void harness_mask() {
    pipeWorld();
    conWorld(2, CON_ROWS, 2);
    static DWORD mode; static UINT cp;
    mode = nd_u32("mode"); cp = nd_u32("code page");
    w32.GetConsoleMode = [](HANDLE, LPDWORD m) -> BOOL { *m = mode; return TRUE; };
    w32.GetConsoleOutputCP = []() -> UINT { return cp; };
    OutLoop loop;
    Win32Console console;
    const bool w10 = wsym_concretize(nd_bool("w10")) != 0;
    console.setNewW10(w10);
    auto buffer = Win32ConsoleBuffer::openStdout();
    Scraper scraper(console, *buffer, std::unique_ptr<Terminal>(new Terminal(loop.pipe, false, true)), Coord(2, 2));
    con.h = 2;
    const uint32_t attr = wsym_param("attr", 0xc01e);
    conPut(0, 0, 'x', attr);
    con.cx = 0; con.cy = 0;
    ConsoleScreenBufferInfo info;
    { Win32Console::FreezeGuard guard(console, console.frozen()); scraper.scrapeBuffer(*buffer, info); }
    loop.drain();
    vt.init(2);
    vt.feed(g_out.b, g_out.n);
    const bool cjk = cp == 932 || cp == 936 || cp == 949 || cp == 950;
    const bool grid = (mode & 0x10) != 0, vtp = (mode & 4) != 0;
    const bool rev = cjk || grid || vtp || w10, under = cjk || grid || vtp;
    const uint32_t want = penOf(attr & (rev ? 0xffffu : ~0x4000u) & (under ? 0xffffu : ~0x8000u));
    CHECK(vt.ch[0][0] == 'x', "the character is lost");
    CHECK(vt.pen[0][0] == want, "reverse video or underscore is shown where the console ignores it, or the reverse");
    wsym_log("pen", vt.pen[0][0]);
    wsym_reach("done");
}
