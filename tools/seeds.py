"""Planted bugs: what each changes, and a demonstration."""
SEEDS = []
def B(id, prop, group, edits, needs, breaks, demo, extra=None):
    SEEDS.append(dict(id=id, prop=prop, group=group, edits=edits, needs=needs, breaks=breaks, demo=demo, extra=extra))
CI = 'src/agent/ConsoleInput.cc'; TE = 'src/agent/Terminal.cc'; SC = 'src/agent/Scraper.cc'; LW = 'src/libwinpty/winpty.cc'

IN = r'''
#include "demo.h"
#include "in_common.h"
static EvLog L;
struct World {
    Win32Console con; CountingDsr dsr; ConsoleInput in;
    World(int mouse) : in((HANDLE)1, mouse, dsr, con) { in.setMouseWindowRect(SmallRect(0, 0, 80, 25)); g_log = &L; }
    void mode(DWORD m) { g_mode = m; in.updateInputFlags(); }
    void write(const std::string &s) { in.writeInput(s); }
    void later(DWORD ms) { g_tick += ms; in.flushIncompleteEscapeCode(); }
};
static bool is(int i, uint32_t down, uint32_t vk, uint32_t ch, uint32_t state) {
    return i < L.n && L.ev[i].kind == EV_KEY && L.ev[i].a == down && L.ev[i].b == vk && L.ev[i].c == ch && L.ev[i].d == state;
}
'''
B('altgr-char', 'I01', 'agent', [(CI, 'if (terminalAltEscape && (winKeyState & LEFT_CTRL_PRESSED)) {', 'if (winKeyState & LEFT_CTRL_PRESSED) {')],
  'a character that the keyboard layout makes with AltGr (Ctrl and Alt)', 'the character is lost: its key events carry code 0', IN + r'''
void demo() {
    inputWorld();
    w32.VkKeyScanW = [](WCHAR c) -> SHORT { return c == 0xb2 ? 0x632 : -1; };
    World w(0); w.mode(0xf7);
    w.write("\xc2\xb2");
    bool found = false;
    for (int i = 0; i < L.n; ++i) found = found || (L.ev[i].a == 1 && L.ev[i].c == 0xb2);
    CHECK(found, "an AltGr character is not typed");
}''')
B('alt-char-split', 'I02', 'agent', [(CI, 'if (1 + len > inputSize) {', 'if (len > inputSize) {')],
  'a multi-byte Alt character whose last byte arrives in another write', 'the character is dropped and its last byte is read as garbage', IN + r'''
void demo() {
    inputWorld(); g_vkMode = 0;
    World w(0); w.mode(0xf7);
    w.write("\x1b\xc3"); w.write("\xa9");
    bool found = false;
    for (int i = 0; i < L.n; ++i) found = found || L.ev[i].c == 0xe9;
    CHECK(found, "a split Alt character is lost");
}''')
B('tick-wrap', 'I03', 'agent', [(CI, '(GetTickCount() - m_lastWriteTick) > kIncompleteEscapeTimeoutMs', 'GetTickCount() > m_lastWriteTick + kIncompleteEscapeTimeoutMs')],
  'the 32-bit tick counter wraps around within a second of a lone ESC', 'the ESC is flushed early, or never', IN + r'''
void demo() {
    inputWorld(); g_vkMode = 0;
    g_tick = 0xfffffff0u;
    World w(0); w.mode(0xf7);
    w.write("\x1b"); 
    w.later(5);
    CHECK(L.n == 0, "ESC is flushed before the timeout");
    w.later(2000);
    CHECK(L.n == 2, "ESC is not flushed after the timeout");
}''')
B('numeric-at', 'I04', 'agent', [('src/agent/DefaultInputMap.cc', 'setEncoding(ctx, q, extraKeyState | SHIFT_PRESSED | LEFT_CTRL_PRESSED);', 'setEncoding(ctx, q, SHIFT_PRESSED | LEFT_CTRL_PRESSED);')],
  'a numeric key sequence with both a leading ESC (Alt) and the rxvt suffix @', 'Alt is lost from Ctrl+Shift+Alt keys', IN + r'''
void demo() {
    inputWorld(); g_vkMode = 0;
    World w(0); w.mode(0xf7);
    w.write("\x1b\x1b[15@");
    bool alt = false;
    for (int i = 0; i < L.n; ++i) if (L.ev[i].b == VK_F5 && L.ev[i].a) alt = (L.ev[i].d & LEFT_ALT_PRESSED) != 0;
    CHECK(alt, "Alt is lost");
}''')
B('altgr-release', 'I05', 'agent', [(CI, '''    if (rightAlt) {
        stepKeyState &= ~RIGHT_ALT_PRESSED;''', '''    if (rightAlt && !leftAlt) {
        stepKeyState &= ~RIGHT_ALT_PRESSED;''')],
  'ESC before a character that the layout makes with AltGr', 'the right Alt key stays down', IN + r'''
void demo() {
    inputWorld();
    w32.VkKeyScanW = [](WCHAR c) -> SHORT { return c == '@' ? 0x651 : -1; };
    World w(0); w.mode(0xf7);
    w.write("\x1b@");
    CHECK(L.n > 0 && L.n % 2 == 0 && (L.ev[L.n - 1].d & 0x1f) == 0, "a modifier is left down");
}''')
B('mouse-bottom', 'I06', 'agent', [(CI, '''std::max(0, std::min<int>(record.coord.Y,
                                      m_mouseWindowRect.height() - 1));''', '''std::max(0, std::min<int>(record.coord.Y,
                                      m_mouseWindowRect.width() - 1));''')],
  'a mouse report below the last row of a window that is wider than high', 'the console gets a mouse position outside its window', IN + r'''
void demo() {
    inputWorld();
    World w(2); w.mode(0x10 | 0x80);
    w.write("\x1b[<0;5;60M");
    CHECK(L.n == 1 && L.ev[0].kind == EV_MOUSE && L.ev[0].a == 4 && L.ev[0].b == 24, "the mouse event is outside the window");
}''')
B('dblclick-other', 'I07', 'agent', [(CI, '''                    // End double-click detection.
                    m_doubleClick = DoubleClickDetection();
                }
            } else''', '''                    // End double-click detection.
                    m_doubleClick.released = false;
                }
            } else''')],
  'left press and release, release of another button, left press again within the double-click time', 'a double click is reported although another button came between', IN + r'''
void demo() {
    inputWorld();
    World w(2); w.mode(0x10 | 0x80);
    w.write("\x1b[<0;5;6M"); w.write("\x1b[<0;5;6m"); w.write("\x1b[<2;5;6m"); w.write("\x1b[<0;5;6M");
    CHECK(L.n == 4 && L.ev[3].e == 0, "a double click is made up");
}''')
B('ctrlc-order', 'I08', 'agent', [(CI, '''        flushInputRecords(records);
        trace("Ctrl-C");''', '''        trace("Ctrl-C");''')],
  'typed text and Ctrl-C in one write', 'the interrupt overtakes the text typed before it', IN + r'''
void demo() {
    inputWorld(); g_vkMode = 0;
    World w(0); w.mode(0xf7);
    w.write("ab\x03");
    CHECK(L.n == 5 && L.ev[4].kind == EV_CTRLC, "Ctrl-C overtakes the text before it");
}''')
B('vt-home-ctrl', 'I09', 'agent', [(CI, '!ctrl && !leftAlt && !rightAlt && !shift) {', '!ctrl && !leftAlt && !rightAlt) {')],
  'a Shift+cursor key while the program has VT input on', 'Shift is lost', IN + r'''
void demo() {
    inputWorld(); g_vkMode = 0;
    World w(0); w.mode(0x2f7);
    w.write("\x1b[1;2A");
    std::string s;
    for (int i = 0; i < L.n; ++i) if (L.ev[i].kind == EV_KEY && L.ev[i].a && L.ev[i].b == 0) s += (char)L.ev[i].c;
    CHECK(s == "\x1b[1;2A", "Shift+Up is not sent as its sequence");
}''')
B('quickedit-none', 'I10', 'agent', [(CI, '''        } else {
            mode &= ~ENABLE_QUICK_EDIT_MODE;
        }''', '''        } else if (m_mouseMode == WINPTY_MOUSE_MODE_FORCE) {
            mode &= ~ENABLE_QUICK_EDIT_MODE;
        }''')],
  'mouse mode NONE and a console with quick edit on', 'quick edit stays on although the mouse is not to be used', IN + r'''
void demo() {
    inputWorld();
    g_mode = 0x40 | 0x80 | 7;
    World w(0);
    CHECK((g_mode & ENABLE_QUICK_EDIT_MODE) == 0, "quick edit stays on in mouse mode NONE");
}''')

OUT = r'''
#include <stdint.h>
#include <memory>
#include "demo.h"
#include "vt.h"
#include "pipe_out.h"
#include "agent/Terminal.h"
static Vt vt;
static CHAR_INFO cell[16];
static void put(int i, int c, int a) { cell[i].Char.UnicodeChar = c; cell[i].Attributes = a; }
static void show(OutLoop &l) { l.drain(); vt.feed(g_out.b, g_out.n); }
'''
B('wide-last', 'O01', 'agent', [(TE, 'if (i + cellCount == width) {', 'if (i + 1 == width) {')],
  'a double-width character in the last two columns', 'the erase after it removes part of the character', OUT + r'''
void demo() {
    pipeWorld();
    OutLoop l; Terminal t(l.pipe, false, true);
    vt.init(4);
    t.reset(Terminal::OmitClear, 0);
    put(0, 'a', 7); put(1, 'b', 7); put(2, 0x4e2d, 0x107); put(3, 0x4e2d, 0x207);
    t.sendLine(0, cell, 4, -1);
    show(l);
    CHECK(vt.ch[5][0] == 'a' && vt.ch[5][2] == 0x4e2d, "the last character is damaged");
    CHECK(std::string(g_out.b, g_out.n).rfind("\x1b[0K") < std::string(g_out.b, g_out.n).find("\xe4\xb8\xad"), "the line is erased after its last column was written");
}''')
B('surrogate-any', 'O02', 'agent', [(TE, 'if ((c1 & 0xFC00) != 0xD800 ||\n                width <= w1 ||', 'if (width <= w1 ||')],
  'two trailing surrogates side by side', 'a made-up character outside Unicode is sent', OUT + r'''
void demo() {
    pipeWorld();
    OutLoop l; Terminal t(l.pipe, false, true);
    t.reset(Terminal::OmitClear, 0);
    put(0, 0xdc01, 7); put(1, 0xdc02, 7); put(2, 'x', 7); put(3, ' ', 7);
    t.sendLine(0, cell, 4, -1);
    l.drain();
    CHECK(std::string(g_out.b, g_out.n).find("??x") != std::string::npos, "unpaired surrogates are not replaced");
}''')
B('plain-full', 'O03', 'agent', [(TE, 'if (!alreadyErasedLine && !m_plainMode) {', 'if (!alreadyErasedLine) {'), (TE, '                if (!m_plainMode) {\n                    termLine.append(CSI "0K"); // Erase from cursor to EOL\n                }\n                alreadyErasedLine = true;', '                if (!m_plainMode) {\n                    termLine.append(CSI "0K"); // Erase from cursor to EOL\n                }\n                alreadyErasedLine = true;\n            } else if (m_plainMode) {\n                alreadyErasedLine = true;')],
  'an empty line in plain mode', 'plain output contains an erase sequence', OUT + r'''
void demo() {
    pipeWorld();
    OutLoop l; Terminal t(l.pipe, true, false);
    t.reset(Terminal::OmitClear, 0);
    for (int i = 0; i < 4; ++i) put(i, ' ', 7);
    t.sendLine(0, cell, 4, -1);
    t.sendLine(1, cell, 4, -1);
    l.drain();
    CHECK(memchr(g_out.b, 27, g_out.n) == 0, "an escape sequence in plain output");
}''')
B('conceal-reverse', 'O04', 'agent', [(TE, '    if (fore == back) {', '    if ((color & 15) == ((color >> 4) & 15) && back != WHITE) {')],
  'white text on a white background', 'the text is not concealed', OUT + r'''
void demo() {
    pipeWorld();
    OutLoop l; Terminal t(l.pipe, false, true);
    t.reset(Terminal::OmitClear, 0);
    for (int i = 0; i < 4; ++i) put(i, 'x', 0xff);
    t.sendLine(0, cell, 4, -1);
    l.drain();
    CHECK(std::string(g_out.b, g_out.n).find(";7") != std::string::npos && std::string(g_out.b, g_out.n).find(";8") != std::string::npos, "equal colours are not concealed");
}''')
B('mouse-plain', 'O08', 'agent', [(TE, '''    if (m_mouseModeEnabled == enabled || m_plainMode) {
        return;
    }
    m_mouseModeEnabled = enabled;''', '''    const bool changed = m_mouseModeEnabled != enabled;
    m_mouseModeEnabled = enabled || (m_mouseModeEnabled && m_plainMode);
    if (!changed || (m_plainMode && enabled)) {
        return;
    }''')],
  'plain output, mouse mode enabled and then disabled', 'mouse sequences appear in plain output', OUT + r'''
void demo() {
    pipeWorld();
    OutLoop l; Terminal t(l.pipe, true, false);
    t.enableMouseMode(true); t.enableMouseMode(false); t.enableMouseMode(true); t.enableMouseMode(false);
    l.drain();
    CHECK(g_out.n == 0, "mouse sequences in plain output");
}''')
B('line-reexposed', 'O05', 'agent', [('src/agent/ConsoleLine.cc', '''                isLineBlank(m_prevData.data() + m_prevLength,
                            std::min<int>(m_prevData.size(), newLength) - m_prevLength,
                            prevBlank) &&
                isLineBlank(line''', '''                isLineBlank(line''')],
  'a window that shrinks over text and grows again onto blank cells', 'stale text that reappears at the terminal is not erased', r'''
#include "demo.h"
#include "w32.h"
#include "agent/ConsoleLine.h"
void demo() {
    w32_defaults();
    CHAR_INFO a[3];
    for (int i = 0; i < 3; ++i) { a[i].Char.UnicodeChar = i == 2 ? 'x' : ' '; a[i].Attributes = 7; }
    ConsoleLine l;
    l.detectChangeAndSetLine(a, 3);
    l.detectChangeAndSetLine(a, 2);
    a[2].Char.UnicodeChar = ' ';
    CHECK(l.detectChangeAndSetLine(a, 3), "a line with stale text at the terminal is not sent again");
}''')
B('read-rows', 'O06', 'agent', [('src/agent/LargeConsoleRead.cc', 'std::min(maxReadLines, readArea.Bottom + 1 - curLine));', 'std::min<int>(maxReadLines, readArea.height()));')],
  'old Windows and a rectangle that needs several reads', 'the last read runs past the rectangle', r'''
#include <vector>
#include "demo.h"
#include "w32.h"
#include "agent/LargeConsoleRead.h"
#include "agent/Scraper.h"
#include "agent/Win32ConsoleBuffer.h"
static int bottom = 0;
void demo() {
    w32_defaults();
    w32.GetVersionExW = [](LPOSVERSIONINFOW v) -> BOOL { v->dwMajorVersion = 6; v->dwMinorVersion = 1; return TRUE; };
    w32.GetStdHandle = [](DWORD) -> HANDLE { return (HANDLE)0x200; };
    w32.ReadConsoleOutputW = [](HANDLE, PCHAR_INFO, COORD, COORD, PSMALL_RECT r) -> BOOL { if (r->Bottom > bottom) bottom = r->Bottom; CHECK(r->Bottom < 45, "cells outside the rectangle are read"); return TRUE; };
    auto b = Win32ConsoleBuffer::openStdout();
    LargeConsoleReadBuffer out;
    largeConsoleRead(out, *b, SmallRect(0, 0, 120, 45), (WORD)~0);
    CHECK(bottom == 44, "the rectangle is not read to its end");
}''')

SCR = r'''
#define VT_ROWS 400
#define VT_COLS 80
#define OUT_MAX 400000
#include <stdint.h>
#include <memory>
#include "demo.h"
#include "w32.h"
#include "vt.h"
#include "con.h"
#include "pipe_out.h"
#include "agent/Scraper.h"
#include "agent/Terminal.h"
#include "agent/Win32Console.h"
#include "agent/Win32ConsoleBuffer.h"
static std::string g_all;
struct World {
    OutLoop loop; Win32Console console; std::unique_ptr<Win32ConsoleBuffer> buffer; std::unique_ptr<Scraper> s;
    World(int w, int rows, bool w10) {
        console.setNewW10(w10);
        buffer = Win32ConsoleBuffer::openStdout();
        s.reset(new Scraper(console, *buffer, std::unique_ptr<Terminal>(new Terminal(loop.pipe, false, true)), Coord(w, rows)));
    }
    void scrape() {
        ConsoleScreenBufferInfo info;
        { Win32Console::FreezeGuard g(console, console.frozen()); s->scrapeBuffer(*buffer, info); }
    }
    void resize(int w, int rows) {
        ConsoleScreenBufferInfo info;
        { Win32Console::FreezeGuard g(console, console.frozen()); s->resizeWindow(*buffer, Coord(w, rows), info); }
    }
    ~World() { }
    std::string take() { loop.drain(); return g_all = std::string(g_out.b, g_out.n); }
};
static void say(char c) { conPut(0, con.cy, c, 7); conNewLine(); }
// What is printed, in order, without control sequences and blanks.
static std::string text() {
    std::string r;
    for (size_t i = 0; i < g_all.size(); ++i) {
        if (g_all[i] == 27) { i += 2; while (i < g_all.size() && !isalpha(g_all[i])) ++i; continue; }
        if (g_all[i] > 32) r += g_all[i];
    }
    return r;
}
'''
B('race-full', 'O07', 'agent', [(SC, 'if (m_syncRow != -1 && m_syncRow != findSyncMarker()) {', 'if (m_syncRow != -1 && windowRect.Bottom + 1 < info.bufferSize().Y &&\n                m_syncRow != findSyncMarker()) {')],
  'Windows 10, a full console buffer and a program that prints a line while the agent reads the screen', 'a line is lost at the terminal and another is repeated', SCR + r'''
static int races;
void demo() {
    pipeWorld(); conWorld(4, 3000, 4);
    con.top = 2996; con.bottom = 2999; con.cy = 2996;
    World w(4, 4, true);
    con.top = 2996; con.bottom = 2999; con.cy = 2996;
    w.scrape();
    for (char c = 'a'; c < 'l'; ++c) { say(c); w.scrape(); }
    const int from = (int)w.loop.pipe.bytesToSend();
    races = 4;
    con.race = [] { if (races-- == 1) say('l'); };
    say('k'); w.scrape();
    con.race = nullptr;
    w.scrape(); w.scrape();
    w.take();
    static Vt vt; vt.init(4);
    for (int y = 0; y < VT_ROWS; ++y) for (int x = 0; x < VT_COLS; ++x) vt.ch[y][x] = ' ';
    vt.feed(g_out.b, g_out.n);
    std::string t;
    for (int y = 0; y < VT_ROWS; ++y) if (vt.ch[y][0] != ' ') t += (char)vt.ch[y][0];
    CHECK(t == "abcdefghijkkl", "lines are lost or repeated");
}''')
B('resize-dirty', 'A04', 'agent', [(SC, 'm_dirtyLineCount > finalWindowRect.Bottom + 1) {', 'm_dirtyLineCount > finalWindowRect.Bottom + visibleRows) {')],
  'a window made less high while text stands below the cursor', 'the text slides out of the window, so that later changes to it never reach the terminal', SCR + r'''
void demo() {
    pipeWorld(); conWorld(4, 3000, 7);
    World w(4, 7, false);
    con.cy = 600; con.top = 600; con.bottom = 606; w.scrape();
    for (char c = 'a'; c < 'g'; ++c) say(c);
    w.scrape();
    con.cy = 603; w.scrape();
    w.resize(4, 4);
    CHECK(con.bottom - con.top + 1 == 4 && con.cy >= con.top && con.cy <= con.bottom, "the window has another size");
    conPut(0, 605, 'Z', 7);
    w.scrape();
    w.take();
    CHECK(text().find('Z') != std::string::npos, "a change to a line is not sent");
}''')
B('direct-cursor', 'O10', 'agent', [(SC, 'cursor.Y - scrapeRect.Top;\n\n    if (!showTerminalCursor) {\n        m_terminal->hideTerminalCursor();\n    }\n\n    largeConsoleRead', 'cursor.Y - std::min(scrapeRect.Top, scrapeRect.Bottom);\n\n    if (!showTerminalCursor && consoleCursorVisible) {\n        m_terminal->hideTerminalCursor();\n    }\n\n    largeConsoleRead')],
  'a full-screen program that hides its cursor without changing the screen', 'the terminal still shows the cursor', SCR + r'''
void demo() {
    pipeWorld(); conWorld(4, 3000, 4);
    World w(4, 4, false);
    con.h = 4; con.top = 0; con.bottom = 3; con.cy = 1; con.cx = 1;
    w.scrape(); w.scrape();
    con.cursorVisible = false;
    w.scrape();
    w.take();
    CHECK(g_all.rfind("\x1b[?25l") != std::string::npos && (g_all.rfind("\x1b[?25h") == std::string::npos || g_all.rfind("\x1b[?25l") > g_all.rfind("\x1b[?25h")), "the cursor is shown though the console hides it");
}''')
