// A small model of the terminal that displays winpty's output.
#ifndef VT_H
#define VT_H
#include <stdint.h>
#include <string.h>
#include "wsym.h"

#ifndef VT_ROWS
#define VT_ROWS 12
#define VT_COLS 24
#endif
enum { VT_TRAIL = 0x7fffffff };
// A pen: foreground and background (0: the default, 1..16: a palette colour) and flags.
enum { PEN_BOLD = 0x10000, PEN_UNDERLINE = 0x20000, PEN_INVERSE = 0x40000, PEN_CONCEAL = 0x80000 };
static inline uint32_t penFg(uint32_t p) { return p & 0xff; }
static inline uint32_t penBg(uint32_t p) { return (p >> 8) & 0xff; }

static inline bool vtWide(uint32_t c) { return (c >= 0x3000 && c < 0xd800) || c >= 0x10000; }

struct Vt {
    uint32_t ch[VT_ROWS][VT_COLS], pen[VT_ROWS][VT_COLS];
    int x, y, width;
    bool wrap;              // the last column has been written
    uint32_t cur;           // the pen
    bool visible;           // the cursor
    int toggles;            // cursor hide and show commands
    int csi, sgr, newlines, clears; // counts of commands
    int mouse;              // bit per mouse mode: 1000 1002 1003 1005 1006 1015
    bool overwrote;         // something was printed or erased, or the line left, while the cursor was visible

    void init(int w) {
        for (int r = 0; r < VT_ROWS; ++r) for (int c = 0; c < VT_COLS; ++c) { ch[r][c] = 'X'; pen[r][c] = 0x0303; }
        x = 0; y = 5; width = w; wrap = false; cur = 0; visible = true; toggles = csi = sgr = newlines = clears = mouse = 0; overwrote = false;
    }
    void put(uint32_t c) {
        const int w = vtWide(c) ? 2 : 1;
        if (wrap || x + w > width) { wsym_fail("the output runs past the end of a line"); wsym_stop(); }
        ch[y][x] = c; pen[y][x] = cur;
        if (w == 2) { ch[y][x + 1] = VT_TRAIL; pen[y][x + 1] = cur; }
        if (x + w < width) x += w;
        else { x = width - 1; wrap = true; }
    }
    // Feeds bytes; every malformed byte is a violation.
    void feed(const char *s, int n) {
        int i = 0;
        while (i < n) {
            const uint32_t b = (uint8_t)s[i];
            if (b == 27) { i = command(s, n, i); continue; }
            if (b == 13) { x = 0; wrap = false; ++i; continue; }
            if (b == 10) { ++newlines; ++y; if (y >= VT_ROWS) { wsym_fail("harness: out of rows"); wsym_stop(); } ++i; continue; }
            int len = 1;
            uint32_t c = b;
            if (b >= 0x80) {
                len = b < 0xc2 ? 0 : b < 0xe0 ? 2 : b < 0xf0 ? 3 : b < 0xf5 ? 4 : 0;
                if (len == 0) { wsym_fail("the output is not UTF-8"); wsym_stop(); }
                if (i + len > n) { wsym_fail("the output ends inside a UTF-8 character"); wsym_stop(); }
                c = b & (0xff >> (len + 1));
                for (int k = 1; k < len; ++k) {
                    const uint32_t t = (uint8_t)s[i + k];
                    CHECK((t & 0xc0) == 0x80, "the output is not UTF-8");
                    c = c << 6 | (t & 0x3f);
                }
                CHECK(c >= (len == 2 ? 0x80u : len == 3 ? 0x800u : 0x10000u), "the output has an overlong UTF-8 character");
                CHECK((c < 0xd800) | (c > 0xdfff), "the output has a surrogate");
                CHECK(c <= 0x10ffff, "the output has a character beyond Unicode");
            }
            put(c);
            i += len;
        }
    }
    int command(const char *s, int n, int i) {
        if (i + 2 >= n || s[i + 1] != '[') { wsym_fail("the output has a stray ESC"); wsym_stop(); }
        int k = i + 2;
        bool priv = false;
        if (s[k] == '?') { priv = true; ++k; }
        uint32_t p[8]; int np = 0; bool have = false;
        p[0] = 0;
        for (; k < n; ++k) {
            const uint32_t d = (uint8_t)s[k] - '0';
            if (d <= 9) { p[np] = p[np] * 10 + d; have = true; continue; }
            if (s[k] == ';' && np < 7) { p[++np] = 0; continue; }
            break;
        }
        if (k >= n) { wsym_fail("the output ends inside a command"); wsym_stop(); }
        ++np;
        ++csi;
        const char f = s[k];
        if (!priv && f == 'K' && np == 1 && p[0] == 0) {
            if (wrap) { wsym_fail("an erase command after the last column erases it"); wsym_stop(); }
            for (int c = x; c < width; ++c) { ch[y][c] = ' '; pen[y][c] = cur; }
        } else if (!priv && f == 'm') {
            ++sgr;
            for (int j = 0; j < np; ++j) sgrParam(p[j]);
        } else if (!priv && f == 'G') {
            const int c = have ? (int)p[0] - 1 : 0;
            if (c < 0 || c >= width) { wsym_fail("the cursor is sent to a column outside the line"); wsym_stop(); }
            x = c; wrap = false;
        } else if (!priv && f == 'A') {
            const uint32_t up = have && p[0] ? p[0] : 1;
            if (up > (uint32_t)y) { wsym_fail("the cursor is sent up too far"); wsym_stop(); }
            y -= (int)up; wrap = false;
        } else if (!priv && f == 'H') {
            CHECK(np == 2 && p[0] == 1 && p[1] == 1, "the cursor is not sent home");
            x = 0; y = 0; wrap = false;
        } else if (!priv && f == 'J') {
            CHECK(p[0] == 2, "not the whole screen is cleared");
            ++clears;
            for (int r = 0; r < VT_ROWS; ++r) for (int c = 0; c < VT_COLS; ++c) { ch[r][c] = ' '; pen[r][c] = cur; }
        } else if (priv && (f == 'h' || f == 'l') && np == 1) {
            if (p[0] == 25) { visible = f == 'h'; ++toggles; }
            else {
                const int bit = p[0] == 1000 ? 1 : p[0] == 1002 ? 2 : p[0] == 1003 ? 4 : p[0] == 1005 ? 8 : p[0] == 1006 ? 16 : p[0] == 1015 ? 32 : 0;
                if (!bit) { wsym_fail("the output sets an unknown mode"); wsym_stop(); }
                mouse = f == 'h' ? mouse | bit : mouse & ~bit;
            }
        } else {
            wsym_fail("the output has an unknown command");
            wsym_stop();
        }
        return k + 1;
    }
    void sgrParam(uint32_t v) {
        if (v == 0) cur = 0;
        else if (v == 1) cur |= PEN_BOLD;
        else if (v == 4) cur |= PEN_UNDERLINE;
        else if (v == 7) cur |= PEN_INVERSE;
        else if (v == 8) cur |= PEN_CONCEAL;
        else if (v >= 30 && v <= 37) cur = (cur & ~0xffu) | (v - 30 + 1);
        else if (v >= 40 && v <= 47) cur = (cur & ~0xff00u) | (v - 40 + 1) << 8;
        else if (v >= 90 && v <= 97) cur = (cur & ~0xffu) | (v - 90 + 9);
        else if (v >= 100 && v <= 107) cur = (cur & ~0xff00u) | (v - 100 + 9) << 8;
        else { wsym_fail("the output has an unknown colour command"); wsym_stop(); }
    }
};

// The pen a console attribute stands for.
static inline uint32_t penOf(uint32_t attr) {
    // Console colours have blue as bit 0 and red as bit 2; terminals the reverse.
    static const uint8_t swap[16] = { 0, 4, 2, 6, 1, 5, 3, 7, 8, 12, 10, 14, 9, 13, 11, 15 };
    uint32_t fore = swap[attr & 15], back = swap[attr >> 4 & 15];
    if (attr & 0x4000) { const uint32_t t = fore; fore = back; back = t; }
    uint32_t pen;
    if (back == 0) pen = fore == 7 ? 0 : fore == 15 ? (uint32_t)PEN_BOLD : fore + 1;                  // the default background
    else if (back == 15) pen = PEN_INVERSE | (fore == 7 || fore == 0 ? 0 : (fore + 1) << 8);         // the default foreground as background
    else pen = (fore + 1) | (back + 1) << 8;
    if (fore == back) pen |= PEN_CONCEAL;
    if (attr & 0x8000) pen |= PEN_UNDERLINE;
    return pen;
}
#endif
