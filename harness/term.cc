// What a terminal shows after the agent's output.
#include <stdint.h>
#include "vt.h"
#include "pipe_out.h"
#include "agent/Terminal.h"

static Vt vt;
static const int64_t kBase = 5000000000LL;

struct Line { CHAR_INFO cell[8]; uint32_t want[8], pen[8]; int width; bool sent; };
static Line g_line[4];

// What a cell's character is shown as: never a control character.
static uint32_t shownAs(uint32_t c) {
    uint32_t r = ((c < 0x20) | ((c >= 0x7f) & (c <= 0x9f))) ? '?' : c;
    if (c == 0) r = ' ';
    r = c == 1 ? 0x2554 : c == 2 ? 0x2557 : c == 3 ? 0x255a : c == 4 ? 0x255d : c == 5 ? 0x2551 : c == 6 ? 0x2550 : r;
    return r;
}

// Fills a row of well-formed cells and what the terminal should show for each.
//   alpha bit 0: any narrow character (else printable ASCII), bit 1: wide characters, bit 2: surrogate pairs
static void fillLine(Line &l, int W, int alpha, uint32_t attrA, uint32_t attrB, bool color) {
    l.width = W;
    int i = 0;
    while (i < W) {
        int kind = 0;
        if ((alpha & 6) && i + 2 <= W) {
            kind = (int)wsym_concretize(nd_range("kind", 0, 2));
            if ((kind == 1 && !(alpha & 2)) || (kind == 2 && !(alpha & 4))) wsym_stop();
        }
        uint32_t attr = attrA;
        if (attrA != attrB && wsym_concretize(nd_bool("attr"))) attr = attrB;
        const uint32_t pen = color ? penOf(attr) : 0;
        const uint32_t c = nd_u16("char");
        if (kind == 0) {
            if (alpha & 1) wsym_assume((c < 0x3000) | (c > 0xdfff));
            else wsym_assume((c >= 32) & (c < 127));
            l.cell[i].Char.UnicodeChar = c; l.cell[i].Attributes = attr;
            l.want[i] = shownAs(c); l.pen[i] = pen;
            ++i;
        } else if (kind == 1) {
            wsym_assume((c >= 0x3000) & (c < 0xd800));
            l.cell[i].Char.UnicodeChar = l.cell[i + 1].Char.UnicodeChar = c;
            l.cell[i].Attributes = attr | 0x100; l.cell[i + 1].Attributes = attr | 0x200;
            l.want[i] = c; l.want[i + 1] = VT_TRAIL; l.pen[i] = l.pen[i + 1] = pen;
            i += 2;
        } else {
            const uint32_t lo = nd_u16("low");
            wsym_assume((c >= 0xd800) & (c < 0xdc00) & (lo >= 0xdc00) & (lo < 0xe000));
            l.cell[i].Char.UnicodeChar = c; l.cell[i + 1].Char.UnicodeChar = lo;
            l.cell[i].Attributes = l.cell[i + 1].Attributes = attr;
            l.want[i] = 0x10000 + ((c & 0x3ff) << 10) + (lo & 0x3ff); l.want[i + 1] = VT_TRAIL; l.pen[i] = l.pen[i + 1] = pen;
            i += 2;
        }
    }
    l.sent = true;
}

static void checkRow(int row, const Line &l) {
    for (int c = 0; c < l.width; ++c) {
        CHECK(vt.ch[row][c] == l.want[c], "the terminal shows another character than the console");
        CHECK(vt.pen[row][c] == l.pen[c], "the terminal shows other colours than the console");
    }
}

// K operations, each a line sent or the cursor shown.  With plain=0, the terminal shows every line as it was last sent.
extern "C" void harness_term() {
    pipeWorld();
    const int K = wsym_param("k", 2), W = wsym_param("w", 3), L = wsym_param("lines", 2), alpha = wsym_param("alpha", 0);
    const uint32_t A = wsym_param("a", 7), B = wsym_param("b", 0x1e);
    const bool color = wsym_param("color", 1) != 0, vary = wsym_param("vary", 0) != 0, cursors = wsym_param("cursors", 1) != 0;
    OutLoop loop;
    Terminal term(loop.pipe, false, color);
    struct Step { int line, end, kind, col; Line data; } st[4];
    const bool clear = wsym_concretize(nd_bool("clear first")) != 0;
    term.reset(clear ? Terminal::SendClear : Terminal::OmitClear, kBase);
    const int start = (int)loop.pipe.bytesToSend();
    for (int k = 0; k < K; ++k) {
        Step &s = st[k];
        s.line = L > 1 ? (int)wsym_concretize(nd_range("line", 0, L - 1)) : 0;
        s.kind = cursors && k > 0 ? (int)wsym_concretize(nd_bool("cursor")) : 0;
        if (s.kind) {
            s.col = (int)wsym_concretize(nd_range("column", 0, W - 1));
            term.showTerminalCursor(s.col, kBase + s.line);
        } else {
            const int w = vary ? (int)wsym_concretize(nd_range("width", 1, W)) : W;
            fillLine(s.data, w, alpha, A, B, color);
            s.col = (int)wsym_concretize(nd_range("cursor column", -1, W - 1));
            term.sendLine(kBase + s.line, s.data.cell, w, s.col);
        }
        s.end = (int)loop.pipe.bytesToSend();
    }
    loop.drain();
    vt.init(W);
    vt.feed(g_out.b, start);
    if (clear) { CHECK(vt.x == 0 && vt.y == 0 && vt.ch[7][3] == ' ', "the screen is not cleared"); vt.y = 5; }
    const int row0 = vt.y;
    int at = start;
    for (int k = 0; k < K; ++k) {
        const Step &s = st[k];
        vt.feed(g_out.b + at, s.end - at);
        at = s.end;
        CHECK(vt.y == row0 + s.line, "the terminal is on another line than the console");
        if (s.kind) {
            CHECK(vt.visible, "the cursor stays hidden");
            CHECK(vt.x == s.col && !vt.wrap, "the terminal's cursor is in another column than the console's");
        } else {
            vt.width = W;
            g_line[s.line] = s.data;
        }
        for (int l = 0; l < L; ++l) if (g_line[l].sent) checkRow(row0 + l, g_line[l]);
    }
    CHECK(at == g_out.n, "output is lost");
    wsym_log("bytes", g_out.n);
    wsym_log("commands", vt.csi);
    wsym_reach("done");
}

// Plain output: no commands but colours, and those only if wanted; a line repeated after a CR LF when it changed.
extern "C" void harness_term_plain() {
    pipeWorld();
    const int K = wsym_param("k", 2), W = wsym_param("w", 3), L = wsym_param("lines", 2), alpha = wsym_param("alpha", 0);
    const bool color = wsym_param("color", 0) != 0;
    OutLoop loop;
    Terminal term(loop.pipe, true, color);
    struct Step { int line, end, kind; Line data; } st[4];
    term.reset(wsym_concretize(nd_bool("clear first")) ? Terminal::SendClear : Terminal::OmitClear, kBase);
    CHECK(loop.pipe.bytesToSend() == 0, "plain output starts with a command");
    for (int k = 0; k < K; ++k) {
        Step &s = st[k];
        s.line = (int)wsym_concretize(nd_range("line", 0, L - 1));
        s.kind = (int)wsym_concretize(nd_range("kind of step", 0, 3));
        if (s.kind == 1) term.showTerminalCursor((int)wsym_concretize(nd_range("column", 0, W - 1)), kBase + s.line);
        else if (s.kind == 2) term.enableMouseMode(wsym_concretize(nd_bool("mouse")) != 0);
        else if (s.kind == 3) term.hideTerminalCursor();
        else {
            fillLine(s.data, W, alpha, 7, color ? 0x1e : 7, color);
            term.sendLine(kBase + s.line, s.data.cell, W, (int)wsym_concretize(nd_range("cursor column", -1, W - 1)));
        }
        s.end = (int)loop.pipe.bytesToSend();
    }
    loop.drain();
    vt.init(W);
    vt.y = 0;
    for (int c = 0; c < VT_ROWS; ++c) for (int i = 0; i < VT_COLS; ++i) { vt.ch[c][i] = ' '; vt.pen[c][i] = 0; }
    int at = 0;
    for (int k = 0; k < K; ++k) {
        const Step &s = st[k];
        vt.feed(g_out.b + at, s.end - at);
        at = s.end;
        CHECK(vt.csi == vt.sgr, "plain output has a command other than a colour");
        if (!color) CHECK(vt.sgr == 0, "plain output without colours has a colour command");
        if (s.kind == 0) {
            for (int c = 0; c < W; ++c) CHECK(vt.ch[vt.y][c] == s.data.want[c], "the printed line is not the console's");
            for (int c = 0; c < W; ++c) if (color && s.data.want[c] != ' ') CHECK(vt.pen[vt.y][c] == s.data.pen[c], "the printed line has other colours than the console's");
            if (vt.width > 0) { int e = W; while (e > 0 && s.data.want[e - 1] == ' ') --e; }
        }
    }
    wsym_log("bytes", g_out.n);
    wsym_log("newlines", vt.newlines);
    wsym_reach("done");
}

// The characters of arbitrary cells, read left to right.
static int textOf(const CHAR_INFO *cell, int W, uint32_t *out) {
    int n = 0;
    uint32_t pending = 0;   // a high surrogate waiting for its other half
    for (int i = 0; i < W; ) {
        const uint32_t c = cell[i].Char.UnicodeChar;
        int len = 1;
        if (i + 1 < W && ((cell[i].Attributes & 0x100) != 0) & ((cell[i + 1].Attributes & 0x200) != 0) & (c == cell[i + 1].Char.UnicodeChar)) len = 2;
        i += len;
        if (pending) {
            const uint32_t hi = pending;
            pending = 0;
            if (c >= 0xdc00 && c < 0xe000) { out[n++] = 0x10000 + ((hi - 0xd800) << 10) + (c - 0xdc00); continue; }
            out[n++] = '?';
        }
        if (c >= 0xd800 && c < 0xdc00) { pending = c; continue; }
        out[n++] = (c >= 0xdc00) & (c < 0xe000) ? '?' : shownAs(c);
    }
    if (pending) out[n++] = '?';
    return n;
}

// Arbitrary cells: whatever they hold, the output is UTF-8, no cell puts a control character into it, and every character is shown.
extern "C" void harness_term_any() {
    pipeWorld();
    const int K = wsym_param("k", 1), W = wsym_param("w", 3);
    const bool plain = wsym_param("plain", 0) != 0, color = wsym_param("color", 0) != 0;
    OutLoop loop;
    Terminal term(loop.pipe, plain, color);
    term.reset(Terminal::OmitClear, kBase);
    CHAR_INFO cell[8];
    for (int k = 0; k < K; ++k) {
        const int only = k > 0 ? (int)wsym_concretize(nd_range("changed cell", 0, W - 1)) : -1;
        for (int i = 0; i < W; ++i) {
            if (only >= 0 && i != only) continue;
            cell[i].Char.UnicodeChar = nd_u16("char");
            if (wsym_param("halves", 0)) { const uint32_t c = cell[i].Char.UnicodeChar; wsym_assume((c == 'a') | ((c >= 0xd800) & (c < 0xe000))); }
            uint32_t attr = nd_u16("attr") & (k > 0 ? 0 : 0x300);
            if (color) attr |= wsym_concretize(nd_bool("bright")) ? 0x1e : 7;
            else attr |= 7;
            cell[i].Attributes = attr;
        }
        term.sendLine(kBase, cell, W, -1);
    }
    loop.drain();
    // Scan: ESC only in [ 0 K, [ ? 25 l and colour commands; everything else is UTF-8.
    int i = 0, erases = 0, got = 0;
    uint32_t text[40];
    const char *s = g_out.b;
    const int n = g_out.n;
    while (i < n) {
        const uint32_t b = (uint8_t)s[i];
        if (b == 27) {
            if (i + 2 >= n || s[i + 1] != '[') { wsym_fail("the output has a stray ESC"); wsym_stop(); }
            i += 2;
            if (s[i] == '?') { CHECK(!plain && i + 3 < n && s[i + 1] == '2' && s[i + 2] == '5' && s[i + 3] == 'l', "the output has an unexpected command"); i += 4; continue; }
            while (i < n && ((s[i] >= '0' && s[i] <= '9') || s[i] == ';')) ++i;
            if (i < n && s[i] == 'K') { ++erases; CHECK(!plain, "plain output has an erase command"); }
            else CHECK(i < n && s[i] == 'm' && color, "the output has an unexpected command");
            ++i;
            continue;
        }
        if (b < 0x20) {
            CHECK(b == '\r' || (b == '\n' && plain), "a cell puts a control character into the output");
            got = 0;
            ++i;
            continue;
        }
        int len = b < 0x80 ? 1 : b < 0xc2 ? 0 : b < 0xe0 ? 2 : b < 0xf0 ? 3 : b < 0xf5 ? 4 : 0;
        if (len == 0 || i + len > n) { wsym_fail("the output is not UTF-8"); wsym_stop(); }
        uint32_t c = len == 1 ? b : b & (0xff >> (len + 1));
        for (int k = 1; k < len; ++k) { CHECK((s[i + k] & 0xc0) == 0x80, "the output is not UTF-8"); c = c << 6 | (s[i + k] & 0x3f); }
        if (len == 3) CHECK((c >= 0x800) & ((c < 0xd800) | (c > 0xdfff)), "the output is not UTF-8");
        if (len == 4) CHECK((c >= 0x10000) & (c <= 0x10ffff), "the output is not UTF-8");
        CHECK((c != 0x7f) & ((c < 0x80) | (c > 0x9f)), "a cell puts a control character into the output");
        if (got == 40) { wsym_fail("the output shows more characters than there are cells"); wsym_stop(); }
        text[got++] = c;
        i += len;
    }
    if (!plain) CHECK(erases == K, "a line is not erased exactly once");
    if (K == 1) {
        uint32_t want[8];
        int m = textOf(cell, W, want);
        for (int j = 0; j < got || j < m; ++j)
            CHECK((j < got ? text[j] : ' ') == (j < m ? want[j] : ' '), "the output has another character than the cells");
    }
    wsym_log("bytes", n);
    wsym_reach("done");
}

// Colours: one cell of every attribute, after a cell of another attribute.
extern "C" void harness_term_sgr() {
    pipeWorld();
    const bool plain = wsym_param("plain", 0) != 0;
    OutLoop loop;
    Terminal term(loop.pipe, plain, true);
    term.reset(Terminal::OmitClear, kBase);
    CHAR_INFO cell[2];
    const uint32_t a0 = wsym_param("first", 7);
    const uint32_t a1 = nd_u16("attr");
    cell[0].Char.UnicodeChar = 'a'; cell[0].Attributes = a0;
    cell[1].Char.UnicodeChar = 'b'; cell[1].Attributes = a1;
    term.sendLine(kBase, cell, 2, -1);
    loop.drain();
    vt.init(2);
    vt.feed(g_out.b, g_out.n);
    CHECK(vt.ch[5][0] == 'a' && vt.ch[5][1] == 'b', "a colour changes the text");
    CHECK(vt.pen[5][0] == penOf(a0), "the first cell has another colour");
    const uint32_t want = penOf(a1);
    CHECK(penFg(vt.pen[5][1]) == penFg(want), "the foreground is another colour");
    CHECK(penBg(vt.pen[5][1]) == penBg(want), "the background is another colour");
    CHECK((vt.pen[5][1] & ~0xffffu) == (want & ~0xffffu), "bold, inverse, conceal or underline differs");
    const uint32_t kColors = 0xc0ff;
    CHECK(vt.sgr == 1 + ((a0 & kColors) != (a1 & kColors)), "a colour command is sent without a change of colour, or not sent with one");
    wsym_log("pen", vt.pen[5][1]);
    wsym_reach("done");
}

// Mouse reporting and the cursor are toggled only when they change, and with matching commands.
extern "C" void harness_term_toggle() {
    pipeWorld();
    const int K = wsym_param("k", 4);
    const bool plain = wsym_param("plain", 0) != 0;
    OutLoop loop;
    Terminal term(loop.pipe, plain, true);
    term.reset(Terminal::OmitClear, kBase);
    bool on = false, hidden = false;
    vt.init(4);
    int end[8]; bool wantOn[8], wantHidden[8], idle[8];
    for (int k = 0; k < K; ++k) {
        const int op = (int)wsym_concretize(nd_range("op", 0, 3));
        idle[k] = false;
        if (op == 0 || op == 1) { idle[k] = on == (op == 1); term.enableMouseMode(op == 1); on = op == 1; }
        else if (op == 2) { idle[k] = hidden; term.hideTerminalCursor(); hidden = true; }
        else { idle[k] = !hidden; term.showTerminalCursor(0, kBase); hidden = false; }
        end[k] = (int)loop.pipe.bytesToSend(); wantOn[k] = on; wantHidden[k] = hidden;
    }
    loop.drain();
    int at = 0;
    for (int k = 0; k < K; ++k) {
        if (plain) CHECK(end[k] == at, "plain output has a command that sets a mode");
        if (idle[k]) CHECK(end[k] == at, "a state is set again that did not change");
        vt.feed(g_out.b + at, end[k] - at);
        at = end[k];
        if (plain) continue;
        CHECK(vt.visible == !wantHidden[k], "the cursor's visibility does not follow");
        const int reporting = vt.mouse & 7, encoding = vt.mouse & (16 | 32);
        if (wantOn[k]) CHECK(reporting == 7 && encoding == (16 | 32) && !(vt.mouse & 8), "mouse reporting is not fully enabled");
        else CHECK(vt.mouse == 0, "mouse reporting is not fully disabled");
    }
    wsym_log("bytes", g_out.n);
    wsym_reach("done");
}
