// An independent statement of what terminal input means: the console events a byte stream must produce.
// It is written from the documented encodings (xterm, rxvt, putty, linux, VTE, konsole) as a grammar, not as a table of
// expanded sequences, and shares no code with the agent.
#ifndef IN_REF_H
#define IN_REF_H
#include "in_common.h"

typedef unsigned char u8;

struct RefKey { int vk; uint32_t ch; uint32_t st; };

// st bits: the console's own control-key-state bits.
enum { R_RALT = 1, R_LALT = 2, R_LCTRL = 8, R_SHIFT = 0x10, R_ENH = 0x100 };

struct RefInput {
    EvLog *log;
    u8 q[64]; int qn;
    bool dsrPending; int dsrCount;
    DWORD lastTick;
    DWORD mode;              // flags latched at the last poll
    SmallRect win;
    uint32_t buttons;
    uint32_t dcButton; int dcX, dcY; DWORD dcTick;

    void init(EvLog *l, DWORD m) { log = l; qn = 0; dsrPending = false; dsrCount = 0; lastTick = 0; mode = m; win = SmallRect(); buttons = 0; dcButton = 0; dcX = dcY = 0; dcTick = 0; }
    bool vt() const { return (mode & 0x200) != 0; }

    void ev(uint32_t kind, uint32_t a, uint32_t b, uint32_t c, uint32_t d, uint32_t e) {
        if (log->n >= 160) { wsym_fail("harness: reference log full"); wsym_stop(); }
        Ev x = { kind, a, b, c, d, e }; log->ev[log->n++] = x;
    }
    void key(bool down, uint32_t vk, uint32_t ch, uint32_t st) { ev(EV_KEY, down, vk, ch, st, 1u | ((vk ^ 0x55) & 0xffff) << 16); }
    void chars(bool down, uint32_t vk, uint32_t cp, uint32_t st) {
        if (cp >= 0x10000) {
            key(down, vk, 0xd7c0 + (cp >> 10), st);
            key(down, vk, 0xdc00 | (cp & 0x3ff), st);
        } else key(down, vk, cp, st);
    }

    // ---- what a program with VT input receives for a key
    void vtKey(int vk, uint32_t cp, uint32_t st) {
        const int mod = (st & R_SHIFT ? 1 : 0) + (st & R_LALT ? 2 : 0) + (st & R_LCTRL ? 4 : 0);
        int num = 0; char let = 0;
        switch (vk) {
        case VK_UP: let = 'A'; break;    case VK_DOWN: let = 'B'; break;
        case VK_RIGHT: let = 'C'; break; case VK_LEFT: let = 'D'; break;
        case VK_CLEAR: let = 'E'; break; case VK_HOME: let = 'H'; break; case VK_END: let = 'F'; break;
        case VK_INSERT: num = 2; break;  case VK_DELETE: num = 3; break;
        case VK_PRIOR: num = 5; break;   case VK_NEXT: num = 6; break;
        case VK_F1: case VK_F2: case VK_F3: case VK_F4: case VK_F5: num = 11 + vk - VK_F1; break;
        case VK_F6: case VK_F7: case VK_F8: case VK_F9: case VK_F10: num = 17 + vk - VK_F6; break;
        case VK_F11: case VK_F12: num = 23 + vk - VK_F11; break;
        }
        if (num || let) {
            key(1, 0, 27, 0); key(1, 0, '[', 0);
            if (num >= 10) key(1, 0, '0' + num / 10, 0);
            if (num) key(1, 0, '0' + num % 10, 0);
            if (let && mod) key(1, 0, '1', 0);
            if (mod) { key(1, 0, ';', 0); key(1, 0, '1' + mod, 0); }
            key(1, 0, num ? '~' : let, 0);
        } else if (vk == VK_BACK) {
            if (st & R_LALT) key(1, 0, 27, 0);
            key(1, 0, 0x7f, 0);
        } else if (vk == VK_TAB && (st & R_SHIFT)) {
            key(1, 0, 27, 0); key(1, 0, '[', 0); key(1, 0, 'Z', 0);
        } else if (cp) {
            if (st & R_LALT) key(1, 0, 27, 0);
            chars(1, 0, cp, 0);
        }
    }

    // ---- one keypress
    void press(int vk, uint32_t dn, uint32_t up, uint32_t st, uint32_t vtCp, uint32_t vtSt) {
        if (vt() && !(st & (R_LCTRL | R_LALT | R_RALT | R_SHIFT)) &&
                (vk == VK_UP || vk == VK_DOWN || vk == VK_LEFT || vk == VK_RIGHT || vk == VK_HOME || vk == VK_END)) {
            uint32_t sc = vk ^ 0x55;
            if (sc > 255) sc = 0;
            ev(EV_HWND, WM_KEYDOWN, vk, sc << 16 | 1, 0, 0);
            ev(EV_HWND, WM_KEYUP, vk, sc << 16 | 0xc0000001u, 0, 0);
            return;
        }
        static const uint32_t order[4][2] = { { R_LCTRL, VK_CONTROL }, { R_LALT, VK_MENU }, { R_RALT, VK_MENU }, { R_SHIFT, VK_SHIFT } };
        uint32_t s = 0;
        for (int i = 0; i < 4; ++i)
            if (st & order[i][0]) { s |= order[i][0]; key(1, order[i][1], 0, s | (order[i][0] == R_RALT ? R_ENH : 0)); }
        const uint32_t enh = st & R_ENH;
        if (vt()) vtKey(vk, vtCp, vtSt); else chars(1, vk, dn, s | enh);
        chars(0, vk, up, s | enh);
        for (int i = 3; i >= 0; --i)
            if (st & order[i][0]) { s &= ~order[i][0]; key(0, order[i][1], 0, s | (order[i][0] == R_RALT ? R_ENH : 0)); }
    }

    // ---- characters
    // 0: bad lead byte; else the length the lead byte announces
    static int u8len(u8 c) { return c < 0x80 ? 1 : c < 0xc0 ? 0 : c < 0xe0 ? 2 : c < 0xf0 ? 3 : c < 0xf8 ? 4 : 0; }
    static bool decode(const u8 *p, int n, uint32_t &cp) {
        static const uint32_t least[5] = { 0, 0, 0x80, 0x800, 0x10000 };
        cp = n == 1 ? p[0] : p[0] & (0xffu >> (n + 1));
        for (int i = 1; i < n; ++i) { if ((p[i] >> 6) != 2) return false; cp = cp << 6 | (p[i] & 63); }
        return cp >= least[n] && cp < 0x110000 && (cp < 0xd800 || cp >= 0xe000);
    }
    void character(const u8 *p, int n, bool alt) {
        uint32_t cp;
        if (!decode(p, n, cp)) return;
        uint32_t st = 0, dn = cp, up = cp; int vk = 0;
        if (cp < 0x10000) {
            const int sc = vkScan((WCHAR)cp);
            if (sc != -1) {
                vk = sc & 0xff;
                if (sc & 0x100) st |= R_SHIFT;
                if (sc & 0x200) st |= R_LCTRL;
                if (sc & 0x400) st |= R_RALT;
                if (alt && (sc & 0x200)) dn = up = 0;
            }
        }
        if (alt) { st |= R_LALT; up = 0; }
        press(vk, dn, up, st, cp, alt ? R_LALT : 0);
    }

    // ---- key escape sequences.  Returns the length matched, 0 none, -1 could still become one.
    static int letterKey(u8 pre, u8 c, RefKey &k, int &forms) { // forms: 1 bare, 2 digit+letter, 4 "1;digit" letter, 8 no Alt prefix
        k.ch = 0; k.st = 0;
        if (pre == '[') {
            switch (c) {
            case 'A': k.vk = VK_UP; forms = 7; return 1;   case 'B': k.vk = VK_DOWN; forms = 7; return 1;
            case 'C': k.vk = VK_RIGHT; forms = 7; return 1; case 'D': k.vk = VK_LEFT; forms = 7; return 1;
            case 'H': k.vk = VK_HOME; forms = 7; return 1; case 'F': k.vk = VK_END; forms = 7; return 1;
            case 'E': case 'G': k.vk = VK_CLEAR; forms = 5; return 1;
            case 'a': k.vk = VK_UP; k.st = R_SHIFT; forms = 1; return 1;   case 'b': k.vk = VK_DOWN; k.st = R_SHIFT; forms = 1; return 1;
            case 'c': k.vk = VK_RIGHT; k.st = R_SHIFT; forms = 1; return 1; case 'd': k.vk = VK_LEFT; k.st = R_SHIFT; forms = 1; return 1;
            case 'P': k.vk = VK_F1; forms = 4; return 1; case 'Q': k.vk = VK_F2; forms = 4; return 1;
            case 'R': k.vk = VK_F3; forms = 4; return 1; case 'S': k.vk = VK_F4; forms = 4; return 1;
            case 'Z': k.vk = VK_TAB; k.ch = 9; k.st = R_SHIFT; forms = 1 | 8; return 1;
            }
            forms = 5;
        } else {
            switch (c) {
            case 'A': k.vk = VK_UP; forms = 1; return 1;   case 'B': k.vk = VK_DOWN; forms = 1; return 1;
            case 'C': k.vk = VK_RIGHT; forms = 1; return 1; case 'D': k.vk = VK_LEFT; forms = 1; return 1;
            case 'H': k.vk = VK_HOME; forms = 1; return 1; case 'F': k.vk = VK_END; forms = 1; return 1;
            case 'G': k.vk = VK_CLEAR; forms = 1; return 1;
            case 'a': k.vk = VK_UP; k.st = R_LCTRL; forms = 1; return 1;   case 'b': k.vk = VK_DOWN; k.st = R_LCTRL; forms = 1; return 1;
            case 'c': k.vk = VK_RIGHT; k.st = R_LCTRL; forms = 1; return 1; case 'd': k.vk = VK_LEFT; k.st = R_LCTRL; forms = 1; return 1;
            case 'P': k.vk = VK_F1; forms = 7 | 8; return 1; case 'Q': k.vk = VK_F2; forms = 7 | 8; return 1;
            case 'R': k.vk = VK_F3; forms = 7 | 8; return 1; case 'S': k.vk = VK_F4; forms = 7 | 8; return 1;
            }
            forms = 3;
        }
        switch (c) { // the numeric keypad
        case 'M': k.vk = VK_RETURN; k.ch = '\r'; return 1; case 'j': k.vk = VK_MULTIPLY; k.ch = '*'; return 1;
        case 'k': k.vk = VK_ADD; k.ch = '+'; return 1;     case 'm': k.vk = VK_SUBTRACT; k.ch = '-'; return 1;
        case 'n': k.vk = VK_DELETE; return 1; case 'o': k.vk = VK_DIVIDE; k.ch = '/'; return 1;
        case 'p': k.vk = VK_INSERT; return 1; case 'q': k.vk = VK_END; return 1; case 'r': k.vk = VK_DOWN; return 1;
        case 's': k.vk = VK_NEXT; return 1;   case 't': k.vk = VK_LEFT; return 1; case 'u': k.vk = VK_CLEAR; return 1;
        case 'v': k.vk = VK_RIGHT; return 1;  case 'w': k.vk = VK_HOME; return 1; case 'x': k.vk = VK_UP; return 1;
        case 'y': k.vk = VK_PRIOR; return 1;
        }
        return 0;
    }
    static bool numberKey(int n, RefKey &k) {
        k.ch = 0; k.st = 0;
        switch (n) {
        case 1: case 7: k.vk = VK_HOME; return true; case 4: case 8: k.vk = VK_END; return true;
        case 2: k.vk = VK_INSERT; return true; case 3: k.vk = VK_DELETE; return true;
        case 5: k.vk = VK_PRIOR; return true;  case 6: k.vk = VK_NEXT; return true;
        case 11: case 12: case 13: case 14: case 15: k.vk = VK_F1 + n - 11; return true;
        case 17: case 18: case 19: case 20: case 21: k.vk = VK_F6 + n - 17; return true;
        case 23: case 24: k.vk = VK_F11 + n - 23; return true;
        case 25: case 26: k.vk = VK_F3 + n - 25; k.st = R_SHIFT; return true;
        case 28: case 29: k.vk = VK_F5 + n - 28; k.st = R_SHIFT; return true;
        case 31: case 32: case 33: case 34: k.vk = VK_F7 + n - 31; k.st = R_SHIFT; return true;
        }
        return false;
    }
    static uint32_t modState(int m) { --m; return (m & 1 ? R_SHIFT : 0) | (m & 2 ? R_LALT : 0) | (m & 4 ? R_LCTRL : 0); }
    static void finish(RefKey &k, uint32_t extra) {
        k.st |= extra;
        if (k.st & R_LCTRL) {
            if (k.vk == VK_ADD || k.vk == VK_SUBTRACT || k.vk == VK_MULTIPLY || k.vk == VK_DIVIDE) k.ch = 0;
            if (k.vk == VK_RETURN) k.ch = '\n';
        }
        switch (k.vk) {
        case VK_UP: case VK_DOWN: case VK_LEFT: case VK_RIGHT: case VK_INSERT: case VK_DELETE: case VK_HOME: case VK_END: case VK_PRIOR: case VK_NEXT:
            k.st |= R_ENH;
        }
    }
    static bool letter(u8 pre, u8 c, int form, bool alt, uint32_t extra, RefKey &k) {
        int forms;
        if (!letterKey(pre, c, k, forms) || !(forms & form) || (alt && (forms & 8))) return false;
        finish(k, extra);
        return true;
    }
    static uint32_t sufState(u8 c) { return c == '$' ? R_SHIFT : c == '^' ? R_LCTRL : c == '@' ? R_SHIFT | R_LCTRL : 0; }
    static bool isSuf(u8 c) { return c == '~' || c == '$' || c == '^' || c == '@'; }
    static int keyseq(const u8 *p, int n, RefKey &k) {
        if (p[0] == 0x7f) { k.vk = VK_BACK; k.ch = 8; k.st = 0; return 1; }
        if (p[0] == 3) { k.vk = 'C'; k.ch = 3; k.st = R_LCTRL; return 1; }
        if (p[0] != 27) return 0;
        int i = 1;
        bool alt = false;
        if (i == n) return -1;
        if (p[i] == 0x7f) { k.vk = VK_BACK; k.ch = 8; k.st = R_LALT; return 2; }
        if (p[i] == 27) { alt = true; ++i; if (i == n) return -1; }
        const uint32_t base = alt ? R_LALT : 0;
        const u8 pre = p[i++];
        if (pre != '[' && pre != 'O') return 0;
        if (i == n) return -1;
        const u8 c = p[i++];
        if (letter(pre, c, 1, alt, base, k)) return i;
        if (pre == '[' && c == '[') { // the linux console's F1 to F5
            if (i == n) return -1;
            if (p[i] < 'A' || p[i] > 'E') return 0;
            k.vk = VK_F1 + p[i] - 'A'; k.ch = 0; k.st = 0;
            finish(k, base);
            return i + 1;
        }
        if (c < '1' || c > '8') return 0;
        if (pre == 'O') {
            if (i == n) return (c == '1' ? !alt : true) ? -1 : 0;  // only F1 to F4 have the "1;" form here, and only without Alt
            const u8 d = p[i++];
            if (c == '1') {
                if (d != ';' || alt) return 0;
                if (i == n) return -1;
                const u8 m = p[i++];
                if (m < '2' || m > '8') return 0;
                if (i == n) return -1;
                return letter(pre, p[i], 4, alt, base | modState(m - '0'), k) ? i + 1 : 0;
            }
            return letter(pre, d, 2, alt, base | modState(c - '0'), k) ? i : 0;
        }
        if (i == n) return -1;
        u8 d = p[i++];
        int num = c - '0';
        if (d >= '0' && d <= '9' && c <= '3') {
            num = num * 10 + d - '0';
            if (!numberKey(num, k)) return 0;
            if (i == n) return -1;
            d = p[i++];
        } else if (c != '1' && letter(pre, d, 2, alt, base | modState(num), k)) {
            return i;
        }
        if (isSuf(d)) {
            if (!numberKey(num, k)) return 0;
            finish(k, base | sufState(d));
            return i;
        }
        if (d != ';') return 0;
        if (!numberKey(num, k)) return 0;
        if (i == n) return -1;
        const u8 m = p[i++];
        if (m < '2' || m > '8') return 0;
        if (i == n) return -1;
        if (num == 1 && letter(pre, p[i], 4, alt, base | modState(m - '0'), k)) return i + 1;
        if (!isSuf(p[i])) return 0;
        numberKey(num, k);
        finish(k, base | modState(m - '0') | sufState(p[i]));
        return i + 1;
    }

    // ---- reports.  p[0] is ESC.  Returns the length, 0 no, -1 could still become one.
    // Reads 1 to 7 digits with an optional sign; false: not a number (or too long); i == n: unfinished.
    static int number(const u8 *p, int n, int &i, bool sign, int &v) {
        bool neg = false;
        v = 0;
        if (sign && p[i] == '-') { neg = true; if (++i == n) return -1; }
        int d = 0;
        while (p[i] >= '0' && p[i] <= '9') {
            if (d == 7) return 0;
            ++d;
            v = v * 10 + (p[i] - '0');
            if (++i == n) return -1;
        }
        if (d == 0) return 0;
        if (neg) v = -v;
        return 1;
    }
    static int dsr(const u8 *p, int n) {
        int i = 1, v, r;
        if (i == n) return -1;
        if (p[i] != '[') return 0;
        if (++i == n) return -1;
        if ((r = number(p, n, i, false, v)) != 1) return r;
        if (p[i] != ';') return 0;
        if (++i == n) return -1;
        if ((r = number(p, n, i, false, v)) != 1) return r;
        return p[i] == 'R' ? i + 1 : 0;
    }
    struct Mouse { int flags, x, y; bool release; };
    static int sat(int v) { return v > 32767 ? 32767 : v < -32768 ? -32768 : v; }
    static int mouse(const u8 *p, int n, Mouse &m) {
        int i = 1, r;
        m.release = false;
        if (i == n) return -1;
        if (p[i] != '[') return 0;
        if (++i == n) return -1;
        if (p[i] == 'M') {
            if (n < i + 4) return -1;
            m.flags = (u8)(p[i + 1] - 32); m.x = (u8)(p[i + 2] - 33); m.y = (u8)(p[i + 3] - 33);
            return i + 4;
        }
        bool sgr = false;
        if (p[i] == '<') { sgr = true; if (++i == n) return -1; }
        if ((r = number(p, n, i, false, m.flags)) != 1) return r;
        if (!sgr) m.flags -= 32;
        if (p[i] != ';') return 0;
        if (++i == n) return -1;
        if ((r = number(p, n, i, true, m.x)) != 1) return r;
        if (p[i] != ';') return 0;
        if (++i == n) return -1;
        if ((r = number(p, n, i, true, m.y)) != 1) return r;
        m.x = sat(m.x - 1); m.y = sat(m.y - 1);   // positions are 16-bit
        if (p[i] == 'M') return i + 1;
        if (sgr && p[i] == 'm') { m.release = true; return i + 1; }
        return 0;
    }
    static int clampTo(int v, int size) { return v >= size ? size - 1 : v < 0 ? 0 : v; }
    void mouseEvent(const Mouse &m) {
        const int b = m.flags & 3;
        uint32_t ctl = (m.flags & 4 ? R_SHIFT : 0) | (m.flags & 8 ? R_LALT : 0) | (m.flags & 16 ? R_LCTRL : 0), fl = 0, bs = 0;
        if (m.flags & 64) {
            if (b >= 2) return;
            fl = MOUSE_WHEELED;
            bs = b == 0 ? 0x00780000u : 0xff880000u;
        } else {
            if (m.flags & 32) fl |= MOUSE_MOVED;
            if (b == 3) buttons = 0;
            else {
                const uint32_t bit = b == 0 ? 1 : b == 1 ? 4 : 2;
                if (m.release) {
                    buttons &= ~bit;
                    if (dcButton != bit) dcButton = 0, dcX = dcY = 0, dcTick = 0;
                } else if (!(buttons & bit)) {
                    buttons |= bit;
                    if (dcButton == bit && dcX == m.x && dcY == m.y && g_tick - dcTick < 500) {
                        fl |= DOUBLE_CLICK;
                        dcButton = 0; dcX = dcY = 0; dcTick = 0;
                    } else { dcButton = bit; dcX = m.x; dcY = m.y; dcTick = g_tick; }
                }
            }
        }
        bs |= buttons;
        if ((mode & ENABLE_MOUSE_INPUT) && !(mode & ENABLE_QUICK_EDIT_MODE))
            ev(EV_MOUSE, (uint16_t)(win.Left + clampTo(m.x, win.Right - win.Left + 1)), (uint16_t)(win.Top + clampTo(m.y, win.Bottom - win.Top + 1)), bs, ctl, fl);
    }

    // ---- the stream.  Returns the bytes used, or -1 to wait.
    int one(const u8 *p, int n, bool eof) {
        if (p[0] == 3 && (g_mode & ENABLE_PROCESSED_INPUT)) { ev(EV_CTRLC, CTRL_C_EVENT, 0, 0, 0, 0); return 1; }
        if (p[0] == 27) {
            int r = dsr(p, n);
            if (r > 0) { dsrPending = false; return r; }
            if (r < 0 && !eof) return -1;
            Mouse m;
            r = mouse(p, n, m);
            if (r > 0) { mouseEvent(m); return r; }
            if (r < 0 && !eof) return -1;
        }
        RefKey k;
        const int r = keyseq(p, n, k);
        if (r < 0 && !eof) return -1;
        if (r > 0) {
            uint32_t dn = k.ch;
            if ((k.st & R_LCTRL) && (k.st & R_LALT)) dn = 0;
            press(k.vk, dn, k.st & R_LALT ? 0 : dn, k.st, k.ch, k.st);
            return r;
        }
        if (p[0] == 27 && n >= 2 && p[1] != 27) {
            const int l = u8len(p[1]);
            if (l) {
                if (1 + l > n) return -1;
                character(p + 1, l, true);
                return 1 + l;
            }
        }
        const int l = u8len(p[0]);
        if (l == 0) return 1;
        if (l > n) return -1;
        character(p, l, false);
        return l;
    }
    void run(bool eof) {
        int i = 0;
        while (i < qn) {
            const int r = one(q + i, qn - i, eof);
            if (r < 0) break;
            i += r;
        }
        for (int j = i; j < qn; ++j) q[j - i] = q[j];
        qn -= i;
    }
    void write(const char *s, int n) {
        if (n == 0) return;
        if (qn + n > 64) { wsym_fail("harness: reference queue full"); wsym_stop(); }
        for (int i = 0; i < n; ++i) q[qn++] = (u8)s[i];
        run(false);
        if (qn && !dsrPending) { ++dsrCount; dsrPending = true; }
        lastTick = g_tick;
    }
    void timer() {
        if (qn && g_tick - lastTick > 1000) { run(true); qn = 0; }
    }
};
#endif
