// Terminal input against the reference of in_ref.h.
#include "in_ref.h"

static EvLog A, B;

struct Pair {
    Win32Console con;
    CountingDsr dsr;
    ConsoleInput *in;
    RefInput ref;
    int dsrReal;
    void start(DWORD mode) {
        g_mode = mode;
        in = new ConsoleInput((HANDLE)1, wsym_param("mouse", WINPTY_MOUSE_MODE_NONE), dsr, con);
        g_mode = mode;      // the constructor's own change is not what these harnesses vary
        in->updateInputFlags();
        ref.init(&B, mode);
        g_dsr = 0;
        g_log = &A;
    }
    void window(SmallRect w) { in->setMouseWindowRect(w); ref.win = w; }
    void poll(DWORD mode) { g_mode = mode; in->updateInputFlags(); ref.mode = mode; }
    void write(const char *s, int n) { in->writeInput(std::string(s, n)); ref.write(s, n); compare(); }
    void timer() { in->flushIncompleteEscapeCode(); ref.timer(); compare(); }
    void compare() {
        CHECK(A.n == B.n, "the number of console events differs from what the input encodes");
        for (int i = 0; i < A.n; ++i) checkSame(A.ev[i], B.ev[i], "a console event differs from what the input encodes");
        CHECK(g_dsr == ref.dsrCount, "a device-status request was sent, or not sent, at the wrong time");
        wsym_log("events", A.n);
        wsym_log("requests", g_dsr);
        for (int i = 0; i < A.n && i < 6; ++i) wsym_log("event", (long long)A.ev[i].b << 32 | A.ev[i].c << 8 | A.ev[i].d);
        A.n = B.n = 0;
    }
};

static DWORD symMode(int which) {
    // 0: fixed, processed input; 1: processed/VT arbitrary; 2: every relevant flag arbitrary
    if (which == 0) return 0xf7;
    if (which == 3) return 0xf7 & ~ENABLE_QUICK_EDIT_MODE;  // mouse input on
    if (which == 4) return 0x2f7;                           // VT input
    if (which == 5) return 0xf6;                            // unprocessed
    DWORD m = 0xf0;
    if (nd_bool("processed")) m |= ENABLE_PROCESSED_INPUT;
    if (nd_bool("vt")) m |= 0x200;
    if (which == 2) {
        m &= ~0x50;
        if (nd_bool("mouse input")) m |= ENABLE_MOUSE_INPUT;
        if (nd_bool("quick edit")) m |= ENABLE_QUICK_EDIT_MODE;
    }
    return m;
}

// n arbitrary bytes in one write, then (flush=1) the timeout.  first: 0 any; 1 the first is not ESC; 2 it is ESC.
extern "C" void harness_in_ref() {
    inputWorld();
    g_vkMode = wsym_param("vk", 0);
    const int n = wsym_param("n", 4), first = wsym_param("first", 0);
    char buf[32];
    wsym_symbolic(buf, n, "in");
    if (first == 1) wsym_assume(buf[0] != 27);
    if (first == 2) wsym_assume(buf[0] == 27);
    if (wsym_param("noesc", 0)) for (int i = 0; i < n; ++i) wsym_assume(buf[i] != 27);
    if (wsym_param("text", 0)) for (int i = 0; i < n; ++i) wsym_assume((unsigned char)buf[i] >= 32 && buf[i] != 127);
    if (wsym_param("lead", 0)) wsym_assume((unsigned char)buf[first == 2] >= wsym_param("lead", 0));  // a multi-byte character
    Pair p;
    p.start(symMode(wsym_param("mode", 1)));
    p.window(SmallRect(0, 0, 80, 25));
    p.write(buf, n);
    if (wsym_param("flush", 1)) {
        g_tick += 1001;
        p.timer();
    }
    wsym_reach("done");
}

// A key escape sequence of n bytes: ESC, then (alt=1) another ESC, then '[' or 'O', then parameter bytes and an arbitrary last byte.
extern "C" void harness_in_seq() {
    inputWorld();
    g_vkMode = 0;
    const int n = wsym_param("n", 5), alt = wsym_param("alt", 0);
    char buf[32];
    wsym_symbolic(buf, n, "in");
    buf[0] = 27;
    if (alt) buf[1] = 27;
    buf[1 + alt] = wsym_param("ss3", 0) ? 'O' : '[';
    for (int i = 2 + alt; i < n - 1; ++i) {
        const char c = buf[i];
        wsym_assume((c >= '0' && c <= '9') | (c == ';') | (c == '['));
    }
    Pair p;
    p.start(symMode(wsym_param("mode", 1)));
    p.window(SmallRect(0, 0, 80, 25));
    p.write(buf, n);
    g_tick += 1001;
    p.timer();
    wsym_reach("done");
}

// A script of writes and timer ticks at arbitrary times: what is held, when it is released, and when a request is sent.
extern "C" void harness_in_time() {
    inputWorld();
    g_vkMode = 0;
    const int n1 = wsym_param("n1", 2), n2 = wsym_param("n2", 1), n3 = wsym_param("n3", 1), esc = wsym_param("esc", 1);
    char a[16], b[16], c[16];
    wsym_symbolic(a, n1, "first");
    wsym_symbolic(b, n2, "second");
    wsym_symbolic(c, n3, "third");
    if (esc) wsym_assume(a[0] == 27);
    g_tick = nd_u32("start tick");
    Pair p;
    p.start(symMode(0));
    p.window(SmallRect(0, 0, 80, 25));
    p.write(a, n1);
    g_tick += nd_u32("delay 1");
    p.timer();
    if (n2) { p.write(b, n2); g_tick += nd_u32("delay 2"); p.timer(); }
    if (n3) { p.write(c, n3); g_tick += nd_u32("delay 3"); p.timer(); }
    wsym_reach("done");
}

// Several mouse reports: the encoding and the widths of the number fields are fixed, every digit is arbitrary.
static int putDec(char *o, int digits) {
    for (int i = 0; i < digits; ++i) { o[i] = (char)nd_u8("digit"); wsym_assume((o[i] >= '0') & (o[i] <= '9')); }
    return digits;
}
extern "C" void harness_in_mouse() {
    inputWorld();
    g_vkMode = 0;
    const int k = wsym_param("k", 2), enc = wsym_param("enc", 1), xd = wsym_param("digits", 2), fd = wsym_param("fdigits", 2);
    g_tick = nd_u32("start tick");
    Pair p;
    p.start(symMode(wsym_param("mode", 2)));
    SmallRect w(0, 0, 80, 25);
    if (wsym_param("win", 1)) {
        w.Left = nd_range("left", 0, 500); w.Top = nd_range("top", 0, 9000);
        w.Right = w.Left + nd_range("width", 1, 500) - 1; w.Bottom = w.Top + nd_range("height", 1, 500) - 1;
    }
    p.window(w);
    for (int i = 0; i < k; ++i) {
        char o[48];
        int n = 0;
        o[n++] = 27; o[n++] = '[';
        if (enc == 0) {
            o[n++] = 'M'; o[n++] = nd_u8("flags"); o[n++] = nd_u8("x"); o[n++] = nd_u8("y");
        } else {
            if (enc == 1) o[n++] = '<';
            n += putDec(o + n, fd);
            o[n++] = ';';
            if (wsym_param("neg", 0)) o[n++] = '-';
            n += putDec(o + n, xd);
            o[n++] = ';';
            n += putDec(o + n, xd);
            o[n] = 'M';
            if (enc == 1) { o[n] = (char)nd_u8("final"); wsym_assume((o[n] == 'M') | (o[n] == 'm')); }
            ++n;
        }
        g_tick += nd_u32("delay");
        p.write(o, n);
        CHECK(p.ref.qn == 0, "harness: a mouse report is not complete");
    }
    wsym_reach("done");
}
// One mouse report as raw bytes: number fields of arbitrary bytes from the report alphabet.
extern "C" void harness_in_mouse_bytes() {
    inputWorld();
    g_vkMode = 0;
    const int n = wsym_param("n", 9), enc = wsym_param("enc", 1);
    char buf[40];
    wsym_symbolic(buf, n, "in");
    buf[0] = 27; buf[1] = '[';
    int i0 = 2;
    if (enc == 1) { buf[2] = '<'; i0 = 3; }
    if (enc == 0) { buf[2] = 'M'; i0 = n; }
    for (int i = i0; i < n - 1; ++i) { const char c = buf[i]; wsym_assume((c >= '0' && c <= '9') | (c == ';') | (c == '-')); }
    Pair p;
    p.start(symMode(2));
    p.window(SmallRect(3, 5, 80, 25));
    p.write(buf, n);
    wsym_reach("done");
}

// A history of reports with few distinct values: enough to tell buttons and cells apart, arbitrary in time.
extern "C" void harness_in_mouse_hist() {
    inputWorld();
    g_vkMode = 0;
    const int k = wsym_param("k", 4);
    g_tick = nd_u32("start tick");
    Pair p;
    p.start(symMode(3));
    p.window(SmallRect(0, 0, 80, 25));
    for (int i = 0; i < k; ++i) {
        char o[] = "\x1b[<00;0;1M";
        // 00..03: a button, or (03) none; 32..35: motion; 64: wheel
        const int kind = (int)wsym_concretize(nd_range("kind", 0, 4));
        const char *f[] = { "00", "01", "02", "03", "35" };
        o[3] = f[kind][0]; o[4] = f[kind][1];
        o[6] = (char)nd_u8("x"); wsym_assume((o[6] == '1') | (o[6] == '2'));
        if (kind < 3) { o[9] = (char)nd_u8("final"); wsym_assume((o[9] == 'M') | (o[9] == 'm')); }
        g_tick += nd_u32("delay");
        p.write(o, 10);
        CHECK(p.ref.qn == 0, "harness: a mouse report is not complete");
    }
    wsym_reach("done");
}

// Ctrl-C among other input, with the modes changing between writes.
extern "C" void harness_in_ctrlc() {
    inputWorld();
    g_vkMode = 0;
    const int n = wsym_param("n", 4);
    char buf[16];
    wsym_symbolic(buf, n, "in");
    for (int i = 0; i < n; ++i) { const unsigned char c = buf[i]; wsym_assume((c == 3) | (c == 27) | (c == 'a') | (c == '[') | (c == 'A') | (c == 0xc3) | (c == 0xa9)); }
    Pair p;
    p.start(symMode(1));
    p.window(SmallRect(0, 0, 80, 25));
    if (wsym_param("fail", 0)) {
        w32.GetConsoleMode = [](HANDLE, LPDWORD m) -> BOOL { return FALSE; };   // unreadable: taken as no mode at all
        g_mode = 0;
    }
    p.write(buf, n - 1);
    if (!wsym_param("fail", 0)) p.poll(symMode(1));
    p.write(buf + n - 1, 1);
    g_tick += 1001;
    p.timer();
    wsym_reach("done");
}

// A reply to a status request arrives in pieces among other input; a later unfinished sequence asks again.
extern "C" void harness_in_dsr() {
    inputWorld();
    g_vkMode = 0;
    Pair p;
    p.start(symMode(0));
    p.window(SmallRect(0, 0, 80, 25));
    char a[2], r[6] = { 27, '[', 0, ';', 0, 'R' }, b[2];
    wsym_symbolic(a, 2, "before");
    r[2] = nd_u8("row"); r[4] = nd_u8("col");
    wsym_assume((r[2] >= '0') & (r[2] <= '9') & (r[4] >= '0') & (r[4] <= '9'));
    wsym_symbolic(b, 2, "after");
    p.write(a, 2);
    const int cut = (int)wsym_concretize(nd_range("cut", 0, 6));
    p.write(r, cut);
    p.write(r + cut, 6 - cut);
    p.write(b, 2);
    g_tick += 1001;
    p.timer();
    p.write(b, 1);
    wsym_reach("done");
}
