// Chunking independence: the console events an input produces do not depend on how the bytes were divided into writes.
#include "in_common.h"

static EvLog A, B;

static void compareSplit(const char *buf, int n, int k) {
    Win32Console con;
    CountingDsr dsr;
    const DWORD mode = g_mode;
    ConsoleInput a((HANDLE)1, WINPTY_MOUSE_MODE_NONE, dsr, con);
    g_mode = mode;
    ConsoleInput b((HANDLE)1, WINPTY_MOUSE_MODE_NONE, dsr, con);
    SmallRect w(0, 0, 80, 25);
    a.setMouseWindowRect(w); b.setMouseWindowRect(w);
    g_log = &A;
    a.writeInput(std::string(buf, n));
    g_log = &B;
    b.writeInput(std::string(buf, k));
    b.writeInput(std::string(buf + k, n - k));
    CHECK(A.n == B.n, "the number of console events depends on how the input was chunked");
    for (int i = 0; i < A.n; ++i) checkSame(A.ev[i], B.ev[i], "the console events depend on how the input was chunked");
    wsym_log("events", A.n);
    for (int i = 0; i < A.n && i < 6; ++i) wsym_log("event", (long long)A.ev[i].b << 32 | A.ev[i].c << 8 | A.ev[i].d);
    wsym_reach("done");
}

extern "C" void harness_in_chunk() {
    inputWorld();
    g_vkMode = wsym_param("vk", 0);
    g_mode = nd_bool("escape mode") ? 0x2f7 : 0xf7;
    const int n = wsym_param("n", 4);
    char buf[16];
    wsym_symbolic(buf, n, "in");
    compareSplit(buf, n, wsym_param("split", 1));
}

extern "C" void harness_in_chunk_seq() {
    inputWorld();
    g_mode = nd_bool("escape mode") ? 0x2f7 : 0xf7;
    const int n = wsym_param("n", 6);
    char buf[16];
    wsym_symbolic(buf, n, "in");
    wsym_assume(buf[0] == 27);
    wsym_assume((buf[1] == 27) | (buf[1] == '[') | (buf[1] == 'O'));
    for (int i = 2; i < n - 1; ++i) {
        const char c = buf[i];
        wsym_assume((c >= '0' && c <= '9') | (c == ';') | (c == '['));
    }
    compareSplit(buf, n, wsym_param("split", 1));
}

extern "C" void harness_in_chunk_mouse() {
    inputWorld();
    g_mode = 0xb7;  // mouse input on, QuickEdit off
    char buf[16] = "\x1b[<00;00;00M";
    const int at[6] = { 3, 4, 6, 7, 9, 10 };
    for (int i = 0; i < 6; ++i) { buf[at[i]] = nd_u8("digit"); wsym_assume((buf[at[i]] >= '0') & (buf[at[i]] <= '9')); }
    buf[11] = nd_u8("final");
    wsym_assume((buf[11] == 'M') | (buf[11] == 'm'));
    compareSplit(buf, 12, wsym_param("split", 1));
    CHECK(A.n <= 1, "one mouse report makes several events");
}
