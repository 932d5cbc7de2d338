// Well-formedness of key events, and the console modes the agent sets up and reacts to.
#include "in_common.h"

static EvLog A;

// Every key event stream is balanced: modifiers go down before and up after the key they modify, in nested order, each
// event carries the modifiers that are down, and everything is up at the end.
extern "C" void harness_in_balance() {
    inputWorld();
    g_vkMode = wsym_param("vk", 1);
    g_vkPlain = true;
    const int n = wsym_param("n", 3);
    g_mode = 0xf7 & ~ENABLE_QUICK_EDIT_MODE;
    const DWORD mode = g_mode | (wsym_param("vt", 0) ? 0x200 : 0);
    char buf[16];
    wsym_symbolic(buf, n, "in");
    const int tag = wsym_param("tag", 0);
    if (tag) { buf[0] = 27; buf[1] = tag; }
    Win32Console con;
    CountingDsr dsr;
    ConsoleInput in((HANDLE)1, WINPTY_MOUSE_MODE_NONE, dsr, con);
    g_mode = mode;
    in.updateInputFlags();
    in.setMouseWindowRect(SmallRect(0, 0, 80, 25));
    g_log = &A;
    in.writeInput(std::string(buf, n));
    g_tick += 1001;
    in.flushIncompleteEscapeCode();
    uint32_t stackKey[4]; int depth = 0;
    uint32_t state = 0;             // modifier bits that are down
    uint32_t hi = 0;                // a leading surrogate waits for its other half
    bool hiDown = false;
    for (int i = 0; i < A.n; ++i) {
        const Ev &e = A.ev[i];
        if (e.kind == EV_CTRLC || e.kind == EV_HWND) { CHECK(depth == 0, "an out-of-band key arrives while a modifier is down"); continue; }
        if (e.kind == EV_MOUSE) { CHECK(depth == 0, "a mouse event arrives while a modifier is down"); continue; }
        CHECK(e.kind == EV_KEY, "an event is neither a key nor a mouse event");
        CHECK((e.e & 0xffff) == 1, "a key event does not have repeat count 1");
        CHECK((e.e >> 16) == ((e.b ^ 0x55) & 0xffff), "a key event's scan code is not its virtual key's");
        CHECK(e.a <= 1, "a key event is neither down nor up");
        const bool mod = (e.c == 0) & ((e.b == VK_CONTROL) | (e.b == VK_MENU) | (e.b == VK_SHIFT));
        // Is it a modifier transition?  A press adds one modifier bit to the state, a release removes the latest.
        if (mod) {
            const uint32_t s = e.d & ~0x100u;
            if (e.a) {
                const uint32_t bit = s & ~state;
                CHECK((s & state) == state, "a modifier press forgets a modifier that is down");
                const bool ok = e.b == VK_CONTROL ? bit == 8 : e.b == VK_SHIFT ? bit == 0x10 : (bit == 2) | (bit == 1);
                CHECK(ok, "a modifier press does not add its modifier");
                CHECK(((e.d & 0x100) != 0) == (bit == 1), "only the right Alt key is an extended modifier key");
                if (depth < 4) stackKey[depth] = bit;
                ++depth;
                state = s;
            } else {
                CHECK(depth > 0, "a modifier is released that is not down");
                const uint32_t bit = stackKey[depth > 0 ? depth - 1 : 0];
                CHECK(s == (state & ~bit), "modifiers are not released in the reverse order of their presses");
                CHECK(e.b == (bit == 8 ? VK_CONTROL : bit == 0x10 ? VK_SHIFT : VK_MENU), "the wrong modifier is released");
                --depth;
                state = s;
            }
        } else if (!wsym_param("vt", 0)) {
            CHECK((e.d & ~0x100u) == state, "a key event does not carry exactly the modifiers that are down");
        }
        const bool isHi = (e.c & 0xfc00) == 0xd800, isLo = (e.c & 0xfc00) == 0xdc00;
        if (hi) CHECK(isLo && (e.a != 0) == hiDown, "a leading surrogate is not followed by its other half");
        else CHECK(!isLo, "a trailing surrogate comes alone");
        hi = isHi; hiDown = e.a != 0;
    }
    CHECK(depth == 0 && state == 0, "a modifier is left down");
    CHECK(!hi, "a surrogate pair is cut in half");
    wsym_log("events", A.n);
    wsym_reach("done");
}

// Down and up: without VT input every key that goes down comes up again, immediately unless it is a modifier.
extern "C" void harness_in_pairs() {
    inputWorld();
    g_vkMode = 1;
    g_vkPlain = true;
    const int n = wsym_param("n", 3);
    g_mode = 0xf7;
    char buf[16];
    wsym_symbolic(buf, n, "in");
    Win32Console con;
    CountingDsr dsr;
    ConsoleInput in((HANDLE)1, WINPTY_MOUSE_MODE_NONE, dsr, con);
    g_log = &A;
    in.writeInput(std::string(buf, n));
    g_tick += 1001;
    in.flushIncompleteEscapeCode();
    int down = 0, up = 0;
    for (int i = 0; i < A.n; ++i) {
        const Ev &e = A.ev[i];
        if (e.kind != EV_KEY) continue;
        if (e.a) ++down; else ++up;
        CHECK(down >= up, "a key comes up that did not go down");
        uint32_t d = 0;     // the matching up event of a plain key: same key, same modifiers
        const bool mod = (e.c == 0) & ((e.b == VK_CONTROL) | (e.b == VK_MENU) | (e.b == VK_SHIFT));
        if (e.a && !mod) {
            int j = i + 1;
            if ((e.c & 0xfc00) == 0xd800) ++j;              // the pair's second unit goes down first
            CHECK(j < A.n, "a key stays down");
            if (j < A.n) {
                CHECK(A.ev[j].kind == EV_KEY, "a key does not come up");
                CHECK(A.ev[j].b == e.b, "the key that comes up is not the one that went down");
                CHECK(A.ev[j].d == e.d, "a key's release carries other modifiers than its press");
            }
        }
    }
    CHECK(down == up, "a key stays down");
    wsym_log("events", A.n);
    wsym_reach("done");
}

// Start-up: the input mode the agent leaves, for every mode it finds.
extern "C" void harness_in_setup() {
    inputWorld();
    g_mode = nd_u32("mode");
    const DWORD before = g_mode;
    const int mm = nd_range("mouse mode", 0, 2);
    Win32Console con;
    CountingDsr dsr;
    ConsoleInput in((HANDLE)1, mm, dsr, con);
    const DWORD qe = mm == WINPTY_MOUSE_MODE_AUTO ? ENABLE_QUICK_EDIT_MODE : 0;
    CHECK((g_mode & ENABLE_EXTENDED_FLAGS) != 0, "extended flags are not enabled at start-up");
    CHECK((g_mode & ENABLE_INSERT_MODE) != 0, "insert mode is not enabled at start-up");
    CHECK((g_mode & ENABLE_QUICK_EDIT_MODE) == qe, "QuickEdit mode does not follow the mouse mode");
    CHECK(((g_mode ^ before) & ~(DWORD)(ENABLE_EXTENDED_FLAGS | ENABLE_INSERT_MODE | ENABLE_QUICK_EDIT_MODE)) == 0, "an unrelated input mode flag is changed at start-up");
    // Later: whether the terminal should report the mouse, for every mode a program sets.
    for (int i = 0; i < 2; ++i) {
        g_mode = nd_u32("later mode");
        const DWORD m = g_mode;
        in.updateInputFlags();
        CHECK(g_mode == m, "polling the input mode changes it");
        const bool want = mm == WINPTY_MOUSE_MODE_FORCE ? true : mm == WINPTY_MOUSE_MODE_NONE ? false :
            (m & ENABLE_EXTENDED_FLAGS) && (m & ENABLE_MOUSE_INPUT) && !(m & ENABLE_QUICK_EDIT_MODE);
        CHECK(in.shouldActivateTerminalMouse() == want, "the terminal's mouse reporting does not follow the input mode");
        wsym_log("mouse", in.shouldActivateTerminalMouse());
    }
    wsym_reach("done");
}
