// The code all programs of winpty share: messages, numbers as text, unique names, tracing, Windows versions.
#include "w32.h"
#include <stdint.h>
#include <string.h>
#include <wchar.h>
#include <string>
#include <vector>
#include "shared/Buffer.h"
#include "shared/StringBuilder.h"
#include "shared/StringUtil.h"
#include "shared/DebugClient.h"
#include "shared/GenRandom.h"
#include "shared/WindowsVersion.h"

// ---- messages
struct Item { int kind; uint64_t num; std::wstring str; };
static Item arbitrary(int maxlen) {
    Item it;
    it.kind = (int)wsym_concretize(nd_range("kind", 0, 3));
    it.num = 0;
    if (it.kind == 0) it.num = nd_u32("int32");
    else if (it.kind == 1) it.num = nd_u64("int64");
    else if (it.kind == 3) it.num = nd_u64("raw");
    else {
        const int n = (int)wsym_concretize(nd_range("length", 0, maxlen));
        it.str.resize(n);
        for (int i = 0; i < n; ++i) it.str[i] = (wchar_t)nd_u16("unit");
    }
    return it;
}
static void put(WriteBuffer &w, const Item &it) {
    if (it.kind == 0) w.putInt32((int32_t)it.num);
    else if (it.kind == 1) w.putInt64((int64_t)it.num);
    else if (it.kind == 2) { if (wsym_concretize(nd_bool("pointer and length"))) w.putWString(it.str.data(), it.str.size()); else w.putWString(it.str); }
    else w.putRawValue<uint64_t>(it.num);
}
// Takes an item of a kind; false when the message is refused.
static bool take(ReadBuffer &r, int kind, Item &it) {
    it.kind = kind; it.num = 0; it.str.clear();
    try {
        if (kind == 0) it.num = (uint32_t)r.getInt32();
        else if (kind == 1) it.num = (uint64_t)r.getInt64();
        else if (kind == 2) it.str = r.getWString();
        else it.num = r.getRawValue<uint64_t>();
    } catch (const ReadBuffer::DecodeError &) { return false; }
    return true;
}
static bool atEnd(ReadBuffer &r) { try { r.assertEof(); } catch (const ReadBuffer::DecodeError &) { return false; } return true; }
static void same(const Item &a, const Item &b) {
    CHECK(a.num == b.num, "a number arrives as another one");
    CHECK(a.str.size() == b.str.size(), "a string arrives with another length");
    for (size_t i = 0; i < a.str.size(); ++i) CHECK(a.str[i] == b.str[i], "a string arrives with another character");
}
static void world() { w32_defaults(); isTracingEnabled(); }

extern "C" void harness_message() {
    world();
    const int n = (int)wsym_concretize(nd_range("items", 0, wsym_param("n", 3))), maxlen = wsym_param("len", 2);
    Item it[6];
    WriteBuffer w;
    uint64_t mark = nd_u64("mark");
    w.putRawValue<uint64_t>(0);
    size_t end[7];
    end[0] = w.buf().size();
    for (int i = 0; i < n; ++i) { it[i] = arbitrary(maxlen); put(w, it[i]); end[i + 1] = w.buf().size(); CHECK(end[i + 1] > end[i], "an item takes no space"); }
    w.replaceRawValue<uint64_t>(0, mark);
    CHECK(w.buf().size() == end[n], "filling in the size changes the length of the message");
    // How the message is damaged: 0 not, 1 cut short, 2 lengthened, 3 an item of another kind is asked for, 4 moved first.
    const int damage = (int)wsym_concretize(nd_range("damage", 0, 4));
    std::vector<char> bytes(w.buf());
    size_t keep = bytes.size();
    if (damage == 1) { keep = (size_t)wsym_concretize(nd_range("kept", 0, (int)bytes.size() - 1)); bytes.resize(keep); }
    if (damage == 2) bytes.push_back((char)nd_u8("extra"));
    if (damage == 4) { WriteBuffer w2(std::move(w)); std::vector<char> b2(w2.buf()); CHECK(b2 == bytes, "moving a message changes it"); }
    const int odd = damage == 3 && n > 0 ? (int)wsym_concretize(nd_range("odd item", 0, n - 1)) : -1;
    ReadBuffer r0(std::move(bytes)), r(std::move(r0));
    Item got;
    if (!take(r, 3, got)) { CHECK(damage == 1 && keep < 8, "a complete message is refused"); wsym_reach("short"); return; }
    CHECK(got.num == mark, "the size of the message arrives as another one");
    for (int i = 0; i < n; ++i) {
        if (i == odd) {
            const int k = (int)wsym_concretize(nd_range("asked", 0, 2));
            if (k == it[i].kind || it[i].kind == 3) wsym_stop();
            CHECK(!take(r, k, got), "an item is taken for one of another kind");
            wsym_reach("kind");
            return;
        }
        const bool ok = take(r, it[i].kind, got);
        if (damage == 1 && keep < end[i + 1]) { CHECK(!ok, "an item is made of bytes that are not in the message"); wsym_reach("cut"); return; }
        CHECK(ok, "a complete item is refused");
        if (!ok) return;
        same(it[i], got);
    }
    CHECK(atEnd(r) == (damage != 2), "left-over bytes are not noticed, or some are reported though there are none");
    wsym_reach("done");
}

// Any bytes at all: they are decoded to something or refused, within the message and in little memory.
extern "C" void harness_bytes() {
    world();
    const int n = (int)wsym_concretize(nd_range("bytes", 0, wsym_param("n", 12))), k = wsym_param("k", 2);
    std::vector<char> b(n);
    for (int i = 0; i < n; ++i) b[i] = (char)nd_u8("byte");
    ReadBuffer r(std::move(b));
    wsym_alloc_fault(~0ull);
    size_t left = n;
    for (int i = 0; i < k; ++i) {
        const int kind = (int)wsym_concretize(nd_range("asked", 0, 2));
        Item got;
        const bool ok = take(r, kind, got);
        CHECK(wsym_alloc_peak() <= 4096, "a short message makes the reader reserve much memory");
        if (!ok) { wsym_reach("refused"); return; }
        const size_t least = kind == 0 ? 4 : kind == 1 ? 8 : 2 * got.str.size();
        CHECK(least <= left, "more is decoded than the message contains");
        left -= least;
    }
    wsym_reach("done");
}

// ---- numbers as text
template <typename C, typename I> static void decOk(I v) {
    const auto s = gdecOfInt<C>(v);
    typedef typename std::make_unsigned<I>::type U;
    const C *p = s.c_str();
    size_t n = s.size(), i = 0;
    CHECK(p[n] == 0, "the text is not terminated");
    CHECK(s.data() == p && s.str().size() == n, "the text and its length disagree");
    const bool neg = v < 0;
    if (neg) { CHECK(n > 0 && p[0] == '-', "a negative number has no sign"); i = 1; }
    CHECK(n > i && n - i <= 20, "a number without digits");
    CHECK(p[i] != '0' || n == i + 1, "a number with leading zeros");
    U back = 0;
    for (; i < n; ++i) { CHECK((unsigned)(p[i] - '0') < 10, "not a digit"); back = (U)(back * 10 + (U)(p[i] - '0')); }
    CHECK(back == (neg ? (U)(0 - (U)v) : (U)v), "the text is another number");
}
template <typename C, bool lead, typename I> static void hexOk(I v) {
    const auto s = ghexOfInt<C, lead>(v);
    typedef typename std::make_unsigned<I>::type U;
    const C *p = s.c_str();
    const size_t n = s.size();
    CHECK(p[n] == 0, "the text is not terminated");
    CHECK(n > 0 && n <= 2 * sizeof(I), "a number without digits or with too many");
    if (lead) CHECK(n == 2 * sizeof(I), "leading zeros are missing");
    else CHECK(n == 1 || p[0] != '0', "a number with leading zeros");
    U back = 0;
    for (size_t i = 0; i < n; ++i) {
        const C c = p[i];
        const bool d = (unsigned)(c - '0') < 10, a = (unsigned)(c - 'a') < 6;
        CHECK(d | a, "not a digit");
        back = (U)((back << 4) | (U)(d ? c - '0' : c - 'a' + 10));
    }
    CHECK(back == (U)v, "the text is another number");
}
extern "C" void harness_hex() {
    w32_defaults();
    const int w = (int)wsym_concretize(nd_range("type", 0, 7));
    const uint64_t v = nd_u64("value");
    const bool lead = wsym_concretize(nd_bool("leading zeros"));
#define H(I) (lead ? hexOk<wchar_t, true>((I)v) : hexOk<char, false>((I)v))
    switch (w) { case 0: H(unsigned char); break; case 1: H(signed char); break; case 2: H(unsigned short); break; case 3: H(short); break; case 4: H(unsigned); break; case 5: H(int); break; case 6: H(uint64_t); break; default: H(int64_t); }
    wsym_reach("done");
}
// Decimal: every 16-bit number, and for the wider types every number near zero, the limits and the powers of ten.
extern "C" void harness_dec() {
    w32_defaults();
    const int w = (int)wsym_concretize(nd_range("type", wsym_param("from", 0), wsym_param("to", 5)));
    const int bits = wsym_param("bits", 7);
    if (w == 0) decOk<char, short>((short)nd_u16("value"));
    else if (w == 1) decOk<wchar_t, unsigned short>(nd_u16("value"));
    else {
        const int z = (int)wsym_concretize(nd_range("base", 0, 23));
        uint64_t base = 0;
        if (z == 1) base = 1ull << 31; else if (z == 2) base = 1ull << 32; else if (z == 3) base = 1ull << 63;
        else if (z > 3) { base = 1; for (int i = 4; i < z; ++i) base *= 10; }
        int64_t d = nd_range("offset", -(1 << bits), (1 << bits) - 1);
        if (w >= 4 || wsym_param("split", 0)) d = (int)wsym_concretize(d);        // 64-bit divisions are too much for the solver
        uint64_t v = base + (uint64_t)d;
        if (wsym_concretize(nd_bool("negated"))) v = 0 - v;
        if (w == 2) decOk<char, int>((int)v); else if (w == 3) decOk<wchar_t, unsigned>((unsigned)v);
        else if (w == 4) decOk<wchar_t, int64_t>((int64_t)v); else decOk<char, uint64_t>(v);
    }
    wsym_reach("done");
}
extern "C" void harness_builder() {
    w32_defaults();
    WStringBuilder sb(wsym_concretize(nd_bool("reserve")) ? 8 : 0);
    StringBuilder nb;
    std::wstring want;
    for (int i = 0; i < 3; ++i) {
        switch (wsym_concretize(nd_range("piece", 0, 4))) {
            case 0: { const wchar_t c = (wchar_t)nd_u16("char"); sb << c; want.push_back(c); break; }
            case 1: sb << L"text"; want += L"text"; break;
            case 2: { std::wstring s; s.push_back(L'a'); s.push_back((wchar_t)nd_u16("char")); s.push_back(L'b'); sb << s; want += s; break; }
            case 3: sb << -120 << 7u; want += L"-1207"; break;
            default: sb << (const void *)0x1a2b << (short)-1 << (unsigned short)9 << 5l << 6ul << 7ll << 8ull; want += L"0x1a2b-195678"; break;
        }
    }
    nb << 'x' << "yz" << std::string("w") << 12 << decOfInt(-5) << hexOfInt(255);
    CHECK(nb.str() == "xyzw12-5ff", "text is put together wrongly");
    const std::wstring s = sb.str();
    CHECK(s.size() == want.size(), "text is put together with another length");
    for (size_t i = 0; i < want.size(); ++i) CHECK(s[i] == want[i], "text is put together with another character");
    CHECK(sb.c_str()[s.size()] == 0, "the text is not terminated");
    CHECK(sb.str_moved() == s, "the text changes when it is handed over");
    wsym_reach("done");
}

// ---- strings
extern "C" void harness_strings() {
    world();
    const int n = 4;
    wchar_t b[n + 1];
    for (int i = 0; i < n; ++i) b[i] = (wchar_t)nd_u16("unit");
    const int max = (int)wsym_concretize(nd_range("max", 0, n));
    const size_t got = winpty_wcsnlen(b, max);
    size_t want = 0;
    while (want < (size_t)max && b[want]) ++want;
    CHECK(got == want, "the length of a string is wrong");
    b[n] = 0;
    const auto v = vectorWithNulFromString(std::wstring(b, n));
    CHECK(v.size() == n + 1 && v[n] == 0, "a copied string is not terminated");
    for (int i = 0; i < n; ++i) CHECK(v[i] == b[i], "a copied string has another character");
    wsym_reach("done");
}

// ---- unique names
#undef WINPTY_GEN_RANDOM_H
#define GenRandom GenRandomOther         // the same code in another process, with its own counter
#include "shared/GenRandom.h"
#undef GenRandom
static int g_rng, g_acquired, g_libs;
static DWORD g_pid; static FILETIME g_now;
static uint8_t g_random[4][16]; static int g_nrandom;
static BOOLEAN fillRandom(PVOID p, ULONG n) {
    CHECK(n == 16, "another amount of randomness is asked for");
    if (wsym_concretize(nd_bool("no randomness"))) { memset(p, 0x55, n); g_nrandom = -1; return FALSE; }
    const int i = g_nrandom++;
    for (ULONG k = 0; k < n && k < 16; ++k) ((uint8_t *)p)[k] = g_random[i][k] = nd_u8("random");
    return TRUE;
}
static BOOLEAN WINAPI rtlGenRandom(PVOID p, ULONG n) { return fillRandom(p, n); }
struct Name { std::wstring s; bool random; uint8_t bytes[16]; DWORD pid; FILETIME time; };
template <typename G> static Name newName(G &gen) {
    Name r;
    static const DWORD pids[] = { 4, 12, 120, 21, 1, 0xfffffffcu };
    g_pid = pids[wsym_concretize(nd_range("pid", 0, wsym_param("pids", 6) - 1))];
    g_now.dwLowDateTime = nd_u32("time low"); g_now.dwHighDateTime = wsym_param("late", 0) ? 0x01d00000u | (nd_u32("time high") & 0xfffff) : 0;
    if (!wsym_param("late", 0)) wsym_assume(g_now.dwLowDateTime < 0x100);
    g_nrandom = 0;
    r.pid = g_pid; r.time = g_now;
    r.s = gen.uniqueName();
    r.random = gen.valid() && g_nrandom == 1;
    memcpy(r.bytes, g_random[0], 16);
    CHECK(r.s.size() > 0 && r.s.size() < 100, "a name is empty or too long for a pipe");
    for (wchar_t c : r.s) CHECK(((unsigned)(c - '0') < 10) | ((unsigned)(c - 'a') < 26) | (c == '-') | (c == '_'), "a name has characters that names of kernel objects treat specially");
    return r;
}
static bool eq(const std::wstring &a, const std::wstring &b) {
    if (a.size() != b.size()) return false;
    unsigned diff = 0;
    for (size_t i = 0; i < a.size(); ++i) diff |= (unsigned)a[i] ^ (unsigned)b[i];
    return diff == 0;
}
extern "C" void harness_names() {
    world();
    g_rng = (int)wsym_concretize(nd_range("source", 0, 2));       // 0 the new function, 1 the old one, 2 neither
    w32.LoadLibraryW = [](LPCWSTR) -> HMODULE { ++g_libs; return (HMODULE)0x7000; };
    w32.FreeLibrary = [](HMODULE) -> BOOL { --g_libs; return TRUE; };
    w32.GetProcAddress = [](HMODULE, LPCSTR) -> FARPROC { return g_rng == 0 ? (FARPROC)rtlGenRandom : (FARPROC)0; };
    w32.CryptAcquireContextW = [](HCRYPTPROV *p, LPCWSTR, LPCWSTR, DWORD, DWORD f) -> BOOL { if (g_rng == 2) return FALSE; CHECK(f == CRYPT_VERIFYCONTEXT, "a key container of the user is opened"); ++g_acquired; *p = 77; return TRUE; };
    w32.CryptGenRandom = [](HCRYPTPROV p, DWORD n, BYTE *b) -> BOOL { CHECK(p == 77 && g_acquired > 0, "a crypto context is used that is not open"); return fillRandom(b, n); };
    w32.CryptReleaseContext = [](HCRYPTPROV p, DWORD) -> BOOL { CHECK(p == 77 && g_acquired > 0, "a crypto context is released that is not open"); --g_acquired; return TRUE; };
    w32.GetCurrentProcessId = []() -> DWORD { return g_pid; };
    w32.GetSystemTimeAsFileTime = [](LPFILETIME t) { *t = g_now; };
    {
        const bool other = wsym_param("other", 0) != 0;
        GenRandom a;
        CHECK(a.valid() == (g_rng != 2), "the source of randomness is reported as available though it is not, or the other way round");
        const Name n1 = newName(a);
        Name n2;
        if (other) {
            GenRandomOther b;
            n2 = newName(b);
            const bool apart = n1.pid != n2.pid || n1.time.dwLowDateTime != n2.time.dwLowDateTime || n1.time.dwHighDateTime != n2.time.dwHighDateTime || false;
            if (n1.random && n2.random) {
                // Whoever knows everything else still has to guess all of the random bytes.
                wsym_assume(n1.pid == n2.pid && n1.time.dwLowDateTime == n2.time.dwLowDateTime && n1.time.dwHighDateTime == n2.time.dwHighDateTime);
                unsigned d = 0; for (int i = 0; i < 16; ++i) d |= n1.bytes[i] ^ n2.bytes[i];
                CHECK(!eq(n1.s, n2.s) || d == 0, "two names are the same though their random parts differ");
                wsym_reach("random");
            } else {
                CHECK(!eq(n1.s, n2.s) || !apart, "two processes make the same name");
                wsym_reach("apart");
            }
        } else {
            n2 = newName(a);
            CHECK(!eq(n1.s, n2.s), "one process makes the same name twice");
        }
    }
    CHECK(g_acquired == 0, "a crypto context leaks");
    CHECK(g_libs == 0, "a library stays loaded");
    wsym_reach("done");
}

// ---- tracing
static char g_conf[400]; static int g_confLen; static bool g_confSet;
static int g_debugOpens, g_debugOpen, g_debugBusy, g_waitFails, g_sent; static char g_msg[3][1100]; static int g_msgLen[3];
static const char *const FLAGS[] = { "trace", "1", "a", "ab", "tr" };
static bool confHas(const char *flag) {
    if (!g_confSet || g_confLen >= 256) return false;
    const int n = (int)strlen(flag);
    bool any = false;
    for (int i = 0; i + n <= g_confLen; ++i) {
        bool ok = (i == 0 || g_conf[i - 1] == ',') && (i + n == g_confLen || g_conf[i + n] == ',');
        for (int k = 0; k < n; ++k) ok &= g_conf[i + k] == flag[k];
        any |= ok;
    }
    return any;
}
static bool g_racing;
static void traceWorld() {
    w32.GetEnvironmentVariableA = [](LPCSTR name, LPSTR b, DWORD n) -> DWORD {
        CHECK(strcmp(name, "WINPTY_DEBUG") == 0, "another environment variable is read");
        if (g_racing) { g_racing = false; hasDebugFlag("a"); }      // another thread gets there first
        w32_lastError = g_confSet ? 0 : ERROR_ENVVAR_NOT_FOUND;
        if (!g_confSet) return 0;
        if (g_confLen + 1 > (int)n) return g_confLen + 1;
        for (int i = 0; i <= g_confLen; ++i) b[i] = g_conf[i];
        return g_confLen;
    };
    w32.CreateFileW = [](LPCWSTR name, DWORD acc, DWORD share, LPSECURITY_ATTRIBUTES, DWORD how, DWORD flags, HANDLE) -> HANDLE {
        CHECK(wcscmp(name, L"\\\\.\\pipe\\DebugServer") == 0, "tracing opens something else");
        CHECK(how == OPEN_EXISTING, "tracing creates something");
        CHECK((flags & SECURITY_SQOS_PRESENT) && ((flags & (SECURITY_IMPERSONATION | SECURITY_IDENTIFICATION)) == SECURITY_IDENTIFICATION || (flags & (SECURITY_IMPERSONATION | SECURITY_IDENTIFICATION)) == 0), "whoever owns the debug pipe can impersonate the user");
        ++g_debugOpens;
        if (g_debugBusy > 0) { --g_debugBusy; w32_lastError = ERROR_PIPE_BUSY; return INVALID_HANDLE_VALUE; }
        if (wsym_concretize(nd_bool("no server"))) { w32_lastError = ERROR_FILE_NOT_FOUND; return INVALID_HANDLE_VALUE; }
        ++g_debugOpen;
        return (HANDLE)0x900;
    };
    w32.WaitNamedPipeW = [](LPCWSTR, DWORD) -> BOOL { if (wsym_concretize(nd_bool("server gone"))) { w32_lastError = ERROR_FILE_NOT_FOUND; g_waitFails++; return FALSE; } return TRUE; };
    w32.SetNamedPipeHandleState = [](HANDLE h, LPDWORD m, LPDWORD, LPDWORD) -> BOOL { CHECK(h == (HANDLE)0x900 && g_debugOpen == 1 && *m == PIPE_READMODE_MESSAGE, "the debug pipe is used wrongly"); return TRUE; };
    w32.TransactNamedPipe = [](HANDLE h, LPVOID b, DWORD n, LPVOID, DWORD, LPDWORD act, LPOVERLAPPED) -> BOOL {
        CHECK(h == (HANDLE)0x900 && g_debugOpen == 1, "the debug pipe is used while it is not open");
        CHECK(n < 1024 && g_sent < 3, "a message is longer than announced or sent twice");
        memcpy(g_msg[g_sent], b, n); g_msg[g_sent][n] = 0; g_msgLen[g_sent] = (int)n; ++g_sent;
        *act = 2;
        w32_lastError = ERROR_BROKEN_PIPE;
        return wsym_concretize(nd_bool("transaction works"));
    };
    w32.CloseHandle = [](HANDLE h) -> BOOL { CHECK(h == (HANDLE)0x900 && g_debugOpen == 1, "a handle is closed twice"); --g_debugOpen; w32_lastError = 0; return TRUE; };
    w32.GetSystemTimeAsFileTime = [](LPFILETIME t) { t->dwHighDateTime = 0x01d20000; t->dwLowDateTime = 0x12345678; w32_lastError = 1; };
    w32.GetModuleFileNameA = [](HMODULE, LPSTR b, DWORD n) -> DWORD {
        const char *const s = wsym_param("bare", 0) ? "prog.exe" : "C:\\dir\\prog.exe";
        strcpy(b, s);
        w32_lastError = 2;
        return (DWORD)strlen(s);
    };
    w32.GetCurrentProcessId = []() -> DWORD { return 42; };
    w32.GetCurrentThreadId = []() -> DWORD { return 123456; };
}
extern "C" void harness_flags() {
    w32_defaults();
    traceWorld();
    g_confSet = wsym_concretize(nd_bool("set"));
    if (wsym_param("long", 0)) {
        // A list around the size of the buffer.
        g_confLen = (int)wsym_concretize(nd_range("length", 253, 257));
        for (int i = 0; i < g_confLen; ++i) g_conf[i] = i % 3 == 2 ? ',' : 'x';
        memcpy(g_conf, "trace,a,", 8);
        memcpy(g_conf + g_confLen - 3, ",ab", 3);
    } else {
        g_confLen = (int)wsym_concretize(nd_range("length", 0, wsym_param("n", 7)));
        for (int i = 0; i < g_confLen; ++i) { g_conf[i] = (char)nd_u8("char"); wsym_assume(g_conf[i] != 0); }
    }
    g_racing = wsym_concretize(nd_bool("another thread"));
    const DWORD le = nd_u32("last error");
    w32_lastError = le;
    const unsigned long long live = wsym_live();
    const int f = (int)wsym_concretize(nd_range("flag", 0, 5));
    const bool got = f == 5 ? isTracingEnabled() : hasDebugFlag(FLAGS[f]);
    CHECK(w32_lastError == le, "looking for a debug flag changes the last error");
    CHECK(got == (f == 5 ? confHas("trace") || confHas("1") : confHas(FLAGS[f])), "a debug flag is found though it is not in WINPTY_DEBUG, or the other way round");
    CHECK(wsym_live() <= live + 1, "memory leaks");
    // The answer stays.
    g_conf[0] = g_conf[0] == ',' ? 'z' : ',';
    CHECK((f == 5 ? isTracingEnabled() : hasDebugFlag(FLAGS[f])) == got, "the set of debug flags changes while the program runs");
    CHECK(g_debugOpens == 0 && g_sent == 0, "something is traced");
    if (got) wsym_reach("found"); else wsym_reach("done");
}
extern "C" void harness_trace() {
    w32_defaults();
    traceWorld();
    const int mode = (int)wsym_concretize(nd_range("mode", 0, 3));
    static const char *const confs[] = { "", "trace", "1,x", "tracer" };
    g_confSet = mode != 0; strcpy(g_conf, confs[mode]); g_confLen = (int)strlen(g_conf);
    const bool enabled = mode == 1 || mode == 2;
    g_debugBusy = (int)wsym_concretize(nd_range("busy", 0, 2));
    const DWORD le = nd_u32("last error");
    w32_lastError = le;
    static const int lens[] = { 0, 1, 5, 900, 970, 985, 990, 1000, 1023, 1024, 1500 };
    const int len = lens[wsym_concretize(nd_range("length", 0, 10))];
    std::string text;
    text.reserve(len + 1);
    for (int i = 0; i < len; ++i) text.push_back((char)('a' + i % 26));
    char first = 'q';
    if (len) { first = (char)nd_u8("char"); wsym_assume(first != 0); text[0] = first; }
    trace("%s", text.c_str());
    CHECK(w32_lastError == le, "tracing changes the last error");
    CHECK(g_debugOpen == 0, "a handle leaks");
    if (!enabled) CHECK(g_debugOpens == 0 && g_sent == 0, "something is traced though tracing is off");
    CHECK(g_sent <= 1, "a message is sent twice");
    if (enabled) CHECK(g_debugOpens > 0, "nothing is traced though tracing is on");
    if (g_sent) {
        const char *m = g_msg[0];
        const char *at = strstr(m, "]: ");
        CHECK(m[0] == '[' && at != 0 && strstr(m, " prog.exe,p0042,t123456]: ") == at - 23 && at - m == 33, "a message does not say which process and thread it comes from");
        if (!at) return;
        at += 3;
        const int have = g_msgLen[0] - (int)(at - m);
        const int room = 1023 - (int)(at - m);
        CHECK(have == (len < room ? len : room), "a message loses text that would fit, or has more than was traced");
        for (int i = 0; i < have && i < len; ++i) if (at[i] != text[i]) { wsym_fail("a message has other text"); return; }
        wsym_reach("sent");
    }
    // A second message is on its own.
    const int before = g_sent;
    w32_lastError = le;
    trace("%d-%s", 5, "again");
    CHECK(w32_lastError == le, "tracing changes the last error");
    CHECK(g_debugOpen == 0 && g_sent <= before + (enabled ? 1 : 0), "a message is sent twice, or though tracing is off");
    if (g_sent > before) CHECK(strstr(g_msg[before], "]: 5-again") != 0, "a later message has other text");
    wsym_reach("done");
}

// ---- Windows versions
static DWORD g_major, g_minor;
extern "C" void harness_version() {
    world();
    g_major = nd_u32("major"); g_minor = nd_u32("minor");
    w32.GetVersionExW = [](LPOSVERSIONINFOW p) -> BOOL { CHECK(p->dwOSVersionInfoSize == sizeof(OSVERSIONINFOEXW), "GetVersionEx is given another size"); p->dwMajorVersion = g_major; p->dwMinorVersion = g_minor; return TRUE; };
    const bool vista = isAtLeastWindowsVista(), seven = isAtLeastWindows7(), eight = isAtLeastWindows8();
    CHECK(vista == (g_major >= 6), "Windows Vista or later is not recognised, or an older one taken for it");
    CHECK(seven == (g_major > 6 || (g_major == 6 && g_minor >= 1)), "Windows 7 or later is not recognised, or an older one taken for it");
    CHECK(eight == (g_major > 6 || (g_major == 6 && g_minor >= 2)), "Windows 8 or later is not recognised, or an older one taken for it");
    wsym_reach("done");
}
// Describing the system in the trace survives whatever version.dll does.
static int g_fault, g_calls;
static bool bad() { return ++g_calls == g_fault; }
static DWORD WINAPI fSize(LPCWSTR, LPDWORD) { if (bad()) { static const DWORD e[] = { ERROR_FILE_NOT_FOUND, ERROR_RESOURCE_DATA_NOT_FOUND, 5 }; w32_lastError = e[wsym_concretize(nd_range("error", 0, 2))]; return 0; } return 200; }
static BOOL WINAPI fInfo(LPCWSTR, DWORD, DWORD n, LPVOID p) { CHECK(n == 200, "another size of version information"); memset(p, 0, n); return !bad(); }
static VS_FIXEDFILEINFO g_ffi;
static BOOL WINAPI fQuery(LPCVOID, LPCWSTR, LPVOID *p, PUINT n) {
    g_ffi.dwSignature = 0xFEEF04BD; g_ffi.dwFileVersionMS = nd_u16("ms"); g_ffi.dwFileVersionLS = 0x40005; g_ffi.dwProductVersionMS = 0x60001; g_ffi.dwProductVersionLS = 7;
    *p = &g_ffi; *n = sizeof g_ffi;
    if (bad()) switch (wsym_concretize(nd_range("kind", 0, 3))) { case 0: return FALSE; case 1: *p = 0; break; case 2: *n = 8; break; default: g_ffi.dwSignature = 0; }
    return TRUE;
}
extern "C" void harness_dump() {
    w32_defaults();
    traceWorld();
    g_confSet = wsym_concretize(nd_bool("tracing")); strcpy(g_conf, "trace"); g_confLen = 5;
    g_fault = (int)wsym_concretize(nd_range("fault", 0, 18));
    w32.GetVersionExW = [](LPOSVERSIONINFOW p) -> BOOL { p->dwMajorVersion = 6; p->dwMinorVersion = 1; p->dwBuildNumber = 7601; ((OSVERSIONINFOEXW *)p)->wProductType = (BYTE)wsym_concretize(nd_range("product", 0, 4)); return TRUE; };
    w32.GetSystemDirectoryW = [](LPWSTR b, UINT n) -> UINT { if (bad()) return wsym_concretize(nd_bool("too long")) ? n : 0; wcscpy(b, L"C:\\Windows\\System32"); return 19; };
    w32.LoadLibraryW = [](LPCWSTR n) -> HMODULE { if (wcsstr(n, L"version.dll")) CHECK(wcscmp(n, L"C:\\Windows\\System32\\version.dll") == 0, "version.dll is loaded from a directory an attacker may control"); if (bad()) return 0; ++g_libs; return (HMODULE)0x7000; };
    w32.FreeLibrary = [](HMODULE) -> BOOL { --g_libs; return TRUE; };
    w32.GetProcAddress = [](HMODULE, LPCSTR n) -> FARPROC { if (bad()) return 0; if (!strcmp(n, "GetFileVersionInfoSizeW")) return (FARPROC)fSize; if (!strcmp(n, "GetFileVersionInfoW")) return (FARPROC)fInfo; if (!strcmp(n, "VerQueryValueW")) return (FARPROC)fQuery; return 0; };
    w32.WideCharToMultiByte = [](UINT, DWORD, LPCWCH s, int n, LPSTR b, int m, LPCCH, LPBOOL) -> int { if (b) for (int i = 0; i < n && i < m; ++i) b[i] = (char)s[i]; return n; };
    hasDebugFlag("a");
    const unsigned long long live = wsym_live();
    dumpWindowsVersion();
    CHECK(wsym_live() == live, "memory leaks");
    CHECK(g_libs == 0, "a library stays loaded");
    if (!g_confSet) CHECK(g_calls == 0, "the system is examined though tracing is off");
    wsym_reach("done");
}
