#include "wsym.h"
#include <windows.h>
#include <stdint.h>
#include "agent/UnicodeEncoding.h"

extern "C" void harness_utf8() {
    uint32_t cp = nd_u32("cp");
    char buf[8] = {0};
    const int n = encodeUtf8(buf, cp);
    const bool scalar = cp < 0xD800 || (cp > 0xDFFF && cp <= 0x10FFFF);
    int want = cp < 0x80 ? 1 : cp < 0x800 ? 2 : cp < 0x10000 ? 3 : 4;
    if (scalar) {
        CHECK(n == want, "length");
        CHECK(utf8CharLength(buf[0]) == n, "lead byte length");
        CHECK(decodeUtf8(buf) == cp, "round trip");
        wsym_reach("scalar");
    } else {
        CHECK(n == 0, "non-scalar values are refused");
        wsym_reach("bad");
    }
}

// Four arbitrary bytes, decoded by the definition of UTF-8.
extern "C" void harness_utf8_decode() {
    char b[4];
    uint32_t v[4];
    for (int i = 0; i < 4; ++i) { v[i] = nd_u8("byte"); b[i] = (char)v[i]; }
    const uint32_t got = decodeUtf8(b);
    const int len = utf8CharLength(b[0]);
    const bool t1 = (v[1] & 0xc0) == 0x80, t2 = (v[2] & 0xc0) == 0x80, t3 = (v[3] & 0xc0) == 0x80;
    uint32_t want = 0xffffffff;
    int wantLen = 0;
    if (v[0] < 0x80) { want = v[0]; wantLen = 1; }
    else if (v[0] < 0xc0) wantLen = 0;
    else if (v[0] < 0xe0) { wantLen = 2; if (t1) { want = (v[0] - 0xc0) * 64 + (v[1] - 0x80); if (want < 0x80) want = 0xffffffff; } }
    else if (v[0] < 0xf0) { wantLen = 3; if (t1 && t2) { want = (v[0] - 0xe0) * 4096 + (v[1] - 0x80) * 64 + (v[2] - 0x80); if (want < 0x800 || (want >= 0xd800 && want < 0xe000)) want = 0xffffffff; } }
    else if (v[0] < 0xf8) { wantLen = 4; if (t1 && t2 && t3) { want = (v[0] - 0xf0) * 262144 + (v[1] - 0x80) * 4096 + (v[2] - 0x80) * 64 + (v[3] - 0x80); if (want < 0x10000 || want > 0x10ffff) want = 0xffffffff; } }
    CHECK(got == want, "bytes are decoded to another character");
    CHECK(len == wantLen, "the length of a character is wrong");
    if (got != 0xffffffff) {
        char again[4];
        const int n = encodeUtf8(again, got);
        CHECK(n == len, "encoding the character again gives another length");
        for (int i = 0; i < n; ++i) CHECK(again[i] == b[i], "encoding the character again gives other bytes");
        wsym_reach("scalar");
    } else wsym_reach("bad");
}

extern "C" void harness_utf16() {
    const uint32_t cp = nd_u32("cp");
    wchar_t w[2] = {0, 0};
    const int n = encodeUtf16(w, cp);
    const bool scalar = cp < 0xD800 || (cp > 0xDFFF && cp <= 0x10FFFF);
    CHECK(n == (!scalar ? 0 : cp < 0x10000 ? 1 : 2), "UTF-16 length");
    if (n == 1) CHECK((uint32_t)(uint16_t)w[0] == cp, "UTF-16 unit");
    if (n == 2) {
        CHECK(((uint16_t)w[0] & 0xfc00) == 0xd800 && ((uint16_t)w[1] & 0xfc00) == 0xdc00, "not a surrogate pair");
        CHECK(decodeSurrogatePair(w[0], w[1]) == cp, "UTF-16 round trip");
    }
    if (n) wsym_reach("scalar"); else wsym_reach("bad");
}
