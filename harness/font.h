// The console's font: what Windows offers, and which of it the agent should choose.
#ifndef HARNESS_FONT_H
#define HARNESS_FONT_H
#include <stdint.h>
#include <string.h>
#include <wchar.h>
#include "w32.h"
struct Info { DWORD index; COORD size; };
struct InfoEx { ULONG cb; DWORD index; COORD size; UINT family, weight; WCHAR face[32]; };

// What Windows' console properties offer, with the width of a cell for each height.
struct Size { int height, width; };
static const Size kLucida[] = { { 5, 3 }, { 6, 4 }, { 8, 5 }, { 10, 6 }, { 12, 7 }, { 14, 8 }, { 16, 10 }, { 18, 11 }, { 20, 12 }, { 36, 22 }, { 48, 29 }, { 60, 36 }, { 72, 43 }, { 0, 0 } };
static const Size kGothic7[] = { { 6, 3 }, { 8, 4 }, { 10, 5 }, { 12, 6 }, { 13, 7 }, { 15, 8 }, { 17, 9 }, { 19, 10 }, { 21, 11 }, { 0, 0 } };
static const Size kGothic8[] = { { 5, 3 }, { 7, 4 }, { 9, 5 }, { 11, 6 }, { 13, 7 }, { 15, 8 }, { 17, 9 }, { 20, 10 }, { 22, 11 }, { 24, 12 }, { 36, 18 }, { 48, 24 }, { 60, 30 }, { 72, 36 }, { 0, 0 } };
static const Size kEven[] = { { 6, 3 }, { 8, 4 }, { 10, 5 }, { 12, 6 }, { 14, 7 }, { 16, 8 }, { 18, 9 }, { 20, 10 }, { 22, 11 }, { 24, 12 }, { 36, 18 }, { 48, 24 }, { 60, 30 }, { 72, 36 }, { 0, 0 } };
static const wchar_t nLucida[] = L"Lucida Console", nGothic[] = { 0xff2d, 0xff33, 0x20, 0x30b4, 0x30b7, 0x30c3, 0x30af, 0 }, nSimSun[] = { 0x65b0, 0x5b8b, 0x4f53, 0 },
    nGulim[] = { 0xad74, 0xb9bc, 0xccb4, 0 }, nMing[] = { 0x7d30, 0x660e, 0x9ad4, 0 };

static void fontOf(unsigned cp, bool fallback, bool w10, int win, const wchar_t *&face, const Size *&sizes) {
    face = nLucida; sizes = kLucida;
    if (fallback) return;
    switch (cp) {
    case 932: face = nGothic; sizes = w10 ? kEven : win >= 62 ? kGothic8 : kGothic7; break;
    case 936: face = nSimSun; sizes = kEven; break;
    case 949: face = nGulim; sizes = kEven; break;
    case 950: face = nMing; sizes = kEven; break;
    }
}
// How wide the window is with a font: 160 pixels are the least that Windows makes a console window, and a program that
// halves the columns (but not below 40) should still get its size.
static int wantedFont(const Size *s, int columns) {
    const int half = columns / 2 > 40 ? columns / 2 : columns < 40 ? columns : 40;
    for (int i = 0; s[i].height; ++i) if ((s[i].width * columns >= 160) & (s[i].width * half >= 160)) return s[i].height;
    for (int i = 0; s[i].height; ++i) if (s[i].width * columns >= 160) return s[i].height;
    int last = 0;
    while (s[last + 1].height) ++last;
    return s[last].height;
}
#endif
