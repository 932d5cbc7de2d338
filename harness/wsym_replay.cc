// The native side of wsym.h: a program that runs a harness, compiled with the real sources for Windows, on the inputs
// named in a file.  argv: inputs-file entry-is-fixed-at-compile-time [param=value...].
#define _KERNEL32_
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <new>
#include <string>
#include <vector>
#include "wsym.h"

struct In { std::string name; unsigned bits; unsigned long long v; };
static std::vector<In> g_in;
static size_t g_pos;
static int g_argc;
static char **g_argv;
static bool g_faultOn, g_sticky;
static unsigned long long g_faultK, g_allocs, g_peak, g_live;

static void finish(int code) { fflush(stdout); _exit(code); }

extern "C" {
unsigned long long wsym_nondet(const char *name, int bits) {
    unsigned long long v = 0;
    if (g_pos < g_in.size()) v = g_in[g_pos].v;
    ++g_pos;
    return bits < 64 ? v & ((1ull << bits) - 1) : v;
}
void wsym_symbolic(void *p, unsigned long long n, const char *name) {
    for (unsigned long long i = 0; i < n; ++i) ((unsigned char *)p)[i] = (unsigned char)wsym_nondet(name, 8);
}
void wsym_assume(int c) { if (!c) { printf("ASSUME\n"); finish(44); } }
void wsym_fail(const char *m) { printf("FAIL %s\n", m); finish(43); }
void wsym_assert(int c, const char *m) { if (!c) wsym_fail(m); }
void wsym_reach(const char *l) { printf("reach %s 0\n", l); }
void wsym_stop(void) { printf("STOP\n"); finish(44); }
int wsym_param(const char *name, int d) {
    for (int i = 2; i < g_argc; ++i) {
        const size_t n = strlen(name);
        if (!strncmp(g_argv[i], name, n) && g_argv[i][n] == '=') return atoi(g_argv[i] + n + 1);
    }
    return d;
}
void wsym_log(const char *m, long long v) { printf("log %s %llu\n", m, (unsigned long long)v); }
int wsym_replay(void) { return 1; }
unsigned long long wsym_concretize(unsigned long long v) { return v; }
void wsym_alloc_fault(unsigned long long k) { g_faultOn = k != ~0ull; g_faultK = k; g_allocs = g_peak = 0; g_sticky = false; }
void wsym_alloc_sticky(void) { g_sticky = true; }
unsigned long long wsym_alloc_count(void) { return g_allocs; }
unsigned long long wsym_alloc_peak(void) { return g_peak; }
unsigned long long wsym_live(void) { return g_live; }
void wsym_unmodelled(const char *m) { printf("UNMODELLED %s\n", m); finish(45); }
void WSYM_ENTRY(void);
}

static void *get(size_t n) {
    if (n > g_peak) g_peak = n;
    if (g_faultOn && (g_sticky ? g_allocs++ >= g_faultK : g_allocs++ == g_faultK)) return 0;
    void *p = n > (1ull << 28) ? 0 : malloc(n ? n : 1);
    if (p) ++g_live;
    return p;
}
static void put(void *p) { if (p) { --g_live; free(p); } }
void *operator new(size_t n) { void *p = get(n); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](size_t n) { return operator new(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return get(n); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return get(n); }
void operator delete(void *p) noexcept { put(p); }
void operator delete[](void *p) noexcept { put(p); }
void operator delete(void *p, size_t) noexcept { put(p); }
void operator delete[](void *p, size_t) noexcept { put(p); }

int main(int argc, char **argv) {
    g_argc = argc; g_argv = argv;
    if (argc < 2) return 2;
    FILE *f = fopen(argv[1], "r");
    if (!f) return 2;
    char name[512];
    unsigned bits;
    unsigned long long v;
    while (fscanf(f, "%511s %u %llu", name, &bits, &v) == 3) { In x = { name, bits, v }; g_in.push_back(x); }
    fclose(f);
    WSYM_ENTRY();
    printf("DONE\n");
    finish(0);
}
