// The demonstration's side of wsym.h: scripted values instead of arbitrary ones, and a failing check ends with code 1.
#define _KERNEL32_
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <map>
#include <deque>
#include <string>
#include "demo.h"
static std::map<std::string, std::deque<unsigned long long>> g_script;
static std::map<std::string, int> g_params;
static void finish(int code) { fflush(stdout); _exit(code); }
void give(const char *name, unsigned long long v) { g_script[name].push_back(v); }
void param(const char *name, int v) { g_params[name] = v; }
extern "C" {
unsigned long long wsym_nondet(const char *name, int bits) {
    std::deque<unsigned long long> &q = g_script[name];
    if (q.empty()) return 0;
    const unsigned long long v = q.front();
    q.pop_front();
    return v;
}
void wsym_symbolic(void *p, unsigned long long n, const char *) { memset(p, 0, n); }
void wsym_assume(int c) { if (!c) { printf("demo: bad script\n"); finish(0); } }
void wsym_fail(const char *m) { printf("demo: %s\n", m); finish(1); }
void wsym_assert(int c, const char *m) { if (!c) wsym_fail(m); }
void wsym_reach(const char *) {}
void wsym_stop(void) { printf("demo: stopped\n"); finish(0); }
int wsym_param(const char *name, int d) { return g_params.count(name) ? g_params[name] : d; }
void wsym_log(const char *, long long) {}
int wsym_replay(void) { return 1; }
unsigned long long wsym_concretize(unsigned long long v) { return v; }
void wsym_alloc_fault(unsigned long long) {}
unsigned long long wsym_alloc_count(void) { return 0; }
void wsym_alloc_sticky(void) {}
unsigned long long wsym_alloc_peak(void) { return 0; }
unsigned long long wsym_live(void) { return 0; }
void wsym_unmodelled(const char *m) { printf("demo: %s is not modelled\n", m); finish(0); }
}
int main() { demo(); printf("demo: ok\n"); finish(0); }
