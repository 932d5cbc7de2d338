// Interface between a harness and the symbolic executor (or, in a replay build, wsym_replay.cc).
#ifndef WSYM_H
#define WSYM_H
extern "C" {
unsigned long long wsym_nondet(const char *name, int bits);  // an arbitrary value
void wsym_symbolic(void *p, unsigned long long n, const char *name);
void wsym_assume(int cond);
void wsym_assert(int cond, const char *msg);
void wsym_fail(const char *msg);
void wsym_reach(const char *label);       // reachability witness
void wsym_stop(void);                     // end this path
int wsym_param(const char *name, int dflt);
void wsym_log(const char *msg, long long v);
int wsym_replay(void);                    // 1 in the native replay build
unsigned long long wsym_concretize(unsigned long long v); // case split over every feasible value
void wsym_alloc_fault(unsigned long long k); // the k-th allocation from now on fails; ~0: none
unsigned long long wsym_alloc_count(void);   // allocations seen since wsym_alloc_fault
void wsym_alloc_sticky(void);                // and so do all later ones
unsigned long long wsym_alloc_peak(void);    // the largest allocation requested since wsym_alloc_fault
unsigned long long wsym_live(void);          // live heap objects
}
static inline unsigned char nd_u8(const char *n) { return (unsigned char)wsym_nondet(n, 8); }
static inline unsigned short nd_u16(const char *n) { return (unsigned short)wsym_nondet(n, 16); }
static inline unsigned int nd_u32(const char *n) { return (unsigned int)wsym_nondet(n, 32); }
static inline unsigned long long nd_u64(const char *n) { return wsym_nondet(n, 64); }
static inline int nd_int(const char *n) { return (int)wsym_nondet(n, 32); }
static inline bool nd_bool(const char *n) { return wsym_nondet(n, 1) != 0; }
// An arbitrary int in [lo, hi].
static inline int nd_range(const char *n, int lo, int hi) {
    int v = (int)wsym_nondet(n, 32);
    wsym_assume(v >= lo && v <= hi);
    return v;
}
#define CHECK(c, msg) wsym_assert(!!(c), msg)
#endif
