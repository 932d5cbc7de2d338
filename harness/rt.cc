// The parts of the C and C++ runtime the code under test uses, as source: compiled to IR and linked into every
// symbolic run (the replay build uses the real runtime instead).  The string classes are instantiated from the
// installed libstdc++ headers.
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
#include <string>
#include <exception>
#include <stdexcept>
#include <new>
#include <list>
#include <map>
#include <set>
#include <unordered_map>
#include <pthread.h>
#include <stdlib.h>
#include <string.h>
#include <wchar.h>
#include <ctype.h>
#include <wctype.h>
#include <stdio.h>
#include "wsym.h"

template class std::basic_string<char>;
template class std::basic_string<wchar_t>;

extern "C" {

size_t strlen(const char *s) { size_t n = 0; while (s[n]) ++n; return n; }
size_t wcslen(const wchar_t *s) { size_t n = 0; while (s[n]) ++n; return n; }
size_t strnlen(const char *s, size_t m) { size_t n = 0; while (n < m && s[n]) ++n; return n; }
size_t wcsnlen(const wchar_t *s, size_t m) { size_t n = 0; while (n < m && s[n]) ++n; return n; }
int strcmp(const char *a, const char *b) {
    while (*a && *a == *b) { ++a; ++b; }
    return (int)(unsigned char)*a - (int)(unsigned char)*b;
}
int strncmp(const char *a, const char *b, size_t n) {
    for (size_t i = 0; i < n; ++i) {
        if (a[i] != b[i]) return (int)(unsigned char)a[i] - (int)(unsigned char)b[i];
        if (!a[i]) return 0;
    }
    return 0;
}
int wcscmp(const wchar_t *a, const wchar_t *b) {
    while (*a && *a == *b) { ++a; ++b; }
    return (int)*a - (int)*b;
}
int wcsncmp(const wchar_t *a, const wchar_t *b, size_t n) {
    for (size_t i = 0; i < n; ++i) {
        if (a[i] != b[i]) return (int)a[i] - (int)b[i];
        if (!a[i]) return 0;
    }
    return 0;
}
char *strchr(const char *s, int c) {
    for (;; ++s) { if (*s == (char)c) return (char *)s; if (!*s) return 0; }
}
char *strrchr(const char *s, int c) {
    char *r = 0;
    for (;; ++s) { if (*s == (char)c) r = (char *)s; if (!*s) return r; }
}
wchar_t *wcschr(const wchar_t *s, wchar_t c) {
    for (;; ++s) { if (*s == c) return (wchar_t *)s; if (!*s) return 0; }
}
wchar_t *wcsrchr(const wchar_t *s, wchar_t c) {
    wchar_t *r = 0;
    for (;; ++s) { if (*s == c) r = (wchar_t *)s; if (!*s) return r; }
}
char *strstr(const char *h, const char *n) {
    for (;; ++h) {
        size_t i = 0;
        while (n[i] && h[i] == n[i]) ++i;
        if (!n[i]) return (char *)h;
        if (!*h) return 0;
    }
}
wchar_t *wcsstr(const wchar_t *h, const wchar_t *n) {
    for (;; ++h) {
        size_t i = 0;
        while (n[i] && h[i] == n[i]) ++i;
        if (!n[i]) return (wchar_t *)h;
        if (!*h) return 0;
    }
}
struct _iobuf *__acrt_iob_func(unsigned i) { static char file[3][64]; return (struct _iobuf *)file[i % 3]; }
char *strcpy(char *d, const char *s) { size_t i = 0; do { d[i] = s[i]; } while (s[i++]); return d; }
char *strncpy(char *d, const char *s, size_t n) {
    size_t i = 0;
    for (; i < n && s[i]; ++i) d[i] = s[i];
    for (; i < n; ++i) d[i] = 0;
    return d;
}
wchar_t *wcscpy(wchar_t *d, const wchar_t *s) { size_t i = 0; do { d[i] = s[i]; } while (s[i++]); return d; }
wchar_t *wcsncpy(wchar_t *d, const wchar_t *s, size_t n) {
    size_t i = 0;
    for (; i < n && s[i]; ++i) d[i] = s[i];
    for (; i < n; ++i) d[i] = 0;
    return d;
}
// The character classes in the C locale.
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isxdigit(int c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isupper(int c) { return c >= 'A' && c <= 'Z'; }
int islower(int c) { return c >= 'a' && c <= 'z'; }
int isalpha(int c) { return isupper(c) || islower(c); }
int isalnum(int c) { return isalpha(c) || isdigit(c); }
int tolower(int c) { return isupper(c) ? c + 32 : c; }
int toupper(int c) { return islower(c) ? c - 32 : c; }
int iswspace(unsigned short c) { return c == ' ' || (c >= 9 && c <= 13); }
int iswdigit(unsigned short c) { return c >= '0' && c <= '9'; }
unsigned short towlower(unsigned short c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int abs(int x) { return x < 0 ? -x : x; }
int iscntrl(int c) { return (c >= 0 && c < 32) || c == 127; }
int isprint(int c) { return c >= 32 && c < 127; }
int isgraph(int c) { return c > 32 && c < 127; }
int ispunct(int c) { return isgraph(c) && !isalnum(c); }
int isblank(int c) { return c == ' ' || c == 9; }
int iswupper(unsigned short c) { return c >= 'A' && c <= 'Z'; }
int iswlower(unsigned short c) { return c >= 'a' && c <= 'z'; }
int iswalpha(unsigned short c) { return iswupper(c) || iswlower(c); }
int iswalnum(unsigned short c) { return iswalpha(c) || iswdigit(c); }
int iswxdigit(unsigned short c) { return iswdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
unsigned short towupper(unsigned short c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
long labs(long x) { return x < 0 ? -x : x; }
int *_errno() { static int e; return &e; }
} // extern "C"

template <class C> static long long toInt(const C *s, C **end, int base, long long lo, long long hi) {
    const C *p = s;
    while (*p == ' ' || (*p >= 9 && *p <= 13)) ++p;
    bool neg = false;
    if (*p == '+' || *p == '-') { neg = *p == '-'; ++p; }
    auto hex = [](C c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); };
    if (base == 0) {
        base = 10;
        if (*p == '0') { base = 8; if ((p[1] == 'x' || p[1] == 'X') && hex(p[2])) { base = 16; p += 2; } }
    } else if (base == 16 && *p == '0' && (p[1] == 'x' || p[1] == 'X') && hex(p[2])) {
        p += 2;
    }
    // For an unsigned result lo is 0 and hi the greatest value; a minus sign then negates it, as strtoul does.
    const bool sign = lo < 0;
    const unsigned long long lim = sign && neg ? 0 - (unsigned long long)lo : (unsigned long long)hi;
    unsigned long long v = 0;
    bool any = false, over = false;
    for (;; ++p) {
        int d;
        if (*p >= '0' && *p <= '9') d = *p - '0';
        else if (*p >= 'a' && *p <= 'z') d = *p - 'a' + 10;
        else if (*p >= 'A' && *p <= 'Z') d = *p - 'A' + 10;
        else break;
        if (d >= base) break;
        any = true;
        if (v > (lim - d) / base) over = true;
        else v = v * base + d;
    }
    if (end) *end = (C *)(any ? p : s);
    if (over) { *_errno() = 34; return sign && neg ? lo : hi; }
    return neg ? (long long)(0 - v) : (long long)v;
}
static const long long kMaxLL = (long long)(~0ull >> 1), kMinLL = -kMaxLL - 1;
extern "C" {
long long strtoll(const char *s, char **end, int base) { return toInt(s, end, base, kMinLL, kMaxLL); }
long strtol(const char *s, char **end, int base) { return (long)toInt(s, end, base, -2147483647LL - 1, 2147483647LL); }
unsigned long long strtoull(const char *s, char **end, int base) { return toInt(s, end, base, 0, -1LL); }
unsigned long strtoul(const char *s, char **end, int base) { return (unsigned long)toInt(s, end, base, 0, 0xffffffffLL); }
long long wcstoll(const wchar_t *s, wchar_t **end, int base) { return toInt(s, end, base, kMinLL, kMaxLL); }
long wcstol(const wchar_t *s, wchar_t **end, int base) { return (long)toInt(s, end, base, -2147483647LL - 1, 2147483647LL); }
unsigned long long wcstoull(const wchar_t *s, wchar_t **end, int base) { return toInt(s, end, base, 0, -1LL); }
unsigned long wcstoul(const wchar_t *s, wchar_t **end, int base) { return (unsigned long)toInt(s, end, base, 0, 0xffffffffLL); }
int atoi(const char *s) { return (int)strtoll(s, 0, 10); }
long atol(const char *s) { return (long)strtoll(s, 0, 10); }
long long atoll(const char *s) { return strtoll(s, 0, 10); }
int _wtoi(const wchar_t *s) { return (int)wcstoll(s, 0, 10); }
} // extern "C"

// vsnprintf for the conversions the sources use.
template <class C> static void outc(C *out, size_t size, size_t &n, C c) { if (n + 1 < size) out[n] = c; ++n; }
template <class C> static int format(C *out, size_t size, const C *fmt, va_list ap) {
    size_t n = 0;
    for (; *fmt; ++fmt) {
        if (*fmt != '%') { outc(out, size, n, *fmt); continue; }
        ++fmt;
        bool alt = false, zero = false, left = false, plus = false, space = false;
        for (;; ++fmt) {
            if (*fmt == '#') alt = true;
            else if (*fmt == '0') zero = true;
            else if (*fmt == '-') left = true;
            else if (*fmt == '+') plus = true;
            else if (*fmt == ' ') space = true;
            else break;
        }
        int width = 0, prec = -1;
        if (*fmt == '*') { width = va_arg(ap, int); ++fmt; if (width < 0) { left = true; width = -width; } }
        else while (*fmt >= '0' && *fmt <= '9') width = width * 10 + (*fmt++ - '0');
        if (*fmt == '.') {
            ++fmt;
            prec = 0;
            if (*fmt == '*') { prec = va_arg(ap, int); ++fmt; }
            else while (*fmt >= '0' && *fmt <= '9') prec = prec * 10 + (*fmt++ - '0');
        }
        int size64 = 0, wide = 0, half = 0;
        for (;; ++fmt) {
            if (*fmt == 'l') { if (fmt[1] == 'l') { size64 = 1; ++fmt; } wide = 1; }
            else if (*fmt == 'h') ++half;
            else if (*fmt == 'z' || *fmt == 't' || *fmt == 'j') size64 = 1;
            else if (*fmt == 'I' && fmt[1] == '6' && fmt[2] == '4') { size64 = 1; fmt += 2; }
            else if (*fmt == 'I' && fmt[1] == '3' && fmt[2] == '2') fmt += 2;
            else break;
        }
        const C conv = *fmt;
        if (conv == 's' || conv == 'S') {
            bool w = (conv == 'S') || wide;
            size_t len = 0;
            const char *s = 0;
            const wchar_t *ws = 0;
            if (w) { ws = va_arg(ap, const wchar_t *); if (!ws) ws = L"(null)"; while ((prec < 0 || len < (size_t)prec) && ws[len]) ++len; }
            else { s = va_arg(ap, const char *); if (!s) s = "(null)"; while ((prec < 0 || len < (size_t)prec) && s[len]) ++len; }
            if (!left) for (size_t i = len; i < (size_t)width; ++i) outc(out, size, n, (C)' ');
            for (size_t i = 0; i < len; ++i) outc(out, size, n, w ? (C)ws[i] : (C)s[i]);
            if (left) for (size_t i = len; i < (size_t)width; ++i) outc(out, size, n, (C)' ');
        } else if (conv == 'c') {
            const C c = (C)va_arg(ap, int);
            if (!left) for (int i = 1; i < width; ++i) outc(out, size, n, (C)' ');
            outc(out, size, n, c);
            if (left) for (int i = 1; i < width; ++i) outc(out, size, n, (C)' ');
        } else if (conv == 'd' || conv == 'i' || conv == 'u' || conv == 'x' || conv == 'X' || conv == 'o' || conv == 'p') {
            unsigned long long v;
            bool neg = false;
            if (conv == 'p') { v = (unsigned long long)va_arg(ap, void *); size64 = 1; prec = 16; }
            else if (conv == 'd' || conv == 'i') {
                long long sv = size64 ? va_arg(ap, long long) : (long long)va_arg(ap, int);
                if (half == 1) sv = (short)sv; else if (half >= 2) sv = (signed char)sv;
                neg = sv < 0;
                v = neg ? 0ull - (unsigned long long)sv : (unsigned long long)sv;
            } else {
                v = size64 ? va_arg(ap, unsigned long long) : (unsigned long long)va_arg(ap, unsigned);
                if (half == 1) v = (unsigned short)v; else if (half >= 2) v = (unsigned char)v;
            }
            int base = conv == 'x' || conv == 'X' || conv == 'p' ? 16 : conv == 'o' ? 8 : 10;
            char buf[32];
            int k = 0;
            bool nz = v != 0;
            while (v) {
                unsigned d;
                // 32-bit division is much cheaper for the solver than 64-bit division.
                if (base == 16) { d = v & 15; v >>= 4; }
                else if (base == 8) { d = v & 7; v >>= 3; }
                else if (v <= 0xffffffffull) { unsigned u = (unsigned)v; d = u % 10; v = u / 10; }
                else { d = (unsigned)(v % 10); v /= 10; }
                buf[k++] = d < 10 ? '0' + d : (conv == 'X' ? 'A' : 'a') + d - 10;
            }
            if (k == 0 && prec != 0) buf[k++] = '0';
            while (k < prec && k < 30) buf[k++] = '0';
            const char *pre = neg ? "-" : plus && (conv == 'd' || conv == 'i') ? "+" : space && (conv == 'd' || conv == 'i') ? " " : "";
            if (alt && nz) pre = conv == 'x' ? "0x" : conv == 'X' ? "0X" : conv == 'o' ? "0" : pre;
            int plen = 0;
            while (pre[plen]) ++plen;
            int total = plen + k;
            bool zpad = zero && !left && prec < 0;
            if (!left && !zpad) for (int i = total; i < width; ++i) outc(out, size, n, (C)' ');
            for (int i = 0; i < plen; ++i) outc(out, size, n, (C)pre[i]);
            if (zpad) for (int i = total; i < width; ++i) outc(out, size, n, (C)'0');
            while (k > 0) outc(out, size, n, (C)buf[--k]);
            if (left) for (int i = total; i < width; ++i) outc(out, size, n, (C)' ');
        } else if (conv == '%') {
            outc(out, size, n, (C)'%');
        } else {
            wsym_fail("harness: unsupported printf conversion");
        }
    }
    if (size) out[n < size ? n : size - 1] = 0;
    return (int)n;
}
extern "C" {
int __mingw_vsnprintf(char *out, size_t size, const char *fmt, va_list ap) { return format(out, size, fmt, ap); }
int __mingw_vsprintf(char *out, const char *fmt, va_list ap) { return format(out, (size_t)1 << 30, fmt, ap); }
int __mingw_vsnwprintf(wchar_t *out, size_t size, const wchar_t *fmt, va_list ap) { int n = format(out, size, fmt, ap); return n < (int)size ? n : -1; }
int __mingw_vfprintf(struct _iobuf *, const char *, va_list) { return 0; }
int fputs(const char *, struct _iobuf *) { return 0; }
int fputc(int c, struct _iobuf *) { return c; }
int putchar(int c) { return c; }
int puts(const char *) { return 0; }
int fflush(struct _iobuf *) { return 0; }
void *bsearch(const void *key, const void *base, size_t n, size_t sz, int (*cmp)(const void *, const void *)) {
    size_t lo = 0, hi = n;
    while (lo < hi) {
        size_t m = (lo + hi) / 2;
        const char *p = (const char *)base + m * sz;
        int c = cmp(key, p);
        if (c == 0) return (void *)p;
        if (c < 0) hi = m; else lo = m + 1;
    }
    return 0;
}
void qsort(void *base, size_t n, size_t sz, int (*cmp)(const void *, const void *)) {
    char *b = (char *)base;
    for (size_t i = 1; i < n; ++i)
        for (size_t j = i; j > 0 && cmp(b + (j - 1) * sz, b + j * sz) > 0; --j)
            for (size_t k = 0; k < sz; ++k) { char t = b[(j - 1) * sz + k]; b[(j - 1) * sz + k] = b[j * sz + k]; b[j * sz + k] = t; }
}
} // extern "C"

template <class C> static size_t spanOf(const C *s, const C *set, bool in) {
    size_t n = 0;
    for (; s[n]; ++n) {
        bool hit = false;
        for (size_t i = 0; set[i]; ++i) if (set[i] == s[n]) { hit = true; break; }
        if (hit != in) break;
    }
    return n;
}
template <class C> static C *append(C *d, const C *s, size_t m) {
    size_t n = 0, i = 0;
    while (d[n]) ++n;
    for (; i < m && s[i]; ++i) d[n + i] = s[i];
    d[n + i] = 0;
    return d;
}
template <class C> static int compareFold(const C *a, const C *b, size_t m) {
    for (size_t i = 0; i < m; ++i) {
        int x = a[i], y = b[i];
        if (x >= 'A' && x <= 'Z') x += 32;
        if (y >= 'A' && y <= 'Z') y += 32;
        if (x != y) return x < y ? -1 : 1;
        if (!x) return 0;
    }
    return 0;
}
template <class C> static C *duplicate(const C *s) {
    size_t n = 0;
    while (s[n]) ++n;
    C *d = (C *)malloc((n + 1) * sizeof(C));
    for (size_t i = 0; i <= n; ++i) d[i] = s[i];
    return d;
}
extern "C" {
size_t strspn(const char *s, const char *set) { return spanOf(s, set, true); }
size_t strcspn(const char *s, const char *set) { return spanOf(s, set, false); }
size_t wcsspn(const wchar_t *s, const wchar_t *set) { return spanOf(s, set, true); }
size_t wcscspn(const wchar_t *s, const wchar_t *set) { return spanOf(s, set, false); }
char *strpbrk(const char *s, const char *set) { s += spanOf(s, set, false); return *s ? (char *)s : 0; }
wchar_t *wcspbrk(const wchar_t *s, const wchar_t *set) { s += spanOf(s, set, false); return *s ? (wchar_t *)s : 0; }
char *strcat(char *d, const char *s) { return append(d, s, ~(size_t)0); }
char *strncat(char *d, const char *s, size_t m) { return append(d, s, m); }
wchar_t *wcscat(wchar_t *d, const wchar_t *s) { return append(d, s, ~(size_t)0); }
wchar_t *wcsncat(wchar_t *d, const wchar_t *s, size_t m) { return append(d, s, m); }
int _stricmp(const char *a, const char *b) { return compareFold(a, b, ~(size_t)0); }
int _strnicmp(const char *a, const char *b, size_t m) { return compareFold(a, b, m); }
int stricmp(const char *a, const char *b) { return compareFold(a, b, ~(size_t)0); }
int _wcsicmp(const wchar_t *a, const wchar_t *b) { return compareFold(a, b, ~(size_t)0); }
int wcsicmp(const wchar_t *a, const wchar_t *b) { return compareFold(a, b, ~(size_t)0); }
int _wcsnicmp(const wchar_t *a, const wchar_t *b, size_t m) { return compareFold(a, b, m); }
wchar_t *wcsdup(const wchar_t *s) { return duplicate(s); }
wchar_t *_wcsdup(const wchar_t *s) { return duplicate(s); }
char *_strdup(const char *s) { return duplicate(s); }
int pthread_mutex_init(pthread_mutex_t *, const pthread_mutexattr_t *) { return 0; }
int pthread_mutex_destroy(pthread_mutex_t *) { return 0; }
int pthread_mutex_lock(pthread_mutex_t *) { return 0; }
int pthread_mutex_trylock(pthread_mutex_t *) { return 0; }
int pthread_mutex_unlock(pthread_mutex_t *) { return 0; }
} // extern "C"

// The library parts of the node containers.  The trees are not kept balanced: the order of their elements, which is
// all that can be observed, does not depend on it.
namespace std {
typedef _Rb_tree_node_base Node;
static Node *treeNext(Node *x) {
    if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
    Node *y = x->_M_parent;
    while (x == y->_M_right) { x = y; y = y->_M_parent; }
    return x->_M_right != y ? y : x;
}
static Node *treePrev(Node *x) {
    if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
    if (x->_M_left) { Node *y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; }
    Node *y = x->_M_parent;
    while (x == y->_M_left) { x = y; y = y->_M_parent; }
    return y;
}
Node *_Rb_tree_increment(Node *x) throw() { return treeNext(x); }
const Node *_Rb_tree_increment(const Node *x) throw() { return treeNext((Node *)x); }
Node *_Rb_tree_decrement(Node *x) throw() { return treePrev(x); }
const Node *_Rb_tree_decrement(const Node *x) throw() { return treePrev((Node *)x); }
void _Rb_tree_insert_and_rebalance(const bool left, Node *x, Node *p, Node &header) throw() {
    x->_M_parent = p;
    x->_M_left = x->_M_right = 0;
    x->_M_color = _S_black;
    if (left) {
        p->_M_left = x;
        if (p == &header) { header._M_parent = x; header._M_right = x; }
        else if (p == header._M_left) header._M_left = x;
    } else {
        p->_M_right = x;
        if (p == header._M_right) header._M_right = x;
    }
}
Node *_Rb_tree_rebalance_for_erase(Node *const z, Node &header) throw() {
    Node *const next = z->_M_right ? treeNext(z) : 0;
    Node *sub;
    if (z == header._M_left) header._M_left = z->_M_right ? next : z->_M_parent;
    if (z == header._M_right) header._M_right = z->_M_left ? treePrev(z) : z->_M_parent;
    if (z->_M_left && z->_M_right) {
        sub = next;
        if (sub != z->_M_right) {
            sub->_M_parent->_M_left = sub->_M_right;
            if (sub->_M_right) sub->_M_right->_M_parent = sub->_M_parent;
            sub->_M_right = z->_M_right;
            z->_M_right->_M_parent = sub;
        }
        sub->_M_left = z->_M_left;
        z->_M_left->_M_parent = sub;
    } else {
        sub = z->_M_left ? z->_M_left : z->_M_right;
    }
    if (header._M_parent == z) header._M_parent = sub;
    else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = sub;
    else z->_M_parent->_M_right = sub;
    if (sub) sub->_M_parent = z->_M_parent;
    return z;
}
namespace __detail {
void _List_node_base::_M_hook(_List_node_base *const pos) noexcept { _M_next = pos; _M_prev = pos->_M_prev; pos->_M_prev->_M_next = this; pos->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _M_prev->_M_next = _M_next; _M_next->_M_prev = _M_prev; }
void _List_node_base::_M_transfer(_List_node_base *const first, _List_node_base *const last) noexcept {
    if (this == last) return;
    last->_M_prev->_M_next = this;
    first->_M_prev->_M_next = last;
    _M_prev->_M_next = first;
    _List_node_base *const t = _M_prev;
    _M_prev = last->_M_prev;
    last->_M_prev = first->_M_prev;
    first->_M_prev = t;
}
void _List_node_base::_M_reverse() noexcept {
    _List_node_base *t = this;
    do { _List_node_base *n = t->_M_next; t->_M_next = t->_M_prev; t->_M_prev = n; t = n; } while (t != this);
}
void _List_node_base::swap(_List_node_base &x, _List_node_base &y) noexcept {
    auto adopt = [](_List_node_base &n) { n._M_next->_M_prev = n._M_prev->_M_next = &n; };
    const bool ex = x._M_next == &x, ey = y._M_next == &y;
    _List_node_base tx = x, ty = y;
    if (ey) x._M_next = x._M_prev = &x; else { x = ty; adopt(x); }
    if (ex) y._M_next = y._M_prev = &y; else { y = tx; adopt(y); }
}
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const {
    static const size_t primes[] = { 2, 5, 11, 23, 47, 97, 199, 409, 823, 1741, 3469, 6949, 14033 };
    for (size_t p : primes) if (p >= n) { _M_next_resize = p; return p; }
    wsym_fail("harness: a hash table larger than the model's");
    return n;
}
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t bkt, size_t elt, size_t ins) const {
    if (elt + ins <= _M_next_resize) return { false, 0 };
    if (elt + ins >= bkt) return { true, _M_next_bkt(elt + ins + 1 > bkt * 2 ? elt + ins + 1 : bkt * 2) };
    _M_next_resize = bkt;
    return { false, 0 };
}
} // namespace __detail
size_t _Hash_bytes(const void *p, size_t n, size_t seed) {
    size_t h = seed;
    for (size_t i = 0; i < n; ++i) h = (h << 5) + (h >> 3) + ((const unsigned char *)p)[i];
    return h;
}

// The standard exceptions a program may throw itself.
__cow_string::__cow_string(const char *s, size_t) : _M_p(duplicate(s)) {}
__cow_string::__cow_string(const std::string &s) : _M_p(duplicate(s.c_str())) {}
__cow_string::__cow_string(const __cow_string &o) noexcept : _M_p(duplicate(o._M_p)) {}
__cow_string::~__cow_string() { free((void *)_M_p); }
exception::~exception() noexcept {}
const char *exception::what() const noexcept { return "std::exception"; }
#define BASE_EXCEPTION(X) \
    X::X(const char *s) : _M_msg(s, 0) {} \
    X::X(const std::string &s) : _M_msg(s) {} \
    X::X(const X &o) noexcept : exception(o), _M_msg(o._M_msg) {} \
    X::~X() noexcept {} \
    const char *X::what() const noexcept { return _M_msg._M_p; }
#define DERIVED_EXCEPTION(X, B) \
    X::X(const char *s) : B(s) {} \
    X::X(const std::string &s) : B(s) {} \
    X::~X() noexcept {}
BASE_EXCEPTION(logic_error)
BASE_EXCEPTION(runtime_error)
DERIVED_EXCEPTION(domain_error, logic_error)
DERIVED_EXCEPTION(invalid_argument, logic_error)
DERIVED_EXCEPTION(length_error, logic_error)
DERIVED_EXCEPTION(out_of_range, logic_error)
DERIVED_EXCEPTION(range_error, runtime_error)
DERIVED_EXCEPTION(overflow_error, runtime_error)
DERIVED_EXCEPTION(underflow_error, runtime_error)
} // namespace std
