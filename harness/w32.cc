#define _KERNEL32_
#define _USER32_
#define _ADVAPI32_
#include "w32.h"

W32Hooks w32;
DWORD w32_lastError;

extern "C" {
#define X(ret, name, params, args) \
    ret WINAPI name params { if (!w32.name) wsym_unmodelled(#name); return w32.name args; }
W32_LIST(X)
#undef X
#ifdef WSYM_NATIVE
// The replay build renames the Win32 functions the harness stands in for (build/rename.h), so that the C runtime keeps
// the real ones.
#define IMP2(n) __imp_##n
#define IMP(n) IMP2(n)
#define X(ret, name, params, args) void *IMP(name) = (void *)name;
W32_LIST(X)
#undef X
#endif
}

void w32_defaults() {
    w32.GetLastError = []() -> DWORD { return w32_lastError; };
    w32.SetLastError = [](DWORD e) { w32_lastError = e; };
    w32.GetEnvironmentVariableA = [](LPCSTR, LPSTR, DWORD) -> DWORD { return 0; };
    w32.InitializeCriticalSection = [](LPCRITICAL_SECTION c) { c->RecursionCount = 0; };
    w32.DeleteCriticalSection = [](LPCRITICAL_SECTION c) { CHECK(c->RecursionCount == 0, "a lock is destroyed while held"); };
    w32.EnterCriticalSection = [](LPCRITICAL_SECTION c) { ++c->RecursionCount; };
    w32.LeaveCriticalSection = [](LPCRITICAL_SECTION c) { CHECK(c->RecursionCount > 0, "a lock is released while not held"); --c->RecursionCount; };
}
