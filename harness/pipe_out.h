// A real output pipe whose bytes the harness collects.
#ifndef PIPE_OUT_H
#define PIPE_OUT_H
#include <string>
#include "w32.h"
#include "agent/EventLoop.h"
#include "agent/NamedPipe.h"

#ifndef OUT_MAX
#define OUT_MAX 4096
#endif
struct OutBytes { char b[OUT_MAX]; int n; };
static OutBytes g_out;

static void pipeWorld() {
    w32_defaults();
    w32.CreateFileW = [](LPCWSTR, DWORD, DWORD, LPSECURITY_ATTRIBUTES, DWORD, DWORD, HANDLE) -> HANDLE { return (HANDLE)0x100; };
    w32.CreateEventW = [](LPSECURITY_ATTRIBUTES, BOOL, BOOL, LPCWSTR) -> HANDLE { return (HANDLE)0x104; };
    w32.ResetEvent = [](HANDLE) -> BOOL { return TRUE; };
    w32.CancelIo = [](HANDLE) -> BOOL { return TRUE; };
    w32.CloseHandle = [](HANDLE) -> BOOL { return TRUE; };
    w32.GetTickCount = []() -> DWORD { return 0; };
    w32.WriteFile = [](HANDLE, LPCVOID p, DWORD n, LPDWORD actual, LPOVERLAPPED) -> BOOL {
        if (g_out.n + n > sizeof(g_out.b)) { wsym_fail("harness: output buffer full"); wsym_stop(); }
        memcpy(g_out.b + g_out.n, p, n);
        g_out.n += n;
        *actual = n;
        return TRUE;
    };
}

class OutLoop : public EventLoop {
public:
    OutLoop() : pipe(createNamedPipe()) { pipe.connectToServer(L"p", NamedPipe::OpenMode::Writing); }
    void drain() { g_out.n = 0; if (pipe.bytesToSend() == 0) return; run(); }
    NamedPipe &pipe;
protected:
    virtual void onPipeIo(NamedPipe &) { shutdown(); }
};
#endif
