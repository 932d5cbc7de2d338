"""Planted bugs in the agent's pipes and loop, the client library, and the shared code."""
from seeds import B
NP = 'src/agent/NamedPipe.cc'; AG = 'src/agent/Agent.cc'; EL = 'src/agent/EventLoop.cc'; LW = 'src/libwinpty/winpty.cc'
AGENT = '#include "demo.h"\n#include "agent.cc"\n'
PIPES = '#include "demo.h"\n#include "pipes.cc"\n'
LIB = '#include "demo.h"\n#include "lib.cc"\n'
# One scenario of the scripted world, with its answers and choices.
def run(pre, entry, params, gives=()):
    p = ''.join(f'    param("{k}", {v});\n' for k, v in params.items())
    g = ''.join(f'    give("{k}", {v});\n' for k, v in gives)
    return pre + 'void demo() {\n' + p + g + f'    {entry}();\n}}\n'

B('in-last', 'A01', 'agent', [(NP, '''        m_inputWorker->waitForCanceledIo();
        m_inputWorker.reset();''', '''        m_inputWorker->waitForCanceledIo();
        m_inputWorker.reset();
        m_inQueue.clear();''')],
  'the client closes the pipe right after it has sent something', 'the last input is lost',
  run(PIPES, 'harness_pipe_in', dict(props=1, close=2, n=3, k=0, pends=0, splits=0, limit=8), [('bytes sent', 3), ('client closes at once', 1)]))
B('one-packet', 'A02', 'agent', [(AG, '''        try {
            ReadBuffer buffer(std::move(packetData));
            buffer.getRawValue<uint64_t>(); // Discard the size.
            handlePacket(buffer);
        } catch (const ReadBuffer::DecodeError&) {
            ASSERT(false && "Decode error");
        }''', '''        try {
            ReadBuffer buffer(std::move(packetData));
            buffer.getRawValue<uint64_t>(); // Discard the size.
            handlePacket(buffer);
        } catch (const ReadBuffer::DecodeError&) {
            ASSERT(false && "Decode error");
        }
        if (m_controlPipe->bytesToSend() == 0) {
            // There is no reply to send, so there is nothing more to do.
            break;
        }''')],
  'a request that arrives together with an unknown message before it', 'the request is never answered',
  run(AGENT, 'harness_agent_requests', dict(props=2, n=2, k=0, kinds=6, sympid=-1), [('request', 1), ('unknown message', 9), ('request', 0)]))
B('big-packet', 'A02', 'agent', [(AG, '''            if (m_controlPipe->readBufferSize() < packetSize) {
                m_controlPipe->setReadBufferSize(packetSize);
            }
            break;''', '''            break;''')],
  'a request of more than 64 KiB, such as a start with a long environment', 'the request is never read to its end: the client waits until its timeout',
  run('#include "demo.h"\n#include "agentbig.cc"\n', 'harness_agent_big', dict(props=2, sympid=-1, split=0, k=0), [('size', 4)]))
B('send-count', 'A03', 'agent', [(NP, '    if (m_outputWorker != NULL) {\n        ret +=', '    if (m_outputWorker != NULL && ret > 0) {\n        ret +=')],
  'the program ends while the client is slow to read its last output', 'the output pipe closes before the last output has been sent',
  run(AGENT, 'harness_agent_shutdown', dict(props=4, k=8, acts=62, outpends=60, split=0, sympid=-1), [('spawn flags', 3), ('character', 65), ('last words', 1)] + [('pending write', 1)] * 60 + [('what happens', n) for n in (0, 1, 4, 1, 1, 2, 1, 1)]))
B('scrape-first', 'A03', 'agent', [(AG, '''    const bool shouldScrapeContent = !m_closingOutputPipes;
''', '''    if (!m_closingOutputPipes) {
        syncConsoleTitle();
        scrapeBuffers();
    }
'''), (AG, '''    // Scrape for output *after* the above exit-check to ensure that we collect
    // the child process's final output.
    if (shouldScrapeContent) {
        syncConsoleTitle();
        scrapeBuffers();
    }

''', '')],
  'the program prints and ends between the look at the console and the look at the process', 'the last output is lost',
  run(AGENT, 'harness_agent_shutdown', dict(props=4, k=0, races=1, split=0, sympid=-1), [('spawn flags', 3), ('character', 65), ('it ends just now', 0), ('it ends just now', 1)]))
B('loop-late', 'A05', 'agent', [(EL, 'timeout = std::max(0, (int)(lastTime + m_pollInterval - GetTickCount()));', 'timeout = lastTime + m_pollInterval - GetTickCount();')],
  'the timer comes due between the two looks at the clock', 'the agent sleeps for 49 days, or until something is typed',
  run(PIPES + '''
static DWORD looks;
static bool slept;
''', 'late', {}).replace('void demo() {', '''static void late() {
    agentKernel();
    w32.GetTickCount = []() -> DWORD { return looks++ == 0 ? 100 : looks == 2 ? 120 : 130; };
    g_env = [](DWORD ms) { CHECK(ms <= 25, "the agent sleeps through its timer"); slept = true; };
    Loop l;
    l.pipe.connectToServer(L"\\\\\\\\.\\\\pipe\\\\p", NamedPipe::OpenMode::Duplex);
    l.interval(25);
    l.step = [](Loop &l) { l.stop(); };
    l.run();
}
void demo() {'''))
B('list-grows', 'A06', 'agent', [(AG, 'while (processList.size() < processCount) {', 'if (processList.size() < processCount) {')],
  'more than 64 processes on a console, and more of them just while the list is read again', 'process ids are made up from memory beyond the list',
  run(AGENT, 'harness_agent_list', dict(props=16, k=0, races=3, sympid=-1), [('processes', 3), ('another process', 0), ('another process', 1), ('many', 1)]))
B('thread-handle', 'A07', 'agent', [(AG, '''        if (wantThreadHandle) {
            replyThread = int64FromHandle(duplicateHandle(pi.hThread));
        }
        CloseHandle(pi.hThread);''', '''        if (wantThreadHandle) {
            replyThread = int64FromHandle(duplicateHandle(pi.hThread));
            CloseHandle(pi.hThread);
        }''')],
  'a client that does not want the thread handle', 'the agent keeps a handle of the program open for ever',
  run(AGENT, 'harness_agent_shutdown', dict(props=256, k=0, exit=1, split=0, sympid=-1), [('spawn flags', 3), ('character', 65)]))
B('mouse-conerr', 'A08', 'agent', [(AG, '''    m_primaryScraper->resizeWindow(*primaryBuffer, newSize, info);
    m_consoleInput->setMouseWindowRect(info.windowRect());
    if (m_errorScraper) {
        m_errorScraper->resizeWindow(*m_errorBuffer, newSize, info);
    }
''', '''    m_primaryScraper->resizeWindow(*primaryBuffer, newSize, info);
    if (m_errorScraper) {
        m_errorScraper->resizeWindow(*m_errorBuffer, newSize, info);
    }
    m_consoleInput->setMouseWindowRect(info.windowRect());
'''), (AG, '''    m_primaryScraper->scrapeBuffer(*openPrimaryBuffer(), info);
    m_consoleInput->setMouseWindowRect(info.windowRect());
    if (m_errorScraper) {
        m_errorScraper->scrapeBuffer(*m_errorBuffer, info);
    }
''', '''    m_primaryScraper->scrapeBuffer(*openPrimaryBuffer(), info);
    if (m_errorScraper) {
        m_errorScraper->scrapeBuffer(*m_errorBuffer, info);
    }
    m_consoleInput->setMouseWindowRect(info.windowRect());
''')],
  'a separate error buffer, and a console window that has scrolled', 'clicks go to another place of the console',
  run(AGENT, 'harness_agent_requests', dict(props=128, n=1, kinds=1, k=0, click=1, flags=1, mouse=1, sympid=-1), [('window moves', 1)]))
B('impersonation', 'A09', 'agent', [(NP, 'SECURITY_SQOS_PRESENT | SECURITY_IDENTIFICATION | FILE_FLAG_OVERLAPPED', 'SECURITY_IDENTIFICATION | FILE_FLAG_OVERLAPPED')],
  'a hostile server at the control pipe', 'the server can act in the name of the agent\'s user',
  run(AGENT, 'harness_agent_requests', dict(props=32, n=1, kinds=2, k=0, sympid=-1)))
B('conerr-colour', 'A10', 'agent', [(AG, '''        errorTerminal.reset(new Terminal(*m_conerrPipe,
                                         m_plainMode,
                                         outputColor));''', '''        errorTerminal.reset(new Terminal(*m_conerrPipe,
                                         m_plainMode,
                                         !m_plainMode));''')],
  'plain output with colours and a separate error pipe', 'the colours of standard error are lost',
  run(AGENT + '''
static int state;
static void colourEnv(DWORD) {
    g_drain = true; g_tick += 25;
    if (act(A_CONNECT) || act(A_READ)) return;
    if (++g_idle < 3) return;
    if (!state++) { Con &c = con_[1]; c.cell[c.cy * CON_COLS + c.cx].Char.UnicodeChar = '#'; c.cell[c.cy * CON_COLS + c.cx].Attributes = 0x1e; g_idle = 0; return; }
    bool sgr = false;
    for (int i = 0; i + 1 < g_pipe[CONERR].nout; ++i) sgr |= g_pipe[CONERR].out[i] == 27;
    CHECK(shows(g_pipe[CONERR], '#') && sgr, "the colours of standard error are not sent");
    act(A_HANGUP);
}
static void colours() {
    world();
    g_env = colourEnv; g_onClose = 0;
    Agent *a = new Agent(L"\\\\\\\\.\\\\pipe\\\\control", WINPTY_FLAG_CONERR | WINPTY_FLAG_PLAIN_OUTPUT | WINPTY_FLAG_COLOR_ESCAPES, 0, 4, 3);
    a->run();
}
''', 'colours', dict(sympid=-1)))
B('title-room', 'O09', 'agent', [('src/agent/Win32Console.cc', 'const size_t needed = (count + 1) * sizeof(wchar_t);', 'const size_t needed = count + 1;')],
  'Windows Vista or 7, which take the size of the title buffer for bytes, and a title longer than half the buffer', 'the title is cut short',
  run(AGENT, 'harness_agent_title', dict(props=64, k=2, winver=61, sympid=-1), [('title', 2), ('long title', 1)]))

B('wstring-nul', 'L01', 'shared', [('src/shared/Buffer.h', '{ putWString(str.data(), str.size()); }', '{ putWString(str.c_str()); }')],
  'a text with a NUL in it, such as an environment block', 'everything after the first NUL is lost', r'''
#include "demo.h"
#include "w32.h"
#include "shared/Buffer.h"
void demo() {
    w32_defaults();
    const std::wstring env(L"A=1\0B=2\0\0", 9);
    WriteBuffer w;
    w.putWString(env);
    ReadBuffer r(std::vector<char>(w.buf().begin(), w.buf().end()));
    const std::wstring got = r.getWString();
    CHECK(got == env, "a text with NULs is not the same after the transfer");
    r.assertEof();
}''')
B('dec-min', 'L02', 'shared', [('src/shared/StringBuilder.h', '''    typedef typename std::make_unsigned<I>::type U;
    auto unsValue = static_cast<U>(value);
    const bool isNegative = (value < 0);
    if (isNegative) {''', '''    typedef typename std::make_unsigned<I>::type U;
    auto unsValue = static_cast<U>(value);
    const bool isNegative = (static_cast<I>(-value) > 0 && value != 0 && !(value > 0));
    if (isNegative) {''')],
  'the most negative number of a type', 'it is written without its sign', r'''
#include "demo.h"
#include "w32.h"
#include "shared/StringBuilder.h"
volatile short s = -32768; volatile signed char c = -128;
void demo() {
    w32_defaults();
    CHECK(decOfInt((short)-7).str() == "-7" && decOfInt(5u).str() == "5", "a number is wrong");
    CHECK(decOfInt((short)s).str() == "-32768", "the most negative number is wrong");
    CHECK(decOfInt((signed char)c).str() == "-128", "the most negative number is wrong");
}''')
B('no-data', 'L03', 'lib', [(LW, '''        if (lastError == ERROR_BROKEN_PIPE || lastError == ERROR_NO_DATA ||
                lastError == ERROR_PIPE_NOT_CONNECTED) {''', '''        if (lastError == ERROR_BROKEN_PIPE ||
                lastError == ERROR_PIPE_NOT_CONNECTED) {''')],
  'the agent goes away before a request is written', 'the error is reported as unspecified instead of a lost connection',
  run(LIB, 'harness_rpc', dict(props=1, op=0, k=1, io=1), [('timeout', 1000), ('I/O trouble at', 1), ('I/O result', 1), ('I/O error', 1), ('cols', 5), ('rows', 5)]))
B('rpc-early', 'L04', 'lib', [(LW, '''        readPacket(*wp).assertEof();
        rpc.success();''', '''        auto reply = readPacket(*wp);
        rpc.success();
        reply.assertEof();''')],
  'an agent of another version whose answer to a resize holds more', 'the session goes on though it is out of step',
  run(LIB, 'harness_rpc', dict(props=2, op=0, k=1, bad=1), [('timeout', 1000), ('answer', 4), ('cols', 5), ('rows', 5)]))
B('cancel-wait', 'L05', 'lib', [(LW, '''            CancelIo(m_file);
            waitForCompletion();''', '''            if (CancelIo(m_file)) {
                m_finished = true;
            } else {
                waitForCompletion();
            }''')],
  'an agent that does not answer in time', 'the read stays in flight and writes into freed memory later',
  run(LIB, 'harness_rpc', dict(props=4, op=0, k=1, io=1), [('timeout', 1000), ('I/O trouble at', 2), ('I/O result', 0), ('wait result', 2), ('cols', 5), ('rows', 5)]))
B('half-spawned', 'L06', 'lib', [(LW, '''                localProcess =
                    stealHandle(wp->agentProcess.get(), remoteProcess);
            }''', '''                localProcess =
                    stealHandle(wp->agentProcess.get(), remoteProcess);
                if (process_handle != nullptr) {
                    *process_handle = localProcess.release();
                }
            }'''), (LW, '''            if (process_handle != nullptr) {
                *process_handle = localProcess.release();
            }
            if (thread_handle''', '''            if (thread_handle''')],
  'both handles are wanted and the thread handle cannot be taken from the agent', 'a call that failed gives out a process handle', LIB + r'''
static int taken;
void demo() {
    param("props", 8); give("timeout", 1000);
    setup();
    g_badReply = 0;
    Opened o = openAgent();
    g_onRequest = answer; g_op = OP_SPAWN; g_wantProc = g_wantThread = true; g_remoteProc = 4; g_remoteThread = 8;
    w32.DuplicateHandle = [](HANDLE, HANDLE, HANDLE, LPHANDLE out, DWORD, BOOL, DWORD) -> BOOL { if (taken++) { w32_lastError = 6; return FALSE; } *out = kNew(K_PROCESS, -1); return TRUE; };
    winpty_error_ptr_t e = 0;
    winpty_spawn_config_t *cfg = winpty_spawn_config_new(0, 0, L"cmd", 0, 0, &e);
    HANDLE p = 0, t = 0;
    const BOOL ok = winpty_spawn(o.wp, cfg, &p, &t, 0, &e);
    CHECK(!ok && e && taken == 2, "the call does not fail");
    CHECK(p == 0 && t == 0, "a failed call gives out a handle");
}''')
B('pid-unknown', 'L07', 'lib', [(LW, '''    } else {
        throwWindowsError(L"GetNamedPipeClientProcessId failed", lastError);
    }''', '''    } else if (lastError == ERROR_ACCESS_DENIED) {
        throwWindowsError(L"GetNamedPipeClientProcessId failed", lastError);
    } else {
        trace("Pipe client PID security check failed: %u",
            static_cast<unsigned>(lastError));
    }''')],
  'the query for the client\'s process fails, with another error than access denied', 'an unverified client is trusted as the agent', LIB + r'''
static BOOL WINAPI noPid(HANDLE, PULONG) { w32_lastError = 1; return FALSE; }
void demo() {
    give("timeout", 1000);
    setup();
    w32.GetProcAddress = [](HMODULE, LPCSTR n) -> FARPROC { return beq(n, "SystemFunction036") ? (FARPROC)fakeRandom : beq(n, "GetNamedPipeClientProcessId") ? (FARPROC)noPid : NULL; };
    Opened o = openAgent();
    CHECK(!o.wp && o.err, "a client whose process is not known is trusted");
}''')
B('error-leak', 'L09', 'lib', [(LW, '''            std::unique_ptr<winpty_error_t> obj(new winpty_error_t);
            obj->code = e.code();
            obj->msgStatic = nullptr;
            obj->msgDynamic =
                new std::shared_ptr<std::wstring>(e.whatSharedStr());
            ret = obj.release();''', '''            winpty_error_ptr_t obj = new winpty_error_t;
            obj->code = e.code();
            obj->msgStatic = nullptr;
            obj->msgDynamic =
                new std::shared_ptr<std::wstring>(e.whatSharedStr());
            ret = obj;''')],
  'memory runs out between the two allocations of an error object', 'memory leaks', LIB + r'''
#include <new>
#include <stdlib.h>
static long live, countdown = -1;
void *operator new(size_t n) { if (countdown >= 0 && countdown-- == 0) throw std::bad_alloc(); ++live; return malloc(n ? n : 1); }
void operator delete(void *p) noexcept { if (p) { --live; free(p); } }
void *operator new[](size_t n) { return operator new(n); }
void operator delete[](void *p) noexcept { operator delete(p); }
void operator delete(void *p, size_t) noexcept { operator delete(p); }
void operator delete[](void *p, size_t) noexcept { operator delete(p); }
void demo() {
    setup();
    g_agentExists = false;
    winpty_error_ptr_t e = 0;
    winpty_config_t *cfg = winpty_config_new(0, &e);
    for (int k = 0; k < 40; ++k) {
        g_nses = 0; g_nobj = 0; g_nsid = g_nacl = g_nsd = 0;
        const long was = live;
        countdown = k;
        winpty_t *wp = winpty_open(cfg, &e);
        countdown = -1;
        CHECK(!wp && e, "the call does not fail");
        winpty_error_free(e);
        CHECK(live == was, "memory leaks when it runs out");
    }
}''')
B('list-count', 'L10', 'lib', [(LW, '        return actualProcessCount;', '        return actualProcessCount < processCount ? actualProcessCount : processCount;')],
  'more processes than the caller\'s buffer has room for', 'the caller takes a buffer without the ids for complete',
  run(LIB, 'harness_rpc', dict(props=64, op=2, k=1, full=1), [('timeout', 1000), ('buffer', 2), ('processes', 3), ('pid', 1), ('pid', 2), ('pid', 3)]))
B('token-leak', 'L11', 'lib', [('src/shared/WindowsSecurity.cc', '    OwnedHandle token = openSecurityTokenForQuery();', '    const HANDLE token_ = openSecurityTokenForQuery().release();\n    struct { HANDLE h; HANDLE get() const { return h; } } token = { token_ };'),
  ('src/shared/WindowsSecurity.cc', '''    return Sid(tmp.Owner, std::move(impl));''', '''    CloseHandle(token_);
    return Sid(tmp.Owner, std::move(impl));''')],
  'the owner of the process cannot be found out', 'a token handle leaks', LIB + r'''
void demo() {
    give("timeout", 1000);
    setup();
    w32.GetTokenInformation = [](HANDLE, TOKEN_INFORMATION_CLASS, LPVOID, DWORD, PDWORD n) -> BOOL { *n = 0; w32_lastError = 5; return FALSE; };
    Opened o = openAgent();
    CHECK(!o.wp && o.err, "the call does not fail");
    CHECK(kOpen() == 0, "a handle leaks");
}''')
B('desk-order', 'L12', 'lib', [(LW, '''        // Start the primary agent session.
        const auto params =''', '''        // If we ran the agent process on a background desktop, then when we
        // spawn a child process from the agent, it will need to be explicitly
        // placed back onto the original desktop.
        const auto spawnDesktopName =
            desktopName.empty() ? std::wstring() : getCurrentDesktopName();

        // Start the primary agent session.
        const auto params ='''), (LW, '''        // If we ran the agent process on a background desktop, then when we
        // spawn a child process from the agent, it will need to be explicitly
        // placed back onto the original desktop.
        if (!desktopName.empty()) {
            wp->spawnDesktopName = getCurrentDesktopName();
        }
''', '''        wp->spawnDesktopName = spawnDesktopName;
''')],
  'Windows before 7 and a client that lets its own process make the background desktop', 'programs are started on a desktop that no longer exists', LIB + r'''
void demo() {
    param("desk", 1); give("timeout", 1000);
    setup();
    Opened o = openAgent();
    CHECK(o.wp != 0, "opening fails");
    g_onRequest = answer; g_op = OP_SPAWN; g_wantProc = g_wantThread = true; g_remoteProc = 4; g_remoteThread = 8;
    Session &s = g_ses[g_nses - 1];
    const int at = s.nout;
    winpty_error_ptr_t e = 0;
    winpty_spawn_config_t *cfg = winpty_spawn_config_new(0, 0, L"cmd", 0, 0, &e);
    HANDLE p = 0, t = 0;
    CHECK(winpty_spawn(o.wp, cfg, &p, &t, 0, &e), "the program is not started");
    Req r = reqAt(s, at);
    r.u32(); r.u64(); r.u32(); r.u32();
    uint16_t b[32];
    r.str(b, 32); r.str(b, 32); r.str(b, 32); r.str(b, 32);
    const int n = r.str(b, 32);
    CHECK(n == 5 && b[1] == '1' && b[4] == '1', "the program is not put on the user's desktop");
}''')
B('agent-quotes', 'L13', 'lib', [(LW, '''            << L"\\"" << exePath << L"\\" "''', '''            << exePath << L' \'''')],
  'winpty.dll in a folder with a space in its name', 'the agent takes part of its own path for its first argument', LIB.replace('demo.h"', 'demo.h"\n#include <string>') + r'''
void demo() {
    give("timeout", 1000);
    setup();
    Opened o = openAgent();
    CHECK(o.wp != 0, "opening fails");
    const wchar_t *c = g_launch[0].cmd, *a = wcsstr(c, L"winpty-agent.exe");
    // The command line as CommandLineToArgvW splits it: the first argument must be the whole path.
    std::wstring first;
    if (*c == '"') for (++c; *c && *c != '"'; ++c) first += *c; else for (; *c && *c != ' '; ++c) first += *c;
    CHECK(a && first == L"C:\\dir one\\winpty-agent.exe", "the agent's path is split");
}'''.replace('#include', '#include'))
B('flag-prefix', 'S01', 'shared', [('src/shared/DebugClient.cc', '''    config = "," + config + ",";
    flagStr = "," + flagStr + ",";''', '''    config = "," + config;
    flagStr = "," + flagStr;''')],
  'a debug flag that begins with the name of another', 'both are taken to be set', r'''
#include "demo.h"
#include "w32.h"
#include <string.h>
#include "shared/DebugClient.h"
void demo() {
    w32_defaults();
    w32.GetEnvironmentVariableA = [](LPCSTR, LPSTR b, DWORD) -> DWORD { strcpy(b, "force_desktop_spawn,x"); return 21; };
    CHECK(hasDebugFlag("force_desktop_spawn") && hasDebugFlag("x"), "a flag is not seen");
    CHECK(!hasDebugFlag("force_desktop"), "a flag is seen that is not set");
}''')
B('trace-error', 'S01', 'shared', [('src/shared/DebugClient.cc', '''    PreserveLastError preserve;
    char message[1024];

    va_list ap;''', '''    char message[1024];

    va_list ap;''')],
  'tracing is on and something fails after a trace line', 'the wrong Windows error is acted upon', r'''
#include "demo.h"
#include "w32.h"
#include <string.h>
#include "shared/DebugClient.h"
void demo() {
    w32_defaults();
    w32.GetEnvironmentVariableA = [](LPCSTR, LPSTR b, DWORD) -> DWORD { strcpy(b, "trace"); w32_lastError = 1; return 5; };
    w32.GetSystemTimeAsFileTime = [](LPFILETIME t) { t->dwHighDateTime = 0x01d20000; t->dwLowDateTime = 0; };
    w32.GetModuleFileNameA = [](HMODULE, LPSTR b, DWORD) -> DWORD { strcpy(b, "c:\\x.exe"); return 8; };
    w32.GetCurrentProcessId = []() -> DWORD { return 1; };
    w32.GetCurrentThreadId = []() -> DWORD { return 2; };
    w32.CreateFileW = [](LPCWSTR, DWORD, DWORD, LPSECURITY_ATTRIBUTES, DWORD, DWORD, HANDLE) -> HANDLE { w32_lastError = 2; return INVALID_HANDLE_VALUE; };
    w32_lastError = 997;
    trace("hello %d", 1);
    CHECK(w32_lastError == 997, "tracing changes the last error");
}''')
B('server-nul', 'S02', 'shared', [('src/debugserver/DebugServer.cc', '''        msgBuffer[bytesRead] = '\\n';
        fwrite(msgBuffer, 1, bytesRead + 1, stdout);''', '''        msgBuffer[bytesRead] = '\\0';
        puts(msgBuffer);''')],
  'a message with a NUL byte in it', 'the rest of the message is not shown', r'''
#include "demo.h"
#include "debugserver.cc"
void demo() {
    param("k", 1);
    give("client", 0); give("length", 3); give("char", 'a'); give("char", 0); give("char", 'b'); give("char", 'c'); give("char", 'd');
    harness_debugserver();
}''', extra={'server.cc': '#include "dbg_prelude.h"\n#include "debugserver/DebugServer.cc"\n'})
B('name-counter', 'S03', 'shared', [('src/shared/GenRandom.cc', '''       << L'-' << InterlockedIncrement(&g_pipeCounter)
''', '''       << L'-' << g_pipeCounter
''')],
  'two pipes made in the same tick of the clock while the random generator fails', 'both have the same name, so that the second cannot be made', r'''
#include "demo.h"
#include "w32.h"
#include "shared/GenRandom.h"
void demo() {
    w32_defaults();
    w32.LoadLibraryW = [](LPCWSTR) -> HMODULE { return (HMODULE)1; };
    w32.FreeLibrary = [](HMODULE) -> BOOL { return TRUE; };
    w32.GetProcAddress = [](HMODULE, LPCSTR) -> FARPROC { return NULL; };
    w32.GetEnvironmentVariableA = [](LPCSTR, LPSTR, DWORD) -> DWORD { return 0; };
    w32.CryptAcquireContextW = [](HCRYPTPROV *, LPCWSTR, LPCWSTR, DWORD, DWORD) -> BOOL { return FALSE; };
    w32.GetSystemTimeAsFileTime = [](LPFILETIME t) { t->dwHighDateTime = 0x01d20000; t->dwLowDateTime = 7; };
    w32.GetCurrentProcessId = []() -> DWORD { return 1; };
    const std::wstring a = GenRandom().uniqueName(), b = GenRandom().uniqueName();
    CHECK(a != b, "two names are the same");
}''')
B('version-parts', 'S04', 'shared', [('src/shared/WindowsVersion.cc', '    return getWindowsVersion() >= Version(6, 1);', '    const auto v = getWindowsVersion();\n    return std::get<0>(v) >= 6 && std::get<1>(v) >= 1;')],
  'Windows 10 with a manifest: version 10.0', 'Windows 10 is taken for a system older than Windows 7', r'''
#include "demo.h"
#include "w32.h"
#include "shared/WindowsVersion.h"
static DWORD major, minor;
void demo() {
    w32_defaults();
    w32.GetVersionExW = [](LPOSVERSIONINFOW v) -> BOOL { v->dwMajorVersion = major; v->dwMinorVersion = minor; return TRUE; };
    major = 6; minor = 0; CHECK(!isAtLeastWindows7(), "Vista");
    minor = 1; CHECK(isAtLeastWindows7(), "Windows 7");
    major = 10; minor = 0; CHECK(isAtLeastWindows7(), "Windows 10 is taken for an older one");
}''')
