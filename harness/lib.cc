// winpty.dll's API against a world in which kernel calls fail and the agent misbehaves.
#include "lib.h"
#include "shared/DebugClient.h"

static const wchar_t *CONIN = L"\\\\.\\pipe\\in-1", *CONOUT = L"\\\\.\\pipe\\out-22", *CONERR = L"\\\\.\\pipe\\err-333";
static UINT64 g_flags;
static int g_desk, g_badReply;
static bool g_replyOk;
static unsigned long long g_live0;

// What the agent says when it has started.
static void greet(Session &s) {
    const Launch &l = g_launch[g_nlaunch - 1];
    const bool maker = g_desk == 2 && &s == &g_ses[0];
    (void)l;
    const int bad = maker == (wsym_param("badmaker", 0) != 0) ? g_badReply : 0;
    const int at = inBegin(s);
    if (bad == 1) inInt32(s, 5);                                       // another kind of item
    if (maker) inStr(s, wsym_param("nodesk", 0) ? L"" : L"S2\\D2");
    else {
        inStr(s, CONIN);
        if (bad == 2) { inByte(s, 2); const uint64_t n = wsym_concretize(nd_bool("huge string")) ? ~0ull / 4 : 50; inRaw(s, &n, 8); }   // a string longer than the message
        else if (bad != 3) inStr(s, CONOUT);                            // 3: too few items
        if ((g_flags & WINPTY_FLAG_CONERR) && bad != 3) inStr(s, CONERR);
    }
    if (bad == 4) inByte(s, 0);                                         // something left over
    inEnd(s, at);
    if (bad == 5) { uint64_t n = nd_range("packet size", 0, 7); memcpy(s.in + at, &n, 8); }
    if (bad == 6) s.nin -= 3;                                           // the rest never comes
    if (bad == 7) { uint64_t n = ~0ull; memcpy(s.in + at, &n, 8); }
    if (bad && !(bad == 2 && maker) && !(bad == 3 && maker)) g_replyOk = false;
}

static void checkErr(winpty_error_ptr_t err, bool ok, winpty_result_t want) {
    if (ok) {
        CHK(P_ERR, err == 0, "a call that succeeded leaves an error");
    } else {
        CHK(P_ERR, err != 0, "a call that failed leaves no error");
        if (!err) wsym_stop();
        CHK(P_ERR, winpty_error_code(err) == want, "the error code is not the documented one");
        LPCWSTR m = winpty_error_msg(err);
        CHK(P_ERR, m && m[0], "an error without a message");
    }
    winpty_error_free(err);
}

static void checkClean() {
    CHK(P_OWN, kOpen() == 0, "a handle leaks");
    CHK(P_OWN, g_sids == 0 && g_sds == 0 && g_aclLive == 0, "a security object leaks");
    CHK(P_OWN, g_names == 0, "a crypto context leaks");
    CHK(P_OWN | P_OOM, wsym_live() == g_live0, "memory leaks");
    CHK(P_DESK, g_station == 1, "the process is left on the background window station");
    for (int i = 0; i < 8; ++i) CHK(P_DESK, !g_stationOpen[i] && !g_deskOpen[i], "a background window station or desktop leaks");
}

// The command line of the agent.
static bool cmdIs(const Launch &l, const wchar_t *exe, const wchar_t *pipe, const wchar_t *params) {
    const wchar_t *p = l.cmd;
    if (*p++ != '"') return false;
    for (; *exe; ++exe, ++p) if (*p != *exe) return false;
    if (*p++ != '"') return false;
    if (*p++ != ' ') return false;
    for (; *pipe; ++pipe, ++p) if (*p != *pipe) return false;
    if (*p++ != ' ') return false;
    return weq(p, params);
}
static wchar_t *putDec(wchar_t *p, unsigned long long v) {
    wchar_t t[24]; int n = 0;
    do { t[n++] = (wchar_t)('0' + v % 10); v /= 10; } while (v);
    while (n) *p++ = t[--n];
    return p;
}

static void setup() {
    libWorld();
    g_desk = wsym_param("desk", 0);
    g_winver = wsym_param("winver", g_desk ? 60 : 61);
    isTracingEnabled();
    g_live0 = wsym_live();
    g_badReply = wsym_param("bad", 0) ? (int)wsym_concretize(nd_range("bad reply", 0, 7)) : 0;
    g_replyOk = true;
    g_onLaunch = greet;
    g_noPidApi = wsym_param("nopid", 0) != 0;
}

struct Opened { winpty_t *wp; winpty_error_ptr_t err; int cols, rows, mouse; };
static Opened openAgent() {
    Opened o;
    winpty_error_ptr_t err = (winpty_error_ptr_t)8;
    const bool vary = wsym_param("vary", 0) != 0;
    UINT64 flags = vary ? wsym_concretize(nd_range("flags", 0, 7)) : wsym_param("flags", 0);
    if (g_desk == 1) flags |= WINPTY_FLAG_ALLOW_CURPROC_DESKTOP_CREATION;
    g_flags = flags;
    winpty_config_t *cfg = winpty_config_new(flags, &err);
    if (cfg == 0 || err != 0) { o.wp = 0; o.err = err; return o; }
    static const int sizes[5] = { 80, 1, 25, 32767, 0x7fffffff };
    o.cols = sizes[vary ? wsym_concretize(nd_range("cols", 0, 4)) : 0];
    o.rows = sizes[vary ? wsym_concretize(nd_range("rows", 1, 3)) : 2];
    o.mouse = vary ? (int)wsym_concretize(nd_range("mouse mode", 0, 2)) : WINPTY_MOUSE_MODE_AUTO;
    g_timeout = 30000;
    if (!vary || wsym_concretize(nd_bool("set"))) {
        winpty_config_set_initial_size(cfg, o.cols, o.rows);
        winpty_config_set_mouse_mode(cfg, o.mouse);
        g_timeout = nd_u32("timeout");
        wsym_assume(g_timeout > 0);
        winpty_config_set_agent_timeout(cfg, g_timeout);
    } else { o.cols = 80; o.rows = 25; o.mouse = WINPTY_MOUSE_MODE_AUTO; }
    o.err = (winpty_error_ptr_t)8;
    o.wp = winpty_open(cfg, &o.err);
    winpty_config_free(cfg);
    return o;
}

static const wchar_t *EXE = L"C:\\dir one\\winpty-agent.exe";

extern "C" void harness_open() {
    setup();
    libFaults();
    g_agentExists = !(wsym_param("missing", 0) && wsym_concretize(nd_bool("agent missing")));
    g_showConsole = wsym_param("show", 0) && wsym_concretize(nd_bool("show console"));
    Opened o = openAgent();
    const bool ok = o.wp != 0;
    wsym_log("ok", ok);
    for (int i = 0; i < g_nses; ++i) CHK(P_TIME, g_ses[i].op == 0, "an I/O operation is still in flight after the call");
    const int main = g_nses - 1;
    if (!g_faulted && !g_outcome && !g_pidMismatch && g_replyOk && g_agentExists) CHK(P_ERR, ok, "opening fails though nothing went wrong");
    if (g_pidMismatch) CHK(P_SEC, !ok, "another process than the agent is accepted on the control pipe");
    if (!g_replyOk) CHK(P_RPC | P_ERR, !ok, "a malformed greeting is accepted");
    if (!g_agentExists) CHK(P_LOC, !ok && g_nlaunch == 0, "a missing agent is started");
    if (ok) {
        Session &s = g_ses[main];
        CHK(P_SEC, g_noPidApi || s.verified, "the agent's identity was not verified");
        CHK(P_ERR, weq(winpty_conin_name(o.wp), CONIN) && weq(winpty_conout_name(o.wp), CONOUT), "the pipe names are not the agent's");
        if (g_flags & WINPTY_FLAG_CONERR) CHK(P_ERR, winpty_conerr_name(o.wp) && weq(winpty_conerr_name(o.wp), CONERR), "the error pipe's name is not the agent's");
        else CHK(P_ERR, winpty_conerr_name(o.wp) == 0, "an error pipe that was not asked for");
        CHK(P_ERR, winpty_agent_process(o.wp) == s.process && kGet(s.process)->open, "the agent process handle is not the agent's");
        // How the agent was started.
        const Launch &l = g_launch[g_nlaunch - 1];
        wchar_t want[80], *p = want;
        p = putDec(p, g_flags); *p++ = ' '; p = putDec(p, o.mouse); *p++ = ' '; p = putDec(p, o.cols); *p++ = ' '; p = putDec(p, o.rows); *p = 0;
        CHK(P_LOC, weq(l.app, EXE), "the agent is not the one beside the DLL");
        CHK(P_LOC, cmdIs(l, EXE, s.name, want), "the agent's command line does not carry the configuration");
        CHK(P_LOC, l.flags == CREATE_NEW_CONSOLE && l.hidden == !g_showConsole, "the agent does not get a console of its own, hidden unless asked");
        const bool newDesk = g_desk && g_station == 1 && (g_newDesktops || g_desk == 2) && !wsym_param("nodesk", 0);
        if (!g_faulted) CHK(P_DESK, l.hasDesktop == (newDesk && !g_showConsole), "the agent is not started on the background desktop, or is without one");
        if (l.hasDesktop) CHK(P_DESK, weq(l.desktop, L"S2\\D2"), "the agent is started on another desktop");
        if (g_desk != 1) CHK(P_DESK, g_newStations == 0 && g_newDesktops == 0, "the client's own process makes a background desktop without leave");
        if (g_desk == 2 && g_nlaunch == 2) {
            const Launch &d = g_launch[0];
            CHK(P_LOC, weq(d.app, EXE) && cmdIs(d, EXE, g_ses[0].name, L"--create-desktop"), "the desktop's maker is started in another way");
            CHK(P_DESK, !d.hasDesktop && d.flags == DETACHED_PROCESS, "the desktop's maker gets a console or a desktop");
            CHK(P_OWN, !kGet(g_ses[0].pipe)->open, "the desktop's maker is kept after it has done its work");
        }
        // What stays open: the pipe, the process and the event.
        CHK(P_OWN, kOpen() == 3, "an open session holds more or fewer handles than its pipe, process and event");
        CHK(P_DESK, g_station == 1 && !g_deskNeeded, "the process stays on the background window station");
        for (int i = 0; i < 8; ++i) CHK(P_DESK, !g_stationOpen[i] && !g_deskOpen[i], "a background desktop is kept after the agent has started");
        winpty_free(o.wp);
        checkErr(o.err, true, 0);
        wsym_reach("opened");
    } else {
        winpty_result_t want = WINPTY_ERROR_UNSPECIFIED;
        if (!g_agentExists) want = WINPTY_ERROR_AGENT_EXE_MISSING;
        else if (g_createFailed) want = WINPTY_ERROR_AGENT_CREATION_FAILED;
        else if (g_outcome == 1) want = g_ses[main].connected ? WINPTY_ERROR_LOST_CONNECTION : WINPTY_ERROR_UNSPECIFIED;
        else if (g_outcome == 2) want = WINPTY_ERROR_AGENT_DIED;
        else if (g_outcome == 3) want = WINPTY_ERROR_AGENT_TIMEOUT;
        checkErr(o.err, false, want);
        wsym_reach("failed");
    }
    checkClean();
    wsym_reach("done");
}

// ---- calls on an open session
enum { OP_SIZE, OP_SPAWN, OP_LIST };
static int g_op, g_reqAt, g_requests;
static int g_variant;                       // how the agent answers: 0 as asked, else something is wrong with the answer
static uint64_t g_remoteProc, g_remoteThread;
static uint32_t g_createErr;
static bool g_createFails, g_wantProc, g_wantThread;
static int g_count;
static uint32_t g_pids[8];

static void answer(Session &s) {
    ++g_requests;
    const int v = g_variant;
    const int at = inBegin(s);
    if (v == 1) inInt64(s, 1);                              // another item first
    if (g_op == OP_SPAWN) {
        if (v == 2) inInt32(s, 7);                          // an unknown result
        else if (g_createFails) { inInt32(s, 0); if (v != 3) inInt32(s, g_createErr); }
        else { inInt32(s, 1); inInt64(s, g_wantProc ? g_remoteProc : 0); if (v != 3) inInt64(s, g_wantThread ? g_remoteThread : 0); }
    } else if (g_op == OP_LIST) {
        inInt32(s, g_count);
        for (int i = 0; i < g_count - (v == 3); ++i) inInt32(s, g_pids[i]);
    } else if (v == 2) inByte(s, 2);
    if (v == 4) inInt32(s, 0);                              // something left over
    inEnd(s, at);
    if (v == 5) { uint64_t n = nd_range("packet size", 0, 7); memcpy(s.in + at, &n, 8); }
    if (v == 6) s.nin -= 1;                                 // the rest never comes
    if (v == 7) { uint64_t n = ~0ull; memcpy(s.in + at, &n, 8); }
}

// A choice that matters only where the call's parameters are what is examined.
static bool g_full;
static int pick(const char *name, int lo, int hi, int dflt) { return g_full ? (int)wsym_concretize(nd_range(name, lo, hi)) : dflt; }
struct Text { bool null; int n; wchar_t s[8]; };
static Text text(const char *what, int max) {
    Text t;
    t.n = pick(what, -1, max, 0);
    t.null = t.n < 0;
    if (t.null) t.n = 0;
    for (int i = 0; i < t.n; ++i) { t.s[i] = nd_u16("text"); wsym_assume(t.s[i] != 0); }
    t.s[t.n] = 0;
    return t;
}
static void wantStr(Req &r, const wchar_t *s, int n, const char *msg, int props = P_SPAWN) {
    uint16_t got[32];
    const int m = r.str(got, 32);
    CHK(props, m == n, msg);
    if (m == n) for (int i = 0; i < n; ++i) CHK(props, got[i] == s[i], msg);
}

extern "C" void harness_rpc() {
    setup();
    g_badReply = 0;
    Opened o = openAgent();
    if (!o.wp) { wsym_log("not opened", 0); wsym_stop(); }
    Session &s = g_ses[g_nses - 1];
    const int K = wsym_param("k", 2);
    g_onRequest = answer;
    g_io = 0; g_ops = 0;
    libFaults();
    bool dead = false;
    for (int k = 0; k < K; ++k) {
        g_full = k == 0 && wsym_param("full", 0);
        g_op = wsym_param("op", -1) >= 0 && k == 0 ? wsym_param("op", 0) : (int)wsym_concretize(nd_range("call", 0, 2));
        g_variant = wsym_param("bad", 0) && !dead ? (int)wsym_concretize(nd_range("answer", 0, 7)) : 0;
        if ((g_op == OP_SIZE && g_variant == 3) || (g_op == OP_LIST && g_variant == 2)) wsym_stop();
        const int at = s.nout, ios = s.ios, req0 = g_requests, faulted0 = g_faulted, open0 = kOpen();
        const bool wasDead = dead;
        g_reqAt = at;
        winpty_error_ptr_t err = (winpty_error_ptr_t)8;
        winpty_error_ptr_t *perr = wsym_param("noerr", 0) && wsym_concretize(nd_bool("no error wanted")) ? 0 : &err;
        BOOL ok = FALSE;
        winpty_result_t want = WINPTY_ERROR_UNSPECIFIED;
        g_outcome = 0;
        bool answered = true;               // the answer is well-formed and positive
        g_stolen = 0;
        if (g_op == OP_SIZE) {
            const int cols = nd_int("cols"), rows = nd_int("rows");
            wsym_assume((cols > 0) & (rows > 0));
            ok = winpty_set_size(o.wp, cols, rows, perr);
            if (g_requests > req0) {
                Req r = reqAt(s, at);
                const bool good = r.u32() == 1 && (int)r.u32() == cols && (int)r.u32() == rows;
                CHK(P_RPC, good && !r.bad && r.at == r.n, "the resize request does not say what was asked");
            }
        } else if (g_op == OP_LIST) {
            int buf[6];
            for (int i = 0; i < 6; ++i) buf[i] = 0x5a5a5a5a;
            const int room = pick("buffer", 0, 4, 3);
            g_count = pick("processes", 0, wsym_param("procs", 4), 2);
            if (g_variant == 3 && g_count == 0) wsym_stop();
            for (int i = 0; i < g_count; ++i) g_pids[i] = nd_u32("pid");
            const int n = winpty_get_console_process_list(o.wp, buf + 1, room, perr);
            ok = perr ? err == 0 : n != 0;
            if (!perr && g_count == 0) ok = !dead && s.op == 0 && !s.dead && g_variant == 0;    // cannot be told from the result
            if (g_requests > req0) {
                Req r = reqAt(s, at);
                const uint32_t type = r.u32();
                CHK(P_RPC, type == 2 && !r.bad && r.at == r.n, "the process list request is malformed");
            }
            if (ok) {
                CHK(P_LIST, n == g_count, "the number of processes is not the agent's");
                for (int i = 0; i < 4; ++i) {
                    if (g_count <= room && i < g_count) CHK(P_LIST, (uint32_t)buf[1 + i] == g_pids[i], "a process id is not the agent's");
                    else if (i >= room) CHK(P_LIST, buf[1 + i] == 0x5a5a5a5a, "the caller's buffer is overrun");
                }
            } else CHK(P_LIST, n == 0, "a failed call returns a count");
            CHK(P_LIST, buf[0] == 0x5a5a5a5a, "the caller's buffer is underrun");
        } else {
            const int mx = wsym_param("text", 0);
            const Text app = text("application length", mx), cmd = text("command line length", mx), cwd = text("directory length", mx > 1 ? 1 : mx);
            wchar_t env[20]; int en = 0;
            const int strings = pick("environment", -1, wsym_param("envs", 1), -1);
            for (int i = 0; i < strings; ++i) {
                const int l = 1 + pick("environment string", 0, 1, 0);
                for (int j = 0; j < l; ++j) { env[en] = nd_u16("text"); wsym_assume(env[en] != 0); ++en; }
                env[en++] = 0;
            }
            env[en++] = 0;
            const UINT64 flags = pick("spawn flags", 0, 3, 1);
            winpty_error_ptr_t e2 = (winpty_error_ptr_t)8;
            winpty_spawn_config_t *cfg = winpty_spawn_config_new(flags, app.null ? 0 : app.s, cmd.null ? 0 : cmd.s, cwd.null ? 0 : cwd.s, strings < 0 ? 0 : env, &e2);
            CHK(P_ERR, cfg && e2 == 0, "a spawn configuration is refused");
            g_wantProc = k == 0 ? wsym_concretize(nd_bool("want process")) != 0 : true;
            g_wantThread = k == 0 ? wsym_concretize(nd_bool("want thread")) != 0 : true;
            const bool wantErr = pick("want CreateProcess error", 0, 1, 1) != 0;
            g_createFails = k == 0 ? wsym_concretize(nd_bool("CreateProcess fails")) != 0 : false;
            g_createErr = nd_u32("CreateProcess error");
            g_remoteProc = nd_u32("process"); g_remoteThread = nd_u32("thread");
            wsym_assume((g_remoteProc != 0) & (g_remoteThread != 0));
            HANDLE proc = (HANDLE)77, thread = (HANDLE)77; DWORD ce = 77;
            ok = winpty_spawn(o.wp, cfg, g_wantProc ? &proc : 0, g_wantThread ? &thread : 0, wantErr ? &ce : 0, perr);
            winpty_spawn_config_free(cfg);
            if (g_requests > req0) {
                Req r = reqAt(s, at);
                const uint32_t type = r.u32(); const uint64_t sent = r.u64(); const uint32_t wp = r.u32(), wt = r.u32();
                CHK(P_SPAWN, type == 0, "the spawn request has another type");
                CHK(P_SPAWN, sent == flags, "the spawn flags are not what was asked");
                CHK(P_SPAWN, (wp == (uint32_t)g_wantProc) & (wt == (uint32_t)g_wantThread), "other handles are asked for");
                wantStr(r, app.s, app.n, "the application name is not what was asked");
                wantStr(r, cmd.s, cmd.n, "the command line is not what was asked");
                wantStr(r, cwd.s, cwd.n, "the directory is not what was asked");
                if (strings < 0) wantStr(r, env, 0, "an environment is sent though none was given");
                else { if (strings == 0) env[en++] = 0; wantStr(r, env, en, "the environment block is not what was given"); }
                wantStr(r, L"S1\\D1", g_desk ? 5 : 0, "the program's desktop is not the client's own", P_SPAWN | P_DESK);
                CHK(P_SPAWN, !r.bad && r.at == r.n, "the spawn request is malformed");
            }
            const bool failedCreate = g_requests > req0 && g_createFails;
            if (ok) {
                CHK(P_SPAWN, !g_createFails, "a spawn that failed is reported as done");
                int st = 0;
                if (g_wantProc) { CHK(P_SPAWN, stolenFrom(proc, (HANDLE)g_remoteProc), "the process handle is not the program's"); ++st; CHK(P_SPAWN, kGet(proc) && kGet(proc)->open, "the process handle is not open"); }
                if (g_wantThread) { CHK(P_SPAWN, stolenFrom(thread, (HANDLE)g_remoteThread), "the thread handle is not the program's"); ++st; CHK(P_SPAWN, kGet(thread) && kGet(thread)->open, "the thread handle is not open"); }
                if (g_wantProc && g_wantThread) CHK(P_SPAWN, proc != thread, "the process and the thread share a handle");
                CHK(P_SPAWN, g_stolen == st, "more handles than asked for are taken");
                CHK(P_OWN, kOpen() == open0 + st, "a handle leaks");
                if (wantErr) CHK(P_SPAWN, ce == 0, "an error code is set though the program was started");
                if (g_wantProc) w32.CloseHandle(proc);
                if (g_wantThread) w32.CloseHandle(thread);
            } else {
                if (g_wantProc) CHK(P_SPAWN, proc == 0, "a failed spawn leaves a process handle");
                if (g_wantThread) CHK(P_SPAWN, thread == 0, "a failed spawn leaves a thread handle");
                CHK(P_OWN, kOpen() == open0 - (!failedCreate || g_variant || s.dead || !kGet(s.pipe)->open) + (wasDead ? 1 : 0), "a handle leaks or the pipe is not closed");
                const bool clean = failedCreate && g_variant == 0 && !s.dead && !wasDead;
                if (clean) { want = WINPTY_ERROR_SPAWN_CREATE_PROCESS_FAILED; answered = false; }
                if (wantErr && !wasDead) CHK(P_SPAWN, ce == (clean ? g_createErr : 0), "the CreateProcess error is not the agent's");
                if (clean) CHK(P_RPC, kGet(s.pipe)->open, "the session ends because a program could not be started");
                if (clean) { if (perr) checkErr(err, false, want); wsym_reach("create failed"); continue; }
            }
        }
        (void)answered;
        wsym_log("ok", ok);
        CHK(P_TIME, s.op == 0, "an I/O operation is still in flight after the call");
        if (wasDead) {
            CHK(P_RPC, !ok && s.ios == ios && g_requests == req0, "a session that has failed is used again");
        } else if (g_variant == 0 && g_outcome == 0 && g_faulted == faulted0) {
            CHK(P_RPC, ok, "a call fails though nothing went wrong");
        } else {
            CHK(P_RPC, !ok, "a call succeeds though it failed");
        }
        if (ok) {
            CHK(P_RPC, kGet(s.pipe)->open && s.atin == s.nin, "the answer is not read to its end, or the session is closed");
            CHK(P_RPC, g_requests == req0 + 1, "not exactly one request is sent");
        } else {
            CHK(P_RPC, !kGet(s.pipe)->open, "a session whose connection is out of step is kept open");
            dead = true;
            if (!wasDead) want = g_outcome == 1 ? WINPTY_ERROR_LOST_CONNECTION : g_outcome == 2 ? WINPTY_ERROR_AGENT_DIED : g_outcome == 3 ? WINPTY_ERROR_AGENT_TIMEOUT : WINPTY_ERROR_UNSPECIFIED;
            wsym_reach("failed");
        }
        if (perr) checkErr(err, ok != 0, want);
    }
    winpty_free(o.wp);
    g_onRequest = 0;
    checkClean();
    wsym_reach("done");
}

// Memory runs out at an arbitrary allocation (and, with sticky, stays out).
static void exhaust(int maxk) {
    wsym_alloc_fault(nd_range("failing allocation", 0, maxk));
    if (wsym_param("sticky", 0)) wsym_alloc_sticky();
}
extern "C" void harness_oom() {
    setup();
    g_badReply = 0;
    const int op = wsym_param("op", 0);
    const int maxk = wsym_param("maxk", 60);
    winpty_error_ptr_t err = (winpty_error_ptr_t)8;
    winpty_t *wp = 0;
    winpty_spawn_config_t *scfg = 0;
    winpty_config_t *cfg = 0;
    bool ok = false, created = false;
    g_timeout = 1000;
    if (op == 0) {
        exhaust(maxk);
        cfg = winpty_config_new(0, &err);
        ok = cfg != 0;
        wsym_alloc_fault(~0ull);
        winpty_config_free(cfg);
    } else if (op == 1) {
        exhaust(maxk);
        scfg = winpty_spawn_config_new(0, L"application.exe", L"command line of some length", L"c:\\dir\\of\\it", L"A=12345678\0B=3\0", &err);
        ok = scfg != 0;
        wsym_alloc_fault(~0ull);
        winpty_spawn_config_free(scfg);
    } else {
        winpty_error_ptr_t e2 = 0;
        cfg = winpty_config_new(g_desk == 1 ? WINPTY_FLAG_ALLOW_CURPROC_DESKTOP_CREATION : 0, &e2);
        winpty_config_set_agent_timeout(cfg, g_timeout);
        if (op == 2) exhaust(maxk);
        if (op == 2 && wsym_param("missing", 0)) g_agentExists = false;
        wp = winpty_open(cfg, &err);
        ok = wp != 0;
        wsym_alloc_fault(~0ull);
        winpty_config_free(cfg);
        if (op > 2) {
            g_op = op - 3;
            g_onRequest = answer;
            g_count = 2; g_wantProc = g_wantThread = true; g_remoteProc = 4; g_remoteThread = 8;
            g_createFails = wsym_param("createfails", 0) != 0;
            scfg = winpty_spawn_config_new(0, 0, L"command line of some length", 0, L"A=12345678\0B=3\0", &e2);
            err = (winpty_error_ptr_t)8;
            HANDLE p = 0, t = 0; DWORD ce = 0;
            int list[4];
            exhaust(maxk);
            if (g_op == OP_SIZE) ok = winpty_set_size(wp, 10, 20, &err) != 0;
            else if (g_op == OP_LIST) ok = winpty_get_console_process_list(wp, list, 4, &err) == 2;
            else ok = winpty_spawn(wp, scfg, &p, &t, &ce, &err) != 0;
            wsym_alloc_fault(~0ull);
            winpty_spawn_config_free(scfg);
            if (p) w32.CloseHandle(p);
            if (t) w32.CloseHandle(t);
            if (!ok) CHK(P_OOM, !p && !t, "handles are given out by a call that failed");
        }
    }
    wsym_log("ok", ok);
    if (ok) CHK(P_OOM, err == 0, "a call that succeeded leaves an error");
    else {
        CHK(P_OOM, err != 0, "a call that failed leaves no error");
        if (!err) wsym_stop();
        const winpty_result_t c = winpty_error_code(err);
        const bool other = (op == 2 && !g_agentExists && c == WINPTY_ERROR_AGENT_EXE_MISSING) || (g_createFails && c == WINPTY_ERROR_SPAWN_CREATE_PROCESS_FAILED);
        CHK(P_OOM, c == WINPTY_ERROR_OUT_OF_MEMORY || other, "running out of memory is reported as something else");
        LPCWSTR m = winpty_error_msg(err);
        CHK(P_OOM, m && m[0], "an error without a message");
        if (c == WINPTY_ERROR_OUT_OF_MEMORY) wsym_reach("out of memory");
        winpty_error_free(err);
    }
    winpty_free(wp);
    g_onRequest = 0;
    CHK(P_OOM, kOpen() == 0, "a handle leaks");
    checkClean();
    wsym_reach("done");
    (void)created;
}
