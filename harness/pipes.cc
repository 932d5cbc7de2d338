// The agent's pipes and event loop: bytes keep their order, none is lost, and nothing waits for ever.
#include "agentk.h"
#include <string>
#include "agent/EventLoop.h"
#include "agent/NamedPipe.h"

static uint8_t g_sent[PIPE_IN];        // what the client will have sent
static int g_written, g_steps, g_K, g_closeAt;
static uint8_t g_want[PIPE_OUT];
static bool g_drain, g_final;
static int g_polls, g_ios;

class Loop : public EventLoop {
public:
    Loop() : pipe(createNamedPipe()) {}
    NamedPipe &pipe;
    void (*step)(Loop &) = 0;
    void (*io)(Loop &) = 0;
    void stop() { shutdown(); }
    void interval(int ms) { setPollInterval(ms); }
protected:
    virtual void onPipeIo(NamedPipe &) { ++g_ios; if (io) io(*this); }
    virtual void onPollTimeout() { ++g_polls; step(*this); }
};

// ---- output
static void put(Loop &l, int n) {
    for (int i = 0; i < n; ++i) g_want[g_written + i] = nd_u8("output");
    l.pipe.write(g_want + g_written, n);
    g_written += n;
}
static void outStep(Loop &l) {
    Pipe &p = g_pipe[0];
    CHK(P_FIFO, (int)l.pipe.bytesToSend() == g_written - p.nout, "the number of bytes to send is wrong");
    if (g_steps < g_K) {
        ++g_steps;
        const int n = (int)wsym_concretize(nd_range("bytes written", 0, wsym_param("chunk", 2)));
        if (n) put(l, n);
        return;
    }
    if (g_closeAt == 1) { l.pipe.closePipe(); CHK(P_FIFO, l.pipe.isClosed() && p.closed, "a pipe does not close"); l.stop(); return; }
    g_drain = true;
    if (g_written == p.nout) l.stop();
}
static void outIo(Loop &l) { CHK(P_FIFO, (int)l.pipe.bytesToSend() == g_written - g_pipe[0].nout, "the number of bytes to send is wrong"); }
static void outEnv(DWORD ms) {
    Pipe &p = g_pipe[0];
    if (p.cn.active && (g_drain || wsym_concretize(nd_bool("client connects")))) { clientConnects(p); return; }
    if (p.wr.active && (g_drain || wsym_concretize(nd_bool("client reads")))) { clientReads(p); return; }
    g_tick += ms;
}
extern "C" void harness_pipe_out() {
    agentKernel();
    g_K = wsym_param("k", 3);
    g_env = outEnv;
    g_connPend = wsym_param("server", 0) ? 1 : 0;
    g_closeAt = wsym_param("close", 0);
    {
        Loop l;
        l.step = outStep; l.io = outIo;
        l.interval(10);
        if (wsym_param("server", 0)) l.pipe.openServerPipe(L"\\\\.\\pipe\\p", NamedPipe::OpenMode::Writing, 8192, 0);
        else l.pipe.connectToServer(L"\\\\.\\pipe\\p", NamedPipe::OpenMode::Duplex);
        g_pipe[0].pends = wsym_param("pends", 3);
        l.run();
        if (!g_closeAt) {
            CHK(P_FIFO, g_pipe[0].nout == g_written, "output is lost or repeated");
            CHK(P_LOOP, !l.pipe.isClosed(), "a pipe closes by itself");
        }
        for (int i = 0; i < g_pipe[0].nout; ++i) CHK(P_FIFO, g_pipe[0].out[i] == g_want[i], "output is changed or out of order");
    }
    CHK(P_OWN, kOpen() == 0, "a handle leaks");
    CHK(P_FIFO, g_pipe[0].closed, "the pipe stays open");
    wsym_log("out", g_pipe[0].nout);
    wsym_reach("done");
}

// ---- input
static int g_total;
static void compare(const char *d, size_t n) {
    Pipe &p = g_pipe[0];
    CHK(P_FIFO, p.consumed + (int)n <= p.atin, "more input is delivered than came in");
    for (size_t i = 0; i < n; ++i) CHK(P_FIFO, (uint8_t)d[i] == p.in[p.consumed + i], "input is changed or out of order");
}
static void inConsume(Loop &l) {
    Pipe &p = g_pipe[0];
    CHK(P_FIFO, (int)l.pipe.bytesAvailable() == p.atin - p.consumed, "the number of bytes available is wrong");
    const int avail = p.atin - p.consumed;
    const int how = g_final ? 3 : (int)wsym_concretize(nd_range("how input is taken", 0, 3));
    if (how == 1) {
        char b[8];
        const int n = 1 + (int)wsym_concretize(nd_bool("two bytes"));
        const size_t peeked = l.pipe.peek(b, n);
        CHK(P_FIFO, (int)peeked == (avail < n ? avail : n), "peeking gives another number of bytes");
        compare(b, peeked);
        const size_t got = l.pipe.read(b, n);
        CHK(P_FIFO, got == peeked, "reading gives another number of bytes");
        compare(b, got);
        p.consumed += (int)got;
    } else if (how == 2) {
        const std::string s = l.pipe.readToString(1);
        CHK(P_FIFO, (int)s.size() == (avail < 1 ? avail : 1), "reading gives another number of bytes");
        compare(s.data(), s.size());
        p.consumed += (int)s.size();
    } else if (how == 3) {
        const std::string s = l.pipe.readAllToString();
        CHK(P_FIFO, (int)s.size() == avail, "reading gives another number of bytes");
        compare(s.data(), s.size());
        p.consumed += (int)s.size();
    }
    CHK(P_FIFO, (int)l.pipe.bytesAvailable() == p.atin - p.consumed, "the number of bytes available is wrong");
}
static void inIo(Loop &l) {
    if (l.pipe.isClosed()) g_final = true;
    inConsume(l);
    if (l.pipe.isClosed()) l.stop();
}
static void inStep(Loop &l) {
    if (++g_steps > g_K) {
        g_final = true;
        if (g_closeAt == 1) { l.pipe.closePipe(); l.stop(); return; }
    }
    inConsume(l);
    if (g_final && g_pipe[0].consumed == g_total && !g_closeAt) l.stop();
}
static void inEnv(DWORD ms) {
    Pipe &p = g_pipe[0];
    if (p.cn.active && (g_final || wsym_concretize(nd_bool("client connects")))) { clientConnects(p); return; }
    if (p.nin < g_total) {
        int n = g_final ? g_total - p.nin : (int)wsym_concretize(nd_range("bytes sent", 0, g_total - p.nin));
        memcpy(p.in + p.nin, g_sent + p.nin, n);
        p.nin += n;
    }
    if (clientWrites(p)) {
        if (g_closeAt == 2 && p.nin == g_total && wsym_concretize(nd_bool("client closes at once"))) clientCloses(p);
        return;
    }
    if (g_closeAt == 2 && p.nin == g_total && !p.broken && (g_final || wsym_concretize(nd_bool("client closes")))) { clientCloses(p); return; }
    g_tick += ms;
}
extern "C" void harness_pipe_in() {
    agentKernel();
    g_K = wsym_param("k", 2);
    g_env = inEnv;
    g_connPend = wsym_param("server", 0) ? 1 : 0;
    g_closeAt = wsym_param("close", 0);
    g_total = wsym_param("n", 4);
    for (int i = 0; i < g_total; ++i) g_sent[i] = nd_u8("input");
    {
        Loop l;
        l.step = inStep; l.io = inIo;
        l.interval(10);
        if (wsym_param("server", 0)) l.pipe.openServerPipe(L"\\\\.\\pipe\\p", NamedPipe::OpenMode::Reading, 0, 256);
        else l.pipe.connectToServer(L"\\\\.\\pipe\\p", NamedPipe::OpenMode::Duplex);
        Pipe &p = g_pipe[0];
        p.pends = wsym_param("pends", 1); p.splits = wsym_param("splits", 1);
        p.limit = wsym_param("limit", 2);
        l.pipe.setReadBufferSize(p.limit);
        if (p.server && !p.connected) p.limit = 0;
        l.run();
        if (g_closeAt != 1) CHK(P_FIFO, p.consumed == g_total, "input is lost");
    }
    CHK(P_OWN, kOpen() == 0, "a handle leaks");
    CHK(P_FIFO, g_pipe[0].closed, "the pipe stays open");
    wsym_log("in", g_pipe[0].consumed);
    wsym_reach("done");
}

// ---- more output than one operation carries
extern "C" void harness_pipe_big() {
    agentKernel();
    g_env = [](DWORD ms) { if (g_pipe[0].wr.active) clientReads(g_pipe[0]); else g_tick += ms; };
    const int n = 65534 + (int)wsym_concretize(nd_range("size", 0, wsym_param("sizes", 4)));
    {
        Loop l;
        l.pipe.connectToServer(L"\\\\.\\pipe\\p", NamedPipe::OpenMode::Duplex);
        l.interval(10);
        g_pipe[0].pends = 1;
        for (int i = 0; i < n; ++i) g_want[i] = (uint8_t)(i * 7 + (i >> 8));
        l.step = [](Loop &l) { if (l.pipe.bytesToSend() == 0) l.stop(); };
        l.pipe.write(g_want, n);
        l.run();
    }
    CHK(P_FIFO, g_pipe[0].nout == n, "output is lost or repeated");
    CHK(P_FIFO, memcmp(g_pipe[0].out, g_want, n) == 0, "output is changed or out of order");
    wsym_log("out", g_pipe[0].nout);
    wsym_reach("done");
}

// ---- the poll timer, with an arbitrary clock
static DWORD g_ival, g_now, g_after, g_prev;
static int g_rounds;
static bool g_set;
static DWORD passes(const char *what, DWORD more) {
    const DWORD t = nd_u32(what);
    wsym_assume(t - g_now >= more && t - g_now <= more + 1000);
    return g_now = t;
}
extern "C" void harness_loop_time() {
    agentKernel();
    g_ival = wsym_param("ms", 25);
    g_now = nd_u32("first tick");
    // Every look at the clock finds that some time has passed. The interval starts at the first look after a step.
    w32.GetTickCount = []() -> DWORD {
        const DWORD t = passes("time passes", 0);
        if (!g_set) { g_prev = t; g_set = true; }
        return g_after = t;
    };
    g_env = [](DWORD ms) {
        CHK(P_LOOP, ms != INFINITE, "the agent waits for ever though its timer is on");
        CHK(P_LOOP, ms <= g_ival, "the agent waits longer than its timer's interval");
        CHK(P_LOOP, ms == 0 || g_after + ms - g_prev == g_ival, "the agent does not wait until its timer's time");
        passes("time waited", ms);
        if (++g_rounds > wsym_param("k", 3)) wsym_stop();
    };
    Loop l;
    if (wsym_param("pipe", 1)) l.pipe.connectToServer(L"\\\\.\\pipe\\p", NamedPipe::OpenMode::Duplex);
    l.interval(g_ival);
    l.step = [](Loop &l) {
        CHK(P_LOOP, g_after - g_prev >= g_ival, "the timer fires early");
        g_set = false;
        if (g_polls >= wsym_param("polls", 2)) l.stop();
    };
    l.run();
    wsym_log("polls", g_polls);
    wsym_reach("done");
}
