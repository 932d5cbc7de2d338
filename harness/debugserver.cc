// winpty-debugserver.exe: the pipe it creates, and clients that come, speak and go.
#include "lib.h"
#include "dbg_prelude.h"
#undef main
int dbgMain(int argc, char **argv);
static char g_shown[20000];
static int g_nshown, g_flushed, g_want;      // g_want: how much of g_shown has been checked
static char g_text[4200]; static int g_len;  // what the connected client has sent
static int g_state;                          // 0 nobody is connected, 1 a client is, 2 it has been read
static int g_left, g_clients;                // clients still to come, clients that came
static bool g_everyone, g_early, g_open;
static int g_how;                            // the client 0 sends a message 1 sends too long a one 2 goes away
static int g_answers, g_opens;
struct Over {};
static void finish() {
    CHECK(g_nshown == g_want, "the server prints something no client has sent");
    CHECK(g_flushed == g_nshown, "a message stays in a buffer while the server waits");
    CHECK(g_clients == g_answers, "a client gets no answer, or too many");
    wsym_reach("done");
    throw Over();
}
extern "C" {
size_t dbgWrite(const void *p, size_t a, size_t b, FILE *) {
    const size_t n = a * b;
    if (g_nshown + n > sizeof g_shown) { wsym_fail("the server prints something no client has sent"); wsym_stop(); }
    memcpy(g_shown + g_nshown, p, n); g_nshown += (int)n;
    return b;
}
int dbgPrintf(const char *, ...) { return 1; }
int dbgFprintf(FILE *, const char *, ...) { return 1; }
int dbgPuts(const char *s) { dbgWrite(s, 1, strlen(s), 0); dbgWrite("\n", 1, 1, 0); return 1; }
int dbgFputs(const char *s, FILE *) { dbgWrite(s, 1, strlen(s), 0); return 1; }
int dbgPutchar(int c) { char b = (char)c; dbgWrite(&b, 1, 1, 0); return c; }
int dbgFputc(int c, FILE *) { char b = (char)c; dbgWrite(&b, 1, 1, 0); return c; }
int dbgFlush(FILE *) { g_flushed = g_nshown; return 0; }
void dbgExit(int code) {
    if (g_opens) wsym_fail("the server ends because of what a client does");
    else { CHECK(g_faulted || wsym_param("usage", 0), "the server does not start"); if (code) wsym_reach("exit"); else wsym_reach("help"); }
    throw Over();
}
}
static void arrive() {
    --g_left; ++g_clients;
    g_state = 1;
    g_how = (int)wsym_concretize(nd_range("client", 0, 2));
    static const int lens[] = { 0, 1, 2, 5, 4095, 4096, 4097 };
    g_len = g_how == 0 ? lens[wsym_concretize(nd_range("length", 0, 5))] : g_how == 1 ? 4097 : 0;
    for (int i = 0; i < g_len; ++i) g_text[i] = i < 3 || i >= 4094 ? (char)nd_u8("char") : (char)('a' + (i + g_clients) % 23);
    if (g_how) ++g_answers;          // nothing to answer
}
extern "C" void harness_debugserver() {
    libWorld();
    secWorld();
    g_left = wsym_param("k", 3);
    g_everyone = wsym_concretize(nd_bool("everyone"));
    g_early = wsym_concretize(nd_bool("early"));
    g_winver = wsym_concretize(nd_bool("vista")) ? 60 : 51;
    g_f1 = wsym_param("faults", 0) ? (int)wsym_concretize(nd_range("fault", 0, 14)) : 0;
    w32.CreateNamedPipeW = [](LPCWSTR name, DWORD mode, DWORD type, DWORD inst, DWORD, DWORD, DWORD, LPSECURITY_ATTRIBUTES sa) -> HANDLE {
        CHECK(wcscmp(name, L"\\\\.\\pipe\\DebugServer") == 0, "the server listens on another pipe than programs trace to");
        CHECK((mode & 3) == PIPE_ACCESS_DUPLEX && (mode & FILE_FLAG_FIRST_PIPE_INSTANCE), "the server shares its pipe with another server");
        CHECK((type & PIPE_TYPE_MESSAGE) && (type & PIPE_READMODE_MESSAGE), "the server does not read whole messages");
        CHECK(!(type & PIPE_NOWAIT) && !(mode & FILE_FLAG_OVERLAPPED), "the server does not wait for its clients");
        CHECK(((type & 8) != 0) == (g_winver >= 60), "other computers can connect");
        CHECK((sa != 0) == g_everyone, "everyone may send messages though only the user should, or the other way round");
        if (sa) {
            CHECK(sa->lpSecurityDescriptor && !sa->bInheritHandle, "the pipe has no security descriptor");
            FakeSd *sd = (FakeSd *)sa->lpSecurityDescriptor;
            CHECK(sd->live && sd->init && sd->dacl && sd->dacl->live, "the pipe's security descriptor is incomplete or already freed");
            FakeAcl &a = *sd->dacl;
            bool owner = false, every = false;
            for (int i = 0; i < a.n; ++i) {
                FakeSid *s = a.who[i];
                CHECK(s && (s == &g_ownerSid || s->live), "an access entry does not name a live SID");
                if (s == &g_ownerSid) { owner = true; CHECK(a.perm[i] == GENERIC_ALL, "the owner has not full control"); continue; }
                if (s->auth == 5) continue;
                CHECK(s->auth == 1 && s->n == 1 && s->sub[0] == 0, "somebody unknown is let in");
                every = true;
                const DWORD need = FILE_READ_DATA | FILE_READ_ATTRIBUTES | FILE_READ_EA | READ_CONTROL | FILE_WRITE_DATA | FILE_WRITE_ATTRIBUTES | FILE_WRITE_EA | SYNCHRONIZE;
                CHECK((a.perm[i] & need) == need, "clients may not open the pipe");
                CHECK((a.perm[i] & (FILE_CREATE_PIPE_INSTANCE | WRITE_DAC | WRITE_OWNER | DELETE | GENERIC_ALL | GENERIC_WRITE)) == 0, "everyone may take over the pipe");
            }
            CHECK(owner && every, "the owner or everyone is kept out");
        }
        if (fault()) return INVALID_HANDLE_VALUE;
        g_open = true; ++g_opens;
        return (HANDLE)0x500;
    };
    w32.ConnectNamedPipe = [](HANDLE h, LPOVERLAPPED ov) -> BOOL {
        CHECK(h == (HANDLE)0x500 && g_open && !ov, "the server waits on something else");
        CHECK(g_state == 0, "the server waits for a client while one is connected");
        CHECK(g_flushed == g_nshown, "a message stays in a buffer while the server waits");
        if (g_left == 0) finish();
        arrive();
        if (g_early && g_clients == 1) {          // between the creation of the pipe and this call
            w32_lastError = g_how == 2 && wsym_concretize(nd_bool("gone already")) ? ERROR_NO_DATA : ERROR_PIPE_CONNECTED;
            return FALSE;
        }
        return TRUE;
    };
    w32.ReadFile = [](HANDLE h, LPVOID b, DWORD n, LPDWORD act, LPOVERLAPPED) -> BOOL {
        CHECK(h == (HANDLE)0x500 && g_open, "the server reads from something else");
        CHECK(g_state == 1, "the server reads twice");
        g_state = 2;
        if (g_how == 2) { w32_lastError = ERROR_BROKEN_PIPE; *act = 0; return FALSE; }
        const DWORD have = (DWORD)g_len < n ? (DWORD)g_len : n;
        memcpy(b, g_text, have);
        *act = have;
        if ((DWORD)g_len > n) { w32_lastError = ERROR_MORE_DATA; return FALSE; }
        return TRUE;
    };
    w32.WriteFile = [](HANDLE h, LPCVOID, DWORD n, LPDWORD act, LPOVERLAPPED) -> BOOL {
        CHECK(h == (HANDLE)0x500 && g_open && g_state == 2, "the server answers nobody");
        CHECK(n <= 16, "an answer is longer than a client reads");
        ++g_answers; *act = n;
        if (wsym_concretize(nd_bool("client gone"))) { w32_lastError = ERROR_NO_DATA; return FALSE; }
        return TRUE;
    };
    w32.DisconnectNamedPipe = [](HANDLE h) -> BOOL {
        CHECK(h == (HANDLE)0x500 && g_open && g_state != 0, "the server disconnects nobody");
        CHECK(g_state == 2, "the server sends a client away unheard");
        if (g_how == 0) {
            CHECK(g_nshown - g_want == g_len + 1 && g_shown[g_nshown - 1] == '\n', "a message is not printed as one line");
            if (g_nshown - g_want == g_len + 1) for (int i = 0; i < g_len; ++i) if (i < 3 || i >= 4094) CHECK(g_shown[g_want + i] == g_text[i], "a message is printed with other text"); else if (g_shown[g_want + i] != g_text[i]) { wsym_fail("a message is printed with other text"); break; }
            CHECK(g_flushed == g_nshown, "a message stays in a buffer");
        }
        g_want = g_how == 2 ? g_want : g_nshown;
        g_state = 0;
        return TRUE;
    };
    w32.CloseHandle = [](HANDLE h) -> BOOL { CHECK(h != (HANDLE)0x500, "the server closes its pipe"); KObj *o = kGet(h); if (o) o->open = false; return TRUE; };
    static char a0[] = "debugserver", a1[] = "--everyone";
    char *av[3] = { a0, a1, 0 };
    try {
        dbgMain(g_everyone ? 2 : 1, av);
        wsym_fail("the server ends");
    } catch (const Over &) {}
}
