// Security objects, for lib.h and agentk.h (which define the handles, faults and property bits used here).
#ifndef HARNESS_SEC_H
#define HARNESS_SEC_H
static int g_sids, g_sds, g_aclLive;
struct FakeSid { uint8_t auth; int n; DWORD sub[2]; bool live; };
static FakeSid g_sid[24];
static int g_nsid;
struct FakeAcl { bool live; int n; DWORD perm[4]; FakeSid *who[4]; bool sid[4]; int mode[4], inherit[4]; };
static FakeAcl g_acl[8];
static int g_nacl;
struct FakeSd { bool live, init; FakeAcl *dacl; };
static FakeSd g_sd[8];
static int g_nsd;
static FakeSid g_ownerSid;


// A pipe must be open to its owner, the system and the administrators, and to nobody else.
static void secOwnerOnly(LPSECURITY_ATTRIBUTES sa) {
    CHK(P_SEC, sa && sa->lpSecurityDescriptor && !sa->bInheritHandle, "a pipe has no security descriptor or is inheritable");
    if (sa && sa->lpSecurityDescriptor && on(P_SEC)) {
        FakeSd *sd = (FakeSd *)sa->lpSecurityDescriptor;
        CHECK(sd->live && sd->init && sd->dacl && sd->dacl->live, "a pipe's security descriptor is incomplete or already freed");
        FakeAcl &a = *sd->dacl;
        bool system = false, admins = false, owner = false;
        for (int i = 0; i < a.n; ++i) {
            CHECK(a.sid[i] && a.who[i] && (a.who[i] == &g_ownerSid || a.who[i]->live), "an access entry does not name a live SID");
            CHECK(a.perm[i] == GENERIC_ALL && (a.mode[i] == SET_ACCESS || a.mode[i] == GRANT_ACCESS) && a.inherit[i] == NO_INHERITANCE, "an access entry is not full control");
            FakeSid *s = a.who[i];
            if (s == &g_ownerSid) owner = true;
            else if (s->auth == 5 && s->n == 1 && s->sub[0] == 18) system = true;
            else if (s->auth == 5 && s->n == 2 && s->sub[0] == 32 && s->sub[1] == 544) admins = true;
            else wsym_fail("a pipe lets somebody else in");
        }
        CHECK(system && admins && owner, "a pipe keeps the system, the administrators or the owner out");
    }
}

static inline void secWorld() {
    w32.OpenThreadToken = [](HANDLE, DWORD, BOOL, PHANDLE t) -> BOOL {
        if (fault()) return FALSE;
        if (wsym_param("impersonate", 0)) { *t = kNew(K_TOKEN, -1); return TRUE; }
        w32_lastError = ERROR_NO_TOKEN;
        return FALSE;
    };
    w32.OpenProcessToken = [](HANDLE, DWORD, PHANDLE t) -> BOOL { if (fault()) return FALSE; *t = kNew(K_TOKEN, -1); return TRUE; };
    w32.GetTokenInformation = [](HANDLE t, TOKEN_INFORMATION_CLASS c, LPVOID b, DWORD n, PDWORD need) -> BOOL {
        kUse(t, K_TOKEN);
        CHK(P_SEC, c == TokenOwner, "the pipe is given to somebody other than the token's owner");
        if (fault()) return FALSE;
        *need = sizeof(TOKEN_OWNER) + 8;
        if (n < *need) { w32_lastError = ERROR_INSUFFICIENT_BUFFER; return FALSE; }
        ((TOKEN_OWNER *)b)->Owner = (PSID)&g_ownerSid;
        return TRUE;
    };
    w32.AllocateAndInitializeSid = [](PSID_IDENTIFIER_AUTHORITY a, BYTE n, DWORD s0, DWORD s1, DWORD, DWORD, DWORD, DWORD, DWORD, DWORD, PSID *out) -> BOOL {
        if (fault()) return FALSE;
        FakeSid &s = g_sid[g_nsid++];
        s.auth = a->Value[5]; s.n = n; s.sub[0] = s0; s.sub[1] = s1; s.live = true;
        ++g_sids;
        *out = (PSID)&s;
        return TRUE;
    };
    w32.FreeSid = [](PSID p) -> PVOID { CHK(P_OWN, ((FakeSid *)p)->live, "a SID is freed twice"); ((FakeSid *)p)->live = false; --g_sids; return 0; };
    w32.SetEntriesInAclW = [](ULONG n, PEXPLICIT_ACCESS_W e, PACL old, PACL *out) -> DWORD {
        CHK(P_SEC, old == 0, "the access list is built on another one");
        if (fault()) return 5;
        FakeAcl &a = g_acl[g_nacl++];
        if (n > 4) wsym_stop();
        a.live = true; a.n = (int)n;
        for (ULONG i = 0; i < n; ++i) {
            a.perm[i] = e[i].grfAccessPermissions; a.mode[i] = e[i].grfAccessMode; a.inherit[i] = (int)e[i].grfInheritance;
            a.sid[i] = e[i].Trustee.TrusteeForm == TRUSTEE_IS_SID; a.who[i] = (FakeSid *)e[i].Trustee.ptstrName;
        }
        ++g_aclLive;
        *out = (PACL)&a;
        return ERROR_SUCCESS;
    };
    w32.LocalAlloc = [](UINT, SIZE_T) -> HLOCAL { if (fault()) return NULL; FakeSd &s = g_sd[g_nsd++]; s.live = true; ++g_sds; return (HLOCAL)&s; };
    w32.LocalFree = [](HLOCAL p) -> HLOCAL {
        for (int i = 0; i < g_nsd; ++i) if (p == (HLOCAL)&g_sd[i]) { CHK(P_OWN, g_sd[i].live, "a security descriptor is freed twice"); g_sd[i].live = false; --g_sds; return NULL; }
        for (int i = 0; i < g_nacl; ++i) if (p == (HLOCAL)&g_acl[i]) { CHK(P_OWN, g_acl[i].live, "an access list is freed twice"); g_acl[i].live = false; --g_aclLive; return NULL; }
        CHK(P_OWN, p == NULL, "something is freed that was not allocated");
        return NULL;
    };
    w32.InitializeSecurityDescriptor = [](PSECURITY_DESCRIPTOR p, DWORD r) -> BOOL { if (fault()) return FALSE; ((FakeSd *)p)->init = r == 1; return TRUE; };
    w32.SetSecurityDescriptorDacl = [](PSECURITY_DESCRIPTOR p, BOOL present, PACL a, BOOL dflt) -> BOOL {
        if (fault()) return FALSE;
        ((FakeSd *)p)->dacl = present && !dflt ? (FakeAcl *)a : 0;
        return TRUE;
    };
}
#endif
