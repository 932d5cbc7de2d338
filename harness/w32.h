// Win32 stand-ins.  Every Win32 function the sources import is defined in w32.cc and calls the hook of the same name
// in the table `w32`; a harness fills in the hooks its property needs.  A call of a function whose hook is not set
// ends the run as inconclusive (it is never a violation).
#ifndef HARNESS_W32_H
#define HARNESS_W32_H
#ifndef WIN32_LEAN_AND_MEAN
#endif
#include <winsock2.h>
#include <windows.h>
#include <aclapi.h>
#include <shellapi.h>
#include <wincrypt.h>
#include "wsym.h"

#define W32_LIST(X) \
X(HANDLE, GetStdHandle, (DWORD a), (a)) \
X(BOOL, GetConsoleMode, (HANDLE a, LPDWORD b), (a, b)) \
X(BOOL, SetConsoleMode, (HANDLE a, DWORD b), (a, b)) \
X(BOOL, WriteConsoleInputW, (HANDLE a, const INPUT_RECORD *b, DWORD c, LPDWORD d), (a, b, c, d)) \
X(BOOL, ReadConsoleInputW, (HANDLE a, PINPUT_RECORD b, DWORD c, LPDWORD d), (a, b, c, d)) \
X(DWORD, GetTickCount, (void), ()) \
X(UINT, GetDoubleClickTime, (void), ()) \
X(UINT, MapVirtualKeyW, (UINT a, UINT b), (a, b)) \
X(SHORT, VkKeyScanW, (WCHAR a), (a)) \
X(LRESULT, SendMessageW, (HWND a, UINT b, WPARAM c, LPARAM d), (a, b, c, d)) \
X(BOOL, PostMessageW, (HWND a, UINT b, WPARAM c, LPARAM d), (a, b, c, d)) \
X(BOOL, GenerateConsoleCtrlEvent, (DWORD a, DWORD b), (a, b)) \
X(DWORD, GetEnvironmentVariableA, (LPCSTR a, LPSTR b, DWORD c), (a, b, c)) \
X(DWORD, GetLastError, (void), ()) \
X(void, SetLastError, (DWORD a), (a)) \
X(HWND, GetConsoleWindow, (void), ()) \
X(DWORD, GetConsoleTitleW, (LPWSTR a, DWORD b), (a, b)) \
X(BOOL, SetConsoleTitleW, (LPCWSTR a), (a)) \
X(BOOL, GetConsoleScreenBufferInfo, (HANDLE a, PCONSOLE_SCREEN_BUFFER_INFO b), (a, b)) \
X(BOOL, SetConsoleScreenBufferSize, (HANDLE a, COORD b), (a, b)) \
X(BOOL, SetConsoleWindowInfo, (HANDLE a, BOOL b, const SMALL_RECT *c), (a, b, c)) \
X(BOOL, SetConsoleCursorPosition, (HANDLE a, COORD b), (a, b)) \
X(BOOL, SetConsoleTextAttribute, (HANDLE a, WORD b), (a, b)) \
X(BOOL, GetConsoleCursorInfo, (HANDLE a, PCONSOLE_CURSOR_INFO b), (a, b)) \
X(BOOL, ReadConsoleOutputW, (HANDLE a, PCHAR_INFO b, COORD c, COORD d, PSMALL_RECT e), (a, b, c, d, e)) \
X(BOOL, WriteConsoleOutputW, (HANDLE a, const CHAR_INFO *b, COORD c, COORD d, PSMALL_RECT e), (a, b, c, d, e)) \
X(BOOL, FillConsoleOutputCharacterW, (HANDLE a, WCHAR b, DWORD c, COORD d, LPDWORD e), (a, b, c, d, e)) \
X(BOOL, FillConsoleOutputAttribute, (HANDLE a, WORD b, DWORD c, COORD d, LPDWORD e), (a, b, c, d, e)) \
X(COORD, GetLargestConsoleWindowSize, (HANDLE a), (a)) \
X(BOOL, SetConsoleActiveScreenBuffer, (HANDLE a), (a)) \
X(HANDLE, CreateConsoleScreenBuffer, (DWORD a, DWORD b, const SECURITY_ATTRIBUTES *c, DWORD d, LPVOID e), (a, b, c, d, e)) \
X(DWORD, GetConsoleProcessList, (LPDWORD a, DWORD b), (a, b)) \
X(UINT, GetConsoleCP, (void), ()) \
X(UINT, GetConsoleOutputCP, (void), ()) \
X(BOOL, SetConsoleCtrlHandler, (PHANDLER_ROUTINE a, BOOL b), (a, b)) \
X(HANDLE, CreateFileW, (LPCWSTR a, DWORD b, DWORD c, LPSECURITY_ATTRIBUTES d, DWORD e, DWORD f, HANDLE g), (a, b, c, d, e, f, g)) \
X(BOOL, ReadFile, (HANDLE a, LPVOID b, DWORD c, LPDWORD d, LPOVERLAPPED e), (a, b, c, d, e)) \
X(BOOL, WriteFile, (HANDLE a, LPCVOID b, DWORD c, LPDWORD d, LPOVERLAPPED e), (a, b, c, d, e)) \
X(BOOL, CloseHandle, (HANDLE a), (a)) \
X(BOOL, CancelIo, (HANDLE a), (a)) \
X(BOOL, CancelIoEx, (HANDLE a, LPOVERLAPPED b), (a, b)) \
X(BOOL, GetOverlappedResult, (HANDLE a, LPOVERLAPPED b, LPDWORD c, BOOL d), (a, b, c, d)) \
X(HANDLE, CreateEventW, (LPSECURITY_ATTRIBUTES a, BOOL b, BOOL c, LPCWSTR d), (a, b, c, d)) \
X(BOOL, ResetEvent, (HANDLE a), (a)) \
X(BOOL, SetEvent, (HANDLE a), (a)) \
X(DWORD, WaitForSingleObject, (HANDLE a, DWORD b), (a, b)) \
X(DWORD, WaitForMultipleObjects, (DWORD a, const HANDLE *b, BOOL c, DWORD d), (a, b, c, d)) \
X(HANDLE, CreateNamedPipeW, (LPCWSTR a, DWORD b, DWORD c, DWORD d, DWORD e, DWORD f, DWORD g, LPSECURITY_ATTRIBUTES h), (a, b, c, d, e, f, g, h)) \
X(BOOL, ConnectNamedPipe, (HANDLE a, LPOVERLAPPED b), (a, b)) \
X(BOOL, DisconnectNamedPipe, (HANDLE a), (a)) \
X(BOOL, WaitNamedPipeW, (LPCWSTR a, DWORD b), (a, b)) \
X(BOOL, TransactNamedPipe, (HANDLE a, LPVOID b, DWORD c, LPVOID d, DWORD e, LPDWORD f, LPOVERLAPPED g), (a, b, c, d, e, f, g)) \
X(BOOL, SetNamedPipeHandleState, (HANDLE a, LPDWORD b, LPDWORD c, LPDWORD d), (a, b, c, d)) \
X(HANDLE, GetCurrentProcess, (void), ()) \
X(DWORD, GetCurrentProcessId, (void), ()) \
X(DWORD, GetCurrentThreadId, (void), ()) \
X(HANDLE, GetCurrentThread, (void), ()) \
X(BOOL, GetExitCodeProcess, (HANDLE a, LPDWORD b), (a, b)) \
X(BOOL, DuplicateHandle, (HANDLE a, HANDLE b, HANDLE c, LPHANDLE d, DWORD e, BOOL f, DWORD g), (a, b, c, d, e, f, g)) \
X(BOOL, CreateProcessW, (LPCWSTR a, LPWSTR b, LPSECURITY_ATTRIBUTES c, LPSECURITY_ATTRIBUTES d, BOOL e, DWORD f, LPVOID g, LPCWSTR h, LPSTARTUPINFOW i, LPPROCESS_INFORMATION j), (a, b, c, d, e, f, g, h, i, j)) \
X(void, Sleep, (DWORD a), (a)) \
X(void, GetSystemTimeAsFileTime, (LPFILETIME a), (a)) \
X(HMODULE, LoadLibraryW, (LPCWSTR a), (a)) \
X(FARPROC, GetProcAddress, (HMODULE a, LPCSTR b), (a, b)) \
X(BOOL, FreeLibrary, (HMODULE a), (a)) \
X(HMODULE, GetModuleHandleW, (LPCWSTR a), (a)) \
X(BOOL, GetModuleHandleExW, (DWORD a, LPCWSTR b, HMODULE *c), (a, b, c)) \
X(DWORD, GetModuleFileNameW, (HMODULE a, LPWSTR b, DWORD c), (a, b, c)) \
X(DWORD, GetModuleFileNameA, (HMODULE a, LPSTR b, DWORD c), (a, b, c)) \
X(DWORD, GetFileAttributesW, (LPCWSTR a), (a)) \
X(UINT, GetSystemDirectoryW, (LPWSTR a, UINT b), (a, b)) \
X(LPWSTR, GetCommandLineW, (void), ()) \
X(LPWSTR *, CommandLineToArgvW, (LPCWSTR a, int *b), (a, b)) \
X(int, WideCharToMultiByte, (UINT a, DWORD b, LPCWCH c, int d, LPSTR e, int f, LPCCH g, LPBOOL h), (a, b, c, d, e, f, g, h)) \
X(int, MultiByteToWideChar, (UINT a, DWORD b, LPCCH c, int d, LPWSTR e, int f), (a, b, c, d, e, f)) \
X(void, InitializeCriticalSection, (LPCRITICAL_SECTION a), (a)) \
X(void, DeleteCriticalSection, (LPCRITICAL_SECTION a), (a)) \
X(void, EnterCriticalSection, (LPCRITICAL_SECTION a), (a)) \
X(void, LeaveCriticalSection, (LPCRITICAL_SECTION a), (a)) \
X(HLOCAL, LocalAlloc, (UINT a, SIZE_T b), (a, b)) \
X(HLOCAL, LocalFree, (HLOCAL a), (a)) \
X(BOOL, GetVersionExW, (LPOSVERSIONINFOW a), (a)) \
X(HWINSTA, CreateWindowStationW, (LPCWSTR a, DWORD b, ACCESS_MASK c, LPSECURITY_ATTRIBUTES d), (a, b, c, d)) \
X(HDESK, CreateDesktopW, (LPCWSTR a, LPCWSTR b, LPDEVMODEW c, DWORD d, ACCESS_MASK e, LPSECURITY_ATTRIBUTES f), (a, b, c, d, e, f)) \
X(BOOL, CloseWindowStation, (HWINSTA a), (a)) \
X(BOOL, CloseDesktop, (HDESK a), (a)) \
X(HWINSTA, GetProcessWindowStation, (void), ()) \
X(BOOL, SetProcessWindowStation, (HWINSTA a), (a)) \
X(HDESK, GetThreadDesktop, (DWORD a), (a)) \
X(BOOL, GetUserObjectInformationW, (HANDLE a, int b, PVOID c, DWORD d, LPDWORD e), (a, b, c, d, e)) \
X(BOOL, OpenProcessToken, (HANDLE a, DWORD b, PHANDLE c), (a, b, c)) \
X(BOOL, OpenThreadToken, (HANDLE a, DWORD b, BOOL c, PHANDLE d), (a, b, c, d)) \
X(BOOL, GetTokenInformation, (HANDLE a, TOKEN_INFORMATION_CLASS b, LPVOID c, DWORD d, PDWORD e), (a, b, c, d, e)) \
X(BOOL, InitializeSecurityDescriptor, (PSECURITY_DESCRIPTOR a, DWORD b), (a, b)) \
X(BOOL, SetSecurityDescriptorDacl, (PSECURITY_DESCRIPTOR a, BOOL b, PACL c, BOOL d), (a, b, c, d)) \
X(DWORD, SetEntriesInAclW, (ULONG a, PEXPLICIT_ACCESS_W b, PACL c, PACL *d), (a, b, c, d)) \
X(DWORD, GetSecurityInfo, (HANDLE a, SE_OBJECT_TYPE b, SECURITY_INFORMATION c, PSID *d, PSID *e, PACL *f, PACL *g, PSECURITY_DESCRIPTOR *h), (a, b, c, d, e, f, g, h)) \
X(BOOL, AllocateAndInitializeSid, (PSID_IDENTIFIER_AUTHORITY a, BYTE b, DWORD c, DWORD d, DWORD e, DWORD f, DWORD g, DWORD h, DWORD i, DWORD j, PSID *k), (a, b, c, d, e, f, g, h, i, j, k)) \
X(PVOID, FreeSid, (PSID a), (a)) \
X(BOOL, EqualSid, (PSID a, PSID b), (a, b)) \
X(BOOL, CryptAcquireContextW, (HCRYPTPROV *a, LPCWSTR b, LPCWSTR c, DWORD d, DWORD e), (a, b, c, d, e)) \
X(BOOL, CryptGenRandom, (HCRYPTPROV a, DWORD b, BYTE *c), (a, b, c)) \
X(BOOL, CryptReleaseContext, (HCRYPTPROV a, DWORD b), (a, b)) \
X(BOOL, GetNamedPipeClientProcessId, (HANDLE a, PULONG b), (a, b)) \
X(BOOL, SetEnvironmentVariableW, (LPCWSTR a, LPCWSTR b), (a, b)) \
X(DWORD, FormatMessageW, (DWORD a, LPCVOID b, DWORD c, DWORD d, LPWSTR e, DWORD f, va_list *g), (a, b, c, d, e, f, g)) \
X(DWORD, GetProcessId, (HANDLE a), (a)) \
X(BOOL, TerminateProcess, (HANDLE a, UINT b), (a, b))

struct W32Hooks {
#define X(ret, name, params, args) ret (*name) params;
    W32_LIST(X)
#undef X
};
extern W32Hooks w32;
extern DWORD w32_lastError;
extern "C" void wsym_unmodelled(const char *what);
// Sets the hooks that no property varies: the last-error word, no WINPTY_DEBUG, locks (which check their nesting).
void w32_defaults();
#endif
