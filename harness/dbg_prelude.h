// Renames what winpty-debugserver.exe does to the world, for debugserver.cc.
#include <stdio.h>
#include <stdlib.h>
#include <cstdio>
#include <cstdlib>
#include <string>
#include <vector>
#define main dbgMain
#define fwrite dbgWrite
#define printf dbgPrintf
#define fprintf dbgFprintf
#define puts dbgPuts
#define fputs dbgFputs
#define putchar dbgPutchar
#define fputc dbgFputc
#define fflush dbgFlush
#define exit dbgExit
extern "C" {
size_t dbgWrite(const void *, size_t, size_t, FILE *);
int dbgPrintf(const char *, ...);
int dbgFprintf(FILE *, const char *, ...);
int dbgPuts(const char *);
int dbgFputs(const char *, FILE *);
int dbgPutchar(int);
int dbgFputc(int, FILE *);
int dbgFlush(FILE *);
[[noreturn]] void dbgExit(int);
}
