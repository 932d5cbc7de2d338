#ifndef DEMO_H
#define DEMO_H
#include "wsym.h"
void demo();
void give(const char *name, unsigned long long v);   // the next answer to a question of the simulated world
void param(const char *name, int v);
#endif
