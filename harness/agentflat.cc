#define CON_FLAT
#include "agent.cc"
