// Requests of more than one read.
#define PIPE_IN 200000
#define PIPE_OUT 4096
#define REQ_BIG 200000
#include "agent.cc"
