#define PIPE_IN 16
#define PIPE_OUT 70000
#include "pipes.cc"
