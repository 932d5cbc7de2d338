// Stands in for the agent's assertion handler: a failing ASSERT in the agent is a violation (the real one ends the
// agent and closes the console).
#include "wsym.h"
void agentAssertFail(const char *file, int line, const char *cond) { wsym_fail("an internal ASSERT of the agent fails"); wsym_stop(); }
void agentShutdown() { wsym_fail("the agent shuts itself down"); wsym_stop(); }
void assertTrace(const char *file, int line, const char *cond) {}
