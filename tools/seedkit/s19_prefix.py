prop = 'C19'
needs = 'two workers one of whose identities is a prefix of the other'
breaks = 'messages of one worker are attributed to the other, which is replaced by its registration'
edits = [('src/worker_registry.cpp', 'worker->identity == identity', 'worker->identity.compare(0, worker->identity.size(), identity, 0, worker->identity.size()) == 0')]
demo = r"""#include "demo.h"
int main()
{
	B b(false);
	b.w("w1", {"init", "g", "env=c"});
	b.w("w12", {"ping"});
	NEED(b.sent("workers", "w12", "intro") == 1, "an unregistered worker is taken for another one");
	return 0;
}
"""
