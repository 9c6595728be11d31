prop = 'C09'
needs = 'a worker that sends only progress messages while it evaluates a long job'
breaks = 'its messages do not restart the silence count and the live worker is removed'
edits = [('src/handlers/broker_handler.cpp', '\t\tif (worker != nullptr) {\n\t\t\tworker->liveness = config_->get_max_worker_liveness();\n\t\t\tworker_timers_[worker] = std::chrono::milliseconds(0);', '\t\tif (worker != nullptr) {\n\t\t\tif (message.data.at(0) != "progress") {\n\t\t\t\tworker->liveness = config_->get_max_worker_liveness();\n\t\t\t}\n\t\t\tworker_timers_[worker] = std::chrono::milliseconds(0);')]
demo = r"""#include "demo.h"
int main()
{
	B b(false);
	b.c->live = 2;
	b.w("w1", {"init", "g", "env=c"});
	for (int i = 0; i < 3; ++i) {
		b.timer(1100);
		b.w("w1", {"progress", "j", "TASK"});
	}
	b.w("w1", {"ping"});
	NEED(b.sent("workers", "w1", "pong") == 1, "a worker that kept sending messages was removed");
	return 0;
}
"""
