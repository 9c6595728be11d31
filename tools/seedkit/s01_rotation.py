prop = 'C01'
needs = 'multi queue; three workers; one that is not the most recently used one expires; a later job is given to the rotation slot it left behind'
breaks = 'a dead worker stays in the rotation, so an accepted job is sent to (and parked with) a worker that no longer exists and is never finished nor reported'
edits = [('src/queuing/multi_queue_manager.cpp', '	worker_queue_.remove(worker);\n	queues_.erase(worker);', '	if (!worker_queue_.empty() && worker_queue_.back() == worker) {\n		worker_queue_.pop_back();\n	} else if (!worker_queue_.empty() && worker_queue_.front() == worker) {\n		worker_queue_.pop_front();\n	}\n	queues_.erase(worker);')]
demo = r'''#include "demo.h"
int main()
{
	B b(false);
	b.c->live = 1;
	for (auto id : {"w1", "w2", "w3"}) b.w(id, {"init", "g", "env=c"});
	// w2 stays silent and expires (one interval at a time, the others keep pinging)
	for (int i = 0; i < 3; ++i) {
		b.timer(600);
		b.w("w1", {"ping"});
		b.w("w3", {"ping"});
	}
	b.timer(600);
	for (int i = 0; i < 4; ++i) {
		b.cl({"eval", "job" + std::to_string(i), "env=c", "", "data"});
		NEED(b.sent("workers", "w2") == 0, "a job was sent to the expired worker");
	}
	return 0;
}
'''
