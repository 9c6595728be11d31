prop = 'C10'
needs = 'a worker whose job fails while another job waits in the queue, message of the worker being empty'
breaks = 'the worker stays idle although a job waits for it'
edits = [('src/handlers/broker_handler.cpp', '\t\tauto failed_request = queue_->worker_cancelled(worker);\n\t\tfailed_request->failure_count += 1;\n\t\tauto new_request = queue_->assign_request(worker);\n', '\t\tauto failed_request = queue_->worker_cancelled(worker);\n\t\tfailed_request->failure_count += 1;\n\t\tauto new_request = message.at(3).empty() ? nullptr : queue_->assign_request(worker);\n')]
demo = r"""#include "demo.h"
int main()
{
	for (int single = 0; single < 2; ++single) {
		B b(single);
		b.w("w1", {"init", "g", "env=c"});
		b.cl({"eval", "j1", "env=c", "", "d"});
		b.cl({"eval", "j2", "env=c", "", "d"});
		b.w("w1", {"done", "j1", "FAILED", ""});
		NEED(b.sent("workers", "w1", "j2") == 1, "the idle worker is not given the waiting job");
	}
	return 0;
}
"""
