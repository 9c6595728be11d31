prop = 'C06'
needs = 'an internal failure of a job while the broker is frozen'
breaks = 'freezing stops the retry of a job that was accepted before'
edits = [('src/handlers/broker_handler.cpp', '\t\t} else if (check_failure_count(failed_request, status_notifier, respond, message.at(3))) {\n\t\t\treassign_request(failed_request, respond);', '\t\t} else if (is_frozen_) {\n\t\t\tstatus_notifier.rejected_job(failed_request->data.get_job_id(), "The broker is frozen.");\n\t\t\tnotify_monitor(failed_request, "FAILED", respond);\n\t\t} else if (check_failure_count(failed_request, status_notifier, respond, message.at(3))) {\n\t\t\treassign_request(failed_request, respond);')]
demo = r"""#include "demo.h"
int main()
{
	for (int single = 0; single < 2; ++single) {
		B b(single);
		b.w("w1", {"init", "g", "env=c"});
		b.cl({"eval", "j1", "env=c", "", "d"});
		b.cl({"freeze"});
		b.w("w1", {"done", "j1", "INTERNAL_ERROR", "oops"});
		NEED(b.sent("workers", "w1") == 1 && b.sent("status_notifier", "") == 0, "the accepted job is not retried while frozen");
	}
	return 0;
}
"""
