prop = 'C07'
needs = "a late 'done' with status FAILED (four frames) for a job the worker does not process any more, while it processes another one"
breaks = 'a result for a job the worker is not processing is reported and the job it does process is dropped'
edits = [('src/handlers/broker_handler.cpp', '''	if (message.at(1) != current->data.get_job_id()) {''', '''	if (message.size() == 3 && message.at(1) != current->data.get_job_id()) {''')]
demo = r'''#include "demo.h"
int main()
{
	for (int single = 0; single < 2; ++single) {
		B b(single);
		b.w("w1", {"init", "g", "env=c"});
		b.cl({"eval", "j1", "env=c", "", "d"});
		b.w("w1", {"done", "old", "FAILED", "disk full"});
		NEED(b.sent("status_notifier", "") == 0, "a result of a foreign job is reported");
		b.w("w1", {"done", "j1", "OK"});
		NEED(b.sent("status_notifier", "") == 1, "the result of the real job is not reported");
	}
	return 0;
}
'''
