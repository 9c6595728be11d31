prop = 'C02'
needs = 'a busy worker that repeats its registration with the same group and headers'
breaks = 'the job it already processes is sent to it a second time'
edits = [('src/handlers/broker_handler.cpp', "\t\t\t// We don't have to update anything\n\t\t\treturn;", "\t\t\t// We don't have to update anything, the worker may have missed its job\n\t\t\tif (queue_->get_current_request(current_worker) != nullptr) {\n\t\t\t\tsend_request(current_worker, queue_->get_current_request(current_worker), respond);\n\t\t\t}\n\t\t\treturn;")]
demo = r"""#include "demo.h"
int main()
{
	for (int single = 0; single < 2; ++single) {
		B b(single);
		b.w("w1", {"init", "g", "env=c"});
		b.w("w1", {"init", "g", "env=c"});
		b.cl({"eval", "j1", "env=c", "", "d"});
		NEED(b.sent("workers", "w1") == 1, "sent once");
		b.w("w1", {"init", "g", "env=c"});
		NEED(b.sent("workers", "w1") == 0, "the job is sent again to the worker that already has it");
	}
	return 0;
}
"""
