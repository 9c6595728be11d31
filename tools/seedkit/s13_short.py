prop = 'C13'
needs = 'a result of three frames with status INTERNAL_ERROR from the worker that processes the job'
breaks = 'the missing fourth frame is read and an exception leaves the message handler'
edits = [('src/handlers/broker_handler.cpp', '\t\tif (message.size() != 4) {\n\t\t\tlogger_->warn(\n\t\t\t\t"Invalid', '\t\tif (message.size() > 4) {\n\t\t\tlogger_->warn(\n\t\t\t\t"Invalid')]
demo = r"""#include "demo.h"
int main()
{
	B b(false);
	b.c->fails = 1;
	b.w("w1", {"init", "g", "env=c"});
	b.cl({"eval", "j1", "env=c", "", "d"});
	try {
		b.w("w1", {"done", "j1", "INTERNAL_ERROR"});
	} catch (...) {
		NEED(false, "an exception leaves the message handler");
	}
	return 0;
}
"""
