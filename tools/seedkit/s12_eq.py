prop = 'C12'
needs = 'a job header whose value contains an equals sign'
breaks = 'the header is split at the last equals sign, so the job is not matched by the name and value the client gave'
edits = [('src/handlers/broker_handler.cpp', "\t\tstd::size_t pos = it->find('=');", "\t\tstd::size_t pos = it->rfind('=');")]
demo = r"""#include "demo.h"
int main()
{
	for (int single = 0; single < 2; ++single) {
		B b(single);
		b.w("w1", {"init", "g", "opt=a=b"});
		b.cl({"eval", "j1", "opt=a=b", "", "d"});
		NEED(b.sent("workers", "w1", "j1") == 1, "a header is not split at the first equals sign");
	}
	return 0;
}
"""
