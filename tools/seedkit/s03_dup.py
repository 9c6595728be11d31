prop = 'C03'
needs = 'a job that names the same header twice with different values, and a worker that declares only the first of them'
breaks = 'the second requirement is forgotten and the job is sent to a worker that does not satisfy it'
edits = [('src/handlers/broker_handler.cpp', '\t\t\theaders.emplace(key, value);\n', '\t\t\tif (headers.find(key) == headers.end()) {\n\t\t\t\theaders.emplace(key, value);\n\t\t\t}\n')]
demo = r"""#include "demo.h"
int main()
{
	for (int single = 0; single < 2; ++single) {
		B b(single);
		b.w("w1", {"init", "g", "env=c"});
		b.cl({"eval", "j1", "env=c", "env=java", "", "d"});
		NEED(b.sent("workers", "w1") == 0, "the job is sent to a worker that does not satisfy its headers");
		NEED(b.sent("clients", "client", "reject") == 1, "the job is not rejected");
	}
	return 0;
}
"""
