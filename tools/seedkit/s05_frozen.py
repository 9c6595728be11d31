prop = 'C05'
needs = 'an evaluation request that is cut off before the empty frame while the broker is frozen'
breaks = 'the truncated request gets a verdict'
edits = [('src/handlers/broker_handler.cpp', '\t// Load headers terminated by an empty frame\n\tauto it = std::begin(message) + 2;\n', '\tif (is_frozen_) {\n\t\tstd::string reject_message = "The broker is frozen.";\n\t\trespond(message_container(broker_connect::KEY_CLIENTS, identity, {"reject", reject_message}));\n\t\tlogger_->error("Request \'{}\' rejected. {}", job_id, reject_message);\n\t\treturn;\n\t}\n\n\t// Load headers terminated by an empty frame\n\tauto it = std::begin(message) + 2;\n')]
demo = r"""#include "demo.h"
int main()
{
	B b(false);
	b.w("w1", {"init", "g", "env=c"});
	b.cl({"freeze"});
	b.cl({"eval", "j1", "env=c", "", "d"});
	NEED(b.sent("clients", "client", "reject") == 1, "rejected");
	b.cl({"eval", "j1", "env=c"});
	NEED(b.sent("clients", "client") == 1, "a truncated request gets a verdict");
	return 0;
}
"""
