prop = 'C15'
needs = 'a handler subscribed to a name that begins with the name of another socket'
breaks = 'the handler also gets the messages of the other name'
edits = [('src/reactor/reactor.cpp', '''	auto range = handlers_.equal_range(message.key);

	for (auto it = range.first; it != range.second; ++it) {
''', '''	auto key_length = message.key.size();

	for (auto it = handlers_.lower_bound(message.key);
		 it != std::end(handlers_) && it->first.compare(0, key_length, message.key) == 0;
		 ++it) {
''')]
demo = r"""#include "reactor/reactor.h"
#include <cstdio>
struct H : handler_interface {
	int n = 0;
	void on_request(const message_container &, const response_cb &) override { ++n; }
};
int main()
{
	auto ctx = std::make_shared<zmq::context_t>(1);
	reactor r(ctx);
	auto a = std::make_shared<H>(), b = std::make_shared<H>(), c = std::make_shared<H>();
	r.add_handler({"workers"}, a);
	r.add_handler({"workers-status"}, b);
	r.add_handler({"clients", "workers"}, c);
	r.process_message(message_container("workers", "id", {"x"}));
	std::printf("%d %d %d\n", a->n, b->n, c->n);
	return a->n == 1 && b->n == 0 && c->n == 1 ? 0 : 1;
}
"""
