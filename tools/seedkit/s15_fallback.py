prop = 'C15'
needs = 'a socket that refuses a message (send fails) while a handler is subscribed to the name of that socket'
breaks = 'the outgoing message is handed to the handlers as if it had been received'
edits = [('src/reactor/reactor.cpp', '''	if (it != std::end(sockets_)) {
		it->second->send_message(message);
	} else {
		process_message(message);
	}
''', '''	if (it == std::end(sockets_) || !it->second->send_message(message)) {
		process_message(message);
	}
''')]
demo = r"""#include "reactor/reactor.h"
#include "reactor/socket_wrapper_base.h"
#include <cstdio>
struct H : handler_interface {
	int n = 0;
	void on_request(const message_container &, const response_cb &) override { ++n; }
};
struct W : socket_wrapper_base {
	bool ok = true;
	int n = 0;
	W(std::shared_ptr<zmq::context_t> c) : socket_wrapper_base(c, zmq::socket_type::router, "inproc://none", true) {}
	bool send_message(const message_container &) override { ++n; return ok; }
	bool receive_message(message_container &) override { return false; }
};
int main()
{
	auto ctx = std::make_shared<zmq::context_t>(1);
	reactor r(ctx);
	auto h = std::make_shared<H>();
	auto w = std::make_shared<W>(ctx);
	r.add_socket("workers", w);
	r.add_handler({"workers"}, h);
	r.send_message(message_container("workers", "id", {"eval"}));
	w->ok = false;
	r.send_message(message_container("workers", "id", {"eval"}));
	std::printf("sent %d, handled %d\n", w->n, h->n);
	return w->n == 2 && h->n == 0 ? 0 : 1;
}
"""
