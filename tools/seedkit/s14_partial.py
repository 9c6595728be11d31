prop = 'C14'
needs = 'a receive error after some, but not all, frames of a message were read'
breaks = 'the incomplete message is delivered as if it were complete'
edits = [('src/reactor/router_socket_wrapper.cpp', '''		try {
			socket_.recv(&msg, 0);
		} catch (const zmq::error_t &) {
			return false;
		}

		target.data''', '''		try {
			socket_.recv(&msg, 0);
		} catch (const zmq::error_t &) {
			break;
		}

		target.data''')]
demo = r"""#include "reactor/router_socket_wrapper.h"
#include <cerrno>
#include <cstdio>
#include <dlfcn.h>
static int left = -1;
extern "C" int zmq_msg_recv(zmq_msg_t *m, void *s, int f)
{
	static auto real = (int (*)(zmq_msg_t *, void *, int)) dlsym(RTLD_NEXT, "zmq_msg_recv");
	if (left == 0) {
		errno = EINTR;
		return -1;
	}
	if (left > 0) --left;
	return real(m, s, f);
}
int main()
{
	auto ctx = std::make_shared<zmq::context_t>(1);
	router_socket_wrapper r(ctx, "inproc://demo", true);
	r.initialize();
	zmq::socket_t peer(*ctx, zmq::socket_type::dealer);
	peer.setsockopt(ZMQ_IDENTITY, "peer", 4);
	peer.connect("inproc://demo");
	auto send = [&] {
		peer.send("a", 1, ZMQ_SNDMORE);
		peer.send("b", 1, ZMQ_SNDMORE);
		peer.send("c", 1, 0);
	};
	send();
	message_container m;
	if (!r.receive_message(m) || m.identity != "peer" || m.data.size() != 3) return 1;
	send();
	left = 2; // the identity and one frame arrive
	message_container n;
	bool ok = r.receive_message(n);
	std::printf("result %d, %zu frames\n", ok, n.data.size());
	return ok ? 1 : 0;
}
"""
