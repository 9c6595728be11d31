prop = 'C14'
needs = 'a message with a data frame that contains a zero byte'
breaks = 'the frame is cut at the zero byte when it is sent to an asynchronous handler'
edits = [('src/reactor/reactor.cpp', '''	for (auto it = std::begin(message.data); it != std::end(message.data); ++it) {
		reactor_socket_.send(it->c_str(), it->size(), std::next''', '''	for (auto it = std::begin(message.data); it != std::end(message.data); ++it) {
		reactor_socket_.send(it->c_str(), std::char_traits<char>::length(it->c_str()), std::next''')]
demo = r"""#include "reactor/reactor.h"
#include <atomic>
#include <cstdio>
#include <thread>
#include <chrono>
struct H : handler_interface {
	std::atomic<int> got{0};
	std::vector<std::string> data;
	void on_request(const message_container &m, const response_cb &) override
	{
		if (m.identity == "real") {
			data = m.data;
			got = 2;
		} else if (got == 0) {
			got = 1;
		}
	}
};
int main()
{
	auto ctx = std::make_shared<zmq::context_t>(1);
	reactor r(ctx);
	auto h = std::make_shared<H>();
	r.add_async_handler({"k"}, h);
	// the handler is connected as soon as it gets something
	for (int i = 0; i < 200 && h->got == 0; ++i) {
		r.process_message(message_container("k", "probe", {"x"}));
		std::this_thread::sleep_for(std::chrono::milliseconds(20));
	}
	std::vector<std::string> want = {std::string("a\0b", 3), "", "c"};
	r.process_message(message_container("k", "real", want));
	for (int i = 0; i < 200 && h->got != 2; ++i) std::this_thread::sleep_for(std::chrono::milliseconds(20));
	bool ok = h->got == 2 && h->data == want;
	std::printf("delivered %d, intact %d\n", h->got == 2, ok);
	std::fflush(stdout);
	_Exit(ok ? 0 : 1);
}
"""
