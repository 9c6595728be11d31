// Small driver for the demonstrations: the real broker_handler with real queue managers.
#include "broker_connect.h"
#include "handlers/broker_handler.h"
#include "queuing/multi_queue_manager.h"
#include "queuing/single_queue_manager.h"
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <iostream>
typedef std::string S;
typedef std::vector<S> VS;
struct conf : broker_config {
	std::size_t live = 4, fails = 3;
	long interval = 1000;
	std::size_t get_max_worker_liveness() const override { return live; }
	std::size_t get_max_request_failures() const override { return fails; }
	std::chrono::milliseconds get_worker_ping_interval() const override { return std::chrono::milliseconds(interval); }
};
struct B {
	std::shared_ptr<conf> c = std::make_shared<conf>();
	std::shared_ptr<worker_registry> reg = std::make_shared<worker_registry>();
	std::shared_ptr<queue_manager_interface> q;
	std::unique_ptr<broker_handler> h;
	std::vector<message_container> out;
	B(bool single)
	{
		if (single) q = std::make_shared<single_queue_manager<>>();
		else q = std::make_shared<multi_queue_manager>();
		h = std::make_unique<broker_handler>(c, reg, q, nullptr);
	}
	void msg(const S &key, const S &id, const VS &d)
	{
		out.clear();
		h->on_request(message_container(key, id, d), [this](const message_container &m) { out.push_back(m); });
		std::cout << "<- " << key << " " << id;
		for (auto &x : d) std::cout << " [" << x << "]";
		std::cout << "\n";
		for (auto &m : out) {
			std::cout << "   -> " << m.key << " " << m.identity;
			for (auto &x : m.data) std::cout << " [" << x << "]";
			std::cout << "\n";
		}
	}
	void w(const S &id, const VS &d) { msg("workers", id, d); }
	void cl(const VS &d) { msg("clients", "client", d); }
	void timer(long ms) { msg("timer", "", {std::to_string(ms)}); }
	// number of messages sent in the last step with the key, identity (empty = any) and containing the frame (empty = any)
	int sent(const S &key, const S &id, const S &frame = "")
	{
		int n = 0;
		for (auto &m : out) {
			if (m.key != key || (!id.empty() && m.identity != id)) continue;
			bool ok = frame.empty();
			for (auto &x : m.data)
				if (x == frame) ok = true;
			n += ok;
		}
		return n;
	}
};
#define NEED(c, text) do { if (!(c)) { std::cout << "BROKEN: " << text << "\n"; return 1; } } while (0)
