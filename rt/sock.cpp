// Replay harness for the sockets and the reactor: the real router_socket_wrapper, reactor and handler wrappers on top of an
// in-memory stand-in of libzmq with scripted faults and a scripted clock (no network).
// LINK-WITHOUT: -lzmq
#include "reactor/reactor.h"
#include "reactor/router_socket_wrapper.h"
#include <atomic>
#include <condition_variable>
#include <cstdio>
#include <cstring>
#include <deque>
#include <functional>
#include <iostream>
#include <mutex>
#include <random>
#include <set>
#include <sstream>
#include <unistd.h>

typedef std::string S;
typedef std::vector<S> VS;

// ------------------------------------------------------------------ clock
static std::atomic<long> g_clock_ms{1000000};
namespace std
{
	namespace chrono
	{
		inline namespace _V2
		{
			system_clock::time_point system_clock::now() noexcept
			{
				return time_point(std::chrono::duration_cast<duration>(std::chrono::milliseconds(g_clock_ms.load())));
			}
			steady_clock::time_point steady_clock::now() noexcept
			{
				return time_point(std::chrono::duration_cast<duration>(std::chrono::milliseconds(g_clock_ms.load())));
			}
		}
	}
}

// ------------------------------------------------------------------ libzmq stand-in
struct Msg {
	S s;
	bool more = false;
};
struct Sock {
	int type = 0;
	S addr, identity;
	std::deque<VS> in;
	VS cur; // being received
	std::size_t cpos = 0;
	bool incur = false;
	VS part; // being sent
	std::vector<VS> sent; // complete messages
	std::map<S, Sock *> peers;
	Sock *up = nullptr; // the bound socket this one is connected to
	bool waiting = false, open = true;
	int nsend = 0, nrecv = 0; // operations since reset
	int fsend = -1, frecv = -1, ferr = 0;
};
static std::mutex mx;
static std::condition_variable cv;
static std::set<Sock *> all;
static std::map<S, Sock *> bound;
static thread_local int zerr = 0;
static std::function<int(zmq_pollitem_t *, int)> on_poll;

static Msg *&msg(zmq_msg_t *m)
{
	return *(Msg **) m;
}

extern "C" {
void *zmq_ctx_new(void) { return new int(0); }
int zmq_ctx_term(void *c) { delete (int *) c; return 0; }
int zmq_ctx_destroy(void *c) { return zmq_ctx_term(c); }
int zmq_ctx_shutdown(void *) { return 0; }
int zmq_ctx_set(void *, int, int) { return 0; }
int zmq_ctx_get(void *, int) { return 0; }
int zmq_errno(void) { return zerr; }
const char *zmq_strerror(int) { return "scripted failure"; }
void zmq_version(int *a, int *b, int *c) { *a = 4; *b = 3; *c = 5; }
void *zmq_socket(void *, int type)
{
	std::lock_guard<std::mutex> l(mx);
	auto s = new Sock();
	s->type = type;
	all.insert(s);
	return s;
}
int zmq_close(void *p)
{
	std::lock_guard<std::mutex> l(mx);
	auto s = (Sock *) p;
	s->open = false;
	for (auto i = bound.begin(); i != bound.end();)
		if (i->second == s)
			i = bound.erase(i);
		else
			++i;
	for (auto o : all) {
		if (o->up == s) o->up = nullptr;
		for (auto i = o->peers.begin(); i != o->peers.end();)
			if (i->second == s)
				i = o->peers.erase(i);
			else
				++i;
	}
	all.erase(s);
	delete s;
	return 0;
}
int zmq_setsockopt(void *p, int o, const void *v, size_t n)
{
	std::lock_guard<std::mutex> l(mx);
	if (o == ZMQ_IDENTITY) ((Sock *) p)->identity = S((const char *) v, n);
	return 0;
}
int zmq_getsockopt(void *p, int o, void *v, size_t *n)
{
	std::lock_guard<std::mutex> l(mx);
	auto s = (Sock *) p;
	if (o == ZMQ_RCVMORE && *n >= sizeof(int)) {
		*(int *) v = s->incur;
		*n = sizeof(int);
		return 0;
	}
	zerr = EINVAL;
	return -1;
}
int zmq_bind(void *p, const char *a)
{
	std::lock_guard<std::mutex> l(mx);
	auto s = (Sock *) p;
	s->addr = a;
	bound[a] = s;
	for (auto o : all)
		if (o != s && o->addr == a && !o->up && o->type == ZMQ_DEALER) {
			o->up = s;
			s->peers[o->identity] = o;
		}
	return 0;
}
int zmq_connect(void *p, const char *a)
{
	std::lock_guard<std::mutex> l(mx);
	auto s = (Sock *) p;
	s->addr = a;
	if (bound.count(a)) {
		s->up = bound[a];
		s->up->peers[s->identity] = s;
	}
	cv.notify_all();
	return 0;
}
int zmq_unbind(void *p, const char *a)
{
	std::lock_guard<std::mutex> l(mx);
	bound.erase(a);
	return 0;
}
int zmq_disconnect(void *, const char *) { return 0; }
int zmq_msg_init(zmq_msg_t *m) { msg(m) = new Msg(); return 0; }
int zmq_msg_init_size(zmq_msg_t *m, size_t n) { msg(m) = new Msg{S(n, '\0')}; return 0; }
int zmq_msg_init_data(zmq_msg_t *m, void *d, size_t n, zmq_free_fn *f, void *h)
{
	msg(m) = new Msg{S((char *) d, n)};
	if (f) f(d, h);
	return 0;
}
int zmq_msg_close(zmq_msg_t *m) { delete msg(m); msg(m) = nullptr; return 0; }
int zmq_msg_copy(zmq_msg_t *d, zmq_msg_t *s) { *msg(d) = *msg(s); return 0; }
int zmq_msg_move(zmq_msg_t *d, zmq_msg_t *s) { *msg(d) = *msg(s); *msg(s) = Msg(); return 0; }
void *zmq_msg_data(zmq_msg_t *m) { return (void *) msg(m)->s.data(); }
size_t zmq_msg_size(const zmq_msg_t *m) { return msg((zmq_msg_t *) m)->s.size(); }
int zmq_msg_more(const zmq_msg_t *m) { return msg((zmq_msg_t *) m)->more; }
int zmq_msg_get(const zmq_msg_t *m, int) { return msg((zmq_msg_t *) m)->more; }

int zmq_send(void *p, const void *b, size_t n, int flags)
{
	std::lock_guard<std::mutex> l(mx);
	auto s = (Sock *) p;
	if (s->nsend++ == s->fsend) {
		zerr = s->ferr;
		return -1;
	}
	s->part.emplace_back((const char *) b, n);
	if (!(flags & ZMQ_SNDMORE)) {
		s->sent.push_back(s->part);
		if (s->type == ZMQ_ROUTER) {
			if (s->peers.count(s->part[0])) s->peers[s->part[0]]->in.emplace_back(s->part.begin() + 1, s->part.end());
		} else if (s->up) {
			VS v = {s->identity};
			v.insert(v.end(), s->part.begin(), s->part.end());
			s->up->in.push_back(v);
		}
		s->part.clear();
		cv.notify_all();
	}
	return (int) n;
}
int zmq_send_const(void *p, const void *b, size_t n, int flags) { return zmq_send(p, b, n, flags); }
int zmq_msg_send(zmq_msg_t *m, void *p, int flags)
{
	int r = zmq_send(p, msg(m)->s.data(), msg(m)->s.size(), flags);
	if (r >= 0) *msg(m) = Msg();
	return r;
}
int zmq_msg_recv(zmq_msg_t *m, void *p, int flags)
{
	std::unique_lock<std::mutex> l(mx);
	auto s = (Sock *) p;
	if (!s->incur) {
		if (s->in.empty() && (flags & ZMQ_DONTWAIT)) {
			zerr = EAGAIN;
			return -1;
		}
		s->waiting = true;
		cv.notify_all();
		cv.wait(l, [&] { return !s->in.empty(); });
		s->waiting = false;
		s->cur = s->in.front();
		s->in.pop_front();
		s->cpos = 0;
		s->incur = true;
	}
	if (s->nrecv++ == s->frecv) {
		// the rest of the message is gone
		s->incur = false;
		zerr = s->ferr;
		return -1;
	}
	msg(m)->s = s->cur[s->cpos++];
	s->incur = msg(m)->more = s->cpos < s->cur.size();
	return (int) msg(m)->s.size();
}
int zmq_recv(void *p, void *b, size_t n, int flags)
{
	zmq_msg_t m;
	zmq_msg_init(&m);
	int r = zmq_msg_recv(&m, p, flags);
	if (r >= 0) memcpy(b, msg(&m)->s.data(), std::min(n, msg(&m)->s.size()));
	zmq_msg_close(&m);
	return r;
}
int zmq_poll(zmq_pollitem_t *it, int n, long)
{
	return on_poll ? on_poll(it, n) : 0;
}
}

// ------------------------------------------------------------------ helpers
static S esc(const S &s)
{
	S r;
	char b[8];
	for (unsigned char c : s) {
		if (c < 32 || c > 126 || c == '"' || c == '\\') {
			snprintf(b, sizeof b, "\\x%02x", c);
			r += b;
		} else
			r += c;
	}
	return "\"" + (r.size() > 60 ? r.substr(0, 60) + "..." : r) + "\"";
}
static S show(const VS &d)
{
	S r = "[";
	for (std::size_t i = 0; i < d.size(); ++i) r += (i ? ", " : "") + esc(d[i]);
	return r + "]";
}
static S show(const message_container &m)
{
	return esc(m.key) + " from " + esc(m.identity) + " " + show(m.data);
}

struct Rnd {
	std::mt19937_64 r;
	int n(int k) { return (int) (r() % (std::uint64_t) k); }
	bool p(int q) { return n(100) < q; }
	S text()
	{
		switch (n(12)) {
		case 0: return "";
		case 1: return S("\0", 1);
		case 2: return S("a\0b", 3);
		case 3: return S("\xff\xfe", 2);
		case 4: return S(300, 'x');
		case 5: return S(n(600), 'y');
		case 6: return "TERMINATE";
		case 7: return S(255 + n(3), 'z');
		default: return "t" + std::to_string(n(100));
		}
	}
	VS frames()
	{
		VS v(p(20) ? 0 : n(5));
		if (p(3)) v.resize(40);
		for (auto &x : v) x = text();
		return v;
	}
};
static S g_mode;
static bool judged(const S &tags)
{
	return g_mode == "any" || ("," + tags + ",").find("," + g_mode + ",") != S::npos;
}
static int failing(const S &tags, std::uint64_t seed, const S &what)
{
	if (!judged(tags)) return 0;
	std::cout << "FAILING INPUT seed=" << seed << " [" << tags << "]\n" << what << "\n";
	return 1;
}
static const int ERRS[] = {EHOSTUNREACH, ETERM, ENOTSUP, EINTR, ENOTSOCK, EFSM};

// ------------------------------------------------------------------ sockets
static int socket_case(std::uint64_t seed)
{
	Rnd g{std::mt19937_64(seed)};
	auto ctx = std::make_shared<zmq::context_t>();
	std::unique_ptr<router_socket_wrapper> w(new router_socket_wrapper(ctx, "tcp://stand-in", true));
	w->initialize();
	Sock *s = bound.count("tcp://stand-in") ? bound["tcp://stand-in"] : nullptr;
	if (!s) return failing("C14", seed, "a bound socket is not bound to its address");
	int k = 1 + g.n(4);
	message_container target;
	for (int i = 0; i < k; ++i) {
		s->nsend = s->nrecv = 0;
		s->fsend = s->frecv = -1;
		s->ferr = ERRS[g.n(6)];
		if (g.p(50)) {
			message_container m("k" + std::to_string(g.n(3)), g.p(10) ? S() : g.text(), g.frames());
			if (g.p(30)) s->fsend = g.n((int) m.data.size() + 1);
			std::size_t before = s->sent.size();
			s->part.clear();
			bool ok = false;
			S d = "send_message(" + show(m) + ")" + (s->fsend >= 0 ? " with a socket failure at frame " + std::to_string(s->fsend) : "");
			try {
				ok = w->send_message(m);
			} catch (std::exception &e) {
				if (int rc = failing("C14", seed, d + ": exception " + e.what())) return rc;
				continue;
			}
			VS want = {m.identity};
			want.insert(want.end(), m.data.begin(), m.data.end());
			bool faulty = s->fsend >= 0 && s->nsend > s->fsend;
			std::size_t n = s->sent.size() - before;
			S got;
			for (std::size_t q = before; q < s->sent.size(); ++q) got += " " + show(s->sent[q]);
			if (ok && (n != 1 || s->sent[before] != want || !s->part.empty()))
				if (int rc = failing("C14", seed, d + " reported success; complete messages emitted:" + got + "; left unfinished: " + show(s->part) + "; expected " + show(want))) return rc;
			if (!ok && !faulty)
				if (int rc = failing("C14", seed, d + " reported failure although the socket accepted every frame")) return rc;
			if (!ok && n != 0)
				if (int rc = failing("C14", seed, d + " reported failure but emitted" + got)) return rc;
		} else {
			VS v = {g.p(10) ? S() : g.text()};
			for (auto &x : g.frames()) v.push_back(x);
			VS v2 = {"next", "one"};
			s->in.clear();
			s->incur = false;
			s->in.push_back(v);
			s->in.push_back(v2);
			if (g.p(30)) s->frecv = g.n((int) v.size());
			if (g.p(50)) target = message_container("key", "stale", {"stale", "data"});
			S key = target.key;
			bool ok = false;
			S d = "receive_message for the frames " + show(v) + (s->frecv >= 0 ? " with a socket failure at frame " + std::to_string(s->frecv) : "");
			try {
				ok = w->receive_message(target);
			} catch (std::exception &e) {
				if (int rc = failing("C14,C15", seed, d + ": exception " + e.what())) return rc;
				continue;
			}
			if (s->frecv >= 0) {
				if (ok)
					if (int rc = failing("C14,C15", seed, d + " reported success")) return rc;
				continue;
			}
			VS got = {target.identity};
			got.insert(got.end(), target.data.begin(), target.data.end());
			if (!ok || got != v || target.key != key || s->in.size() != 1 || s->incur)
				if (int rc = failing("C14", seed, d + (ok ? " delivered " : " failed, ") + show(got))) return rc;
		}
	}
	return 0;
}

// ------------------------------------------------------------------ reactor
struct Seen {
	int handler;
	message_container m;
};

class rec_handler : public handler_interface
{
public:
	int no;
	std::function<void(int, const message_container &, const handler_interface::response_cb &)> f;
	void on_request(const message_container &m, const response_cb &r) override { f(no, m, r); }
};

static int reactor_case(std::uint64_t seed)
{
	Rnd g{std::mt19937_64(seed)};
	auto ctx = std::make_shared<zmq::context_t>();
	std::unique_ptr<reactor> re(new reactor(ctx));
	static const VS names = {"clients", "workers", "work", "monitor", "workersx"};
	static const VS extra = {"status", "timer", "other", "workers ", ""};
	int ns = g.n(4);
	VS socks;
	std::map<S, Sock *> sk;
	for (int i = 0; i < ns; ++i) {
		S n = names[g.n(names.size())];
		if (std::count(socks.begin(), socks.end(), n)) continue;
		socks.push_back(n);
		re->add_socket(n, std::make_shared<router_socket_wrapper>(ctx, "tcp://" + n, true));
	}
	int nh = 1 + g.n(4);
	std::vector<std::set<S>> subs(nh);
	std::vector<bool> async(nh);
	std::vector<Seen> seen;
	std::mutex smx;
	std::map<S, std::vector<message_container>> plan; // identity (unique) -> responses
	std::vector<std::shared_ptr<rec_handler>> hs;
	int nasync = 0;
	S setup = "sockets " + show(socks) + "; handlers:";
	for (int i = 0; i < nh; ++i) {
		int k = g.n(4);
		for (int j = 0; j < k; ++j) subs[i].insert(g.p(65) ? names[g.n(names.size())] : extra[g.n(extra.size())]);
		async[i] = k > 0 && g.p(35); // (an asynchronous handler without subscriptions is destroyed before it starts)
		auto h = std::make_shared<rec_handler>();
		h->no = i;
		h->f = [&](int no, const message_container &m, const handler_interface::response_cb &r) {
			std::vector<message_container> out;
			{
				std::lock_guard<std::mutex> l(smx);
				seen.push_back({no, m});
				S k = m.key == "timer" && m.identity.empty() ? S() : std::to_string(no) + "/" + m.identity;
				if (!k.empty() && plan.count(k)) out = plan[k];
			}
			for (auto &o : out) r(o);
		};
		hs.push_back(h);
		VS v(subs[i].begin(), subs[i].end());
		setup += " " + std::to_string(i) + (async[i] ? " (asynchronous) " : " ") + show(v);
		if (async[i]) {
			++nasync;
			re->add_async_handler(v, h);
		} else
			re->add_handler(v, h);
	}
	{
		// wait for the threads of asynchronous handlers
		std::unique_lock<std::mutex> l(mx);
		for (int i = 0; i < 2000; ++i) {
			int c = 0;
			for (auto s : all) c += s->type == ZMQ_DEALER && s->up && s->waiting;
			if (c >= nasync) break;
			l.unlock();
			usleep(1000);
			l.lock();
		}
	}
	// expectation, filled in as the script runs
	std::vector<Seen> want;
	std::map<S, std::vector<VS>> wsent;
	int serial = 0;
	S script;
	bool loose = false; // a message was lost on purpose
	std::function<void(const message_container &, int)> route_handlers;
	auto fresh_msg = [&](const S &key) {
		S id = "m" + std::to_string(++serial);
		if (g.p(20)) id += g.text();
		return message_container(key, id, g.frames());
	};
	std::function<void(const message_container &, int)> route = [&](const message_container &m, int depth) {
		if (std::count(socks.begin(), socks.end(), m.key)) {
			VS v = {m.identity};
			v.insert(v.end(), m.data.begin(), m.data.end());
			wsent[m.key].push_back(v);
		} else
			route_handlers(m, depth);
	};
	route_handlers = [&](const message_container &m, int depth) {
		for (int i = 0; i < nh; ++i) {
			if (!subs[i].count(m.key)) continue;
			want.push_back({i, m});
			if (depth > 2) continue;
			int k = g.p(40) ? 0 : g.n(3);
			for (int q = 0; q < k; ++q) {
				auto r = fresh_msg(g.p(60) ? names[g.n(names.size())] : extra[g.n(extra.size())]);
				plan[std::to_string(i) + "/" + m.identity].push_back(r);
				script += "    handler " + std::to_string(i) + " answers " + esc(m.identity) + " with " + show(r) + "\n";
			}
			auto rs = plan[std::to_string(i) + "/" + m.identity];
			for (auto &r : rs) route(r, depth + 1);
		}
	};
	int rounds = 1 + g.n(4), round = 0, idle = 0, polls = 0;
	std::vector<long> elapsed;
	on_poll = [&](zmq_pollitem_t *it, int n) {
		++polls;
		// let the asynchronous handlers settle
		{
			std::unique_lock<std::mutex> l(mx);
			for (int i = 0; i < 3000; ++i) {
				bool busy = false;
				for (auto s : all)
					if (s->type == ZMQ_DEALER && s->up && (!s->waiting || !s->in.empty())) busy = true;
				if (!busy) break;
				l.unlock();
				usleep(200);
				l.lock();
			}
		}
		long dt = g.n(150);
		g_clock_ms += dt;
		elapsed.push_back(dt);
		{
			std::lock_guard<std::mutex> l(smx);
			if (round < rounds) {
				++round;
				script += "poll " + std::to_string(polls) + " (+" + std::to_string(dt) + " ms)\n";
				for (auto &name : socks) {
					if (!g.p(60)) continue;
					auto m = fresh_msg(name);
					Sock *s;
					{
						std::lock_guard<std::mutex> k(mx);
						s = bound.count("tcp://" + name) ? bound["tcp://" + name] : nullptr;
						if (!s) continue;
						VS v = {m.identity};
						v.insert(v.end(), m.data.begin(), m.data.end());
						s->in.push_back(v);
						s->nrecv = 0;
						s->frecv = -1;
						s->ferr = ERRS[g.n(6)];
						if (g.p(12)) s->frecv = g.n((int) v.size());
					}
					script += "  arrives on " + name + ": " + show(m) + (s->frecv >= 0 ? " (fails at frame " + std::to_string(s->frecv) + ")" : "") + "\n";
					if (s->frecv < 0)
						route_handlers(m, 0);
					else
						loose = true;
				}
			}
			std::lock_guard<std::mutex> k(mx);
			int ready = 0;
			for (int i = 0; i < n; ++i) {
				auto s = (Sock *) it[i].socket;
				it[i].revents = all.count(s) && !s->in.empty() ? ZMQ_POLLIN & it[i].events : 0;
				ready += it[i].revents != 0;
			}
			if (!ready && round >= rounds && ++idle >= 2) re->terminate();
			if (polls > 400) re->terminate();
			for (int i = 0; i < nh; ++i)
				if (subs[i].count("timer")) want.push_back({i, message_container("timer", "", {std::to_string(dt)})});
			return ready;
		}
	};
	S threw;
	for (auto &n : socks) (void) n;
	std::map<S, std::vector<VS>> gsent;
	try {
		re->start_loop();
	} catch (std::exception &e) {
		threw = e.what();
	}
	on_poll = nullptr;
	{
		std::lock_guard<std::mutex> l(mx);
		for (auto &n : socks)
			if (bound.count("tcp://" + n)) gsent[n] = bound["tcp://" + n]->sent;
	}
	S head = setup + "\n" + script;
	re.reset();
	if (!threw.empty()) return failing("C15,C14", seed, head + "exception left the loop of the reactor: " + threw);
	// compare
	auto key = [](const Seen &s) {
		S r = std::to_string(s.handler) + "|" + s.m.key + "|" + s.m.identity;
		for (auto &d : s.m.data) r += "|" + std::to_string(d.size()) + ":" + d;
		return r;
	};
	std::map<S, int> cnt;
	std::map<S, Seen> ex;
	for (auto &s : seen) cnt[key(s)]++, ex[key(s)] = s;
	for (auto &s : want) cnt[key(s)]--, ex[key(s)] = s;
	// a difference of content (same handler, same identity) or of delivery
	for (auto &c : cnt) {
		if (!c.second) continue;
		const Seen &s = ex[c.first];
		bool as = async[s.handler];
		// where the message came from: an asynchronous handler?
		for (auto &p : plan)
			for (auto &r : p.second)
				if (r.identity == s.m.identity && async[std::stoi(p.first)]) as = true;
		bool cut = false;
		for (auto &o : cnt) {
			const Seen &t = ex[o.first];
			if (o.second && &t != &s && t.handler == s.handler && t.m.identity == s.m.identity && (o.second > 0) != (c.second > 0)) cut = true;
		}
		S tags = cut ? (ex[c.first].m.key == "timer" ? S("C15,C14") : S("C14,C15")) : as ? S("C15,C14") : S("C15");
		if (int rc = failing(tags, seed, head + "handler " + std::to_string(s.handler) + " was given " + show(s.m) + " " + (c.second > 0 ? std::to_string(c.second) + " times too often" : std::to_string(-c.second) + " times too seldom"))) return rc;
	}
	for (auto &n : socks) {
		std::multiset<VS> a(gsent[n].begin(), gsent[n].end()), b(wsent[n].begin(), wsent[n].end());
		if (a != b) {
			S t = head + "socket " + n + " sent";
			for (auto &x : a) t += " " + show(x);
			t += "; expected";
			for (auto &x : b) t += " " + show(x);
			if (int rc = failing("C15,C14", seed, t)) return rc;
		}
	}
	return 0;
}

int main(int argc, char **argv)
{
	g_mode = argc > 1 ? argv[1] : "any";
	std::uint64_t seed0 = argc > 2 ? std::stoull(argv[2]) : 1;
	std::uint64_t count = argc > 3 ? std::stoull(argv[3]) : 1500;
	double limit = argc > 4 ? std::stod(argv[4]) : 30;
	time_t t0 = time(nullptr);
	std::uint64_t cases = 0;
	alarm((unsigned) limit * 2 + 30);
	for (std::uint64_t i = 0; i < count * 20 && difftime(time(nullptr), t0) <= limit / 3; ++i, ++cases)
		if (int rc = socket_case(seed0 * 1000003 + i)) return rc;
	for (std::uint64_t i = 0; i < count && difftime(time(nullptr), t0) <= limit; ++i, ++cases)
		if (int rc = reactor_case(seed0 * 1000003 + i)) return rc;
	std::cout << "HELD cases=" << cases << "\n";
	return 0;
}
