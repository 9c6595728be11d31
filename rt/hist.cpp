// Replay harness: drives the real broker_handler (with the real queue managers, registry and workers) with concrete
// message histories and compares everything observable with a reference model of the listed properties.
// Uses only interfaces the unit tests of the repository use as well.
#include "broker_connect.h"
#include "queuing/multi_queue_manager.h"
#include "queuing/queue_manager_interface.h"
#include "queuing/single_queue_manager.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iostream>
#include <random>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

typedef std::string S;
typedef std::vector<S> VS;
typedef std::multimap<S, S> H;

// ------------------------------------------------------------------ a clock under control of the harness
static long g_clock_ms = 1000000;
namespace std
{
	namespace chrono
	{
		inline namespace _V2
		{
			system_clock::time_point system_clock::now() noexcept
			{
				return time_point(std::chrono::duration_cast<duration>(std::chrono::milliseconds(g_clock_ms)));
			}
		}
	}
}

// ------------------------------------------------------------------ reference semantics of header matching
static bool is_num(const S &s)
{
	if (s.empty() || s.size() > 9) return false;
	for (char c : s)
		if (c < '0' || c > '9') return false;
	return true;
}

static bool ref_match(const S &name, bool group, const S &mine, const S &wanted)
{
	if (group) {
		std::size_t b = 0;
		while (true) {
			std::size_t e = wanted.find('|', b);
			S part = wanted.substr(b, e == S::npos ? S::npos : e - b);
			if (part == mine) return true;
			if (e == S::npos) return false;
			b = e + 1;
		}
	}
	if (name == "threads") return is_num(mine) && is_num(wanted) && std::stol(mine) >= std::stol(wanted);
	return mine == wanted;
}

static bool ref_capable(const S &group, const H &wh, const H &jh)
{
	for (auto &h : jh) {
		bool ok = false;
		if (h.first == "hwgroup" && ref_match("hwgroup", true, group, h.second)) ok = true;
		for (auto &m : wh)
			if (m.first == h.first && ref_match(h.first, false, m.second, h.second)) ok = true;
		if (!ok) return false;
	}
	return true;
}

// ------------------------------------------------------------------ inputs
struct In {
	int dt; // advance of the clock before the step
	S key, id;
	VS data;
};

struct Cfg {
	bool single;
	std::size_t live, fails;
	long interval;
};

static S esc(const S &s)
{
	S r;
	char b[8];
	for (unsigned char c : s) {
		if (c < 32 || c > 126 || c == '"' || c == '\\') {
			snprintf(b, sizeof b, "\\x%02x", c);
			r += b;
		} else
			r += c;
	}
	return "\"" + r + "\"";
}

static S show(const S &key, const S &id, const VS &data)
{
	S r = key + " id=" + esc(id) + " [";
	for (std::size_t i = 0; i < data.size(); ++i) r += (i ? ", " : "") + esc(data[i]);
	return r + "]";
}

class test_config : public broker_config
{
public:
	Cfg c;
	test_config(Cfg c) : broker_config(), c(c) {}
	std::size_t get_max_worker_liveness() const override { return c.live; }
	std::size_t get_max_request_failures() const override { return c.fails; }
	std::chrono::milliseconds get_worker_ping_interval() const override { return std::chrono::milliseconds(c.interval); }
};

struct Fail {
	S tags, text;
	int step;
	bool frozen; // the broker was frozen when the step began
};

struct Job {
	S id;
	H headers;
	VS payload;
	bool complete = true;
	std::size_t fails = 0;
	enum { LIMBO, WAIT, RUN, OVER } st = LIMBO;
	S worker;
	long ord = 0;
	bool was_wait = false; // waiting when the step began
};

struct Wk {
	S group;
	H headers;
	S desc;
	Job *cur = nullptr;
	long timer = 0;
	std::size_t live = 0;
	long lastord = -1;
};

struct World {
	Cfg cfg;
	std::shared_ptr<worker_registry> reg = std::make_shared<worker_registry>();
	std::shared_ptr<queue_manager_interface> q;
	std::unique_ptr<broker_handler> h;
	std::vector<std::unique_ptr<Job>> jobs;
	std::map<S, Wk> ws;
	bool frozen = false, frozen0 = false;
	bool timed = false;
	long st_q = 0, st_w = 0, st_i = 0;
	long n_ok = 0, n_bad = 0;
	int step = 0;
	std::vector<Fail> fails;
	bool dead = false;
	std::vector<message_container> out;
	S log;

	World(Cfg c) : cfg(c)
	{
		if (c.single)
			q = std::make_shared<single_queue_manager<>>();
		else
			q = std::make_shared<multi_queue_manager>();
		h = std::make_unique<broker_handler>(std::make_shared<test_config>(c), reg, q, nullptr);
	}
	void fail(const S &tags, const S &text)
	{
		fails.push_back({tags, text, step, frozen0});
	}
	void ck(bool c, const S &tags, const S &text)
	{
		if (!c) fail(tags, text);
	}
	Job *find(const S &id)
	{
		for (auto &j : jobs)
			if (j->id == id && j->st != Job::OVER) return j.get();
		return nullptr;
	}
	bool known(const S &id)
	{
		for (auto &j : jobs)
			if (j->id == id) return true;
		return false;
	}
	bool cap(const S &w, Job *j)
	{
		return ref_capable(ws[w].group, ws[w].headers, j->headers);
	}
	bool any_cap(Job *j, const S &except = "", bool exc = false)
	{
		for (auto &p : ws)
			if (!(exc && p.first == except) && ref_capable(p.second.group, p.second.headers, j->headers)) return true;
		return false;
	}
	void over(Job *j)
	{
		if (j->st == Job::RUN && ws.count(j->worker) && ws[j->worker].cur == j) ws[j->worker].cur = nullptr;
		j->st = Job::OVER;
	}

	struct Split {
		S name, value;
	};
	static Split split(const S &s)
	{
		std::size_t p = s.find('=');
		if (p == S::npos) return {s, s};
		return {s.substr(0, p), s.substr(p + 1)};
	}

	// expectation for a job the step takes off a worker or off the queue
	struct Exp {
		bool must_fail = false, may_requeue = true;
		int mon_failed = 0;      // exact
		int mon_aborted_min = 0, mon_aborted_max = 0;
		S tags;
	};

	void run(const In &in)
	{
		++step;
		g_clock_ms += in.dt;
		frozen0 = frozen;
		out.clear();
		for (auto &j : jobs) j->was_wait = j->st == Job::WAIT;
		bool threw = false;
		S what;
		try {
			h->on_request(message_container(in.key, in.id, in.data), [this](const message_container &m) { out.push_back(m); });
		} catch (std::exception &e) {
			threw = true;
			what = e.what();
		} catch (...) {
			threw = true;
		}
		log += std::to_string(step) + ". +" + std::to_string(in.dt) + "ms " + show(in.key, in.id, in.data) + "\n";
		for (auto &m : out) log += "      -> " + show(m.key, m.identity, m.data) + "\n";
		if (threw) {
			fail("C13", "exception left the message handler: " + what);
			dead = true;
			return;
		}
		judge(in);
	}

	std::multiset<S> mon_failed, mon_aborted, st_ok, st_failed;
	std::map<S, S> st_msg;

	void removal(const std::vector<S> &gone, std::map<Job *, Exp> &ex, const S &also)
	{
		// jobs of removed workers
		std::vector<Wk> removed;
		for (auto &id : gone) {
			Wk w = ws[id];
			removed.push_back(w);
			ws.erase(id);
			if (w.cur) {
				w.cur->fails++;
				w.cur->st = Job::LIMBO;
			}
		}
		for (auto &w : removed) {
			Job *j = w.cur;
			if (!j) continue;
			Exp e;
			e.tags = "C01,C08,C09" + also;
			if (!j->complete || j->fails >= cfg.fails || !any_cap(j)) {
				e.must_fail = true;
				e.may_requeue = false;
				e.mon_failed = 1;
				if (j->complete && j->fails < cfg.fails) e.tags += ",C03";
			} else
				e.mon_aborted_min = e.mon_aborted_max = 1;
			ex[j] = e;
		}
		for (auto &j : jobs) {
			if (j->st != Job::WAIT) continue;
			Exp e;
			e.tags = "C01,C03,C09" + also;
			if (!any_cap(j.get())) {
				e.must_fail = true;
				e.may_requeue = false;
				e.mon_failed = 1;
			} else if (!cfg.single) {
				for (auto &w : removed)
					if (ref_capable(w.group, w.headers, j->headers)) e.mon_aborted_max = 1;
			}
			ex[j.get()] = e;
		}
	}

	void judge(const In &in)
	{
		mon_failed.clear();
		mon_aborted.clear();
		st_ok.clear();
		st_failed.clear();
		st_msg.clear();
		std::map<Job *, Exp> ex;
		std::vector<const message_container *> cl, wk_other;
		std::vector<VS> mon_other;
		VS want_progress;
		bool progress = false;
		Job *ok_job = nullptr, *failed_job = nullptr, *new_job = nullptr;
		S failed_msg;
		S freed;    // worker that may take a waiting job in this step
		bool reinit = false, client_ok = false;
		S fresh_worker;
		bool expect_reject_noworker = false;
		VS expect_client;
		bool stats = false;
		bool quiet = false; // nothing may change and nothing may be sent
		S quiet_tags;

		auto cmd = in.data.empty() ? S() : in.data[0];
		if (in.data.empty()) {
			quiet = true;
			quiet_tags = "C13,C05";
		} else if (in.key == "clients") {
			client_ok = true;
			if (cmd == "eval") {
				std::size_t i = 2;
				while (i < in.data.size() && !in.data[i].empty()) ++i;
				if (in.data.size() < 2 || i >= in.data.size()) {
					expect_client = {"ack"};
				} else if (frozen) {
					expect_client = {"ack", "reject"};
				} else {
					auto j = std::make_unique<Job>();
					j->id = in.data[1];
					for (std::size_t k = 2; k < i; ++k) {
						Split s = split(in.data[k]);
						if (s.name.compare(0, 5, "meta.") != 0) j->headers.emplace(s.name, s.value);
					}
					j->payload.assign(in.data.begin() + i + 1, in.data.end());
					j->ord = step;
					new_job = j.get();
					if (any_cap(new_job)) {
						expect_client = {"ack", "accept"};
					} else {
						expect_client = {"ack", "reject"};
						expect_reject_noworker = true;
						j->st = Job::OVER;
					}
					jobs.push_back(std::move(j));
				}
			} else if (cmd == "freeze") {
				frozen = true;
				expect_client = {"ack"};
			} else if (cmd == "unfreeze") {
				frozen = false;
				expect_client = {"ack"};
			} else if (cmd == "get-runtime-stats") {
				stats = true;
			} else {
				quiet = true;
				quiet_tags = "C05";
			}
		} else if (in.key == "workers") {
			bool reg_ = ws.count(in.id);
			if (reg_) {
				ws[in.id].timer = 0;
				ws[in.id].live = cfg.live;
			}
			if (cmd == "init" && in.data.size() >= 2) {
				H hs;
				std::size_t i = 2;
				for (; i < in.data.size() && !in.data[i].empty(); ++i) {
					Split s = split(in.data[i]);
					hs.emplace(s.name, s.value);
				}
				if (reg_ && ws[in.id].group == in.data[1] && ws[in.id].headers == hs) {
					quiet = true;
					quiet_tags = "C19";
				} else {
					if (reg_) {
						reinit = true;
						removal({in.id}, ex, ",C19");
					}
					Wk w;
					w.group = in.data[1];
					w.headers = hs;
					w.live = cfg.live;
					for (; i < in.data.size(); ++i) {
						Split s = split(in.data[i]);
						if (s.name == "description") w.desc = s.value;
						if (s.name == "current_job") {
							auto j = std::make_unique<Job>();
							j->id = s.value;
							j->complete = false;
							j->st = Job::RUN;
							j->worker = in.id;
							if (w.cur) w.cur->st = Job::OVER; // a later item replaces an earlier one
							w.cur = j.get();
							jobs.push_back(std::move(j));
						}
					}
					ws[in.id] = w;
					fresh_worker = in.id;
					freed = in.id;
				}
			} else if (cmd == "done") {
				Job *j = reg_ ? ws[in.id].cur : nullptr;
				bool valid = j && in.data.size() >= 3 && in.data[1] == j->id &&
					(in.data[2] == "OK" || ((in.data[2] == "FAILED" || in.data[2] == "INTERNAL_ERROR") && in.data.size() == 4));
				if (!valid) {
					quiet = true;
					quiet_tags = "C07,C16";
				} else {
					freed = in.id;
					ws[in.id].cur = nullptr;
					if (in.data[2] == "OK") {
						ok_job = j;
						j->st = Job::OVER;
						++n_ok;
					} else if (in.data[2] == "FAILED") {
						failed_job = j;
						failed_msg = in.data[3];
						j->st = Job::OVER;
						++n_bad;
					} else {
						++n_bad;
						j->fails++;
						j->st = Job::LIMBO;
						Exp e;
						e.tags = "C01,C08";
						if (!j->complete) {
							e.must_fail = true;
							e.may_requeue = false;
						} else if (j->fails >= cfg.fails) {
							e.must_fail = true;
							e.may_requeue = false;
							e.mon_failed = 1;
						}
						ex[j] = e;
					}
				}
			} else if (cmd == "ping") {
			} else if (cmd == "progress") {
				progress = true;
				want_progress.assign(in.data.begin() + 1, in.data.end());
			} else {
				quiet = true;
				quiet_tags = "C19,C02";
			}
		} else if (in.key == "timer") {
			long t = std::stol(in.data[0]);
			std::vector<S> gone;
			for (auto &p : ws) {
				Wk &w = p.second;
				w.timer += t;
				if (w.timer > cfg.interval) {
					w.timer = 0;
					if (w.live > 0) --w.live;
					if (w.live == 0) gone.push_back(p.first);
				}
			}
			// the removed workers are exactly those
			std::set<S> have;
			for (auto &w : reg->get_workers()) have.insert(w->identity);
			for (auto &p : ws) {
				bool g = std::find(gone.begin(), gone.end(), p.first) != gone.end();
				if (g && have.count(p.first)) fail("C09", "worker " + esc(p.first) + " was silent too long but is still registered");
				if (!g && !have.count(p.first)) fail("C09", "worker " + esc(p.first) + " was removed although it was not silent for long enough");
			}
			gone.clear();
			for (auto &p : ws)
				if (!have.count(p.first)) gone.push_back(p.first);
			removal(gone, ex, "");
		}

		// ------------------------------------------------ messages that were sent
		std::size_t pos = 0;
		for (auto &m : out) {
			++pos;
			if (m.key == "workers" && !m.data.empty() && m.data[0] == "eval") {
				dispatch(in, m, freed, fresh_worker, new_job, ex);
			} else if (m.key == "workers") {
				wk_other.push_back(&m);
			} else if (m.key == "clients") {
				cl.push_back(&m);
			} else if (m.key == "monitor") {
				ck(m.identity == "recodex-monitor", "C20", "message to the monitor with identity " + esc(m.identity));
				if (progress) {
					mon_other.push_back(m.data);
				} else if (m.data.size() == 2 && m.data[1] == "FAILED") {
					mon_failed.insert(m.data[0]);
				} else if (m.data.size() == 2 && m.data[1] == "ABORTED") {
					mon_aborted.insert(m.data[0]);
				} else
					fail("C20", "unexpected message to the monitor: " + show(m.key, m.identity, m.data));
			} else if (m.key == "status_notifier") {
				std::map<S, S> kv;
				for (std::size_t i = 0; i + 1 < m.data.size(); i += 2) kv[m.data[i]] = m.data[i + 1];
				if (kv["type"] == "job-status") {
					if (kv["status"] == "OK")
						st_ok.insert(kv["id"]);
					else if (kv["status"] == "FAILED") {
						st_failed.insert(kv["id"]);
						st_msg[kv["id"]] = kv["message"];
					} else
						fail("C07", "status notification with status " + esc(kv["status"]));
				}
			} else
				fail("C05,C15,C20", "message to an unknown destination " + show(m.key, m.identity, m.data));
		}

		// ------------------------------------------------ replies to clients
		for (auto m : cl) ck(in.key == "clients" && m->identity == in.id, "C05", "a client was sent something that is no reply to its message: " + show(m->key, m->identity, m->data));
		if (client_ok && !stats) {
			VS got;
			for (auto m : cl) got.push_back(m->data.empty() ? S() : m->data[0]);
			S t = "C05";
			if (cmd == "eval" && got != expect_client) {
				if (got.size() == 2 && expect_client.size() == 2 && got[0] == "ack") {
					if (expect_reject_noworker || (!frozen && !expect_reject_noworker)) t += ",C03,C04";
				}
				if (in.data.size() < 2 || expect_client.size() == 1) t += ",C13";
				t += ",C06";
				for (std::size_t k = 2; k < in.data.size() && !in.data[k].empty(); ++k)
					if (std::count(in.data[k].begin(), in.data[k].end(), '=') != 1 || in.data[k].compare(0, 4, "meta") == 0) t += ",C12";
			}
			if (got != expect_client) {
				S a, b;
				for (auto &x : got) a += x + " ";
				for (auto &x : expect_client) b += x + " ";
				fail(t, "replies to the client: got [" + a + "] expected [" + b + "]");
			}
			if (cmd == "eval" && !out.empty() && !cl.empty()) ck(&out[0] == cl[0], "C05", "the acknowledgement is not the first message");
		}
		if (stats) {
			ck(cl.size() == 1, "C05,C16", "a statistics request got " + std::to_string(cl.size()) + " replies");
			if (cl.size() == 1) {
				std::map<S, S> kv;
				auto &d = cl[0]->data;
				ck(d.size() % 2 == 0, "C16", "odd number of frames in the statistics");
				for (std::size_t i = 0; i + 1 < d.size(); i += 2) kv[d[i]] = d[i + 1];
				auto want = [&](const S &k, long v) {
					auto it = kv.find(k);
					if (it == kv.end())
						fail("C16", "statistics lack " + k);
					else if (it->second != std::to_string(v))
						fail("C16", "statistics: " + k + " is " + it->second + ", should be " + std::to_string(v));
				};
				want("is-frozen", frozen);
				want("evaluated-jobs", n_ok);
				want("failed-jobs", n_bad);
				want("queued-jobs", st_q);
				want("worker-count", st_w);
				want("idle-worker-count", st_i);
				if (timed) want("jobs-in-progress", st_w - st_i);
			}
		}

		// ------------------------------------------------ other messages to workers
		if (in.key == "workers" && cmd == "ping") {
			bool ok = wk_other.size() == 1 && wk_other[0]->identity == in.id && wk_other[0]->data == VS{ws.count(in.id) ? "pong" : "intro"};
			ck(ok, "C19", "reply to a ping");
		} else
			for (auto m : wk_other) fail("C19,C02", "unexpected message to a worker: " + show(m->key, m->identity, m->data));
		if (progress) ck(mon_other.size() == 1 && mon_other[0] == want_progress, "C20", "progress is not forwarded as it came");

		// ------------------------------------------------ statuses and the monitor
		if (ok_job) {
			ck(st_ok.count(ok_job->id) == 1, "C07,C01", "a successful job was reported OK " + std::to_string(st_ok.count(ok_job->id)) + " times");
			st_ok.erase(ok_job->id);
		}
		for (auto &id : st_ok) fail("C07", "OK reported for " + esc(id) + " without a successful result");
		if (failed_job) {
			ck(st_failed.count(failed_job->id) == 1, "C07,C01", "a failed job was reported FAILED " + std::to_string(st_failed.count(failed_job->id)) + " times");
			if (st_failed.count(failed_job->id)) ck(st_msg[failed_job->id] == failed_msg, "C07", "the message of the worker is not passed on");
			st_failed.erase(failed_job->id);
		}
		if (expect_reject_noworker && new_job) {
			ck(mon_failed.count(new_job->id) == 1, "C20", "the monitor hears FAILED " + std::to_string(mon_failed.count(new_job->id)) + " times about a job without a capable worker");
			mon_failed.erase(new_job->id);
			st_failed.erase(new_job->id);
		}
		for (auto &p : ex) {
			Job *j = p.first;
			Exp &e = p.second;
			int f = st_failed.count(j->id), mf = mon_failed.count(j->id), ma = mon_aborted.count(j->id);
			st_failed.erase(j->id);
			mon_failed.erase(j->id);
			mon_aborted.erase(j->id);
			if (e.must_fail)
				ck(f == 1, e.tags + ",C07", "job " + esc(j->id) + " cannot be processed any more but was reported FAILED " + std::to_string(f) + " times");
			else
				ck(f == 0, e.tags + ",C07", "job " + esc(j->id) + " was reported FAILED although it can still be processed");
			S mt = "C20";
			if (e.must_fail && e.tags.find("C08") != S::npos) mt += ",C08";
			ck(mf == e.mon_failed, mt, "the monitor heard FAILED " + std::to_string(mf) + " times about " + esc(j->id) + ", expected " + std::to_string(e.mon_failed));
			ck(ma >= e.mon_aborted_min && ma <= e.mon_aborted_max, "C20", "the monitor heard ABORTED " + std::to_string(ma) + " times about " + esc(j->id));
			if (f > 0 || e.must_fail)
				over(j);
			else if (j->st == Job::LIMBO) {
				j->st = Job::WAIT;
				j->ord = step;
			} else if (j->st == Job::WAIT && ma > 0)
				j->ord = step;
		}
		for (auto &id : st_failed) {
			fail("C07,C01", "FAILED reported for " + esc(id));
			if (Job *j = find(id)) over(j);
		}
		for (auto &id : mon_failed) fail("C20", "the monitor was told FAILED about " + esc(id));
		for (auto &id : mon_aborted) fail("C20", "the monitor was told ABORTED about " + esc(id));
		if (new_job && new_job->st == Job::LIMBO) new_job->st = Job::WAIT;
		if (quiet) ck(out.empty() || (out.size() == cl.size() && in.key == "clients" && !cl.empty() && false), quiet_tags, "a message that must be ignored caused " + std::to_string(out.size()) + " messages");
		if (frozen && cmd == "eval" && in.key == "clients") ck(out.size() == cl.size(), "C06", "an evaluation request to the frozen broker had effects");
		compare(in, quiet ? quiet_tags : S());
		if (in.key == "timer") {
			timed = true;
			st_q = 0;
			for (auto &j : jobs) st_q += j->st == Job::WAIT;
			st_w = ws.size();
			st_i = 0;
			for (auto &p : ws) st_i += p.second.cur == nullptr;
		}
	}

	void dispatch(const In &in, const message_container &m, const S &freed, const S &fresh_worker, Job *new_job, std::map<Job *, Exp> &ex)
	{
		S id = m.data.size() > 1 ? m.data[1] : S();
		S d = show(m.key, m.identity, m.data);
		Job *j = find(id);
		if (!j) {
			if (known(id))
				fail("C08,C02,C07,C03,C06", "a job that is over was sent to a worker: " + d);
			else
				fail(frozen ? "C06,C12,C02" : "C12,C02", "an unknown job was sent to a worker: " + d);
			return;
		}
		VS want = {"eval", j->id};
		want.insert(want.end(), j->payload.begin(), j->payload.end());
		ck(j->complete, "C08,C12", "a job of unknown content was sent to a worker: " + d);
		if (j->complete) ck(m.data == want, "C12", "the message to the worker is not what the client sent: " + d);
		if (ex.count(j) && ex[j].must_fail) fail(ex[j].tags, "a job that must be given up was sent to a worker: " + d);
		if (!ws.count(m.identity)) {
			fail("C03,C09,C02,C01", "a job was sent to a worker that is not registered: " + d);
			return;
		}
		Wk &w = ws[m.identity];
		ck(cap(m.identity, j), "C03,C04", "a job was sent to a worker that does not satisfy its headers: " + d);
		ck(w.cur == nullptr, "C02", "a job was sent to a worker that already has one: " + d);
		ck(j->st != Job::RUN, "C02", "a job that is being processed was sent to another worker: " + d);
		bool queued = j->st == Job::WAIT || (m.identity == fresh_worker && !fresh_worker.empty() && j != new_job);
		if (queued) {
			long ord = j->st == Job::WAIT ? j->ord : step;
			if (cfg.single) {
				for (auto &o : jobs)
					if (o.get() != j && o->st == Job::WAIT && cap(m.identity, o.get()) && !(ex.count(o.get()) && ex[o.get()].must_fail))
						ck(o->ord >= ord, "C11", "job " + esc(j->id) + " overtook job " + esc(o->id) + ", which waited longer: " + d);
			} else if (in.key == "workers" && m.identity == freed && m.identity != fresh_worker) {
				ck(ord >= w.lastord, "C11", "jobs waiting for one worker are not dispatched in order: " + d);
				w.lastord = ord;
			}
		}
		if (j->st == Job::RUN && ws.count(j->worker)) ws[j->worker].cur = nullptr;
		j->st = Job::RUN;
		j->worker = m.identity;
		w.cur = j;
	}

	void compare(const In &in, const S &qt)
	{
		std::size_t n = fails.size();
		std::set<S> seen;
		for (auto &w : reg->get_workers()) {
			ck(w != nullptr, "C13,C19", "null worker in the registry");
			if (!w) continue;
			ck(seen.insert(w->identity).second, "C19", "two workers with identity " + esc(w->identity));
			auto it = ws.find(w->identity);
			if (it == ws.end()) {
				fail("C19,C09", "worker " + esc(w->identity) + " should not be registered");
				continue;
			}
			Wk &m = it->second;
			ck(w->hwgroup == m.group, "C19", "hardware group of worker " + esc(w->identity));
			ck(w->description == m.desc, "C19", "description of worker " + esc(w->identity));
			ck(w->headers_equal(m.headers), "C19", "headers of worker " + esc(w->identity));
			ck(reg->find_worker_by_identity(w->identity) == w, "C19", "worker not found by its identity");
			auto r = q->get_current_request(w);
			S have = r ? r->data.get_job_id() : S("(none)"), want = m.cur ? m.cur->id : S("(none)");
			if (have != want) {
				S t = "C01,C02";
				if (!qt.empty()) t += "," + qt;
				if (in.key == "workers" && !in.data.empty() && in.data[0] == "init") t += ",C19";
				if (in.key == "workers" && !in.data.empty() && in.data[0] == "done") t += ",C07";
				if (in.key == "clients" && frozen) t += ",C06";
				fail(t, "current job of worker " + esc(w->identity) + " is " + have + ", the messages sent say " + want);
			}
			if (r && m.cur && r->data.is_complete()) {
				ck(r->failure_count == m.cur->fails, "C08", "failed attempts of job " + esc(m.cur->id) + ": " + std::to_string(r->failure_count) + ", should be " + std::to_string(m.cur->fails));
				H hs(r->headers.begin(), r->headers.end());
				ck(hs == m.cur->headers, "C12", "headers of job " + esc(m.cur->id));
			}
		}
		for (auto &p : ws)
			if (!seen.count(p.first)) fail("C19,C09", "worker " + esc(p.first) + " should be registered");
		std::size_t waiting = 0;
		for (auto &j : jobs) waiting += j->st == Job::WAIT;
		std::size_t have = q->get_queued_request_count();
		if (have != waiting) {
			S t = "C01,C02,C16";
			if (!qt.empty()) t += "," + qt;
			if (in.key == "clients" && frozen) t += ",C06";
			if (in.key == "clients") t += ",C05";
			if (in.key == "timer") t += ",C09";
			fail(t, std::to_string(have) + " jobs are queued, there should be " + std::to_string(waiting));
		}
		if (fails.size() != n) {
			dead = true; // the model is out of step with the broker
			return;
		}
		for (auto &j : jobs) {
			if (j->st != Job::WAIT) continue;
			bool busy = false, any = false;
			for (auto &p : ws) {
				if (!cap(p.first, j.get())) continue;
				any = true;
				if (p.second.cur)
					busy = true;
				else if (cfg.single)
					fail("C10", "worker " + esc(p.first) + " is idle while job " + esc(j->id) + ", which it could run, waits");
			}
			ck(any, "C03", "job " + esc(j->id) + " waits although no registered worker could run it");
			if (!cfg.single && any) ck(busy, "C10", "job " + esc(j->id) + " waits although every worker that could run it is idle");
		}
	}
};

// ------------------------------------------------------------------ generation
struct Gen {
	std::mt19937_64 r;
	World &w;
	int profile;
	int njobs = 0;
	Gen(std::uint64_t seed, World &w, int profile) : r(seed), w(w), profile(profile) {}
	int n(int k) { return (int) (r() % (std::uint64_t) k); }
	bool p(int pct) { return n(100) < pct; }
	template <class T> const T &pick(const std::vector<T> &v) { return v[n(v.size())]; }
	S ident() { return pick(VS{"w1", "w2", "w1x", S("w1\0", 3)}); }
	S group() { return pick(VS{"g1", "g2", "g1", "g", "g1x"}); }
	H wheaders()
	{
		H h;
		if (p(80)) h.emplace("env", pick(VS{"c", "java"}));
		if (p(30)) h.emplace("env", pick(VS{"c", "java", "py"}));
		if (p(40)) h.emplace("threads", pick(VS{"1", "2", "4", "10", "many"}));
		if (p(5)) h.emplace("threads", pick(VS{"8", "x"}));
		if (p(20)) h.emplace("opt", pick(VS{"a=b", "a=b", "", "b"}));
		return h;
	}
	VS headers_out(const H &h)
	{
		VS v;
		for (auto &x : h) v.push_back(x.first + "=" + x.second);
		return v;
	}
	In init(const S &id)
	{
		In in{0, "workers", id, {"init", group()}};
		auto hs = wheaders();
		if (w.ws.count(id) && p(35)) {
			in.data[1] = w.ws[id].group;
			hs = w.ws[id].headers;
			if (p(15)) in.data[1] += "y";
		}
		for (auto &x : headers_out(hs)) in.data.push_back(x);
		if (p(40)) {
			in.data.push_back("");
			if (p(50)) in.data.push_back("description=" + pick(VS{"box", "a=b", ""}));
			if (p(45)) in.data.push_back("current_job=x" + std::to_string(++njobs));
			if (p(10)) in.data.push_back("unknown=thing");
		}
		return in;
	}
	In eval()
	{
		In in{0, "clients", pick(VS{"cl1", "cl2"}), {"eval", "j" + std::to_string(++njobs)}};
		if (p(6)) in.data[1] += S("\0\xff=|", 4);
		if (profile != 1 || p(30)) {
			if (p(60)) in.data.push_back("env=" + pick(VS{"c", "java", "c", "py"}));
			if (p(25)) in.data.push_back("threads=" + pick(VS{"1", "2", "4", "9", "10", "few"}));
			if (p(30)) in.data.push_back("hwgroup=" + pick(VS{"g1", "g1|g2", "g2|g1", "g|g2", "g1x", "|g1", "g1|", "g2|g1x|g", "g3"}));
			if (p(20)) in.data.push_back("meta.user=" + pick(VS{"a", "b=c", ""}));
			if (p(10)) in.data.push_back("meta.env=java");
			if (p(9)) in.data.push_back("opt=a=b");
			if (p(3)) in.data.push_back("opt=");
			if (p(3)) in.data.push_back("metax=1");
		}
		in.data.push_back("");
		int k = n(4);
		for (int i = 0; i < k; ++i) in.data.push_back(pick(VS{"http://a/1", "", "x=y", S("\0b", 2), "meta.q=1", "eval", "tail"}));
		return in;
	}
	In done(const S &id)
	{
		In in{0, "workers", id, {"done"}};
		Job *j = w.ws.count(id) ? w.ws[id].cur : nullptr;
		S jid = j ? j->id : S("none");
		if (p(6)) {
			jid = "j" + std::to_string(1 + n(njobs + 1));
			for (auto &q : w.ws)
				if (p(30) && q.second.cur) jid = q.second.cur->id;
		}
		in.data.push_back(jid);
		int k = n(100);
		if (profile == 2) k = 40 + n(60);
		if (k < 50)
			in.data.push_back("OK");
		else if (k < 75) {
			in.data.push_back("INTERNAL_ERROR");
			in.data.push_back("broke");
		} else if (k < 93) {
			in.data.push_back("FAILED");
			in.data.push_back("bad " + std::to_string(n(3)));
		} else
			in.data.push_back(pick(VS{"ok", "DONE", "", "INTERNAL_ERROR", "FAILED"}));
		if (p(5)) in.data.push_back("extra");
		if (p(3)) in.data.resize(1 + n(3));
		return in;
	}
	In junk()
	{
		In in{0, pick(VS{"workers", "workers", "clients"}), p(50) ? ident() : S("cl1"), {}};
		int k = n(5);
		for (int i = 0; i < k; ++i)
			in.data.push_back(pick(VS{"eval", "init", "done", "ping", "progress", "freezer", "", "=", "weird", "env=", "threads=abc", "threads=99999999999999999999999999", "meta.", "OK", "INTERNAL_ERROR", "FAILED", "hwgroup=", S(300, 'a')}));
		// keep the kinds whose meaning the reference model leaves open out of the judged histories
		if (!in.data.empty() && (in.data[0] == "init" || in.data[0] == "eval") && in.data.size() > 1) in.data.resize(1);
		if (!in.data.empty() && in.data[0] == "eval" && p(60)) in.data = {"eval", "t" + std::to_string(++njobs), "env=c"};
		return in;
	}
	In next()
	{
		In in;
		int k = n(100);
		if (w.ws.empty() && k < 70) {
			in = init(ident());
		} else if (profile == 1) {
			if (k < 4)
				in = init(pick(VS{"w1", "w2"}));
			else if (k < 68)
				in = eval();
			else if (k < 97)
				in = done(pick(VS{"w1", "w2"}));
			else
				in = {0, "timer", "", {std::to_string(n(60))}};
		} else if (k < (profile == 4 ? 30 : 12))
			in = init(ident());
		else if (k < 42)
			in = eval();
		else if (k < 66)
			in = done(ident());
		else if (k < (profile == 3 ? 84 : 74)) {
			VS ts = {"0", "1", "40", "99", "100", "101", "60", "150", "1000"};
			in = {0, "timer", "", {pick(ts)}};
			if (profile == 2 || profile == 0)
				if (p(50)) in.data[0] = "101";
		} else if (k < 80)
			in = {0, "workers", ident(), {"ping"}};
		else if (k < 84) {
			in = {0, "workers", ident(), {"progress"}};
			int c = n(4);
			for (int i = 0; i < c; ++i) in.data.push_back(pick(VS{"j1", "TASK", "", S("\0", 1), "x"}));
		} else if (k < 88)
			in = {0, "clients", pick(VS{"cl1", "cl2"}), {"get-runtime-stats"}};
		else if (k < 90)
			in = {0, "clients", "cl2", {"freeze"}};
		else if (k < 93)
			in = {0, "clients", "cl1", {"unfreeze"}};
		else
			in = junk();
		in.dt = p(50) ? 0 : n(5);
		return in;
	}
};

static Cfg mkcfg(std::uint64_t seed)
{
	std::mt19937_64 r(seed * 7 + 3);
	Cfg c;
	c.single = r() % 2;
	c.live = 1 + r() % 3;
	c.fails = 1 + r() % 3;
	c.interval = 100;
	return c;
}

static std::vector<In> history(std::uint64_t seed, World &w)
{
	std::mt19937_64 r(seed * 11 + 5);
	int profile = (int) (r() % 5);
	int len = profile == 1 ? 30 + r() % 60 : 5 + r() % 45;
	Gen g(seed, w, profile);
	std::vector<In> ins;
	for (int i = 0; i < len && !w.dead; ++i) {
		In in = g.next();
		ins.push_back(in);
		w.run(in);
	}
	// drain: no job may be stuck
	for (int i = 0; i < 200 && !w.dead; ++i) {
		S busy;
		for (auto &p : w.ws)
			if (p.second.cur) {
				busy = p.first;
				break;
			}
		if (busy.empty()) break;
		In in{1, "workers", busy, {"done", w.ws[busy].cur->id, "OK"}};
		ins.push_back(in);
		w.run(in);
	}
	if (!w.dead)
		for (auto &j : w.jobs)
			if (j->st != Job::OVER) w.fail("C01,C10", "job " + esc(j->id) + " is never finished though all workers are idle");
	return ins;
}

static bool has(const std::vector<Fail> &fs, const S &p, Fail *out = nullptr)
{
	for (auto &f : fs)
		if (p == "any" || ("," + f.tags + ",").find("," + p + ",") != S::npos) {
			if (out) *out = f;
			return true;
		}
	return false;
}

// A failure seen while the broker is frozen that is not there when the same history is run without freezing (and without
// the requests the frozen broker had to turn away) is caused by the freezing.
static void blame_freeze(const Cfg &c, const std::vector<In> &ins, World &w, const S &p)
{
	if (p != "C06" || w.fails.empty() || !w.fails[0].frozen || has(w.fails, "C06")) return;
	std::vector<In> t;
	bool fr = false;
	int dt = 0;
	for (auto &in : ins) {
		bool cl = in.key == "clients" && !in.data.empty();
		dt += in.dt;
		if (cl && in.data[0] == "freeze") fr = true;
		bool drop = cl && (in.data[0] == "freeze" || in.data[0] == "get-runtime-stats" || (fr && in.data[0] == "eval"));
		if (cl && in.data[0] == "unfreeze") fr = false, drop = true;
		if (drop) continue;
		t.push_back(in);
		t.back().dt = dt;
		dt = 0;
	}
	long clk = g_clock_ms;
	g_clock_ms = 1000000;
	World v(c);
	for (auto &in : t) {
		if (v.dead) break;
		v.run(in);
	}
	g_clock_ms = clk;
	if (v.fails.empty()) {
		w.fails[0].tags += ",C06";
		w.fails[0].text += " (only while frozen: the same history without freezing is processed correctly)";
	}
}

// run a concrete history in a child process; 0 fine, 1 fails with p, 2 crash
static int run_concrete(const Cfg &c, const std::vector<In> &ins, const S &p, S *log)
{
	int fd[2];
	if (pipe(fd)) return 0;
	pid_t pid = fork();
	if (pid == 0) {
		close(fd[0]);
		if (!freopen("/dev/null", "w", stderr)) _exit(9);
		alarm(10);
		g_clock_ms = 1000000;
		World w(c);
		for (auto &in : ins) {
			if (w.dead) break;
			w.run(in);
		}
		blame_freeze(c, ins, w, p);
		Fail f;
		int rc = has(w.fails, p, &f) ? 1 : 0;
		S t = w.log + (rc ? "VIOLATED at step " + std::to_string(f.step) + " [" + f.tags + "]: " + f.text + "\n" : "");
		std::size_t o = 0;
		while (o < t.size()) {
			ssize_t k = write(fd[1], t.data() + o, t.size() - o);
			if (k <= 0) break;
			o += k;
		}
		_exit(rc);
	}
	close(fd[1]);
	S t;
	char b[4096];
	ssize_t k;
	while ((k = read(fd[0], b, sizeof b)) > 0) t.append(b, k);
	close(fd[0]);
	int st;
	waitpid(pid, &st, 0);
	if (log) *log = t;
	if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return 0;
	if (WIFEXITED(st) && WEXITSTATUS(st) == 1) return 1;
	return 2;
}

struct Shared {
	std::uint64_t seed;
	int found;
	int nins;
	std::uint64_t steps, hist, evals, dispatches;
	std::size_t len;
	char buf[1 << 20];
};

static void put(Shared *sh, const std::vector<In> &ins)
{
	S b;
	auto num = [&](std::size_t v) { b += std::to_string(v) + ":"; };
	auto str = [&](const S &s) { num(s.size()); b += s; };
	num(ins.size());
	for (auto &i : ins) {
		num(i.dt);
		str(i.key);
		str(i.id);
		num(i.data.size());
		for (auto &d : i.data) str(d);
	}
	sh->len = std::min(b.size(), sizeof sh->buf);
	memcpy(sh->buf, b.data(), sh->len);
}

static std::vector<In> get(const S &b)
{
	std::size_t p = 0;
	auto num = [&]() {
		std::size_t v = std::stoul(b.substr(p));
		p = b.find(':', p) + 1;
		return v;
	};
	auto str = [&]() {
		std::size_t n = num();
		S s = b.substr(p, n);
		p += n;
		return s;
	};
	std::vector<In> r(num());
	for (auto &i : r) {
		i.dt = num();
		i.key = str();
		i.id = str();
		i.data.resize(num());
		for (auto &d : i.data) d = str();
	}
	return r;
}

static void report(const Cfg &c, std::vector<In> ins, const S &p, int kind, std::uint64_t seed)
{
	// shrink
	S want = kind == 2 ? S("none") : p;
	auto bad = [&](const std::vector<In> &x) { return run_concrete(c, x, want, nullptr) == kind; };
	if (bad(ins)) {
		for (int chunk = (int) ins.size() / 2; chunk >= 1; chunk /= 2)
			for (int i = 0; i + chunk <= (int) ins.size();) {
				auto t = ins;
				t.erase(t.begin() + i, t.begin() + i + chunk);
				if (bad(t))
					ins = t;
				else
					i += chunk;
			}
	}
	S log;
	int k = run_concrete(c, ins, want, &log);
	std::cout << "FAILING HISTORY seed=" << seed << " queue=" << (c.single ? "single" : "multi") << " max_liveness=" << c.live << " max_request_failures=" << c.fails
			  << " ping_interval=" << c.interval << "ms\n";
	if (k == 2) {
		int n = 0;
		for (auto &i : ins) std::cout << ++n << ". +" << i.dt << "ms " << show(i.key, i.id, i.data) << "\n";
		std::cout << "VIOLATED [C13]: the broker crashed (memory error or fatal signal) while processing the last message\n";
	} else
		std::cout << log;
	std::cout.flush();
}

int unit_match(const S &p, std::uint64_t seed, int count);

int main(int argc, char **argv)
{
	S p = argc > 1 ? argv[1] : "any";
	std::uint64_t seed0 = argc > 2 ? std::stoull(argv[2]) : 1;
	std::uint64_t count = argc > 3 ? std::stoull(argv[3]) : 2000;
	double limit = argc > 4 ? std::stod(argv[4]) : 60;
	if (p == "C04" || p == "C03" || p == "C13" || p == "any") {
		int rc = unit_match(p, seed0, 60000);
		if (rc) return rc;
		if (p == "C04") count = std::min<std::uint64_t>(count, 3000);
	}
	auto *sh = (Shared *) mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	std::uint64_t s = seed0 * 1000003;
	std::uint64_t end = s + count;
	time_t t0 = time(nullptr);
	int others = 0;
	while (s < end) {
		sh->found = 0;
		fflush(stdout);
		pid_t pid = fork();
		if (pid == 0) {
			if (!freopen("/dev/null", "w", stderr)) _exit(9);
			for (; s < end; ++s) {
				if (difftime(time(nullptr), t0) > limit) _exit(0);
				sh->seed = s;
				sh->len = 0;
				alarm(20);
				g_clock_ms = 1000000;
				Cfg c = mkcfg(s);
				World w(c);
				auto ins = history(s, w);
				sh->hist++;
				sh->steps += w.step;
				blame_freeze(c, ins, w, p);
				if (has(w.fails, p)) {
					put(sh, ins);
					sh->found = 1;
					_exit(1);
				}
				if (!w.fails.empty()) sh->found = -1;
			}
			_exit(0);
		}
		int st;
		waitpid(pid, &st, 0);
		if (sh->found == -1) others = 1;
		if (WIFEXITED(st) && WEXITSTATUS(st) == 0) break;
		if (WIFEXITED(st) && WEXITSTATUS(st) == 1 && sh->found == 1) {
			report(mkcfg(sh->seed), get(S(sh->buf, sh->len)), p, 1, sh->seed);
			return 1;
		}
		// crash
		others = 1;
		if (p == "C13" || p == "any") {
			// find the crashing prefix: regenerate step by step in children
			std::uint64_t cs = sh->seed;
			Cfg c = mkcfg(cs);
			int fd[2];
			if (pipe(fd)) return 2;
			pid_t q = fork();
			if (q == 0) {
				close(fd[0]);
				if (!freopen("/dev/null", "w", stderr)) _exit(9);
				alarm(20);
				g_clock_ms = 1000000;
				World w(c);
				std::mt19937_64 r(cs * 11 + 5);
				int profile = (int) (r() % 5);
				int len = profile == 1 ? 30 + r() % 60 : 5 + r() % 45;
				Gen g(cs, w, profile);
				std::vector<In> ins;
				for (int i = 0; i < len && !w.dead; ++i) {
					ins.push_back(g.next());
					put(sh, ins);
					w.run(ins.back());
				}
				for (int i = 0; i < 200 && !w.dead; ++i) {
					S busy;
					for (auto &x : w.ws)
						if (x.second.cur) {
							busy = x.first;
							break;
						}
					if (busy.empty()) break;
					ins.push_back({1, "workers", busy, {"done", w.ws[busy].cur->id, "OK"}});
					put(sh, ins);
					w.run(ins.back());
				}
				_exit(0);
			}
			int st2;
			waitpid(q, &st2, 0);
			if (!(WIFEXITED(st2) && WEXITSTATUS(st2) == 0)) {
				report(c, get(S(sh->buf, sh->len)), p, 2, cs);
				return 1;
			}
		}
		s = sh->seed + 1;
	}
	std::cout << "HELD histories=" << sh->hist << " steps=" << sh->steps << (others ? " (other properties failed)" : "") << "\n";
	return 0;
}

// ------------------------------------------------------------------ header matching, directly
int unit_match(const S &p, std::uint64_t seed, int count)
{
	std::mt19937_64 r(seed);
	auto n = [&](int k) { return (int) (r() % (std::uint64_t) k); };
	auto pick = [&](const VS &v) { return v[n(v.size())]; };
	VS groups = {"g1", "g2", "g", "g1x", "1", "g|", "group_1"};
	groups.erase(groups.begin() + 5);
	VS names = {"env", "threads", "hwgroup", "opt", "Threads", "thread", "env2"};
	VS wv = {"c", "java", "2", "4", "16", "many", "g1", "", "a|b"};
	VS jv = {"c", "java", "2", "4", "16", "few", "g1", "", "a|b", "g1|g2", "g2|g1", "x|g1", "g1|x|y", "x|y|g1", "|g1", "g1|", "||g1", "gg1", "g1|g1x", "g1 |g2", "G1", "g", "1", "1|g"};
	VS fuzz = {"99999999999999999999999999", "-1", " 4", "4x", "0x10", "|", "||", "", S("\0", 1), "+", "g1||"};
	for (int i = 0; i < count; ++i) {
		S g = pick(groups);
		H wh, jh;
		int k = n(4);
		for (int a = 0; a < k; ++a) wh.emplace(pick(names), pick(wv));
		k = n(3);
		for (int a = 0; a < k; ++a) jh.emplace(pick(names), pick(jv));
		bool odd = i % 10 == 0;
		for (auto &x : jh)
			if (x.first == "threads" && !is_num(x.second) && !x.second.empty() && !isalpha((unsigned char) x.second[0]) && x.second[0] != '|') odd = true;
		if (odd) {
			wh.emplace(pick(names), pick(fuzz));
			jh.emplace(pick(names), pick(fuzz));
		}
		S d = "group=" + esc(g) + " worker{";
		for (auto &x : wh) d += esc(x.first) + "=" + esc(x.second) + " ";
		d += "} job{";
		for (auto &x : jh) d += esc(x.first) + "=" + esc(x.second) + " ";
		d += "}";
		int got = -1;
		S what;
		try {
			worker w("id", g, wh);
			got = w.check_headers(jh);
			if (p == "C04" || p == "any") {
				for (auto &x : jh) {
					bool one = w.check_header(x.first, x.second);
					bool ref = ref_capable(g, wh, H{{x.first, x.second}});
					if (!odd && one != ref) {
						std::cout << "FAILING INPUT check_header: " << d << " header " << esc(x.first) << "=" << esc(x.second) << ": got " << one << ", should be " << ref << "\n";
						return 1;
					}
				}
			}
		} catch (std::exception &e) {
			what = e.what();
			if (p == "C13" || p == "C04" || p == "any") {
				std::cout << "FAILING INPUT: exception " << what << " while matching " << d << "\n";
				return 1;
			}
		}
		if (odd || got < 0) continue;
		bool ref = ref_capable(g, wh, jh);
		if ((p == "C04" || p == "C03" || p == "any") && got != (int) ref) {
			std::cout << "FAILING INPUT check_headers: " << d << ": got " << got << ", should be " << ref << "\n";
			return 1;
		}
	}
	return 0;
}
