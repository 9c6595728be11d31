// Replay harness for the configuration: generated YAML documents are loaded by the real broker_config and every getter
// is compared with the value given for the option in the document or its documented default.
#include "config/broker_config.h"
#include <ctime>
#include <iostream>
#include <random>
#include <sstream>

typedef std::string S;
static std::mt19937_64 rng;
static int R(int n)
{
	return (int) (rng() % n);
}

enum Kind { STR, U16, SZ };
struct Opt {
	const char *section, *name;
	Kind kind;
	S dflt;
};
static const Opt OPTS[] = {{"", "queue_manager", STR, "single"}, {"clients", "address", STR, "*"}, {"clients", "port", U16, "0"}, {"workers", "address", STR, "*"},
	{"workers", "port", U16, "0"}, {"workers", "max_liveness", SZ, "4"}, {"workers", "max_request_failures", SZ, "3"}, {"workers", "ping_interval", SZ, "1000"},
	{"monitor", "address", STR, "127.0.0.1"}, {"monitor", "port", U16, "7894"}, {"notifier", "address", STR, ""}, {"notifier", "port", U16, "0"},
	{"notifier", "username", STR, ""}, {"notifier", "password", STR, ""}, {"logger", "file", STR, ""}, {"logger", "level", STR, "debug"},
	{"logger", "max-size", SZ, "1048576"}, {"logger", "rotations", SZ, "3"}};
static const int N = sizeof OPTS / sizeof *OPTS;
static const char *SECTIONS[] = {"clients", "workers", "monitor", "notifier", "logger"};

static S value_of(const broker_config &c, int i)
{
	switch (i) {
	case 0: return c.get_queue_manager();
	case 1: return c.get_client_address();
	case 2: return std::to_string(c.get_client_port());
	case 3: return c.get_worker_address();
	case 4: return std::to_string(c.get_worker_port());
	case 5: return std::to_string(c.get_max_worker_liveness());
	case 6: return std::to_string(c.get_max_request_failures());
	case 7: return std::to_string(c.get_worker_ping_interval().count());
	case 8: return c.get_monitor_address();
	case 9: return std::to_string(c.get_monitor_port());
	case 10: return c.get_notifier_config().address;
	case 11: return std::to_string(c.get_notifier_config().port);
	case 12: return c.get_notifier_config().username;
	case 13: return c.get_notifier_config().password;
	case 15: return c.get_log_config().log_level;
	case 16: return std::to_string(c.get_log_config().log_file_size);
	case 17: return std::to_string(c.get_log_config().log_files_count);
	}
	return "";
}

// a scalar for an option: text in the document, whether it converts, and what it means
static void scalar(const Opt &o, S &text, bool &ok, S &val)
{
	ok = true;
	if (o.kind == STR) {
		static const char *V[] = {"abc", "tcp.example.org", "multi", "single", "x", "42", "0.0.0.0", "a b c", "true"};
		val = V[R(9)];
		if (S(o.name) == "file") {
			static const char *P[] = {"/var/log/b.log", "name", "dir/name", "/a/b/c/d", "/tmp/x"};
			val = P[R(5)];
		}
		if (R(8) == 0 && S(o.name) != "file") val = "";
		text = val.empty() || R(3) == 0 ? "\"" + val + "\"" : val;
		return;
	}
	if (R(5) == 0) {
		static const char *BAD[] = {"abc", "12x", "\"\"", "1.5", "99999999999999999999999999", "4 5", "- 4"};
		ok = false;
		text = BAD[R(6)];
		if (o.kind == U16 && R(3) == 0) text = "70000";
		return;
	}
	unsigned long long v = R(3) ? R(100) : o.kind == U16 ? R(65536) : (unsigned long long) R(2000000000);
	if (R(8) == 0) v = o.kind == U16 ? 65535 : 5000000000ULL;
	val = std::to_string(v);
	text = R(4) == 0 ? "\"" + val + "\"" : val;
}

static bool fail(const S &what, const S &doc)
{
	std::cout << "FAILING C17: " << what << "\n--- document ---\n" << doc << "\n---" << std::endl;
	return false;
}

static bool one()
{
	std::ostringstream d;
	S exp[N];
	bool given[N] = {false};
	for (int i = 0; i < N; ++i) exp[i] = OPTS[i].dflt;
	bool refuse = false;
	static const char *OTHER[] = {"[1, 2]", "{a: b}", "~", "[]", "{}", ""};
	if (R(15) == 0) {
		static const char *NOMAP[] = {"", "abc", "[1, 2]", "- a\n- b", "42", "~", "\"x: y\""};
		d << NOMAP[R(7)];
		refuse = true;
	} else {
		bool any = false;
		std::vector<int> order;
		for (int i = -1; i < 5; ++i) order.push_back(i);
		for (std::size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[R(i)]);
		for (int s : order) {
			if (R(6) == 0) continue;
			if (s == -1) {
				if (R(3)) {
					S t;
					bool ok;
					scalar(OPTS[0], t, ok, exp[0]);
					d << "queue_manager: " << t << "\n";
				} else
					d << "queue_manager: " << OTHER[R(6)] << "\n";
				any = true;
				continue;
			}
			any = true;
			if (R(8) == 0) {
				static const char *V[] = {"[1]", "abc", "~", "", "{}", "42"};
				d << SECTIONS[s] << ": " << V[R(6)] << "\n";
				continue;
			}
			std::ostringstream body;
			bool have = false;
			std::vector<int> os;
			for (int i = 1; i < N; ++i)
				if (S(OPTS[i].section) == SECTIONS[s]) os.push_back(i);
			for (std::size_t i = os.size(); i > 1; --i) std::swap(os[i - 1], os[R(i)]);
			for (int i : os) {
				int k = R(5);
				if (k == 0) continue;
				have = true;
				if (k == 1) {
					body << "    " << OPTS[i].name << ": " << OTHER[R(6)] << "\n";
					continue;
				}
				S t, v;
				bool ok;
				scalar(OPTS[i], t, ok, v);
				body << "    " << OPTS[i].name << ": " << t << "\n";
				if (ok) exp[i] = v, given[i] = true;
				else refuse = true;
			}
			if (R(4) == 0) body << "    unknown: 3\n", have = true;
			if (have) d << SECTIONS[s] << ":\n" << body.str();
			else d << SECTIONS[s] << ": {}\n";
		}
		if (R(5) == 0) d << "something: else\n", any = true;
		if (!any) d << "{}\n";
	}
	S doc = d.str();
	YAML::Node node;
	try {
		node = YAML::Load(doc);
	} catch (const YAML::Exception &) {
		return true; // not a YAML document
	}
	try {
		broker_config c(node);
		if (refuse) return fail("the document was not refused", doc);
		for (int i = 0; i < N; ++i) {
			if (S(OPTS[i].name) == "file") {
				S path = "/var/log/recodex/", base = "broker";
				if (given[i]) {
					std::size_t q = exp[i].rfind('/');
					base = q == S::npos ? exp[i] : exp[i].substr(q + 1);
					path = q == S::npos ? "" : exp[i].substr(0, q);
				}
				if (c.get_log_config().log_path != path || c.get_log_config().log_basename != base) return fail("the log file is " + c.get_log_config().log_path + " / " + c.get_log_config().log_basename, doc);
				if (c.get_log_config().log_suffix != "log") return fail("the log suffix is " + c.get_log_config().log_suffix, doc);
				continue;
			}
			S got = value_of(c, i);
			if (got != exp[i]) return fail(S(OPTS[i].section) + "." + OPTS[i].name + " is '" + got + "' instead of '" + exp[i] + "'", doc);
		}
	} catch (const config_error &e) {
		if (!refuse) return fail(S("the document was refused: ") + e.what(), doc);
	} catch (const std::exception &e) {
		return fail(S("an exception that is no configuration error was thrown: ") + e.what(), doc);
	}
	return true;
}

int main(int argc, char **argv)
{
	unsigned long seed = argc > 2 ? strtoul(argv[2], nullptr, 10) : 1, count = argc > 3 ? strtoul(argv[3], nullptr, 10) : 1000;
	long limit = argc > 4 ? atol(argv[4]) : 20;
	long cases = 0;
	time_t t0 = time(nullptr);
	{
		broker_config c;
		for (int i = 0; i < N; ++i)
			if (S(OPTS[i].name) != "file" && value_of(c, i) != OPTS[i].dflt) {
				fail(S("the default of ") + OPTS[i].name + " is " + value_of(c, i), "(none)");
				return 1;
			}
	}
	for (unsigned long i = 0; i < count * 20 && time(nullptr) - t0 < limit; ++i) {
		rng.seed(seed * 1000003 + i);
		if (!one()) return 1;
		++cases;
	}
	std::cout << "HELD cases=" << cases << std::endl;
	return 0;
}
