// Replay harness for the status notifications: the real status_notifier_handler, reactor_status_notifier and HTTP helper
// against a libcurl stand-in that records the requests and fails on demand (no network, no real waiting).
// LINK-WITHOUT: -lcurl
#include "handlers/status_notifier_handler.h"
#include "helpers/curl.h"
#include "helpers/logger.h"
#include "notifier/reactor_status_notifier.h"
#include <chrono>
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <iostream>
#include <map>
#include <random>
#include <sstream>
#include <time.h>
#include <unistd.h>

typedef std::string S;
typedef std::vector<S> VS;

struct Req {
	std::map<int, S> str;
	std::map<int, long> num;
	const char *fields = nullptr;
	bool post = false;
	S body;
};
struct Handle {
	Req r;
};
// outcome of the attempts: 0 success, 1 connection error, 2 HTTP error, 3 no handle
static std::vector<int> plan;
static std::size_t attempt = 0;
static std::vector<Req> posts;
static std::vector<int> outcome;
static long handles = 0;
static long long slept_ns = 0;
static int last_code = 0;

static int next_outcome()
{
	return attempt < plan.size() ? plan[attempt] : 0;
}

extern "C" {
CURL *curl_easy_init(void)
{
	if (next_outcome() == 3) {
		++attempt;
		outcome.push_back(3);
		return nullptr;
	}
	++handles;
	return (CURL *) new Handle();
}
void curl_easy_cleanup(CURL *h)
{
	if (h) {
		--handles;
		delete (Handle *) h;
	}
}
void curl_easy_reset(CURL *h)
{
	((Handle *) h)->r = Req();
}
CURLcode curl_easy_setopt(CURL *h, CURLoption o, ...)
{
	Req &r = ((Handle *) h)->r;
	va_list ap;
	va_start(ap, o);
	int base = (int) o / 10000;
	if (base == 0) {
		long v = va_arg(ap, long);
		r.num[o] = v;
		if (o == CURLOPT_POST && v) r.post = true;
		if (o == CURLOPT_HTTPGET && v) r.post = false;
	} else if (base == 3) {
		curl_off_t v = va_arg(ap, curl_off_t);
		r.num[o] = (long) v;
	} else {
		void *p = va_arg(ap, void *);
		switch (o) {
		case CURLOPT_POSTFIELDS:
			r.fields = (const char *) p;
			r.post = true;
			break;
		case CURLOPT_COPYPOSTFIELDS: {
			long n = -1;
			if (r.num.count(CURLOPT_POSTFIELDSIZE)) n = r.num[CURLOPT_POSTFIELDSIZE];
			if (r.num.count(CURLOPT_POSTFIELDSIZE_LARGE)) n = r.num[CURLOPT_POSTFIELDSIZE_LARGE];
			r.body = n < 0 ? S((const char *) p) : S((const char *) p, n);
			r.fields = nullptr;
			r.post = true;
			break;
		}
		case CURLOPT_URL:
		case CURLOPT_USERPWD:
		case CURLOPT_USERNAME:
		case CURLOPT_PASSWORD:
		case CURLOPT_CUSTOMREQUEST:
			if (p) r.str[o] = (const char *) p;
			else r.str.erase(o);
			break;
		default:
			break;
		}
	}
	va_end(ap);
	return CURLE_OK;
}
CURLcode curl_easy_perform(CURL *h)
{
	Req r = ((Handle *) h)->r;
	if (r.fields) {
		long n = -1;
		if (r.num.count(CURLOPT_POSTFIELDSIZE)) n = r.num[CURLOPT_POSTFIELDSIZE];
		if (r.num.count(CURLOPT_POSTFIELDSIZE_LARGE)) n = r.num[CURLOPT_POSTFIELDSIZE_LARGE];
		r.body = n < 0 ? S(r.fields) : S(r.fields, n);
	}
	int o = next_outcome();
	++attempt;
	outcome.push_back(o);
	posts.push_back(r);
	last_code = o == 2 ? 500 : o == 1 ? 0 : 200;
	if (o == 1) return CURLE_COULDNT_CONNECT;
	if (o == 2) return r.num.count(CURLOPT_FAILONERROR) && r.num[CURLOPT_FAILONERROR] ? CURLE_HTTP_RETURNED_ERROR : CURLE_OK;
	return CURLE_OK;
}
CURLcode curl_easy_getinfo(CURL *, CURLINFO i, ...)
{
	va_list ap;
	va_start(ap, i);
	void *p = va_arg(ap, void *);
	if (i == CURLINFO_RESPONSE_CODE) *(long *) p = last_code;
	va_end(ap);
	return CURLE_OK;
}
const char *curl_easy_strerror(CURLcode)
{
	return "stand-in error";
}
char *curl_easy_escape(CURL *, const char *s, int n)
{
	if (n < 0) return nullptr;
	S out;
	std::size_t len = n ? n : strlen(s);
	for (std::size_t i = 0; i < len; ++i) {
		unsigned char c = s[i];
		if (isalnum(c) && c < 128 || c == '-' || c == '.' || c == '_' || c == '~') out += (char) c;
		else {
			char b[8];
			snprintf(b, sizeof b, "%%%02X", c);
			out += b;
		}
	}
	char *r = (char *) malloc(out.size() + 1);
	memcpy(r, out.c_str(), out.size() + 1);
	return r;
}
char *curl_escape(const char *s, int n)
{
	return curl_easy_escape(nullptr, s, n);
}
void curl_free(void *p)
{
	free(p);
}
struct curl_slist *curl_slist_append(struct curl_slist *l, const char *)
{
	return l ? l : (struct curl_slist *) malloc(1);
}
void curl_slist_free_all(struct curl_slist *l)
{
	free(l);
}
CURLcode curl_global_init(long)
{
	return CURLE_OK;
}
void curl_global_cleanup(void)
{
}
// no real waiting between the attempts
int nanosleep(const struct timespec *t, struct timespec *)
{
	slept_ns += t->tv_sec * 1000000000LL + t->tv_nsec;
	return 0;
}
int clock_nanosleep(clockid_t, int, const struct timespec *, struct timespec *)
{
	return 0;
}
unsigned int sleep(unsigned int)
{
	return 0;
}
int usleep(useconds_t)
{
	return 0;
}
}

static std::mt19937_64 rng;
static int R(int n)
{
	return (int) (rng() % n);
}
static S show(const S &s)
{
	std::ostringstream o;
	o << '"';
	for (unsigned char c : s) {
		if (c >= 32 && c < 127 && c != '"' && c != '\\') o << c;
		else {
			char b[8];
			snprintf(b, sizeof b, "\\x%02x", c);
			o << b;
		}
	}
	o << '"';
	return o.str();
}
static S word(int kind)
{
	static const char *W[] = {"a", "message", "status", "OK", "FAILED", "job_1", "42", "x y", "a&b", "c=d", "50%", "%41", "1+1", "#frag", "?q", "\xc5\xbe", "line\nbreak", ";", "/", "&", "=", ""};
	S s;
	int n = kind == 0 ? 1 : 1 + R(3);
	for (int i = 0; i < n; ++i) s += W[R(sizeof W / sizeof *W)];
	if (R(12) == 0) s += S("\0z", 2);
	return s;
}
static bool undecode(const S &in, S &out)
{
	out.clear();
	for (std::size_t i = 0; i < in.size(); ++i) {
		if (in[i] == '%') {
			if (i + 2 >= in.size() + 0 && i + 2 > in.size() - 1) return false;
			char b[3] = {in[i + 1], in[i + 2], 0};
			if (!isxdigit((unsigned char) b[0]) || !isxdigit((unsigned char) b[1])) return false;
			out += (char) strtol(b, nullptr, 16);
			i += 2;
		} else if (in[i] == '+') {
			out += ' ';
		} else
			out += in[i];
	}
	return true;
}
static bool parse(const S &body, std::multimap<S, S> &out)
{
	if (body.empty()) return true;
	std::size_t b = 0;
	while (true) {
		std::size_t e = body.find('&', b);
		S item = body.substr(b, e == S::npos ? S::npos : e - b);
		std::size_t q = item.find('=');
		S k, v;
		if (q == S::npos) {
			if (!undecode(item, k)) return false;
		} else if (!undecode(item.substr(0, q), k) || !undecode(item.substr(q + 1), v))
			return false;
		out.emplace(k, v);
		if (e == S::npos) return true;
		b = e + 1;
	}
}

static bool fail(const S &what, const S &input)
{
	std::cout << "FAILING C18: " << what << "\n  input: " << input << "\n  attempts made: " << outcome.size() << std::endl;
	return false;
}

static bool one(std::shared_ptr<spdlog::logger> logger)
{
	notifier_config cfg;
	static const char *ADR[] = {"http://localhost", "https://api.example.org/v1/broker-reports", "http://10.0.0.1/x"};
	cfg.address = ADR[R(3)];
	cfg.port = (decltype(cfg.port)) (1 + R(65535));
	cfg.username = R(3) ? word(1).c_str() : "";
	cfg.password = R(3) ? word(1).c_str() : "";
	S type = R(8) ? (R(2) ? "job-status" : "error") : word(0);
	S id = R(8) ? word(1) : "";
	if (R(2)) type = type.c_str(), id = id.c_str();
	std::map<S, S> params;
	int n = R(5);
	for (int i = 0; i < n; ++i) {
		S k = R(3) ? (R(2) ? "message" : "status") : word(1);
		if (k != "type" && k != "id") params[k] = word(1);
	}
	// the pairs in any order
	std::vector<std::pair<S, S>> pairs(params.begin(), params.end());
	bool htype = R(10) != 0, hid = R(4) != 0;
	type = S(type.c_str()), id = S(id.c_str());
	if (htype) pairs.emplace_back("type", type);
	if (hid) pairs.emplace_back("id", id);
	for (std::size_t i = pairs.size(); i > 1; --i) std::swap(pairs[i - 1], pairs[R(i)]);
	VS data;
	for (auto &p : pairs) data.push_back(p.first), data.push_back(p.second);
	plan.clear();
	int bad = R(6);
	for (int i = 0; i < bad; ++i) plan.push_back(1 + R(R(4) ? 2 : 3));
	attempt = 0;
	posts.clear();
	outcome.clear();
	handles = 0;
	std::ostringstream in;
	in << "address " << cfg.address << " port " << cfg.port << " user " << show(cfg.username) << " password " << show(cfg.password) << " frames";
	for (auto &d : data) in << " " << show(d);
	in << " outcomes of the attempts (0 ok, 1 connection error, 2 HTTP error, 3 no handle):";
	for (int p : plan) in << " " << p;
	in << " 0...";
	bool answered = false;
	try {
		status_notifier_handler h(cfg, logger);
		h.on_request(message_container("status_notifier", "", data), [&](const message_container &) { answered = true; });
	} catch (const std::exception &ex) {
		return fail(S("an exception left the notification handler: ") + ex.what(), in.str());
	}
	if (answered) return fail("the notification handler sent a message", in.str());
	std::size_t expect = std::min<std::size_t>(4, plan.size() + 1);
	if (outcome.size() < expect) return fail("a failed post was not retried (expected " + std::to_string(expect) + " attempts)", in.str());
	for (std::size_t i = 0; i + 1 < outcome.size(); ++i)
		if (outcome[i] == 0) return fail("a successful post was repeated", in.str());
	if (outcome.size() > 4) return fail("more than four attempts were made", in.str());
	S url = cfg.address;
	if (htype && type != "") url += "/" + type;
	if (hid && id != "") url += "/" + id;
	for (auto &p : posts) {
		if (!p.post || (p.str.count(CURLOPT_CUSTOMREQUEST) && p.str[CURLOPT_CUSTOMREQUEST] != "POST")) return fail("the request is no POST request", in.str());
		if (p.str[CURLOPT_URL] != url) return fail("the request went to " + show(p.str[CURLOPT_URL]) + " instead of " + show(url), in.str());
		if (!p.num.count(CURLOPT_PORT) || p.num[CURLOPT_PORT] != (long) cfg.port) return fail("the request went to port " + std::to_string(p.num[CURLOPT_PORT]), in.str());
		S cred = cfg.username + ":" + cfg.password;
		S got = p.str.count(CURLOPT_USERPWD) ? p.str[CURLOPT_USERPWD] : p.str.count(CURLOPT_USERNAME) || p.str.count(CURLOPT_PASSWORD) ? p.str[CURLOPT_USERNAME] + ":" + p.str[CURLOPT_PASSWORD] : ":";
		if (got != cred) return fail("the credentials were " + show(got) + " instead of " + show(cred), in.str());
		std::multimap<S, S> got_params;
		if (!parse(p.body, got_params)) return fail("the body cannot be decoded: " + show(p.body), in.str());
		if (got_params != std::multimap<S, S>(params.begin(), params.end())) return fail("the parameters cannot be recovered from the body " + show(p.body), in.str());
	}
	return true;
}

static bool notifier()
{
	VS ids;
	std::vector<message_container> sent;
	S id = word(1), msg = word(1);
	reactor_status_notifier n([&](const message_container &m) { sent.push_back(m); }, "status_notifier");
	int w = R(5);
	VS ex;
	std::vector<VS> all;
	if (w == 0) n.error(msg), all = {{"type", "error", "message", msg}};
	if (w == 1) n.rejected_job(id, msg), all = {{"type", "job-status", "id", id, "status", "FAILED", "message", msg}};
	if (w == 2) {
		int k = R(4);
		for (int i = 0; i < k; ++i) ids.push_back(word(1));
		n.rejected_jobs(ids, msg);
		for (auto &i : ids) all.push_back({"type", "job-status", "id", i, "status", "FAILED", "message", msg});
	}
	if (w == 3) n.job_done(id), all = {{"type", "job-status", "id", id, "status", "OK"}};
	if (w == 4) n.job_failed(id, msg), all = {{"type", "job-status", "id", id, "status", "FAILED", "message", msg}};
	bool ok = sent.size() == all.size();
	for (std::size_t i = 0; ok && i < sent.size(); ++i) {
		std::map<S, S> a, b;
		ok = sent[i].key == "status_notifier" && sent[i].data.size() == all[i].size();
		for (std::size_t j = 0; ok && j + 1 < sent[i].data.size(); j += 2) a[sent[i].data[j]] = sent[i].data[j + 1], b[all[i][j]] = all[i][j + 1];
		ok = ok && a == b;
	}
	if (!ok) return fail("notification kind " + std::to_string(w) + " was not passed on intact", show(id) + " " + show(msg));
	return true;
}

int main(int argc, char **argv)
{
	unsigned long seed = argc > 2 ? strtoul(argv[2], nullptr, 10) : 1, count = argc > 3 ? strtoul(argv[3], nullptr, 10) : 1000;
	long limit = argc > 4 ? atol(argv[4]) : 20;
	auto logger = helpers::create_null_logger();
	long cases = 0;
	time_t t0 = time(nullptr);
	for (unsigned long i = 0; i < count * 10 && time(nullptr) - t0 < limit; ++i) {
		rng.seed(seed * 1000003 + i);
		if (!one(logger) || !notifier()) return 1;
		++cases;
	}
	std::cout << "HELD cases=" << cases << std::endl;
	return 0;
}
