prop = 'C18'
needs = 'a notification that the server answers with an HTTP error'
breaks = 'the failed notification counts as delivered and is not repeated'
def _edit():
    s = open('/repo/src/helpers/curl.cpp').read()
    i = s.index('CURLOPT_POSTFIELDS')
    j = s.index('if (res != CURLE_OK) {', i)
    big = s[i:j + len('if (res != CURLE_OK) {')]
    return ('src/helpers/curl.cpp', big, big.replace('if (res != CURLE_OK) {', 'if (res != CURLE_OK && res != CURLE_HTTP_RETURNED_ERROR) {'))
edits = [_edit()]
demo = r"""#include "handlers/status_notifier_handler.h"
#include "helpers/curl.h"
#include "helpers/logger.h"
#include <cstdarg>
#include <cstdio>
#include <map>
#include <string>
static std::map<int, std::string> text;
static int performed = 0, result_first = 0;
#undef curl_easy_setopt
#undef curl_easy_getinfo
extern "C" {
CURL *curl_easy_init() { text.clear(); return (CURL *) &text; }
void curl_easy_cleanup(CURL *) {}
CURLcode curl_easy_setopt(CURL *, CURLoption o, ...)
{
	va_list a;
	va_start(a, o);
	if (o == CURLOPT_URL || o == CURLOPT_USERPWD || o == CURLOPT_POSTFIELDS || o == CURLOPT_USERNAME || o == CURLOPT_PASSWORD) text[o] = va_arg(a, const char *);
	va_end(a);
	return CURLE_OK;
}
CURLcode curl_easy_perform(CURL *) { return ++performed == 1 ? (CURLcode) result_first : CURLE_OK; }
CURLcode curl_easy_getinfo(CURL *, CURLINFO, ...) { return CURLE_OK; }
}

int main()
{
	notifier_config c;
	c.address = "http://localhost";
	status_notifier_handler h(c, helpers::create_null_logger());
	result_first = CURLE_HTTP_RETURNED_ERROR;
	h.on_request(message_container("status_notifier", "", {"type", "job-status", "id", "j", "status", "OK"}), [](const message_container &) {});
	std::printf("attempts: %d\n", performed);
	return performed == 2 ? 0 : 1;
}
"""
