prop = 'C18'
needs = 'a user name without a password (or the other way round) in the configuration of the notifier'
breaks = 'the credentials are not sent with the notification'
edits = [('src/helpers/curl.cpp', '''		curl_easy_setopt(curl.get(), CURLOPT_POSTFIELDS''', '''		curl_easy_setopt(curl.get(), CURLOPT_POSTFIELDS''')]
def _edit():
    s = open('/repo/src/helpers/curl.cpp').read()
    i = s.index('helpers::curl_post(')
    old = s[s.index('		// Causes error on HTTP responses >= 400', i):s.index('CURLOPT_HTTPAUTH', i)]
    # unique context: the whole tail of curl_post
    big_old = s[s.index('CURLOPT_POSTFIELDS', i):s.index('CURLOPT_HTTPAUTH', s.index('CURLOPT_POSTFIELDS', i))]
    return ('src/helpers/curl.cpp', big_old, big_old.replace('username.length() != 0 || passwd', 'username.length() != 0 && passwd'))
edits = [_edit()]
demo = r"""#include "handlers/status_notifier_handler.h"
#include "helpers/curl.h"
#include "helpers/logger.h"
#include <cstdarg>
#include <cstdio>
#include <map>
#include <string>
static std::map<int, std::string> text;
static int performed = 0, result_first = 0;
#undef curl_easy_setopt
#undef curl_easy_getinfo
extern "C" {
CURL *curl_easy_init() { text.clear(); return (CURL *) &text; }
void curl_easy_cleanup(CURL *) {}
CURLcode curl_easy_setopt(CURL *, CURLoption o, ...)
{
	va_list a;
	va_start(a, o);
	if (o == CURLOPT_URL || o == CURLOPT_USERPWD || o == CURLOPT_POSTFIELDS || o == CURLOPT_USERNAME || o == CURLOPT_PASSWORD) text[o] = va_arg(a, const char *);
	va_end(a);
	return CURLE_OK;
}
CURLcode curl_easy_perform(CURL *) { return ++performed == 1 ? (CURLcode) result_first : CURLE_OK; }
CURLcode curl_easy_getinfo(CURL *, CURLINFO, ...) { return CURLE_OK; }
}

static bool cred(const char *u, const char *p, const char *want)
{
	helpers::curl_post("http://localhost", 80, {{"a", "b"}}, u, p);
	bool ok = want ? text.count(CURLOPT_USERPWD) && text[CURLOPT_USERPWD] == want : !text.count(CURLOPT_USERPWD);
	if (!ok) std::printf("user '%s', password '%s': credentials '%s'\n", u, p, text.count(CURLOPT_USERPWD) ? text[CURLOPT_USERPWD].c_str() : "(none)");
	return ok;
}
int main()
{
	bool ok = cred("u", "p", "u:p");
	ok &= cred("u", "", "u:");
	ok &= cred("", "", nullptr);
	return ok ? 0 : 1;
}
"""
