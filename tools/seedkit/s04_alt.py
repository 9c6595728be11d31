prop = 'C04'
needs = 'a job with several alternatives of hardware groups, one of which (not the last) is a proper beginning of the group of the worker'
breaks = 'the alternative matches a worker of a different group whose name begins with it'
edits = [('src/worker.cpp', '''		if (end == std::string::npos) {
			end = value.size();
		}

		if (value.compare(offset, end - offset, my_value_) == 0) {
			return true;
		}
''', '''		if (end == std::string::npos) {
			return value.compare(offset, end, my_value_) == 0;
		}

		if (my_value_.compare(0, end - offset, value, offset, end - offset) == 0) {
			return true;
		}
''')]
demo = r"""#include "worker.h"
#include <cstdio>
typedef std::multimap<std::string, std::string> H;
static int check(const char *group, const char *want, bool expect)
{
	worker w("id", group, H{});
	bool got = w.check_headers(H{{"hwgroup", want}});
	if (got != expect) std::printf("group %s, wanted %s: %d\n", group, want, got);
	return got != expect;
}
int main()
{
	int bad = 0;
	bad += check("group10", "group1|other", false);
	bad += check("group1", "group1|other", true);
	bad += check("other", "group1|other", true);
	bad += check("group1", "group10|other", false);
	bad += check("group10", "other|group1", false);
	return bad ? 1 : 0;
}
"""
