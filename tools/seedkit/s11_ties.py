prop = 'C11'
needs = 'single queue; two jobs that arrive within the same millisecond while all capable workers are busy'
breaks = 'jobs with equal time stamps are handed out in reverse order of arrival'
edits = [('src/queuing/single_queue_manager.h', 'a.arrived_at < b.arrived_at', 'a.arrived_at <= b.arrived_at')]
demo = r'''#include "demo.h"
static long now_ms = 5000;
namespace std { namespace chrono { inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept { return time_point(std::chrono::duration_cast<duration>(std::chrono::milliseconds(now_ms))); }
} } }
int main()
{
	B b(true);
	b.w("w1", {"init", "g", "env=c"});
	for (auto j : {"j0", "j1", "j2", "j3"}) b.cl({"eval", j, "env=c", "", "d"});
	b.w("w1", {"done", "j0", "OK"});
	NEED(b.sent("workers", "w1", "j1") == 1, "the first waiting job is not handed out first");
	b.w("w1", {"done", "j1", "OK"});
	NEED(b.sent("workers", "w1", "j2") == 1, "the second waiting job is not handed out second");
	return 0;
}
'''
