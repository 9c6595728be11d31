prop = 'C16'
needs = 'a job with unknown content that fails, or a job that fails for good'
breaks = 'failures of given-up jobs are not counted'
edits = [('src/handlers/broker_handler.cpp', '\t\truntime_stats_[STATS_FAILED_JOBS] += 1;\n\t} else if (status == "FAILED") {', '\t\tif (failed_request->data.is_complete()) {\n\t\t\truntime_stats_[STATS_FAILED_JOBS] += 1;\n\t\t}\n\t} else if (status == "FAILED") {')]
demo = r"""#include "demo.h"
int main()
{
	B b(false);
	b.w("w1", {"init", "g", "env=c", "", "current_job=old"});
	b.w("w1", {"done", "old", "INTERNAL_ERROR", "x"});
	b.cl({"get-runtime-stats"});
	bool ok = false;
	for (size_t i = 0; i + 1 < b.out[0].data.size(); ++i)
		if (b.out[0].data[i] == "failed-jobs") ok = b.out[0].data[i + 1] == "1";
	NEED(ok, "an accepted failure result is not counted");
	return 0;
}
"""
