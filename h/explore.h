// Explores every schedule of a small program of threads (up to a preemption bound) with shim/mcsched.cpp.
#pragma once
#include "vh.h"
#include "mcsched.h"
namespace ex {
struct Result { uint64_t schedules = 0; bool ok = true; };
// threads: run under the scheduler.  setup / check run before and after every schedule, outside it.
inline Result program(const std::vector<std::function<void()>>& threads, int bound, bool onlyShared, const std::function<void()>& setup, const std::function<void(const std::string&)>& check)
{
	Result r;
	std::vector<void (*)(void*)> f; std::vector<void*> a;
	for (auto& t : threads) { f.push_back([](void* p) { try { (*(std::function<void()>*)p)(); } catch (std::exception& e) { vh::fail("exception", vh::cat("a thread ended with an exception: ", e.what())); } }); a.push_back((void*)&t); }
	sch::beginProgram(bound, onlyShared);
	for (int restarts = 0; restarts < 6; restarts++) {
		sch::restart();
		bool again = false;
		do {
			setup();
			long s0 = sch::stepCount();
			bool ok = sch::execute((int)f.size(), f.data(), a.data());
			r.schedules++; vh::S().states++; vh::S().transitions += sch::stepCount() - s0;
			if (!ok) {
				std::string e = sch::error();
				vh::fail(e.compare(0, 8, "deadlock") == 0 ? "deadlock" : e.compare(0, 2, "no") == 0 ? "stuck" : "lock", vh::cat("schedule ", sch::trace(), ": ", e));
				vh::S().capped = true; vh::fini(); fflush(stdout); _exit(0); // the threads cannot be unwound
			}
			check(sch::trace());
			if (sch::changed()) { again = true; break; }
			if (vh::S().violations) { r.ok = false; break; }
		} while (sch::nextSchedule());
		if (!again || vh::S().violations) break;
	}
	vh::count("schedules", r.schedules);
	return r;
}
}
