// Controlled scheduler: stateless exploration of the real (instrumented) code.
//
// The code under test is compiled with -fsanitize=thread, but linked against this runtime instead of
// libtsan: every memory access, atomic, pthread and OpenMP operation of the code under test calls in here.
// Exactly one virtual thread runs at any time (a baton is handed over explicitly), so an execution is
// determined by the sequence of scheduling choices. explore() enumerates all of them, depth first:
//   * scheduling points are: thread creation and end, mutex lock, condition wait / wake up, join, barrier,
//     loop chunk hand-out, yield, and every access to a "hot" byte;
//   * a byte is hot when two threads accessed it in some explored execution without being ordered by
//     happens-before and one access wrote (vector clocks). When new hot bytes are found the exploration starts
//     again with them as scheduling points, until no execution finds a new one. Accesses to other bytes
//     commute, so executions that differ only in their order need not be told apart;
//   * states already visited (hash of all live stacks and registers, of all memory the threads allocated or
//     wrote, of the synchronisation objects and of the happens-before relation that the race detector still
//     needs) are not expanded again;
//   * optionally the number of preemptions per execution is bounded.
#ifndef VSCHED_H
#define VSCHED_H
#include <functional>
#include <string>
#include <vector>
#include <cstdint>
namespace vs{
struct Options{
	unsigned max_preempt=~0u;      // preemption bound
	double max_seconds=120;        // give up (incomplete) after this time
	uint64_t max_exec=~0ull;       // give up (incomplete) after so many executions
	uint64_t max_steps=2000000;    // steps per execution before it counts as a livelock
	unsigned spurious=0;           // number of spurious wake ups per execution
	unsigned loop_chunk=1;         // size of the pieces handed out by dynamic loops (0: as the program asks)
	bool report_races=true;
	unsigned single=0;             // not 0: only one schedule. 1: the next thread at every point, 2: the last thread that can run, 3: the next thread at every 7th point
};
struct Result{
	uint64_t executions=0, states=0, transitions=0, hot=0, rounds=0, max_choices=0, preempt_max=0;
	bool complete=true;
	std::string fail;              // first failure: message and schedule
	std::string schedule;
};
// body runs as virtual thread 0; judge is called after body of every execution ended ("" = fine)
Result explore(const Options&, const std::function<void()>&body, const std::function<std::string()>&judge);
bool controlled();
void note_failure(const std::string&); // may be called from any virtual thread
void ignore_begin(); void ignore_end(); // harness code of a virtual thread that is not part of the code under test
struct Ignore{ Ignore(){ ignore_begin(); } ~Ignore(){ ignore_end(); } };
}
#endif
