// Systematic exploration of thread interleavings of the real code (see conc.cpp).
#pragma once
#include <functional>
#include "mc.hpp"

namespace conc {
// Runs `body` as thread 0 under the controlled scheduler.  Threads the body (or the library) creates are
// scheduled cooperatively; at every synchronisation operation the engine asks m.choose() who goes next.
// At most `preemptions` switches away from a runnable thread are made per execution.  Returns when all
// threads have ended.  Data races, deadlocks, lock misuse and endless loops are reported as violations.
void run(mc::MC& m, int preemptions, const std::function<void()>& body);
void yield();             // the thread waits: the next one in turn runs
void settle();            // the thread waits until no other thread does anything any more
void progress();          // the caller's loop is bounded: it is not waiting for another thread
int self();
// like m.check, from any thread; ends the execution on the spot
void check(mc::MC& m, bool ok, const std::string& key, const std::string& msg);
bool active();            // inside run()
struct Untracked {        // accesses of this scope are not checked for races (oracle code)
  Untracked();
  ~Untracked();
};
uint64_t now();           // number of scheduling steps so far in this execution
}  // namespace conc
