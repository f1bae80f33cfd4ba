// A controlled scheduler for real threads, and a happens-before race detector.
//
// The code under test is compiled with the memory access instrumentation of -fsanitize=thread, but linked with the
// runtime in sched.cpp instead of the sanitizer's. All pthread operations, atomic operations, futex waits and guarded
// static initialisations of the code are intercepted: exactly one thread runs at a time and the explorer chooses which
// one continues at every such operation. Memory accesses are checked for races with vector clocks in every execution:
// without races, the interleavings of synchronisation operations cover all interleavings of memory accesses.
#pragma once
#include "mc.hpp"

namespace sched
{

enum Policy
{
  FIFO,     // the oldest runnable thread that is not the creator first (creator continues while it can)
  CHILD,    // a created thread runs at once to its end
  LIFO,     // the youngest runnable thread first, after the creator blocks
  ROBIN,    // switch at every operation
  EXPLORE,  // every alternative inside the window of switch points, FIFO outside
};

// Starts a controlled execution. In mode EXPLORE all alternatives are explored at the switch points with index in
// [from, to), with at most bound preemptions (forced switches are free).
void begin (mc::Ctx &c, Policy p, long from = 0, long to = 1L << 60, int bound = 1 << 30);

// Ends it: remaining runnable threads run to their end or until blocked. Fails the case if a race was seen.
void end ();

// Number of switch points with more than one runnable thread / of threads created / of accesses checked.
long switch_points ();
long threads_created ();
long accesses ();
uint64_t trace_hash ();

// What std::thread::hardware_concurrency() returns.
extern unsigned processors;
// The n-th thread creation (from 1) fails with EAGAIN; 0: never.
extern long fail_creation;
// Identifier of the running thread (0: main).
int self_id ();
// What the harness does in its scope is not part of the execution.
struct Quiet
{
  Quiet ();
  ~Quiet ();
};
// True between begin and end.
bool active ();

} // namespace sched
