// mcsched.h - controlled scheduler and happens-before race detector for real threads.
//
// The code under test is compiled with -fsanitize=thread and linked with sched.cpp *instead of* the thread sanitizer
// runtime: every memory access and atomic operation calls into sched.cpp, and the pthread functions are interposed.
// Exactly one managed thread runs at a time; before every synchronisation operation the scheduler decides through
// mc::Ctx::choose which thread continues, so the explorer enumerates every schedule within the preemption bound.
// Plain accesses are checked with vector clocks: two conflicting accesses that are not ordered by synchronisation
// are a data race (in whichever schedule they happen to be explored), so interleavings of synchronisation
// operations stand for all interleavings of a race-free program.
#pragma once
#include "mc.h"

namespace sched
{
	/// runs the functions concurrently under every schedule with at most `preemptions` preemptive switches
	/// (switches at blocking operations and at thread ends are free); reports races, deadlocks, misuse of locks
	/// and escaped exceptions as violations. Returns when all threads have ended.
	void run( mc::Ctx& c, std::vector< std::function< void() > > threads, int preemptions );
	/// explicit scheduling point
	void yield();
	/// identity of the managed thread: 1..n, 0 outside
	int tid();
	/// reports a violation from inside a managed thread (the execution is finished first)
	void fail( const std::string& what );
	inline void check( bool b, const std::string& what ) { if ( !b ) fail( what ); }
	/// number of scheduling decisions in the last run
	int steps();
	/// virtual time in seconds for time(), 0 = real time
	extern long virtual_time;
}
