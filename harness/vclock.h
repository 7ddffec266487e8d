// vclock.h - replaces the clocks of the standard library by virtual ones that the harness advances.
// Elapsed time is `now`; the wall clock can additionally be set (`wall_shift`), which must not affect elapsed time.
#pragma once
#include <chrono>
namespace vclock
{
	static long long now = 1'000'000'000LL;
	static long long wall_shift = 1'600'000'000'000'000'000LL;
	static long long reads = 0; // number of clock queries
	static long long tick = 0; // time that every query takes
}
std::chrono::steady_clock::time_point std::chrono::steady_clock::now() noexcept { ++vclock::reads; auto t = vclock::now; vclock::now += vclock::tick; return time_point( duration( t ) ); }
std::chrono::system_clock::time_point std::chrono::system_clock::now() noexcept { ++vclock::reads; auto t = vclock::now; vclock::now += vclock::tick; return time_point( duration( t + vclock::wall_shift ) ); }
