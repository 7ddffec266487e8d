// mc.h - a small explicit-state / stateless model checker for real C++ code.
//
// A *suite* is a function body(Ctx&) that drives the code under test. Every nondeterministic decision in it
// (which operation comes next, which input value, which thread runs, which fault is injected) is taken through
// Ctx::choose(n). The explorer runs the body once per distinct choice sequence, in depth-first order, until the
// whole choice tree has been enumerated (or pruned at a state that was already expanded with the same remaining
// budget). Nothing is sampled.
//
// The enumeration is divided over forked workers that claim disjoint subtrees. Each worker keeps its current
// choice vector and operation trace in shared memory, so a crash, a sanitizer report or a hang leaves an exact,
// replayable counterexample behind.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <string>
#include <vector>
#include <functional>
#include <sstream>
#include <atomic>
#include <set>
#include <map>
#include <exception>
#include <stdexcept>
#include <typeinfo>
#include <initializer_list>

namespace mc
{
	struct violation { std::string what; };
	struct prune {};

	constexpr int MAXC = 8192;
	constexpr int TRACESZ = 1 << 16;

	struct Slot
	{
		std::atomic<uint64_t> exec_id;
		std::atomic<int> state; // 0 idle, 1 in execution, 2 finished suite
		int nchoices;
		int choices[ MAXC ];
		int arity[ MAXC ];
		int64_t ordinal;
		int owned;
		int trace_len;
		char trace[ TRACESZ ];
	};

	struct Ctx
	{
		bool thorough = false;
		uint64_t seed = 1;

		// ---- nondeterministic choice -------------------------------------------------------------
		int choose( int n );
		bool flip() { return choose( 2 ) != 0; }
		template< typename T > const T& pick( const std::vector< T >& v ) { return v[ choose( (int)v.size() ) ]; }
		template< typename T > T pick( std::initializer_list< T > v ) { return v.begin()[ choose( (int)v.size() ) ]; }
		/// all strings over alphabet with length 0..maxlen (min length minlen)
		std::string str( const std::string& alphabet, int maxlen, int minlen = 0 );
		/// all sequences of tokens with length minlen..maxlen, concatenated
		std::string toks( const std::vector< std::string >& tokens, int maxlen, int minlen = 0 );
		/// a long text of one of the first characters of alphabet, with one other character at a distinguished position or at regular distances
		std::string longer( const std::string& alphabet, int maxlen = 1025 );
		/// any text up to maxlen, or a long one
		std::string text( const std::string& alphabet, int maxlen, int minlen = 0, int longest = 1025 ) { return flip() ? longer( alphabet, longest ) : str( alphabet, maxlen, minlen ); }

		// ---- trace ---------------------------------------------------------------------------------
		void op( const char* fmt, ... ) __attribute__( ( format( printf, 2, 3 ) ) ); // a transition
		void note( const char* fmt, ... ) __attribute__( ( format( printf, 2, 3 ) ) ); // part of trace, no transition
		void ops( const std::string& s ); // a transition, text is escaped

		// ---- states ---------------------------------------------------------------------------------
		/// count a visited state (distinct by hash)
		void state( uint64_t h );
		void state( const std::string& canon );
		/// returns true if h (which must include the remaining budget) was already expanded elsewhere
		bool seen( uint64_t h );
		bool seen( const std::string& canon, int remaining );

		// ---- verdicts ----------------------------------------------------------------------------
		[[noreturn]] void fail( const std::string& what );
		void check( bool cond, const char* what ) { ++checks; if ( !cond ) fail( what ); }
		void check( bool cond, const std::string& what ) { ++checks; if ( !cond ) fail( what ); }
		template< typename A, typename B > void eq( const A& got, const B& want, const char* what );
		template< typename F > bool throws( F&& f ) { try { f(); } catch ( std::exception& ) { return true; } return false; }
		template< typename F > void must_throw( F&& f, const char* what ) { check( throws( f ), what ); }

		/// true when this point of the execution was not reached by an earlier execution with the same prefix;
		/// checks of pure observations may be skipped when it is false
		bool fresh() const;

		uint64_t checks = 0;
		/// scratch directory of this worker, emptied before every execution on request
		const std::string& scratch();
		void clean_scratch();

		// ---- internals ---------------------------------------------------------------------------
		Slot* slot = nullptr;
		int pos = 0;
		int diverge = -1;
		double arity_product = 1;
		bool split_done = false;
		bool skip_count = false;
		int worker = 0;
		std::string scratch_;
		void claim();
		void append( const char* s, size_t n );
	};

	struct Suite { std::string name; std::function< void( Ctx& ) > body; int tier; };
	std::vector< Suite >& suites();
	/// register a suite; tier 0 = both tiers, 1 = thorough only
	struct reg { reg( const char* name, std::function< void( Ctx& ) > body, int tier = 0 ) { suites().push_back( { name, body, tier } ); } };

	std::string esc( const std::string& s ); // printable, quoted
	uint64_t hash( const std::string& s );
	uint64_t hash( const void* p, size_t n, uint64_t seed = 1469598103934665603ull );
	inline uint64_t mix( uint64_t a, uint64_t b ) { a ^= b + 0x9e3779b97f4a7c15ull + ( a << 12 ) + ( a >> 4 ); a *= 0xff51afd7ed558ccdull; return a ^ ( a >> 32 ); }
	bool is_thorough();

	template< typename T > std::string show( const std::vector< T >& v );
	template< typename A, typename B > std::string show( const std::pair< A, B >& p );
	template< typename T > std::string show( const T& v ) { std::ostringstream o; o.precision( 17 ); o << v; return o.str(); }
	inline std::string show( const std::string& s ) { return esc( s ); }
	inline std::string show( const char* s ) { return esc( s ); }
	inline std::string show( bool b ) { return b ? "true" : "false"; }
	inline std::string show( std::nullptr_t ) { return "null"; }
	template< typename T > std::string show( const std::vector< T >& v ) {
		std::string s = "["; for ( size_t i = 0; i < v.size(); ++i ) { if ( i ) s += ","; s += show( T( v[ i ] ) ); } return s + "]"; }
	template< typename A, typename B > std::string show( const std::pair< A, B >& p ) { return "(" + show( p.first ) + "," + show( p.second ) + ")"; }
	template< typename A, typename B > void Ctx::eq( const A& got, const B& want, const char* what )
	{
		++checks;
		if ( !( got == want ) )
			fail( std::string( what ) + ": got " + show( got ) + ", expected " + show( want ) );
	}
	/// to be called by optional hooks that want to abort everything from a non-body thread
	Ctx* current();
}

#define MC_CAT2( a, b ) a##b
#define MC_CAT( a, b ) MC_CAT2( a, b )
#define MC_SUITE( name ) \
	static void MC_CAT( mc_body_, __LINE__ )( mc::Ctx& c ); \
	static mc::reg MC_CAT( mc_reg_, __LINE__ )( name, MC_CAT( mc_body_, __LINE__ ) ); \
	static void MC_CAT( mc_body_, __LINE__ )( [[maybe_unused]] mc::Ctx& c )
#define MC_SUITE_THOROUGH( name ) \
	static void MC_CAT( mc_body_, __LINE__ )( mc::Ctx& c ); \
	static mc::reg MC_CAT( mc_reg_, __LINE__ )( name, MC_CAT( mc_body_, __LINE__ ), 1 ); \
	static void MC_CAT( mc_body_, __LINE__ )( [[maybe_unused]] mc::Ctx& c )
