// MC: mode=sched
// Memoised functions: call histories against a reference, and all schedules of concurrent callers.
#include "mc.h"
#include "mcsched.h"
#include <map>
#include <tuple>
#include <string>
#include "xo/system/assert.h"
#include "xo/utility/memoize.h"
#include "xo/utility/cached_var.h"

using std::string;
struct boom : std::runtime_error { using std::runtime_error::runtime_error; };

// ---- histories -----------------------------------------------------------------------------------------
// each call may be told to fail when it has to compute
template< typename M > void history( mc::Ctx& c, int depth )
{
	std::map< std::pair< int, int >, int > computed; // successful computations
	int calls = 0; bool do_fail = false;
	M m( [&]( int a, int b ) -> int { ++calls; if ( do_fail ) throw boom( "fail" ); computed[ { a, b } ]++; return 100 * a + b; } );
	std::map< std::pair< int, int >, const int* > refs;
	for ( int i = 0; i < depth; ++i )
	{
		int a = c.choose( 2 ), b = c.choose( 2 );
		do_fail = c.flip();
		c.op( "f(%d,%d)%s", a, b, do_fail ? " failing" : "" );
		bool have = computed.count( { a, b } ) != 0;
		int before = calls;
		bool threw = false;
		try
		{
			const int& r = m( a, b );
			c.eq( r, 100 * a + b, "value" );
			if ( refs.count( { a, b } ) ) c.check( refs[ { a, b } ] == &r, "the stored value moved" );
			refs[ { a, b } ] = &r;
		}
		catch ( std::exception& ) { threw = true; }
		c.eq( threw, do_fail && !have, "a failing computation is reported, a stored value needs none" );
		c.eq( calls - before, have ? 0 : 1, "number of computations" );
		size_t n = computed.size();
		c.eq( (size_t)m.size(), n, "number of stored values" );
		for ( auto& [ k, p ] : refs ) c.eq( *p, 100 * k.first + k.second, "earlier result changed" );
		string s; for ( auto& [ k, v ] : computed ) s += mc::show( k ) + mc::show( v );
		c.state( s );
	}
}
// run under the scheduler, so that a self-deadlock is seen at once
#define SINGLE( ... ) sched::run( c, { [&] { __VA_ARGS__; } }, 0 )
MC_SUITE( "memoize: histories" ) { SINGLE( history< xo::memoize< int( int, int ) > >( c, c.thorough ? 5 : 4 ) ); }
MC_SUITE( "memoize_thread_safe: histories" ) { SINGLE( history< xo::memoize_thread_safe< int( int, int ) > >( c, c.thorough ? 5 : 4 ) ); }

template< typename M > void strings( mc::Ctx& c )
{
	int calls = 0;
	M m( [&]( string a ) { ++calls; return a + "!" + a; } );
	std::set< string > seen;
	string arg;
	int n = c.thorough ? 4 : 3;
	for ( int i = 0; i < n; ++i )
	{
		arg = c.str( "ab", 2 );
		if ( c.flip() ) arg = string( 40, 'x' ) + arg;
		c.op( "f(%s)", arg.c_str() );
		string want = arg + "!" + arg;
		const string& r = m( arg );
		seen.insert( arg );
		c.eq( string( r ), want, "value" );
		arg += "zz"; // the stored key is a copy
		c.eq( string( r ), want, "value after the argument changed" );
		c.eq( calls, (int)seen.size(), "computed once per argument" );
	}
}
MC_SUITE( "memoize: string arguments" ) { SINGLE( strings< xo::memoize< string( string ) > >( c ) ); }
MC_SUITE( "memoize_thread_safe: string arguments" ) { SINGLE( strings< xo::memoize_thread_safe< string( string ) > >( c ) ); }
MC_SUITE( "memoize: arguments by reference" )
{
	bool safe = c.flip();
	SINGLE( if ( safe ) strings< xo::memoize_thread_safe< string( const string& ) > >( c ); else strings< xo::memoize< string( const string& ) > >( c ) );
}

MC_SUITE( "memoize: recursive function" )
{
	int n = c.choose( 8 ), k = c.choose( 8 );
	int calls = 0;
	xo::memoize< long( int ) >* mp = nullptr;
	xo::memoize< long( int ) > m( [&]( int i ) -> long { ++calls; return i < 2 ? i : long( ( *mp )( i - 1 ) ) + ( *mp )( i - 2 ); } );
	mp = &m;
	long fib[ 9 ] = { 0, 1, 1, 2, 3, 5, 8, 13, 21 };
	c.op( "fib(%d), fib(%d)", n, k );
	c.eq( (long)m( n ), fib[ n ], "value" );
	c.eq( (long)m( k ), fib[ k ], "value" );
	int mx = std::max( n, k );
	c.eq( calls, mx < 2 ? ( n == k ? 1 : 2 ) : mx + 1, "computed once per argument" );
}

MC_SUITE( "cached_var: histories" )
{
	int t0 = c.choose( 2 );
	xo::cached_var< int, int > v( t0, 7 );
	int val = 7, time = t0, next = 10;
	for ( int i = 0; i < ( c.thorough ? 6 : 5 ); ++i )
	{
		int t = c.choose( 3 ); bool bad = c.flip();
		c.op( "t=%d%s", t, bad ? " failing" : "" );
		int calls = 0, fresh = ++next;
		bool threw = false;
		try { int r = v( t, [&] { ++calls; if ( bad ) throw boom( "x" ); return fresh; } ); if ( t != time ) { val = fresh; time = t; } c.eq( r, val, "value" ); }
		catch ( boom& ) { threw = true; c.check( t != time && bad, "unexpected failure" ); }
		if ( !threw ) c.check( calls <= 1, "computed at most once" );
		if ( threw ) { c.eq( calls, 1, "computed once" ); }
		else if ( bad ) c.eq( calls, 0, "cached value needs no computation" );
	}
}

// ---- schedules -----------------------------------------------------------------------------------------
namespace
{
	struct Shared { std::vector< int > starts, done; }; // guarded by the memo itself or by per-thread slots
	void concurrent( mc::Ctx& c, const std::vector< std::vector< int > >& calls, int failing, int pb )
	{
		// what the function does is recorded per call through atomics, so that the harness adds no ordering of its own
		static std::atomic< int > computed[ 4 ], running[ 4 ];
		for ( auto& x : computed ) x.store( 0, std::memory_order_relaxed );
		for ( auto& x : running ) x.store( 0, std::memory_order_relaxed );
		static std::atomic< int > fails_left; fails_left.store( failing, std::memory_order_relaxed );
		xo::memoize_thread_safe< string( int ) > m( []( int i ) {
			if ( fails_left.load( std::memory_order_relaxed ) > 0 && i == 0 ) { fails_left.fetch_sub( 1, std::memory_order_relaxed ); throw boom( "fail" ); }
			computed[ i ].fetch_add( 1, std::memory_order_relaxed );
			return "value of a long enough string " + std::to_string( i );
		} );
		std::vector< std::vector< int > > failed( calls.size() );
		std::vector< std::function< void() > > fns;
		for ( size_t t = 0; t < calls.size(); ++t ) fns.push_back( [&, t] {
			for ( int i : calls[ t ] )
			{
				if ( i < 0 ) { sched::check( m.size() <= 4, "size" ); continue; }
				try
				{
					const string& r = m( i );
					sched::check( r == "value of a long enough string " + std::to_string( i ), "thread " + std::to_string( t + 1 ) + " got " + r + " for argument " + std::to_string( i ) );
				}
				catch ( std::exception& e ) { failed[ t ].push_back( i ); }
			}
		} );
		sched::run( c, fns, pb );
		std::set< int > args; std::map< int, int > asked;
		for ( auto& v : calls ) for ( int i : v ) if ( i >= 0 ) asked[ i ]++;
		int nf = 0; for ( auto& f : failed ) for ( int i : f ) { c.eq( i, 0, "failure of an argument that does not fail" ); ++nf; }
		c.eq( nf, failing - fails_left.load(), "each failed computation is reported to exactly one caller" );
		size_t stored = 0;
		for ( auto& [ i, n ] : asked )
		{
			int ok = n - ( i == 0 ? nf : 0 );
			c.eq( computed[ i ].load(), ok > 0 ? 1 : 0, "number of computations of an argument" );
			stored += ok > 0;
		}
		c.eq( (size_t)m.size(), stored, "number of stored values" );
		c.state( std::to_string( sched::steps() ) + mc::show( failed.size() > 0 ? failed[ 0 ] : std::vector< int >() ) );
	}
}

MC_SUITE( "schedules: two callers" )
{
	int k = c.choose( 6 );
	c.note( "case %d", k );
	std::vector< std::vector< std::vector< int > > > cases = { { { 1 }, { 1 } }, { { 1 }, { 2 } }, { { 1, 2 }, { 2, 1 } }, { { 1, 1 }, { 1, 2 } }, { { 1, -1 }, { 2, 1 } }, { { 1, 2, 1 }, { 2, 1, 2 } } };
	concurrent( c, cases[ k ], 0, c.thorough ? ( k < 2 ? 99 : k == 5 ? 5 : 7 ) : ( k < 2 ? 99 : 4 ) );
}
MC_SUITE( "schedules: failing computation" )
{
	int k = c.choose( 4 ); int f = 1 + c.choose( 2 );
	c.note( "case %d, %d failures", k, f );
	std::vector< std::vector< std::vector< int > > > cases = { { { 0 }, { 0 } }, { { 0, 0 }, { 0 } }, { { 0, 1 }, { 1, 0 } }, { { 0 }, { 0 }, { 0 } } };
	concurrent( c, cases[ k ], f, c.thorough ? 4 : 3 );
}
MC_SUITE( "schedules: three callers" )
{
	int k = c.choose( 3 );
	c.note( "case %d", k );
	std::vector< std::vector< std::vector< int > > > cases = { { { 1 }, { 1 }, { 1 } }, { { 1 }, { 2 }, { 1 } }, { { 1, 2 }, { 2, 3 }, { 3, 1 } } };
	concurrent( c, cases[ k ], 0, c.thorough ? 4 : 3 );
}
// many arguments, near and far apart
template< typename M > void many( mc::Ctx& c )
{
	static const std::vector< int > N = { 7, 15, 16, 17, 33, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 1025 };
	int n = c.pick( N ), step = c.pick( { 1, 16, 256, 65536, 1 << 20, -1, -4096 } ), order = c.choose( 3 ), again = c.choose( 3 ); c.op( "%d arguments at distance %d, order %d, again %d", n, step, order, again ); c.state( ( ( n * 10 + order ) * 3 + again ) * 10000000L + step );
	long calls = 0; M m( [&]( int a, int b ) -> int { ++calls; return ( a % 9973 ) * 3 + b; } ); std::vector< const int* > refs( n );
	auto arg = [&]( int i ) { return int( unsigned( step ) * unsigned( i ) ); }; std::map< std::pair< int, int >, int > distinct;
	for ( int k = 0; k < n; ++k )
	{
		int i = order == 0 ? k : order == 1 ? n - 1 - k : int( k * 7919L % n ); int a = arg( i ), b = i % 3; const int& r = m( a, b ); c.eq( r, ( a % 9973 ) * 3 + b, "value" );
		auto& p = refs[ i ]; if ( p ) c.check( p == &r, "the stored value moved" ); p = &r; distinct[ { a, b } ]++; c.eq( calls, long( distinct.size() ), "number of computations" ); if ( again == 1 ) { m( a, b ); m( arg( 0 ), 0 ); distinct[ { arg( 0 ), 0 } ]++; }
	}
	c.eq( size_t( m.size() ), distinct.size(), "number of stored values" ); for ( int i = 0; i < n; ++i ) if ( refs[ i ] ) { int a = arg( i ), b = i % 3; const int& r = m( a, b ); c.eq( r, ( a % 9973 ) * 3 + b, "value asked again" ); c.check( refs[ i ] == &r, "the stored value moved" ); }
	c.eq( calls, long( distinct.size() ), "number of computations" );
}
MC_SUITE( "many arguments" ) { bool safe = c.flip(); SINGLE( if ( safe ) many< xo::memoize_thread_safe< int( int, int ) > >( c ); else many< xo::memoize< int( int, int ) > >( c ) ); }
