// Timers, stopwatches and interval checks under a virtual clock; arithmetic of durations.
#include "mc.h"
#include "vclock.h"
#include <memory>
#include "xo/time/timer.h"
#include "xo/time/stopwatch.h"
#include "xo/time/interval_checker.h"
#include "xo/container/prop_node.h"
#include "xo/string/string_cast.h"

using std::string;
using Tm = xo::time;
typedef long long ll;
static const std::vector< ll > steps = { 0, 1, 1'000'000'007LL };
static ll ns( Tm t ) { return t.nanoseconds(); }

/// the reference: accumulated plus running interval
struct ref { bool running; ll acc; ll since; ll elapsed() const { return acc + ( running ? vclock::now - since : 0 ); } };
static void same( mc::Ctx& c, const xo::timer& t, const ref& r, const char* which )
{
	c.eq( ns( t() ), r.elapsed(), ( string( "elapsed time of " ) + which ).c_str() );
	c.eq( t.is_running(), r.running, "is_running" );
	c.eq( t.is_paused(), !r.running, "is_paused" );
	c.eq( t.tick_count(), r.elapsed(), "tick_count" ); // the clock counts nanoseconds
}
MC_SUITE( "timer histories" )
{
	vclock::now = c.pick( { 1LL, 1'000'000'000LL } ); vclock::wall_shift = 1'600'000'000'000'000'000LL;
	bool start = c.flip(), twice = c.flip(); c.op( start ? "running timer" : "paused timer" );
	xo::timer t( start ), u( false ); ref r{ start, 0, vclock::now }, s{ false, 0, 0 };
	if ( twice ) { xo::timer d; same( c, d, ref{ true, 0, vclock::now }, "a default timer" ); vclock::now += 5; c.eq( ns( d() ), 5LL, "a default timer runs" ); }
	int depth = c.thorough ? 7 : 5;
	for ( int d = 0; d < depth; ++d )
	{
		ll dt = c.pick( steps ); vclock::now += dt;
		int op = c.choose( 9 );
		switch ( op )
		{
		case 0: c.op( "+%lld pause", dt ); r = { false, r.elapsed(), 0 }; c.eq( ns( t.pause() ), r.acc, "time returned by pause" ); break;
		case 1: c.op( "+%lld resume", dt ); r = { true, r.elapsed(), vclock::now }; t.resume(); break;
		case 2: c.op( "+%lld restart", dt ); c.eq( ns( t.restart() ), r.elapsed(), "time returned by restart" ); r = { true, 0, vclock::now }; break;
		case 3: case 4: { ll v = op == 3 ? c.pick( { 0LL, -700LL } ) : c.pick( { 500LL, 5'000'000'000LL } ); c.op( "+%lld set %lld", dt, v ); r = { r.running, v, vclock::now }; t.set( Tm( v ) ); break; }
		case 5: { ll k = c.pick( steps ); c.op( "+%lld scoped starter for %lld", dt, k ); { xo::scoped_timer_starter st( t ); vclock::now += k; if ( !r.running ) r = { true, r.acc, vclock::now - k }; same( c, t, r, "a timer in scope" ); } r = { false, r.elapsed(), 0 }; break; }
		case 6: c.op( "+%lld copy", dt ); u = t; s = r; break;
		case 7: c.op( "+%lld swap", dt ); std::swap( t, u ); std::swap( r, s ); break;
		case 8: c.op( "+%lld wall clock set", dt ); vclock::wall_shift += c.pick( { -3600'000'000'000LL, 7'000LL } ); break;
		}
		same( c, t, r, "the timer" ); same( c, u, s, "the copy" );
		string st = std::to_string( r.running ) + std::to_string( r.elapsed() ) + "/" + std::to_string( s.running ) + std::to_string( s.elapsed() );
		c.state( st );
		if ( c.seen( st + ( vclock::now < 1000 ? "s" : "" ) + std::to_string( vclock::wall_shift < 1'600'000'000'000'000'000LL ), depth - d ) ) throw mc::prune();
	}
}
/// reads [[h:]m:]s[.ddd]
static double seconds( const string& t ) { double v = 0; size_t p = 0; for ( ;; ) { size_t q = t.find( ':', p ); v = v * 60 + atof( t.substr( p, q - p ).c_str() ); if ( q == string::npos ) return v; p = q + 1; } }
MC_SUITE( "stopwatch histories" )
{
	vclock::now = 1'000'000'000LL;
	xo::stopwatch w;
	const std::vector< string > names = { "a", "b", "c" };
	std::vector< std::pair< string, ll > > ref; size_t cur = 0; ll last = vclock::now;
	int depth = c.thorough ? 8 : 6;
	for ( int d = 0; d < depth; ++d )
	{
		ll dt = c.pick( { 0LL, 1'500'000LL, 2'000'000'000LL } ); vclock::now += dt;
		int op = c.choose( 5 );
		if ( op == 0 ) { c.op( "+%lld restart", dt ); w.restart(); cur = 0; last = vclock::now; }
		else if ( op == 1 ) { c.op( "+%lld clear", dt ); w.clear(); cur = 0; ref.clear(); last = vclock::now; }
		else if ( op == 2 ) { c.op( "+%lld reserve", dt ); w.reserve( 5 ); }
		else
		{
			string n = cur < ref.size() ? ref[ cur ].first : names[ std::min< size_t >( ref.size(), 2 ) ];
			if ( cur >= ref.size() && op == 4 ) n = "x";
			else if ( op == 4 ) throw mc::prune();
			c.op( "+%lld split %s", dt, n.c_str() );
			w.split( n.c_str() );
			if ( cur < ref.size() ) ref[ cur ].second += vclock::now - last; else ref.push_back( { n, vclock::now - last } );
			++cur; last = vclock::now;
		}
		c.eq( w.size(), ref.size(), "number of splits" );
		c.check( w.split_times().size() == ref.size() && w.split_names().size() == ref.size(), "splits" );
		string st; ll total = 0; std::set< string > unique;
		for ( size_t i = 0; i < ref.size(); ++i )
		{
			c.eq( ns( w.split_times()[ i ] ), ref[ i ].second, "time of a split" ); c.eq( string( w.split_names()[ i ] ), ref[ i ].first, "name of a split" );
			total += ref[ i ].second; unique.insert( ref[ i ].first );
			st += ref[ i ].first + std::to_string( ref[ i ].second ) + ",";
		}
		if ( unique.size() == ref.size() )
		{
			auto pn = w.get_report( 9 );
			c.eq( pn.size(), ref.size() + 1, "entries of the report" );
			size_t i = 0;
			for ( auto& e : ref ) { auto& k = *( pn.begin() + i++ ); c.eq( string( k.first ), e.first, "entry of the report" ); c.check( std::abs( seconds( k.second.get< string >() ) - e.second * 1e-9 ) < ( e.second < 9'000'000'000LL ? 1e-3 : 1.0 ), "time in the report: " + k.second.get< string >() ); }
			c.eq( string( ( pn.begin() + i )->first ), string( "TOTAL" ), "total of the report" );
			c.check( std::abs( seconds( pn.get< string >( "TOTAL" ) ) - total * 1e-9 ) < ( total < 9'000'000'000LL ? 1e-3 : 1.0 ), "total in the report" );
		}
		st += std::to_string( cur );
		c.state( st );
		if ( c.seen( st, depth - d ) ) throw mc::prune();
	}
}
MC_SUITE( "many splits" )
{
	int n = 1 + c.choose( 40 ), rounds = 1 + c.choose( 4 ), last_round = c.choose( 3 ); bool res = c.flip(), clear = c.flip(); c.op( "%d splits, %d rounds, last one %d%s%s", n, rounds, last_round, res ? ", reserved" : "", clear ? ", cleared before" : "" ); c.state( ( n * 10 + rounds ) * 12 + last_round * 4 + res * 2 + clear );
	vclock::now = 1'000'000'000LL; xo::stopwatch w; if ( clear ) { for ( int i = 0; i < n + 3; ++i ) { vclock::now += 5; w.split( "old" ); } vclock::now += 7; w.clear(); } if ( res ) w.reserve( n / 2 + 1 );
	std::vector< ll > ref; ll v = 1;
	for ( int r = 0; r < rounds; ++r )
	{
		if ( r ) { vclock::now += 1'000'000; w.restart(); } int k = r + 1 < rounds || rounds == 1 ? n : last_round == 0 ? n : last_round == 1 ? n / 2 : n + 5; // the last round can be shorter or longer
		for ( int i = 0; i < k; ++i ) { v = v * 31 % 1009; ll dt = v * 1'000'003; vclock::now += dt; w.split( ( "s" + std::to_string( i ) ).c_str() ); if ( size_t( i ) < ref.size() ) ref[ i ] += dt; else ref.push_back( dt ); }
	}
	c.eq( w.size(), ref.size(), "number of splits" ); ll total = 0; for ( size_t i = 0; i < ref.size(); ++i ) { c.eq( ns( w.split_times()[ i ] ), ref[ i ], "time of a split" ); c.eq( string( w.split_names()[ i ] ), "s" + std::to_string( i ), "name of a split" ); total += ref[ i ]; }
	auto pn = w.get_report( 9 ); c.eq( pn.size(), ref.size() + 1, "entries of the report" ); for ( size_t i = 0; i < ref.size(); ++i ) { auto& k = *( pn.begin() + i ); c.eq( string( k.first ), "s" + std::to_string( i ), "entry of the report" ); c.check( std::abs( seconds( k.second.get< string >() ) - ref[ i ] * 1e-9 ) < ( ref[ i ] < 9'000'000'000LL ? 1e-3 : 1.0 ), "time in the report: " + k.second.get< string >() ); }
	c.check( std::abs( seconds( pn.get< string >( "TOTAL" ) ) - total * 1e-9 ) < ( total < 9'000'000'000LL ? 1e-3 : total < 60'000'000'000LL ? 1.0 : 1e9 ), "total in the report" );
}
MC_SUITE( "interval checks" )
{
	ll interval = c.pick( { 0LL, 1LL, 3LL, 10LL } );
	c.note( "interval %lld", interval );
	xo::interval_checker k{ Tm( interval ) };
	ll t = 0, last = 0;
	int depth = c.thorough ? 9 : 7;
	for ( int d = 0; d < depth; ++d )
	{
		ll dt = c.pick( { 0LL, 1LL, 2LL, 3LL, 7LL, 25LL } ); t += dt;
		bool due = t - last >= interval;
		c.op( "at %lld", t );
		c.eq( k.check( Tm( t ) ), due, "check fires" );
		if ( due ) last = t;
		c.state( std::to_string( interval ) + "/" + std::to_string( t - last ) );
		if ( c.seen( std::to_string( interval ) + "/" + std::to_string( t - last ) + "/" + std::to_string( last == 0 ), depth - d ) ) throw mc::prune();
	}
}
static const std::vector< ll > grid = { 0, 1, 2, 3, 7, 999, 1000, 999'999, 1'000'000, 1'500'000, 999'999'999, 1'000'000'000, 1'000'000'001, 60'000'000'000LL, 86'400'000'000'000LL, 31'536'000'000'000'000LL };
MC_SUITE( "durations" )
{
	ll a = c.pick( grid ), b = c.pick( grid ); if ( c.flip() ) a = -a; if ( c.flip() ) b = -b;
	c.op( "%lld %lld", a, b ); c.state( mc::hash( &a, 8, b ) );
	Tm x( a ), y( b );
	c.eq( ns( x + y ), a + b, "+" ); c.eq( ns( x - y ), a - b, "-" ); c.eq( ns( -x ), -a, "negation" );
	{ Tm z( x ); z += y; c.eq( ns( z ), a + b, "+=" ); z = x; z -= y; c.eq( ns( z ), a - b, "-=" ); z.reset(); c.check( z.is_zero() && ns( z ) == 0, "reset" ); }
	c.eq( x < y, a < b, "<" ); c.eq( x <= y, a <= b, "<=" ); c.eq( x > y, a > b, ">" ); c.eq( x >= y, a >= b, ">=" ); c.eq( x == y, a == b, "==" ); c.eq( x != y, a != b, "!=" );
	c.eq( x.is_zero(), a == 0, "is_zero" );
	c.eq( ns( distance( x, y ) ), a > b ? a - b : b - a, "distance" );
	if ( b != 0 ) c.check( std::abs( x / y - double( a ) / double( b ) ) <= 1e-15 * std::abs( double( a ) / double( b ) ), "ratio" );
	for ( size_t n : { 1, 2, 3, 10 } ) { c.eq( ns( x / n ), a / ll( n ), "divided by a count" ); Tm z( x ); z /= n; c.eq( ns( z ), a / ll( n ), "/=" ); c.eq( ns( x / int( n ) ), a / ll( n ), "divided by an int" ); c.eq( ns( x * int( n ) ), a * ll( n ), "times an int" ); }
	c.check( std::abs( ns( x * 0.5 ) - a / 2 ) <= 1, "times 0.5" ); c.check( std::abs( ns( x / 2.0 ) - a / 2 ) <= 1, "divided by 2.0" );
	c.check( std::abs( x.secondsd() - a * 1e-9 ) <= 1e-15 * std::abs( a * 1e-9 ), "seconds" ); c.check( std::abs( x.milliseconds() - a * 1e-6 ) <= 1e-15 * std::abs( a * 1e-6 ), "milliseconds" );
	c.check( std::abs( x.secondsf() - float( a * 1e-9 ) ) <= 1e-6 * std::abs( a * 1e-9 ), "seconds as float" ); c.check( std::abs( x.millisecondsf() - float( a * 1e-6 ) ) <= 1e-6 * std::abs( a * 1e-6 ), "milliseconds as float" );
	c.eq( x.nanosecondsd(), double( a ), "nanoseconds" );
	c.eq( x.seconds< ll >(), a / 1'000'000'000, "whole seconds" );
	if ( std::abs( a ) < ( 1LL << 52 ) ) { c.eq( ns( xo::time_from_seconds( x.secondsd() ) ), a, "from seconds" ); c.eq( ns( xo::time_from_milliseconds( x.milliseconds() ) ), a, "from milliseconds" ); c.eq( ns( xo::time_from_nanoseconds( a ) ), a, "from nanoseconds" ); }
	if ( a % 1'000'000'000 == 0 ) c.eq( ns( xo::time_from_seconds( int( std::abs( a ) / 1'000'000'000 % 100000 ) ) ), std::abs( a ) / 1'000'000'000 % 100000 * 1'000'000'000, "from whole seconds" );
}
MC_SUITE( "literals" )
{
	using namespace xo::time_literals;
	c.eq( ns( 7_ns ), 7LL, "ns" ); c.eq( ns( 7_ms ), 7'000'000LL, "ms" ); c.eq( ns( 7_s ), 7'000'000'000LL, "s" ); c.eq( ns( 7_minute ), 420'000'000'000LL, "minute" );
	c.eq( ns( 7_hour ), 25'200'000'000'000LL, "hour" ); c.eq( ns( 7_day ), 604'800'000'000'000LL, "day" ); c.eq( ns( 7_year ), 220'752'000'000'000'000LL, "year" );
	c.op( "literals" ); c.state( 1 );
}
