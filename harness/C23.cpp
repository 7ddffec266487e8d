// MC: mode=sched
// Logging: sink management histories, message forms, and all schedules of logging and sink management.
#include "mc.h"
#include "mcsched.h"
#include <map>
#include <memory>
#include <sstream>
#include <fstream>
#include <iostream>
#include "xo/system/log.h"
#include "xo/system/log_sink.h"
#include "xo/string/string_tools.h"

using std::string;
namespace xl = xo::log;
using L = xl::level;
using Msgs = std::vector< std::pair< int, string > >;

/// records per thread, so that it adds no synchronisation of its own
struct rec_sink : xl::sink
{
	Msgs got[ 8 ]; int flushed[ 8 ] = {};
	rec_sink( L l, xl::sink_mode m = xl::sink_mode::all_threads ) : sink( l, {}, m ) {}
	void hande_log_message( L l, const string& msg ) override { got[ sched::tid() ].push_back( { (int)l, msg } ); }
	void flush() override { flushed[ sched::tid() ]++; }
};

static const std::vector< L > msg_levels = { L::trace, L::debug, L::info, L::warning, L::error, L::critical };
static void emit( L l, const string& m )
{
	switch ( l )
	{
	case L::trace: xl::message( l, m ); break; // log::trace() may be disabled at compile time
	case L::debug: xl::message( l, m ); break;
	case L::info: xl::info( m ); break;
	case L::warning: xl::warning( m ); break;
	case L::error: xl::error( m ); break;
	default: xl::critical( m );
	}
}

#define SINGLE( ... ) sched::run( c, { [&] { __VA_ARGS__; } }, 0 )

static void sink_histories( mc::Ctx& c, int sinks, int depth )
{
	SINGLE(
		struct S { std::unique_ptr< rec_sink > s; bool registered = false; L level = L::never; bool here = true; Msgs want; int flushes = 0; };
		std::vector< S > v( sinks );
		std::vector< L > lev = { L::always, L::debug, L::warning, L::critical, L::never };
		if ( sinks > 2 ) { lev = { L::debug, L::warning, L::never }; for ( auto& x : v ) { x.level = c.pick( lev ); c.op( "create at level %d", (int)x.level ); x.s = std::make_unique< rec_sink >( x.level ); x.registered = true; } }
		else { v[ 0 ].s = std::make_unique< rec_sink >( L::info ); v[ 0 ].registered = true; v[ 0 ].level = L::info; }
		int n = 0;
		for ( int d = 0; d < depth; ++d )
		{
			int op = c.choose( 6 ); int i = op == 5 ? 0 : c.choose( sinks ); auto& x = v[ i ];
			if ( op == 0 ) { if ( x.s ) { c.op( "destroy %d", i ); x = S(); } else { x.level = c.pick( lev ); c.op( "create %d at level %d", i, (int)x.level ); x.s = std::make_unique< rec_sink >( x.level ); x.registered = true; } }
			else if ( op == 5 ) { L l = c.pick( msg_levels ); c.op( "message" ); emit( l, "x" + std::to_string( ++n ) );
				for ( auto& y : v ) if ( y.s && y.registered && l >= y.level ) y.want.push_back( { (int)l, "x" + std::to_string( n ) } );
				if ( l >= L::error ) for ( auto& y : v ) if ( y.s && y.registered ) y.flushes++; }
			else
			{
				if ( !x.s ) throw mc::prune();
				if ( op == 1 ) { c.op( "add %d", i ); xl::add_sink( x.s.get() ); x.registered = true; }
				else if ( op == 2 ) { c.op( "remove %d", i ); xl::remove_sink( x.s.get() ); x.registered = false; }
				else if ( op == 3 ) { x.level = c.pick( lev ); c.op( "level of %d = %d", i, (int)x.level ); x.s->set_log_level( x.level ); }
				else if ( op == 4 ) { auto m = c.flip() ? xl::sink_mode::all_threads : xl::sink_mode::current_thread; c.op( "mode" ); x.s->set_sink_mode( m ); }
			}
			// every level is filtered right after every operation
			for ( L l : msg_levels )
			{
				bool any = false;
				for ( auto& y : v ) { bool yes = y.s && l >= y.level; any |= yes && y.registered; if ( y.s ) c.eq( y.s->test_log_level( l ), yes, "level accepted by the sink" ); }
				c.eq( xl::test_log_level( l ), any, "level wanted by some sink" );
				if ( d == depth - 1 )
				{
					string m = "probe" + std::to_string( (int)l );
					emit( l, m );
					for ( auto& y : v ) if ( y.s && y.registered ) { if ( l >= y.level ) y.want.push_back( { (int)l, m } ); if ( l >= L::error ) y.flushes++; }
				}
			}
			string st;
			for ( auto& y : v ) if ( y.s )
			{
				auto t = sched::tid();
				c.eq( y.s->got[ t ], y.want, "messages received" );
				c.eq( y.s->flushed[ t ], y.flushes, "flushes" );
				c.eq( (int)y.s->get_log_level(), (int)y.level, "level of the sink" );
				st += std::to_string( (int)y.level ) + ( y.registered ? "r" : "-" );
			}
			c.state( st );
		}
	);
}
MC_SUITE( "histories of sinks and messages" ) { sink_histories( c, 2, c.thorough ? 5 : 4 ); }
MC_SUITE( "histories of three sinks" ) { sink_histories( c, 3, c.thorough ? 4 : 3 ); }
MC_SUITE_THOROUGH( "histories of four sinks" ) { sink_histories( c, 4, 3 ); }

MC_SUITE( "many sinks" )
{
	SINGLE(
		int n = c.pick( { 5, 8, 9, 16, 17, 33, 65 } ); int order = c.choose( 3 ); int step = c.choose( 3 ) + 2; c.op( "%d sinks, order %d, every %d", n, order, step ); c.state( n * 9 + order * 3 + step );
		std::vector< std::unique_ptr< rec_sink > > v; std::vector< Msgs > want( n ); std::vector< bool > there( n, true ); static const L lev[] = { L::trace, L::info, L::error };
		for ( int i = 0; i < n; ++i ) v.push_back( std::make_unique< rec_sink >( lev[ i % 3 ] ) );
		auto all = [&]( const string& m ) { for ( L l : msg_levels ) { emit( l, m ); for ( int i = 0; i < n; ++i ) if ( there[ i ] && l >= lev[ i % 3 ] ) want[ i ].push_back( { (int)l, m } ); } for ( int i = 0; i < n; ++i ) if ( v[ i ] ) c.eq( v[ i ]->got[ sched::tid() ], want[ i ], "messages received by one of many sinks" ); };
		all( "first" );
		for ( int k = 0; k < n; ++k ) { int i = order == 0 ? k : order == 1 ? n - 1 - k : k * 37 % n; if ( i % step == 0 && there[ i ] ) { xl::remove_sink( v[ i ].get() ); there[ i ] = false; } } all( "some removed" );
		for ( int i = 0; i < n; i += step * 2 ) { xl::add_sink( v[ i ].get() ); there[ i ] = true; } all( "some added again" );
		for ( int i = 1; i < n; i += step ) if ( v[ i ] ) { v[ i ].reset(); there[ i ] = false; } all( "some destroyed" );
		bool any = false; for ( int i = 0; i < n; ++i ) any |= there[ i ] && i % 3 == 0; c.eq( xl::test_log_level( L::debug ), any, "level wanted by some sink" );
	);
}
MC_SUITE( "message forms" )
{
	rec_sink s( L::trace );
	int form = c.choose( 11 );
	string text = c.choose( 2 ) ? string( c.pick( { 0, 1, 10, 1022, 1023, 1024, 1025, 2047, 2048, 5000 } ), 'm' ) : c.str( string( "a%\n\0 ", 5 ), 3 );
	c.op( "form %d, %zu bytes", form, text.size() );
	string ctext = text.c_str(); // for printf style
	string want; L l = L::info;
	switch ( form )
	{
	case 0: xl::info( text ); want = text; break;
	case 1: xl::warning( text, 5, "b", 1.5, text ); want = text + "5b1.5" + text; l = L::warning; break;
	case 2: xl::infof( "%s", ctext.c_str() ); want = ctext; break;
	case 3: xl::warningf( "%d%s|%s", -3, ctext.c_str(), ctext.c_str() ); want = "-3" + ctext + "|" + ctext; l = L::warning; break;
	case 4: xl::errorf( "%s!", ctext.c_str() ); want = ctext + "!"; l = L::error; break;
	case 5: xl::criticalf( "%s", ctext.c_str() ); want = ctext; l = L::critical; break;
	case 6: xl::log_string( L::debug, text ); want = text; l = L::debug; break;
	case 7: xl::message( L::trace, text ); want = text; l = L::trace; break;
	case 8: xl::error( text ); want = text; l = L::error; break;
	case 9: xl::critical( text, "c" ); want = text + "c"; l = L::critical; break;
	case 10: xl::messagef( L::debug, "%s%c", ctext.c_str(), 'z' ); want = ctext + "z"; l = L::debug; break;
	}
	c.eq( s.got[ 0 ], Msgs{ { (int)l, want } }, "message received" );
	c.eq( s.flushed[ 0 ], (int)( l >= L::error ), "flush on error" );
}

static std::vector< string > lines( const string& s )
{
	std::vector< string > r; std::istringstream is( s ); string l;
	// the form of the prefix is not specified
	while ( std::getline( is, l ) ) { if ( l.size() > 9 && l[ 2 ] == ':' && l[ 5 ] == ':' && l[ 8 ] == ' ' ) l = l.substr( 9 ); r.push_back( l ); }
	return r;
}

MC_SUITE( "stream, file and console sinks: content" )
{
	c.clean_scratch();
	sched::virtual_time = 1700000000; // 22:13:20
	int kind = c.choose( 3 );
	L lev = c.pick( { L::trace, L::warning, L::never } );
	string file = c.scratch() + ( c.flip() ? "/sub/dir/x.log" : "/x.log" );
	std::ostringstream out, cout_text;
	auto* old = std::cout.rdbuf( cout_text.rdbuf() );
	std::vector< string > want;
	std::unique_ptr< xl::sink > s;
	if ( kind == 0 ) s = std::make_unique< xl::stream_sink >( out, lev );
	else if ( kind == 1 ) s = std::make_unique< xl::file_sink >( xo::path( file ), lev );
	else s = std::make_unique< xl::console_sink >( lev );
	try
	{
		for ( int i = 0; i < 3; ++i )
		{
			L l = c.pick( { L::debug, L::warning, L::error } );
			string m = c.pick( { string( "one" ), string( "two words" ), string( 300, 'q' ) } );
			c.op( "log at %d", (int)l );
			emit( l, m );
			if ( l >= lev ) want.push_back( m );
		}
	}
	catch ( ... ) { std::cout.rdbuf( old ); throw; }
	s.reset();
	emit( L::critical, "after the sink is gone" );
	std::cout.rdbuf( old );
	string text = kind == 0 ? out.str() : kind == 2 ? cout_text.str() : ( [&] { std::ifstream f( file ); std::stringstream ss; ss << f.rdbuf(); return ss.str(); } )();
	c.eq( lines( text ), want, "lines written" );
	if ( !text.empty() ) c.check( text.back() == '\n', "last line is complete" );
}

// ---- schedules -------------------------------------------------------------------------------------------
static Msgs of( const string& who, int n, L l = L::info ) { Msgs m; for ( int i = 0; i < n; ++i ) m.push_back( { (int)l, who + std::to_string( i ) } ); return m; }
static void send( const string& who, int n, L l = L::info ) { for ( int i = 0; i < n; ++i ) emit( l, who + std::to_string( i ) ); }
/// an increasing selection without repetition
static bool selection( const Msgs& got, const Msgs& all ) { size_t k = 0; for ( auto& m : got ) { while ( k < all.size() && all[ k ] != m ) ++k; if ( k++ >= all.size() ) return false; } return true; }

MC_SUITE( "schedules: loggers" )
{
	int nt = 2 + c.choose( 2 ); int n = nt == 2 ? 1 + c.choose( 2 ) : 1;
	L l = c.pick( { L::info, L::error } );
	c.note( "%d threads, %d messages", nt, n );
	rec_sink a( L::trace ), b( L::error ), z( L::never );
	std::vector< std::function< void() > > f;
	for ( int t = 1; t <= nt; ++t ) f.push_back( [=] { send( "t" + std::to_string( t ) + "m", n, l ); } );
	sched::run( c, f, c.thorough ? 4 : nt == 2 ? 3 : 2 );
	for ( int t = 1; t <= nt; ++t )
	{
		auto all = of( "t" + std::to_string( t ) + "m", n, l );
		c.eq( a.got[ t ], all, "messages of a thread" );
		c.eq( b.got[ t ], l >= L::error ? all : Msgs(), "messages of a thread at a sink with a higher level" );
		c.eq( z.got[ t ], Msgs(), "messages at a silent sink" );
	}
}

MC_SUITE( "schedules: level changes of the listening sink" )
{
	L to1 = c.pick( { L::trace, L::debug, L::info } ), to2 = c.pick( { L::always, L::debug, L::warning } );
	bool other = c.flip();
	rec_sink a( L::debug ); std::unique_ptr< rec_sink > b; if ( other ) b = std::make_unique< rec_sink >( L::warning );
	c.note( "to %d, then %d", (int)to1, (int)to2 );
	std::atomic< int > off{ 0 };
	sched::run( c, { [&] { a.set_log_level( to1 ); if ( to2 > L::info ) off.store( 1 ); a.set_log_level( to2 ); },
		[&] {
			for ( int i = 0; i < 2; ++i )
			{
				emit( L::info, "m" + std::to_string( i ) );
				// as long as the sink accepts the level throughout the call, the message arrives
				if ( !off.load() ) sched::check( a.got[ 2 ].size() == (size_t)i + 1, "a message was lost while the level of the sink changed" );
			}
		} }, c.thorough ? 5 : 4 );
	c.check( selection( a.got[ 2 ], of( "m", 2 ) ), "messages repeated or out of order" );
	if ( b ) c.eq( b->got[ 2 ], Msgs(), "messages below the level of a sink" );
	c.eq( (int)a.get_log_level(), (int)to2, "level" );
	emit( L::info, "end" );
	c.eq( a.got[ 0 ].size(), (size_t)( to2 <= L::info ), "message after the level changed" );
}

MC_SUITE( "schedules: other sinks added, removed and changed" )
{
	int k = c.choose( 6 );
	bool two = c.flip();
	c.note( "case %d, %d loggers", k, two + 1 );
	rec_sink a( L::info ), b( L::trace );
	size_t after = ~0ull; size_t before[ 2 ] = {};
	auto manage = [&] {
		switch ( k )
		{
		case 0: xl::remove_sink( &b ); after = b.got[ 2 ].size() + b.got[ 3 ].size(); break;
		case 1: xl::remove_sink( &b ); xl::add_sink( &b ); break;
		case 2: xl::add_sink( &b ); xl::add_sink( &a ); break;
		case 3: b.set_log_level( L::never ); b.set_log_level( L::trace ); break;
		case 4: { rec_sink x( L::error ); } break;
		case 5: xl::remove_sink( &b ); b.set_log_level( L::never ); break;
		}
	};
	if ( k == 4 ) xl::remove_sink( &b );
	std::vector< std::function< void() > > f = { [&] {
		if ( k == 4 ) { xl::add_sink( &b ); xl::remove_sink( &b ); } else manage(); },
		[&] { send( "p", 2 ); } };
	if ( two ) f.push_back( [&] { send( "q", 1, L::warning ); } );
	// the count after removal is read by thread 1 without a race only when removal excludes delivery
	sched::run( c, f, c.thorough ? 4 : two ? 3 : 4 );
	c.eq( a.got[ 2 ], of( "p", 2 ), "messages lost or repeated while another sink is managed" );
	if ( two ) c.eq( a.got[ 3 ], of( "q", 1, L::warning ), "messages lost or repeated while another sink is managed" );
	c.check( selection( b.got[ 2 ], of( "p", 2 ) ) && selection( b.got[ 3 ], of( "q", 1, L::warning ) ), "messages repeated or out of order" );
	if ( k == 2 ) c.eq( b.got[ 2 ], of( "p", 2 ), "messages lost while a registered sink is added again" );
	if ( after != ~0ull ) c.eq( b.got[ 2 ].size() + b.got[ 3 ].size(), after, "messages delivered after the sink was removed" );
	c.state( std::to_string( k ) + mc::show( b.got[ 2 ] ) + mc::show( b.got[ 3 ] ) );
}

MC_SUITE( "schedules: stream, file and console sinks" )
{
	c.clean_scratch();
	sched::virtual_time = 1700000000;
	int kind = c.choose( 3 ); int n = 1 + c.choose( 2 ); L l = c.pick( { L::info, L::error } );
	c.note( "kind %d, %d messages at %d", kind, n, (int)l );
	std::ostringstream out, cout_text; string file = c.scratch() + "/x.log";
	auto* old = std::cout.rdbuf( cout_text.rdbuf() );
	string err;
	{
		std::unique_ptr< xl::sink > s;
		if ( kind == 0 ) s = std::make_unique< xl::stream_sink >( out, L::info );
		else if ( kind == 1 ) s = std::make_unique< xl::file_sink >( xo::path( file ), L::info );
		else s = std::make_unique< xl::console_sink >( L::info );
		try { sched::run( c, { [&] { send( "first ", n, l ); }, [&] { send( "second ", n, l ); } }, c.thorough ? 4 : 3 ); }
		catch ( ... ) { std::cout.rdbuf( old ); throw; }
	}
	std::cout.rdbuf( old );
	string text = kind == 0 ? out.str() : kind == 2 ? cout_text.str() : ( [&] { std::ifstream f( file ); std::stringstream ss; ss << f.rdbuf(); return ss.str(); } )();
	auto ls = lines( text );
	c.eq( ls.size(), (size_t)( 2 * n ), "number of lines" );
	int i = 0, k = 0;
	for ( auto& s : ls )
	{
		if ( s == "first " + std::to_string( i ) ) ++i;
		else if ( s == "second " + std::to_string( k ) ) ++k;
		else c.fail( "mixed up line: " + mc::esc( s ) );
	}
	c.state( text );
}

MC_SUITE( "schedules: sinks created and destroyed meanwhile" )
{
	c.clean_scratch();
	sched::virtual_time = 1700000000;
	int kind = c.choose( 3 ); bool existing = c.flip();
	c.note( "kind %d, existing %d", kind, existing );
	rec_sink a( L::trace );
	std::ostringstream out, cout_text; string file = c.scratch() + "/x.log";
	auto* old = std::cout.rdbuf( cout_text.rdbuf() );
	auto make = [&]() -> std::unique_ptr< xl::sink > {
		if ( kind == 0 ) return std::make_unique< xl::stream_sink >( out, L::info );
		else if ( kind == 1 ) return std::make_unique< xl::file_sink >( xo::path( file ), L::info );
		else return std::make_unique< xl::console_sink >( L::info ); };
	std::unique_ptr< xl::sink > s; if ( existing ) s = make();
	try { sched::run( c, { [&] { if ( existing ) s.reset(); else { s = make(); s.reset(); } }, [&] { send( "m", 2 ); } }, c.thorough ? 4 : 3 ); }
	catch ( ... ) { std::cout.rdbuf( old ); throw; }
	std::cout.rdbuf( old );
	c.eq( a.got[ 2 ], of( "m", 2 ), "messages at another sink" );
	string text = kind == 0 ? out.str() : kind == 2 ? cout_text.str() : ( [&] { std::ifstream f( file ); std::stringstream ss; ss << f.rdbuf(); return ss.str(); } )();
	Msgs got; for ( auto& s : lines( text ) ) got.push_back( { (int)L::info, s } );
	c.check( selection( got, of( "m", 2 ) ), "messages repeated or out of order" );
	c.state( text );
}

MC_SUITE( "schedules: sinks of a single thread" )
{
	sched::virtual_time = 1700000000;
	bool two = c.flip();
	rec_sink a( L::trace );
	std::ostringstream out[ 2 ];
	auto body = [&]( int i, const string& who, bool own ) {
		if ( own )
		{
			xl::stream_sink mine( out[ i ], L::info, xl::sink_mode::current_thread );
			send( who, 2 );
		}
		else send( who, 2 );
	};
	sched::run( c, { [&] { body( 0, "x", true ); }, [&] { body( 1, "y", two ); } }, c.thorough ? 4 : 3 );
	c.eq( a.got[ 1 ], of( "x", 2 ), "messages" );
	c.eq( a.got[ 2 ], of( "y", 2 ), "messages" );
	c.eq( lines( out[ 0 ].str() ), std::vector< string >{ "x0", "x1" }, "messages at a sink of one thread" );
	if ( two ) c.eq( lines( out[ 1 ].str() ), std::vector< string >{ "y0", "y1" }, "messages at a sink of one thread" );
}

MC_SUITE( "the mode of a sink is set by several threads" )
{
	// every operation is a step of its own, in all orders
	int script[ 2 ]; for ( auto& x : script ) x = c.choose( 5 );
	bool start_here = c.flip();
	struct E { int thread, op, msg; }; std::vector< E > log; std::mutex m;
	rec_sink a( L::info, start_here ? xl::sink_mode::current_thread : xl::sink_mode::all_threads );
	auto body = [&]( int i ) {
		// two mode changes, with a message before, between and after
		int ops[] = { 2, script[ i ] % 3, 2, script[ i ] == 3 ? 0 : script[ i ] == 4 ? 1 : script[ i ], 2 }, n = 0;
		for ( int op : ops )
		{
			std::scoped_lock lock( m );
			if ( op == 2 ) { int k = n++; log.push_back( { i, 2, k } ); xl::info( "t", i, "m", k ); }
			else { a.set_sink_mode( op ? xl::sink_mode::current_thread : xl::sink_mode::all_threads ); log.push_back( { i, op, 0 } ); }
		}
	};
	sched::run( c, { [&] { body( 0 ); }, [&] { body( 1 ); } }, c.thorough ? 4 : 3 );
	int owner = start_here ? -1 : -2; Msgs want[ 2 ]; // -2: all threads
	for ( auto& e : log )
		if ( e.op == 2 ) { if ( owner == -2 || owner == e.thread ) want[ e.thread ].push_back( { (int)L::info, "t" + std::to_string( e.thread ) + "m" + std::to_string( e.msg ) } ); }
		else owner = e.op ? e.thread : -2;
	for ( int i = 0; i < 2; ++i ) c.eq( a.got[ i + 1 ], want[ i ], "messages at a sink whose mode changes" );
}
