// MC: mode=sched
// File resource cache: request histories with file changes and load failures under a virtual clock, and all schedules
// of concurrent requests.
#include "mc.h"
#include "mcsched.h"
#include <map>
#include <string>
#include <functional>
#include <fcntl.h>
#include <unistd.h>
#include <sys/stat.h>
#include <sys/time.h>
#include "xo/system/assert.h"
#include "xo/filesystem/filesystem.h"
#include "xo/utility/file_resource_cache.h"

using std::string;
static std::string raw_read( const string& f )
{
	char b[ 64 ]; int fd = open( f.c_str(), O_RDONLY ); if ( fd < 0 ) throw std::runtime_error( "cannot open" );
	int n = read( fd, b, 64 ); close( fd ); return string( b, n );
}
static void raw_write( const string& f, const string& s, long mtime )
{
	int fd = open( f.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644 ); if ( write( fd, s.data(), s.size() ) < 0 ) {} close( fd );
	timeval tv[ 2 ] = { { mtime, 0 }, { mtime, 0 } }; utimes( f.c_str(), tv );
}

struct res { string text; string file; };
using cache_t = xo::file_resource_cache< res, xo::path >;

constexpr long T0 = 1700000000;

struct File { string name; bool exists = false; int version = 0; long mtime = 0; bool bad = false; };
static string content( const File& f ) { return f.name.substr( f.name.rfind( '/' ) + 1 ) + " v" + std::to_string( f.version ); }

static void histories( mc::Ctx& c, std::vector< int > ops, int depth )
{
	sched::run( c, { [&] {
		c.clean_scratch();
		long now = T0; sched::virtual_time = now;
		File f[ 2 ]; for ( int i = 0; i < 2; ++i ) f[ i ].name = c.scratch() + "/" + char( 'a' + i );
		int stamp = 0;
		auto put = [&]( File& x, int offset ) { x.exists = true; x.version++; ++stamp; x.mtime = T0 + offset + ( offset < 0 ? -stamp : stamp ); raw_write( x.name, content( x ), x.mtime ); };
		put( f[ 0 ], 0 ); put( f[ 1 ], 0 );
		int creates = 0, clones = 0;
		bool fail_create = false;
		cache_t cache( [&]( const xo::path& p ) -> res* { ++creates; if ( fail_create ) throw std::runtime_error( "broken" ); return new res{ raw_read( p.str() ), p.str() }; },
			[&]( const res& r ) { ++clones; return new res( r ); } );
		// what the contents were at which time
		struct Ev { long t; string text; };
		std::vector< Ev > hist[ 2 ]; for ( int i = 0; i < 2; ++i ) hist[ i ].push_back( { now, content( f[ i ] ) } );
		string loaded[ 2 ]; bool have[ 2 ] = { false, false }, failed[ 2 ] = { false, false }; // since the last successful request
		for ( int d = 0; d < depth; ++d )
		{
			int op = c.pick( ops );
			if ( d == depth - 1 && op >= 2 ) throw mc::prune(); // the last operation is a request
			if ( op <= 1 )
			{
				int i = op; File& x = f[ i ];
				c.op( "request %c", 'a' + i );
				int c0 = creates;
				std::unique_ptr< res > r; bool threw = false;
				try { r = cache( xo::path( x.name ) ); } catch ( std::exception& e ) { threw = true; }
				bool loadable = x.exists && !fail_create;
				if ( threw )
				{
					// an unchanged resource needs no load, so there is nothing that could fail
					c.check( !x.exists || ( fail_create && !( have[ i ] && loaded[ i ] == content( x ) && !failed[ i ] ) ), "a request fails although nothing is wrong with the file" );
					failed[ i ] = true;
				}
				else
				{
					c.check( r != nullptr, "no resource" );
					std::vector< string > ok;
					for ( size_t k = 0; k < hist[ i ].size(); ++k )
					{
						// contents in force at some moment of the last three seconds
						long until = k + 1 < hist[ i ].size() ? hist[ i ][ k + 1 ].t : now;
						if ( k + 1 == hist[ i ].size() || until >= now - 3 ) ok.push_back( hist[ i ][ k ].text );
					}
					string cur = hist[ i ].back().text;
					bool found = false; for ( auto& s : ok ) if ( s == r->text && !s.empty() ) found = true;
					c.check( found, "stale or wrong resource: got " + r->text + ", the file holds " + ( cur.empty() ? "nothing" : cur ) );
					c.eq( r->file, x.name, "resource of another file" );
					if ( failed[ i ] ) c.check( loadable && r->text == cur, "a failed load left a stale entry behind: got " + r->text + ", the file holds " + ( cur.empty() ? "nothing" : cur ) );
					if ( have[ i ] && !failed[ i ] && loaded[ i ] == r->text ) c.eq( creates - c0, 0, "loads of an unchanged file" );
					else c.eq( creates - c0, 1, "loads of a new or changed file" );
					if ( creates != c0 ) c.eq( r->text, cur, "a load gives the current content" );
					loaded[ i ] = r->text; have[ i ] = true; failed[ i ] = false;
					r->text = "changed by the caller"; // the cache must have kept its own copy
				}
			}
			else if ( op <= 3 || op == 9 ) { c.op( op == 2 ? "change a" : op == 3 ? "change a to an older file" : "change a to a file of the near future" ); put( f[ 0 ], op == 2 ? 100 : op == 3 ? -100 : 50 ); hist[ 0 ].push_back( { now, content( f[ 0 ] ) } ); }
			else if ( op == 4 ) { if ( !f[ 0 ].exists ) throw mc::prune(); c.op( "delete a" ); unlink( f[ 0 ].name.c_str() ); f[ 0 ].exists = false; hist[ 0 ].push_back( { now, "" } ); }
			else if ( op == 5 ) { fail_create = !fail_create; c.op( fail_create ? "loads fail" : "loads work" ); }
			else { int dt = op == 6 ? 1 : op == 7 ? 3 : 4; c.op( "+%ds", dt ); now += dt; sched::virtual_time = now; }
		}
	} }, 0 );
}
MC_SUITE( "histories" ) { histories( c, { 0, 1, 2, 3, 4, 5, 6, 7, 8 }, c.thorough ? 7 : 6 ); }
MC_SUITE( "long histories of changes" ) { histories( c, { 0, 2, 9, 3, 8 }, c.thorough ? 9 : 8 ); }

static void concurrent( mc::Ctx& c, std::vector< std::vector< int > > reqs, bool warm, int expired, int modify, int fail, int pb )
{
	c.clean_scratch();
	sched::virtual_time = T0;
	string names[ 3 ]; for ( int i = 0; i < 3; ++i ) { names[ i ] = c.scratch() + "/f" + std::to_string( i ); raw_write( names[ i ], "f" + std::to_string( i ) + " v1", T0 - 50 ); }
	static std::atomic< int > creates[ 3 ]; static std::atomic< int > fails_left;
	for ( auto& x : creates ) x.store( 0, std::memory_order_relaxed );
	fails_left.store( 0, std::memory_order_relaxed );
	cache_t cache( [&]( const xo::path& p ) -> res* {
		int i = p.str().back() - '0';
		creates[ i ].fetch_add( 1, std::memory_order_relaxed );
		if ( fails_left.load( std::memory_order_relaxed ) > 0 ) { fails_left.fetch_sub( 1, std::memory_order_relaxed ); throw std::runtime_error( "broken" ); }
		string s = raw_read( p.str() );
		sched::yield();
		return new res{ s, p.str() };
	}, []( const res& r ) { sched::yield(); return new res( r ); } );
	if ( warm ) { for ( int i = 0; i < 2; ++i ) cache( xo::path( names[ i ] ) ); sched::virtual_time = T0 + expired; }
	if ( modify == 2 ) for ( int i = 0; i < 2; ++i ) raw_write( names[ i ], "f" + std::to_string( i ) + " v2", T0 - 10 );
	for ( auto& x : creates ) x.store( 0, std::memory_order_relaxed );
	fails_left.store( fail, std::memory_order_relaxed );
	std::vector< int > failures( reqs.size() );
	std::vector< std::vector< string > > got( reqs.size() );
	std::vector< std::function< void() > > fns;
	for ( size_t t = 0; t < reqs.size(); ++t ) fns.push_back( [&, t] {
		for ( int i : reqs[ t ] )
		{
			if ( i < 0 ) { sched::yield(); raw_write( names[ -i - 1 ], "f" + std::to_string( -i - 1 ) + " v2", T0 - 10 ); continue; }
			try
			{
				auto r = cache( xo::path( names[ i ] ) );
				sched::check( r && r->file == names[ i ] && r->text.substr( 0, 3 ) == "f" + std::to_string( i ) + " ", "resource of another file" );
				got[ t ].push_back( std::to_string( i ) + r->text.substr( 3 ) );
				r->text = "mine";
			}
			catch ( std::exception& ) { failures[ t ]++; }
		}
	} );
	sched::run( c, fns, pb );
	int nf = 0; for ( int x : failures ) nf += x;
	c.eq( nf, fail - fails_left.load(), "each failed load is reported to exactly one requester" );
	std::map< string, int > vers;
	for ( auto& v : got ) for ( auto& s : v ) vers[ s ]++;
	for ( int i = 0; i < 2; ++i )
	{
		string n = std::to_string( i );
		bool asked = vers.count( n + "v1" ) || vers.count( n + "v2" );
		if ( modify == 2 && ( !warm || expired > 3 ) ) c.check( !vers.count( n + "v1" ), "stale resource" );
		if ( modify == 0 ) c.check( !vers.count( n + "v2" ), "resource from nowhere" );
		if ( fail == 0 && modify != 1 && asked )
			c.eq( creates[ i ].load(), ( !warm || ( modify == 2 && expired > 3 ) ) ? 1 : 0, "number of loads of a file" );
	}
	// afterwards, when the check interval has passed, everything is fresh and loaded at most once more
	fails_left.store( 0 );
	sched::virtual_time = T0 + 100;
	for ( int i = 0; i < 2; ++i ) c.eq( cache( xo::path( names[ i ] ) )->text, raw_read( names[ i ] ), "resource after the threads have ended" );
	string st; for ( auto& [ k, v ] : vers ) st += k + mc::show( v );
	c.state( st + mc::show( failures ) );
}

MC_SUITE( "schedules: requests" )
{
	bool warm = c.flip(); int expired = warm ? c.pick( { 2, 10 } ) : 0; int modify = warm ? c.pick( { 0, 2 } ) : 0;
	int k = c.choose( 4 );
	c.note( "warm %d, age %d, modified %d, case %d", warm, expired, modify, k );
	std::vector< std::vector< std::vector< int > > > cases = { { { 0 }, { 0 } }, { { 0 }, { 1 } }, { { 0, 1 }, { 1, 0 } }, { { 0, 0 }, { 0, 1 } } };
	concurrent( c, cases[ k ], warm, expired, modify, 0, c.thorough ? 4 : 3 );
}
MC_SUITE( "schedules: three requesters" )
{
	bool warm = c.flip(); int modify = warm ? 2 : 0;
	int k = c.choose( 2 );
	c.note( "warm %d, case %d", warm, k );
	std::vector< std::vector< std::vector< int > > > cases = { { { 0 }, { 0 }, { 0 } }, { { 0 }, { 1 }, { 0 } } };
	concurrent( c, cases[ k ], warm, 10, modify, 0, c.thorough ? 3 : 2 );
}
MC_SUITE( "schedules: file changes meanwhile" )
{
	bool warm = c.flip();
	int k = c.choose( 3 );
	c.note( "warm %d, case %d", warm, k );
	std::vector< std::vector< std::vector< int > > > cases = { { { 0 }, { -1 } }, { { 0 }, { -1, 0 } }, { { 0 }, { 0 }, { -1 } } };
	concurrent( c, cases[ k ], warm, 10, 1, 0, c.thorough ? 4 : 3 );
}
MC_SUITE( "schedules: failing loads" )
{
	bool warm = c.flip(); int n = 1 + c.choose( 2 );
	int k = c.choose( 3 );
	c.note( "warm %d, %d failures, case %d", warm, n, k );
	std::vector< std::vector< std::vector< int > > > cases = { { { 0 }, { 0 } }, { { 0, 0 }, { 0 } }, { { 0 }, { 0 }, { 0 } } };
	concurrent( c, cases[ k ], warm, 10, warm ? 2 : 0, n, c.thorough ? 3 : 2 );
}
MC_SUITE( "many files" )
{
	sched::run( c, { [&] {
		int n = c.pick( { 3, 8, 9, 16, 17, 33, 65, 100 } ), changed = c.choose( 4 ), wait = c.choose( 2 ); c.op( "%d files, change %d, wait %d", n, changed, wait ); c.state( ( n * 4 + changed ) * 2 + wait );
		c.clean_scratch(); long now = T0; sched::virtual_time = now; std::vector< File > f( n ); int creates = 0, clones = 0;
		auto put = [&]( File& x, long t ) { x.exists = true; x.version++; x.mtime = t; raw_write( x.name, content( x ), x.mtime ); };
		for ( int i = 0; i < n; ++i ) { f[ i ].name = c.scratch() + "/" + ( i % 2 ? "f" : "file" ) + std::to_string( i ); put( f[ i ], T0 - i ); }
		cache_t cache( [&]( const xo::path& p ) -> res* { ++creates; return new res{ raw_read( p.str() ), p.str() }; }, [&]( const res& r ) { ++clones; return new res( r ); } );
		auto all = [&]( const char* what ) { for ( int i = 0; i < n; ++i ) { auto r = cache( xo::path( f[ i ].name ) ); c.check( r && r->text == content( f[ i ] ) && r->file == f[ i ].name, what ); } };
		all( "first request" ); c.eq( creates, n, "loads" ); all( "second request" ); c.eq( creates, n, "loads of unchanged files" );
		now += wait ? 3600 : 10; sched::virtual_time = now; all( "request of unchanged files" ); c.eq( creates, n, "loads of unchanged files" );
		int k = 0; for ( int i = 0; i < n; ++i ) if ( changed == 0 ? i == 0 : changed == 1 ? i == n - 1 : changed == 2 ? i % 2 == 0 : true ) { put( f[ i ], T0 + ( i % 3 ? 5 : -500 ) + i ); ++k; }
		now += 3600; sched::virtual_time = now; all( "request after changes" ); c.eq( creates, n + k, "loads after changes" ); all( "request once more" ); c.eq( creates, n + k, "loads in the end" );
	} }, 0 );
}
