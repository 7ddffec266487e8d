// MC: mode=sched
// Factories and the test framework: registration histories, all small test programs, all schedules of the parallel runner.
#include "mc.h"
#include "mcsched.h"
#include <map>
#include <memory>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include "xo/system/test_case.h"
#include "xo/utility/factory.h"
#include "xo/system/log.h"
#include "xo/system/log_sink.h"
#define main xo_test_program_main
#include "xo/system/test_main.h"
#undef main

using std::string;
namespace xt = xo::test;
namespace xl = xo::log;

// ---- test programs -------------------------------------------------------------------------------------------------

// the actions after NACT are checked one by one, because some are not handled as they should be (see known_findings.txt)
enum act { PASS, FAIL, CHECK_THROWS, CHECK_THROWS_EMPTY, MSG_FAIL, DIRECT_PASS, DIRECT_FAIL, THROW, NACT, THROW_EMPTY = NACT, THROW_INT, CHECK_THROWS_INT };
static const char* act_name[] = { "pass", "fail", "check throws", "check throws without text", "fail with message", "direct pass", "direct fail", "throw", "throw without text", "throw int", "check throws int" };
static bool thrower( int k ) { if ( k == 0 ) throw std::runtime_error( "oops" ); if ( k == 1 ) throw std::runtime_error( "" ); throw 42; }
static bool is_last( int a ) { return a == THROW || a == THROW_EMPTY || a == THROW_INT; }

static void perform( xt::test_case& XO_ACTIVE_TEST_CASE, int a )
{
	switch ( a )
	{
	case PASS: XO_CHECK( 1 + 1 == 2 ); break;
	case FAIL: XO_CHECK( 1 + 1 == 3 ); break;
	case CHECK_THROWS: XO_CHECK( thrower( 0 ) ); break;
	case CHECK_THROWS_EMPTY: XO_CHECK( thrower( 1 ) ); break;
	case MSG_FAIL: XO_CHECK_MESSAGE( a == PASS, "message" ); break;
	case DIRECT_PASS: XO_ACTIVE_TEST_CASE.check( true ); break;
	case DIRECT_FAIL: XO_ACTIVE_TEST_CASE.check( false, "message" ); break;
	case THROW: throw std::runtime_error( "oops" );
	case THROW_EMPTY: throw std::runtime_error( "" );
	case THROW_INT: throw 42;
	case CHECK_THROWS_INT: XO_CHECK( thrower( 2 ) ); break;
	}
}
struct expect { int checks = 0, passed = 0, failed = 0; bool escaped = false; bool ok() const { return failed == 0 && !escaped; } };
static expect expected( const std::vector< int >& p )
{
	expect e;
	for ( int a : p )
	{
		if ( is_last( a ) ) { e.escaped = true; break; }
		++e.checks;
		if ( a == PASS || a == DIRECT_PASS ) ++e.passed; else ++e.failed;
	}
	return e;
}
static std::vector< int > program( mc::Ctx& c, int maxlen )
{
	std::vector< int > p;
	string s;
	while ( (int)p.size() < maxlen )
	{
		int a = c.choose( NACT + 1 );
		if ( a == NACT ) break;
		p.push_back( a );
		s += string( s.empty() ? "" : ", " ) + act_name[ a ];
		if ( is_last( a ) ) break;
	}
	c.op( "test: %s", s.c_str() );
	return p;
}

/// keeps what is logged per thread, without synchronisation of its own
struct rec_sink : xl::sink
{
	std::vector< std::pair< int, string > > got[ 16 ];
	rec_sink() : sink( xl::level::trace, {} ) {}
	void hande_log_message( xl::level l, const string& msg ) override { got[ sched::tid() & 15 ].push_back( { (int)l, msg } ); }
	bool names( const string& name ) const {
		for ( auto& g : got ) for ( auto& m : g ) if ( m.first >= (int)xl::level::error && m.second.find( name ) != string::npos ) return true;
		return false;
	}
};

MC_SUITE( "one test case: accounting" )
{
	auto p = program( c, c.thorough ? 5 : 4 );
	auto e = expected( p );
	int ran = 0;
	rec_sink sink;
	xt::test_case t( "tt", [&]( xt::test_case& tc ) { ++ran; for ( int a : p ) perform( tc, a ); } );
	xt::test_result r;
	try { r = t.run(); }
	catch ( ... ) { c.fail( "an exception escapes from running a test" ); }
	c.eq( ran, 1, "times the function ran" );
	c.eq( r.checks_, e.checks, "checks" );
	c.eq( r.passed_, e.passed, "passed checks" );
	c.eq( r.failed_, e.failed, "failed checks" );
	c.eq( bool( r.success() ), e.ok(), "success" );
	c.eq( sink.names( "tt" ), !e.ok(), "failure is logged" );
	c.state( std::to_string( r.checks_ ) + "/" + std::to_string( r.passed_ ) + std::to_string( r.success() ) );
}

MC_SUITE( "unusual exceptions" )
{
	int a = NACT + c.choose( 3 );
	c.op( "test: %s", act_name[ a ] );
	xt::test_case t( "tt", [&]( xt::test_case& tc ) { perform( tc, a ); } );
	xt::test_result r;
	try { r = t.run(); }
	catch ( ... ) { c.fail( "an exception escapes from running a test" ); }
	c.eq( bool( r.success() ), false, "success" );
}

MC_SUITE( "one test case, run twice" )
{
	static const std::vector< std::vector< int > > first = { {}, { PASS }, { FAIL }, { THROW } };
	auto p = c.pick( first );
	c.op( "first run: %s", p.empty() ? "no checks" : act_name[ p[ 0 ] ] );
	int run = 0;
	xt::test_case t( "tt", [&]( xt::test_case& tc ) { if ( run == 0 ) for ( int a : p ) perform( tc, a ); else perform( tc, PASS ); } );
	t.run(); ++run;
	xt::test_result r = t.run();
	c.check( r.checks_ == 1 && r.passed_ == 1 && r.failed_ == 0 && r.success(), "the result of the second run is not that of one passing check" );
}

MC_SUITE( "totals of results" )
{
	auto a = expected( program( c, 2 ) ), b = expected( program( c, 2 ) );
	auto mk = []( const expect& e ) { xt::test_result r; r.checks_ = e.checks; r.passed_ = e.passed; r.failed_ = e.failed; if ( e.escaped ) r.error_ = "x"; return r; };
	auto t = mk( a ); auto u = mk( b ); t += u;
	c.eq( t.checks_, a.checks + b.checks, "checks" );
	c.eq( t.passed_, a.passed + b.passed, "passed" );
	c.eq( t.failed_, a.failed + b.failed, "failed" );
	c.eq( bool( t.success() ), a.ok() && b.ok(), "success of the total" );
}

// ---- complete runs in a process of their own: the registry is global and only grows ---------------------------------

struct shared { int result; int ran[ 600 ]; bool named[ 4 ]; bool ended; };
static shared* sh = (shared*)mmap( nullptr, sizeof( shared ), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0 );
template< typename F > static int in_child( F f )
{
	// workers are forked from the process that made the mapping: every worker needs its own
	static pid_t owner = 0;
	if ( owner != getpid() ) { sh = (shared*)mmap( nullptr, sizeof( shared ), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0 ); owner = getpid(); }
	*sh = shared();
	pid_t p = fork();
	if ( p == 0 )
	{
		int r = 99;
		freopen( "/dev/null", "w", stdout ); freopen( "/dev/null", "w", stderr );
		try { r = f(); } catch ( ... ) { _exit( 98 ); }
		sh->ended = true;
		_exit( r );
	}
	int st = 0;
	while ( waitpid( p, &st, 0 ) < 0 ) {}
	return st;
}

MC_SUITE( "complete runs" )
{
	int n = c.choose( 4 );
	std::vector< std::vector< int > > p; int failing = 0;
	for ( int i = 0; i < n; ++i )
	{
		static const std::vector< std::vector< int > > kinds = { {}, { PASS, PASS }, { PASS, FAIL, PASS }, { CHECK_THROWS }, { PASS, THROW }, { DIRECT_FAIL } };
		p.push_back( kinds[ c.choose( (int)kinds.size() ) ] );
		string s; for ( int a : p.back() ) s += string( act_name[ a ] ) + "; ";
		c.op( "test %d: %s", i, s.c_str() );
		failing += !expected( p.back() ).ok();
	}
	int st = in_child( [&] {
		rec_sink sink;
		for ( int i = 0; i < n; ++i )
			xt::add_test_case( "case" + std::to_string( i ), [&p, i]( xt::test_case& tc ) { sh->ran[ i ]++; for ( int a : p[ i ] ) perform( tc, a ); } );
		sh->result = xt::run_tests();
		for ( int i = 0; i < n; ++i ) sh->named[ i ] = sink.names( "case" + std::to_string( i ) );
		return 0;
	} );
	c.check( sh->ended && WIFEXITED( st ), "the runner does not return" );
	c.eq( sh->result, failing, "failed tests" );
	for ( int i = 0; i < n; ++i )
	{
		c.eq( sh->ran[ i ], 1, "times a test ran" );
		c.eq( sh->named[ i ], !expected( p[ i ] ).ok(), "failing test is named in the log" );
	}
	c.state( std::to_string( n ) + "/" + std::to_string( failing ) );
}

MC_SUITE( "exit status of the test program" )
{
	static const std::vector< int > counts = { 0, 1, 2, 3, 127, 128, 255, 256, 257, 512, 513 };
	int failing = c.pick( counts ), passing = c.choose( 2 );
	c.op( "%d failing and %d passing tests", failing, passing );
	int st = in_child( [&] {
		for ( int i = 0; i < failing + passing; ++i )
			xt::add_test_case( "case", [=]( xt::test_case& tc ) { sh->ran[ i ]++; perform( tc, i < failing ? FAIL : PASS ); } );
		char name[] = "x"; char* argv[] = { name, nullptr };
		return xo_test_program_main( 1, argv );
	} );
	c.check( WIFEXITED( st ), "the test program does not end normally" );
	c.eq( WEXITSTATUS( st ) != 0, failing != 0, "nonzero exit status" );
	for ( int i = 0; i < failing + passing; ++i ) c.eq( sh->ran[ i ], 1, "times a test ran" );
}

// ---- the parallel runner under every schedule -------------------------------------------------------------------------

static std::vector< std::vector< int > > g_programs( 3 );
static int g_ran[ 3 ];
static xt::test_case* g_case[ 3 ];
static void run_case( int i, xt::test_case& tc ) { g_case[ i ] = &tc; g_ran[ i ]++; for ( int a : g_programs[ i ] ) perform( tc, a ); }
static string case_name( int i ) { return "case" + std::to_string( i ); }
static void ensure_registered()
{
	static bool done = false;
	if ( !done )
	{
		for ( int i = 0; i < 2; ++i ) { g_programs[ i ].clear(); xt::add_test_case( case_name( i ), [i]( xt::test_case& tc ) { run_case( i, tc ); } ); }
		xt::run_tests();
	}
	done = true;
	for ( int i = 0; i < 2; ++i ) *g_case[ i ] = xt::test_case( case_name( i ), [i]( xt::test_case& tc ) { run_case( i, tc ); } ); // start without results
}
MC_SUITE( "schedules of the parallel runner" )
{
	ensure_registered();
	int failing = 0;
	for ( int i = 0; i < 2; ++i )
	{
		static const std::vector< std::vector< int > > kinds = { { PASS }, { FAIL, PASS }, { FAIL, FAIL }, { THROW }, { PASS, THROW }, {} };
		g_programs[ i ] = kinds[ c.choose( 6 ) ]; g_ran[ i ] = 0;
		c.note( "test %d has %d actions, first %s", i, (int)g_programs[ i ].size(), g_programs[ i ].empty() ? "-" : act_name[ g_programs[ i ][ 0 ] ] );
		failing += !expected( g_programs[ i ] ).ok();
	}
	int result = -1;
	rec_sink sink;
	sched::run( c, { [&] { result = xt::run_tests_async(); } }, c.thorough ? 6 : 3 );
	c.eq( result, failing, "failed tests" );
	for ( int i = 0; i < 2; ++i )
	{
		c.eq( g_ran[ i ], 1, "times a test ran" );
		c.eq( sink.names( "case" + std::to_string( i ) ), !expected( g_programs[ i ] ).ok(), "failing test is named in the log" );
	}
	string order; for ( auto& g : sink.got ) { for ( auto& m : g ) order += std::to_string( m.first ); order += '|'; }
	c.state( order );
}

// ---- factories ------------------------------------------------------------------------------------------------------

struct base { int a; string b; base( int a_, const string& b_ ) : a( a_ ), b( b_ ) {} virtual ~base() { --alive; } virtual char kind() const = 0; static int alive; };
int base::alive = 0;
struct type_a : base { type_a( int x, const string& y ) : base( x, y ) { ++alive; } char kind() const override { return 'a'; } };
namespace inner { struct type_b : base { type_b( int x, const string& y ) : base( x, y ) { ++alive; } char kind() const override { return 'b'; } }; }
namespace inner { template< typename T > struct type_c : base { type_c( int x, const string& y ) : base( x, y ) { ++alive; } char kind() const override { return 'c'; } }; }
using fac = xo::factory< base, int, const string& >;
static fac* g_fac;
namespace xo { template<> inline fac& get_factory< fac >() { return *g_fac; } }
struct regs { virtual ~regs() {} };
template< typename T > struct reg_of : regs { xo::factory_registrant< fac, T > r; reg_of( const string& n ) : r( n ) {} };
template< typename T > struct reg_made : regs { xo::factory_registrant< fac, T > r; reg_made( const string& n ) : r( xo::make_factory_registrant< T >( *g_fac, n ) ) {} };

MC_SUITE( "factory histories" )
{
	fac f; g_fac = &f;
	std::map< string, char > ref; // name -> kind
	std::map< string, std::unique_ptr< regs > > owned; // names held by registrants
	const std::vector< string > names = { "type_a", "type_b", "type_c", "other", "" };
	int depth = c.thorough ? 10 : 6;
	for ( int d = 0; d < depth; ++d )
	{
		int op = c.choose( 5 );
		if ( op == 0 ) // under the name of the type
		{
			int t = c.choose( 3 ); c.op( "register type %c", "abc"[ t ] );
			string n = names[ t ]; bool dup = ref.count( n ) != 0;
			bool thrown = c.throws( [&] { if ( t == 0 ) f.register_type< type_a >(); else if ( t == 1 ) f.register_type< inner::type_b >(); else f.register_type< inner::type_c< int > >(); } );
			c.eq( thrown, dup, "registering a used name is rejected" );
			if ( !dup ) ref[ n ] = "abc"[ t ];
		}
		else if ( op == 1 ) // under any name
		{
			int t = c.choose( 2 ); string n = c.pick( names ); c.op( "register type %c as '%s'", "ab"[ t ], n.c_str() );
			bool dup = ref.count( n ) != 0;
			bool thrown = c.throws( [&] { if ( t == 0 ) f.register_type< type_a >( n ); else f.register_type< inner::type_b >( n ); } );
			c.eq( thrown, dup, "registering a used name is rejected" );
			if ( !dup ) ref[ n ] = "ab"[ t ];
		}
		else if ( op == 2 )
		{
			string n = c.pick( names ); c.op( "unregister '%s'", n.c_str() );
			if ( owned.count( n ) ) throw mc::prune(); // the registrant does that
			bool thrown = c.throws( [&] { f.unregister_type( n ); } );
			c.eq( thrown, ref.count( n ) == 0, "unregistering an unknown name is rejected" );
			ref.erase( n );
		}
		else if ( op == 3 )
		{
			string n = c.pick( names ); bool made = c.flip(); c.op( "registrant '%s'", n.c_str() );
			bool dup = ref.count( n ) != 0;
			std::unique_ptr< regs > r;
			bool thrown = c.throws( [&] { if ( made ) r = std::make_unique< reg_made< inner::type_c< int > > >( n ); else r = std::make_unique< reg_of< inner::type_c< int > > >( n ); } );
			c.eq( thrown, dup, "registering a used name is rejected" );
			if ( !dup ) { ref[ n ] = 'c'; owned[ n ] = std::move( r ); }
		}
		else
		{
			string n = c.pick( names ); c.op( "registrant '%s' ends", n.c_str() );
			if ( !owned.count( n ) ) throw mc::prune();
			owned.erase( n ); ref.erase( n );
		}
		c.eq( f.empty(), ref.empty(), "empty" );
		string st; size_t count = 0;
		for ( auto& e : f ) { ++count; c.check( ref.count( e.first ) == 1, "a name is listed that is not registered" ); }
		c.eq( count, ref.size(), "listed names" );
		for ( auto& n : names )
		{
			bool known = ref.count( n ) != 0;
			c.eq( f.has_type( n ), known, "has_type" );
			auto p = f.try_create( n, 7, "text" );
			c.eq( p != nullptr, known, "try_create" );
			if ( p ) { c.eq( p->kind(), ref[ n ], "type of the created object" ); c.eq( p->a, 7, "argument" ); c.eq( p->b, string( "text" ), "argument" ); }
			xo::u_ptr< base > q;
			bool thrown = c.throws( [&] { q = f.create( n, 8, "x" ); } );
			c.eq( thrown, !known, "create reports an unknown name" );
			if ( q ) { c.eq( q->kind(), ref[ n ], "type of the created object" ); c.eq( q->a, 8, "argument" ); c.check( q != p, "the same object is returned twice" ); }
			st += n + ( known ? ref[ n ] : '-' ) + ( owned.count( n ) ? "!" : "" );
		}
		c.eq( base::alive, 0, "objects left over" );
		// the first entry of a tree that names a registered type
		xo::prop_node pn; string first;
		for ( auto& n : { "x", "other", "type_b", "type_a" } ) { pn.add_child( n ); if ( first.empty() && ref.count( n ) ) first = n; }
		auto it = xo::find_factory_prop_node( f, pn );
		c.eq( it == pn.end() ? string() : it->first, first, "first entry naming a type" );
		c.state( st );
		if ( c.seen( st, depth - d ) ) throw mc::prune();
	}
}
MC_SUITE( "factory with many types" )
{
	int n = c.pick( { 5, 8, 9, 16, 17, 33, 64, 65, 100, 257 } ), form = c.choose( 3 ), order = c.choose( 3 ); c.op( "%d names of form %d, order %d", n, form, order ); c.state( ( n * 3 + form ) * 3 + order ); fac f; g_fac = &f; std::map< string, char > ref;
	auto name = [&]( int i ) { return form == 0 ? "type" + std::to_string( i ) : form == 1 ? string( i + 1, 'x' ) : std::to_string( i ) + "_" + string( 30, 'n' ); }; auto at = [&]( int k ) { return order == 0 ? k : order == 1 ? n - 1 - k : int( k * 7919L % n ); };
	auto cmp = [&]
	{
		size_t count = 0; for ( auto& e : f ) { ++count; c.check( ref.count( e.first ) == 1, "a name is listed that is not registered" ); } c.eq( count, ref.size(), "listed names" );
		for ( int i = -1; i <= n; ++i ) { string x = i < 0 ? string() : name( i ); bool known = ref.count( x ) != 0; c.eq( f.has_type( x ), known, "has_type" ); auto p = f.try_create( x, i, x ); c.eq( p != nullptr, known, "try_create" ); if ( p ) { c.eq( p->kind(), ref[ x ], "type of the created object" ); c.eq( p->a, i, "argument" ); c.eq( p->b, x, "argument" ); } else c.must_throw( [&] { f.create( x, i, x ); }, "creating an unknown type" ); }
	};
	for ( int k = 0; k < n; ++k ) { int i = at( k ); string x = name( i ); if ( ref.count( x ) ) continue; if ( i % 3 == 0 ) f.register_type< type_a >( x ); else if ( i % 3 == 1 ) f.register_type< inner::type_b >( x ); else f.register_type< inner::type_c< int > >( x ); ref[ x ] = "abc"[ i % 3 ]; c.must_throw( [&] { f.register_type< type_a >( x ); }, "registering a used name" ); } cmp();
	for ( int i = 0; i < n; i += 2 ) if ( ref.erase( name( i ) ) ) f.unregister_type( name( i ) ); cmp(); for ( int i = 0; i < n; i += 4 ) { if ( ref.count( name( i ) ) ) continue; f.register_type< inner::type_b >( name( i ) ); ref[ name( i ) ] = 'b'; } cmp(); c.eq( base::alive, 0, "objects left over" );
}
