// Profiler: all properly nested section histories under a virtual clock, with the report compared to a reference tree.
#include "mc.h"
#include "vclock.h"
#include <memory>
#include <list>
#include "xo/system/profiler.h"
#include "xo/container/prop_node.h"
#include "xo/container/prop_node_tools.h"
#include "xo/system/log.h"
#include "xo/system/log_sink.h"

using std::string;
typedef long long ll;
constexpr ll MS = 1'000'000;

struct node { string name; node* up; ll total = 0; long count = 0; std::list< node > kids; };
static ll exclusive( const node& n ) { ll t = n.total; for ( auto& k : n.kids ) t -= k.total; return t; }

/// parses the value of a report entry: total ms, total %, exclusive %, count, average exclusive ns
struct line { double ms, perc, excl, ns; long count; };
static line parse( mc::Ctx& c, const string& s )
{
	line l;
	if ( sscanf( s.c_str(), "%lfms %lf%% (%lf%%) %ld %lfns", &l.ms, &l.perc, &l.excl, &l.count, &l.ns ) != 5 ) c.fail( "report entry " + s );
	return l;
}
static string strip( const string& s ) { return s.size() > 2 && s[ 0 ] == '@' && isdigit( s[ 1 ] ) ? s.substr( 2 ) : s; }
static void compare( mc::Ctx& c, const xo::prop_node& pn, const std::list< node >& kids, ll root, double min_perc, bool expand )
{
	// entries of one level: every section exactly once
	if ( !expand ) { c.eq( pn.size(), size_t( 0 ), "sections listed below a section that is too short" ); return; }
	c.eq( pn.size(), kids.size(), "number of sections listed" );
	for ( auto& n : kids )
	{
		const xo::prop_node* found = nullptr; int times = 0;
		for ( auto& e : pn ) if ( strip( e.first ) == n.name ) { found = &e.second; ++times; }
		c.eq( times, 1, ( "times section " + n.name + " is listed" ).c_str() );
		auto l = parse( c, found->get< string >() );
		c.eq( l.count, n.count, "number of entries" );
		c.check( std::abs( l.ms - double( n.total ) / MS ) <= 0.5001, "total time of section " + n.name + ": " + found->get< string >() );
		c.check( std::abs( l.perc - 100.0 * n.total / root ) <= 0.006, "share of section " + n.name + ": " + found->get< string >() );
		c.check( std::abs( l.excl - 100.0 * exclusive( n ) / root ) <= 0.006, "exclusive share of section " + n.name + ": " + found->get< string >() );
		c.check( std::abs( l.ns - std::min( 999999.0, double( exclusive( n ) ) / n.count ) ) <= 0.6, "average exclusive time of section " + n.name + ": " + found->get< string >() );
		c.check( l.excl <= l.perc + 0.011, "exclusive time exceeds total time" );
		compare( c, *found, n.kids, root, min_perc, 100.0 * n.total / root >= min_perc );
	}
}
static void dump( const std::list< node >& l, string& s, const node* cur ) { for ( auto& n : l ) { bool open = false; for ( auto k = cur; k; k = k->up ) open |= k == &n; s += n.name + ( open ? "!" : "" ) + std::to_string( n.total + ( open ? vclock::now : 0 ) ) + "x" + std::to_string( n.count ) + "("; dump( n.kids, s, cur ); s += ")"; } }

static const char* names[] = { "A", "B", "C", "D" };
MC_SUITE( "nested sections" )
{
	vclock::now = 1'000'000'000LL;
	xo::profiler p;
	std::list< node > tree; // the root only
	node* cur = nullptr; bool on = false;
	std::vector< std::unique_ptr< xo::scoped_profiler_section > > scopes; std::vector< bool > counted;
	int nn = 2;
	auto close = [&] { scopes.pop_back(); if ( counted.back() ) { cur->total += vclock::now; ++cur->count; cur = cur->up; } counted.pop_back(); };
	auto open = [&]( const char* name ) {
		scopes.push_back( std::make_unique< xo::scoped_profiler_section >( name, p ) );
		counted.push_back( on );
		if ( !on ) return;
		node* k = nullptr;
		for ( auto& n : cur->kids ) if ( n.name == name ) k = &n;
		if ( !k ) { cur->kids.push_back( { name, cur } ); k = &cur->kids.back(); }
		k->total -= vclock::now; cur = k;
	};
	auto start = [&]( const char* label ) { p.start( label ); tree.clear(); tree.push_back( { label, nullptr } ); cur = &tree.back(); cur->total = -vclock::now; on = true; };
	auto stop = [&] { cur->total += vclock::now; ++cur->count; cur = nullptr; on = false; };
	if ( c.flip() ) { c.op( "start" ); start( "TOTAL" ); } else c.op( "not started" );
	int depth = c.thorough ? 8 : 6;
	for ( int d = 0; d < depth; ++d )
	{
		ll dt = c.pick( { 0LL, 3 * MS } ); vclock::now += dt;
		int op = c.choose( 2 + nn + 1 );
		if ( op < nn ) { c.op( "+%lld open %s", dt / MS, names[ op ] ); open( names[ op ] ); }
		else if ( op == nn ) { if ( scopes.empty() ) throw mc::prune(); c.op( "+%lld close", dt / MS ); close(); }
		else if ( op == nn + 1 )
		{
			if ( scopes.size() && !on ) throw mc::prune(); // sections opened while disabled may stay open
			c.op( "+%lld stop", dt / MS );
			bool ok = on && cur->up == nullptr;
			bool thrown = c.throws( [&] { p.stop(); } );
			c.eq( thrown, !ok, "stop is rejected" );
			if ( ok ) stop();
		}
		else
		{
			c.op( "+%lld start again", dt / MS );
			bool thrown = c.throws( [&] { if ( on ) p.start( "X" ); } );
			c.eq( thrown, on, "start is rejected" );
			if ( !on ) { bool all_unc = true; for ( bool b : counted ) all_unc &= !b; if ( !all_unc ) throw mc::prune(); start( "ROOT" ); }
		}
		c.eq( p.enabled(), on, "enabled" );
		string st; dump( tree, st, cur ); st += std::to_string( on ) + ( tree.empty() ? "-" : "+" ); for ( bool b : counted ) st += b ? 'c' : 'u'; c.state( st );
		if ( c.seen( st, depth - d ) ) throw mc::prune();
	}
	while ( scopes.size() ) { vclock::now += MS; close(); }
	if ( tree.empty() ) return;
	if ( on ) { vclock::now += 200 * MS; stop(); } // report stops
	if ( tree.front().total == 0 ) return; // shares are undefined
	for ( double minimum : { 0.0, 0.5, 50.0, 101.0 } ) for ( bool tag : { false, true } )
	{
		auto pn = p.report( minimum, tag );
		c.check( !p.enabled(), "still enabled after the report" );
		compare( c, pn, tree, tree.front().total, minimum, true );
	}
}
struct lines : xo::log::sink { std::vector< string > got; lines() : sink( xo::log::level::trace, {} ) {} void hande_log_message( xo::log::level, const string& m ) override { got.push_back( m ); } };
MC_SUITE( "recursion and many sections" )
{
	// more sections than any initial capacity, nested to every depth, entered repeatedly
	vclock::now = 1'000'000'000LL;
	int depth = 1 + c.choose( 12 ), width = 1 + c.choose( 5 ), rounds = 1 + c.choose( 3 );
	c.op( "depth %d width %d rounds %d", depth, width, rounds ); c.state( ( depth * 10 + width ) * 10 + rounds );
	if ( depth > 3 && width > 2 ) throw mc::prune();
	xo::profiler p( true ); node root{ "TOTAL", nullptr }; root.total = -vclock::now; node* cur = &root;
	std::function< void( int ) > rec = [&]( int d ) {
		if ( d == 0 ) { vclock::now += MS; return; }
		for ( int i = 0; i < ( d == depth || depth <= 3 ? width : 1 ); ++i )
		{
			node* k = nullptr; for ( auto& n : cur->kids ) if ( n.name == names[ i % 4 ] ) k = &n;
			if ( !k ) { cur->kids.push_back( { names[ i % 4 ], cur } ); k = &cur->kids.back(); }
			k->total -= vclock::now; cur = k;
			{ xo::scoped_profiler_section s( names[ i % 4 ], p ); vclock::now += 2 * MS; rec( d - 1 ); }
			k->total += vclock::now; ++k->count; cur = k->up;
		}
	};
	for ( int r = 0; r < rounds; ++r ) rec( depth );
	root.total += vclock::now; root.count = 1;
	auto pn = p.report( 0 ); std::list< node > t; t.push_back( root ); compare( c, pn, t, root.total, 0, true );
	std::function< size_t( const node& ) > all = [&]( const node& n ) { size_t k = 1; for ( auto& x : n.kids ) k += all( x ); return k; };
	lines sink; p.log_results( 0 );
	size_t named = 0; for ( auto& l : sink.got ) named += l.find( "ms" ) != string::npos;
	c.eq( named, all( root ), "sections logged" );
}
MC_SUITE( "sections entered often" )
{
	// the same sections entered up to a hundred thousand times, at several depths
	vclock::now = 1'000'000'000LL; int depth = 1 + c.choose( 5 ), inner = c.pick( { 1, 2, 255, 256, 1000 } ), outer = c.pick( { 1, 3, 100, 256, 1001 } ); if ( inner * outer > 300000 ) throw mc::prune(); c.op( "depth %d, %d times %d", depth, outer, inner ); c.state( ( depth * 2000 + inner ) * 2000 + outer );
	xo::profiler p( true ); node root{ "TOTAL", nullptr }; root.total = -vclock::now; node* cur = &root; const char* nm[] = { "o", "m1", "m2", "m3", "i" };
	auto enter = [&]( const char* n, auto body ) { node* k = nullptr; for ( auto& x : cur->kids ) if ( x.name == n ) k = &x; if ( !k ) { cur->kids.push_back( { n, cur } ); k = &cur->kids.back(); } k->total -= vclock::now; cur = k; { xo::scoped_profiler_section s( n, p ); vclock::now += MS / 100; body(); } k->total += vclock::now; ++k->count; cur = k->up; };
	std::function< void( int ) > rec = [&]( int d ) { if ( d == 0 ) { for ( int i = 0; i < inner; ++i ) enter( "leaf", [&] { vclock::now += MS / 50; } ); } else enter( nm[ d - 1 ], [&] { rec( d - 1 ); } ); };
	for ( int i = 0; i < outer; ++i ) { rec( depth ); vclock::now += MS / 10; }
	root.total += vclock::now; root.count = 1; auto pn = p.report( 0 ); std::list< node > t; t.push_back( root ); compare( c, pn, t, root.total, 0, true );
}
MC_SUITE( "never started" )
{
	xo::profiler p; c.op( "report without start" ); c.state( 1 );
	c.check( !p.enabled(), "enabled" );
	auto pn = p.report();
	c.check( pn.empty(), "report of a profiler that was never started" );
	{ xo::scoped_profiler_section s( "A", p ); }
	c.check( p.report( 0 ).empty(), "sections of a profiler that was never started" );
	c.must_throw( [&] { p.stop(); }, "stop without start" );
}
