// C37: objects are configured from property trees and reported as written: member macros, command lines as trees, trees in the log and as text, debug output.
#include "vclock.h"
#include "pnmodel.h"
#include "xo/container/prop_node_tools.h"
#include "xo/system/log_sink.h"
#include "xo/system/debug_storage.h"
#include "xo/system/benchmark_tools.h"
#include "xo/system/system_tools.h"
#include "xo/container/storage.h"
#include <sys/wait.h>
#include <sys/stat.h>
#include <unistd.h>
#include <fcntl.h>
#include <optional>
#include <fstream>
#include <cmath>
using namespace pn;
using xo::prop_node;

struct capture : xo::log::sink
{
	std::vector< std::pair< int, string > > msgs;
	capture( xo::log::level l = xo::log::level::trace ) : sink( l, xo::log::format_flags() ) {}
	void hande_log_message( xo::log::level l, const string& m ) override { msgs.push_back( { (int)l, m } ); }
};

// ---- members of objects ----------------------------------------------------------------------------------------------
/// value of the first child with that name, as text
static std::optional< string > text( const T& t, const string& key ) { for ( auto& k : t.ch ) if ( k.first == key ) return k.second.v; return {}; }

template< typename V > struct member
{
	struct other { V level_ = V(); V plain = V(); };
	struct with_default { V speed_; with_default( const prop_node& pn, V d ) : INIT_MEMBER( pn, speed_, d ) {} };
	struct required { V speed_; required( const prop_node& pn ) : INIT_MEMBER_REQUIRED( pn, speed_ ) {} };
};
template< typename V > struct optional_;
#define OPT( V ) template<> struct optional_< V > { xo::optional< V > speed_; optional_( const prop_node& pn ) : INIT_OPTIONAL_MEMBER( pn, speed_ ) {} };
OPT( int ) OPT( bool ) OPT( double ) OPT( string )

/// V: type, conv: reference conversion, d: default value, o: other value
template< typename V > static void members( mc::Ctx& c, const std::vector< string >& texts, std::function< std::optional< V >( const string& ) > conv, V d, V o )
{
	T t; int n = c.choose( c.thorough ? 5 : 4 );
	for ( int i = 0; i < n; ++i ) { string k = c.pick( { "speed", "level", "speed_", "_speed", "plain" } ); t.add( k, c.pick( texts ) ); }
	c.ops( canon( t ) ); c.state( canon( t ) );
	auto make = [&] { prop_node p; build( p, t ); p.set_accessed_recursively( false ); return p; };
	auto ref = [&]( const string& k ) { auto x = text( t, k ); return x ? conv( *x ) : std::optional< V >(); };
	auto marks = [&]( const prop_node& p, const string& k, const char* what ) { bool first = true; // only the node that was read is marked
		for ( size_t i = 0; i < p.size(); ++i ) { auto& n = p.at( i ); bool used = first && n.first == k; if ( used ) first = false; c.check( n.second.is_accessed() == ( used || n.second.peek_str().empty() ), string( "access marks after " ) + what + " of " + k ); } };
	{ // INIT_PROP, names with trailing underscores, with and without an object
		prop_node p = make(); V speed_ = o; bool has = text( t, "speed" ).has_value(); auto r = ref( "speed" );
		if ( !has ) { INIT_PROP( p, speed_, d ); c.check( speed_ == d, "default value of a missing property" ); }
		else if ( r ) { INIT_PROP( p, speed_, d ); c.check( speed_ == *r, "value of a property" ); marks( p, "speed", "INIT_PROP" ); }
		else { c.must_throw( [&] { INIT_PROP( p, speed_, d ); }, "property of a wrong type" ); c.check( speed_ == o, "member after an error" ); }
	}
	{
		prop_node p = make(); typename member< V >::other obj; auto* m = &obj; obj.level_ = o; auto r = ref( "level" ); bool has = text( t, "level" ).has_value(); (void)m;
		if ( !has ) { TRY_INIT_PROP( p, obj.level_ ); c.check( obj.level_ == o, "member without property keeps its value" ); }
		else if ( r ) { TRY_INIT_PROP( p, obj.level_ ); c.check( obj.level_ == *r, "member with property" ); marks( p, "level", "TRY_INIT_PROP" ); }
		else { c.must_throw( [&] { TRY_INIT_PROP( p, obj.level_ ); }, "member with property of a wrong type" ); c.check( obj.level_ == o, "member after an error" ); }
	}
	{
		prop_node p = make(); V plain = o; auto r = ref( "plain" ); bool has = text( t, "plain" ).has_value();
		if ( !has || r ) { bool b = TRY_GET_PROP( p, plain ); c.check( b == has, "result of TRY_GET_PROP" ); c.check( plain == ( r ? *r : o ), "value after TRY_GET_PROP" ); }
		else c.must_throw( [&] { TRY_GET_PROP( p, plain ); }, "TRY_GET_PROP of a wrong type" );
	}
	for ( string name : { "speed", "_speed" } )
	{
		prop_node p = make(); V v = o; auto r = ref( name ); bool has = text( t, name ).has_value();
		if ( !has || r ) { INIT_PROP_NAMED( p, v, name, d ); c.check( v == ( has ? *r : d ), "named property" ); }
		else c.must_throw( [&] { INIT_PROP_NAMED( p, v, name, d ); }, "named property of a wrong type" );
		v = o;
		if ( r ) { INIT_PROP_NAMED_REQUIRED( p, v, name ); c.check( v == *r, "required named property" ); }
		else { c.must_throw( [&] { INIT_PROP_NAMED_REQUIRED( p, v, name ); }, "required named property that is missing or of a wrong type" ); c.check( v == o, "member after an error" ); }
	}
	{
		prop_node p = make(); auto r = ref( "speed" ); bool has = text( t, "speed" ).has_value(); V speed_ = o;
		if ( r ) { INIT_PROP_REQUIRED( p, speed_ ); c.check( speed_ == *r, "required property" ); c.check( typename member< V >::required( p ).speed_ == *r, "required member" ); marks( p, "speed", "INIT_PROP_REQUIRED" ); }
		else { c.must_throw( [&] { INIT_PROP_REQUIRED( p, speed_ ); }, "required property that is missing or of a wrong type" ); c.must_throw( [&] { typename member< V >::required m( p ); }, "required member that is missing or of a wrong type" ); }
		if ( !has || r ) c.check( typename member< V >::with_default( p, d ).speed_ == ( has ? *r : d ), "member with default" );
		else c.must_throw( [&] { typename member< V >::with_default m( p, d ); }, "member of a wrong type" );
		auto q = optional_< V >( p ).speed_; c.check( bool( q ) == bool( r ), "optional member is present" ); if ( r && q ) c.check( *q == *r, "optional member" );
	}
	{ // SET_PROP: the first property of that name changes or is added, everything else stays
		prop_node p = make(); V speed_ = o; SET_PROP( p, speed_ ); V back = d; { V speed_ = d; INIT_PROP( p, speed_, d ); back = speed_; } c.check( back == o, "property after SET_PROP" );
		bool has = text( t, "speed" ).has_value(); c.eq( p.size(), t.ch.size() + !has, "size after SET_PROP" ); bool first = true;
		for ( size_t i = 0; i < t.ch.size(); ++i ) { c.eq( p.get_key( i ), t.ch[ i ].first, "key after SET_PROP" ); bool changed = first && t.ch[ i ].first == "speed"; if ( changed ) first = false; else c.eq( p[ i ].peek_str(), t.ch[ i ].second.v, "other value after SET_PROP" ); }
		const prop_node cp = p; V w = cp.get< V >( "speed" ); c.check( w == o, "copy after SET_PROP" );
	}
}
using opt_i = std::optional< int >;
MC_SUITE( "int members" ) { members< int >( c, { "5", "-3", "x", "" }, []( const string& s ) { return s == "5" ? opt_i( 5 ) : s == "-3" ? opt_i( -3 ) : opt_i(); }, 7, 9 ); }
MC_SUITE( "bool members" ) { using B = std::optional< bool >; members< bool >( c, { "1", "0", "true", "false", "maybe" }, []( const string& s ) { return s == "1" || s == "true" ? B( true ) : s == "0" || s == "false" ? B( false ) : B(); }, c.flip(), c.flip() ); }
MC_SUITE( "double members" ) { using D = std::optional< double >; members< double >( c, { "0.5", "-2", "1e3", "z" }, []( const string& s ) { return s == "0.5" ? D( 0.5 ) : s == "-2" ? D( -2.0 ) : s == "1e3" ? D( 1000.0 ) : D(); }, 7.25, -1.5 ); }
MC_SUITE( "string members" ) { members< string >( c, { "", "x", "two words", "_" }, []( const string& s ) { return std::optional< string >( s ); }, "default", "other" ); }
MC_SUITE( "vector members" )
{
	T t; auto& l = t.add( "list", "" ); int n = c.choose( 4 ); bool ok = true; std::vector< int > ref; for ( int i = 0; i < n; ++i ) { string s = c.pick( { "1", "22", "q" } ); l.add( "", s ); if ( s == "q" ) ok = false; else ref.push_back( s == "1" ? 1 : 22 ); }
	bool present = c.flip(); if ( !present ) t.ch.clear(); c.ops( canon( t ) );
	prop_node p; build( p, t ); std::vector< int > list_{ 5 }, d{ 1, 2 };
	if ( !present || ok ) { INIT_PROP( p, list_, d ); c.check( list_ == ( present ? ref : d ), "list property" ); SET_PROP( p, list_ ); list_ = { 8 }; INIT_PROP_REQUIRED( p, list_ ); c.check( list_ == ( present ? ref : d ), "list property after SET_PROP" ); }
	else c.must_throw( [&] { INIT_PROP( p, list_, d ); }, "list of a wrong type" );
}

MC_SUITE( "identifiers" )
{
	string s = c.toks( { "a", "B7", "_", ".", ":", " " }, c.thorough ? 7 : 6 ); c.ops( s );
	size_t b = 0; for ( size_t i = 0; i < s.size(); ++i ) if ( s[ i ] == '.' || s[ i ] == ':' ) b = i + 1;
	string r = s.substr( b ); while ( !r.empty() && r[ 0 ] == '_' ) r.erase( 0, 1 ); while ( !r.empty() && r.back() == '_' ) r.pop_back();
	c.eq( xo::tidy_identifier( s ), r, "tidy_identifier" ); c.eq( xo::tidy_identifier( r ), r, "tidy_identifier again" ); c.state( r );
}

MC_SUITE( "command lines" )
{
	std::vector< string > args{ c.pick( { "prog", "" } ) }; int n = c.choose( c.thorough ? 7 : 6 );
	for ( int i = 0; i < n; ++i ) args.push_back( c.pick( { "-a", "-b", "v", "w=1", "", "-" } ) );
	std::vector< const char* > argv; string all; for ( auto& a : args ) { argv.push_back( a.c_str() ); all += "'" + a + "' "; } c.ops( all );
	T ref; ref.v = args[ 0 ]; int open = -1;
	for ( int i = 1; i <= n; ++i )
	{
		auto& a = args[ i ];
		if ( !a.empty() && a[ 0 ] == '-' ) { ref.add( a.substr( 1 ), "" ); open = (int)ref.ch.size() - 1; }
		else if ( open >= 0 ) { ref.ch[ open ].second.v = a; open = -1; }
		else { bool done = false; for ( auto& k : ref.ch ) if ( k.first == "" && !done ) { k.second.v = a; done = true; } if ( !done ) ref.add( "", a ); }
	}
	prop_node p = xo::prop_node_from_arg( (int)argv.size(), argv.data() ); c.eq( pn::text( p ), canon( ref ), "command line as tree" ); c.state( canon( ref ) );
}

// ---- reports ------------------------------------------------------------------------------------------------------
static string as_text( const T& t )
{
	string s = t.v; if ( t.ch.empty() ) return s;
	bool arr = true; for ( auto& k : t.ch ) if ( !k.first.empty() ) arr = false;
	if ( !s.empty() ) s += ' '; s += arr ? "[" : "{";
	for ( auto& k : t.ch ) s += ( arr ? string( " " ) : " " + k.first + " = " ) + as_text( k.second );
	return s + ( arr ? " ]" : " }" );
}
static size_t width( const T& t, size_t depth, size_t ind = 2 ) { size_t w = 0; for ( auto& k : t.ch ) w = std::max( { w, depth * ind + k.first.size(), width( k.second, depth + 1, ind ) } ); return w; }
static void outline( const T& t, size_t depth, size_t align, string& out ) { for ( auto& k : t.ch ) { string s = string( depth * 2, ' ' ) + k.first; if ( !k.second.v.empty() || k.second.ch.empty() ) { s.resize( align, ' ' ); s += " = " + k.second.v; } out += s + "\n"; outline( k.second, depth + 1, align, out ); } }
static void as_outline( mc::Ctx& c, const prop_node& p, const T& t ) { string want; outline( t, 0, width( t, 0 ), want ); c.eq( xo::to_str( p ), want, "to_str" ); prop_node q; q.set( "k", 1 ); c.check( xo::from_str( want, q ) && q.peek_str() == want, "from_str" ); }
MC_SUITE( "trees as text" )
{
	int b = c.thorough ? 5 : 4; T t = gen( c, b, { "a", "bc", "" }, { "", "1", "x y" }, 4 ); c.ops( canon( t ) ); c.state( canon( t ) );
	prop_node p; build( p, t ); c.eq( xo::make_str_from_prop_node( p ), as_text( t ), "make_str_from_prop_node" ); c.eq( pn::text( p ), canon( t ), "tree afterwards" ); as_outline( c, p, t );
}

/// many children, or a deep tree
static T large_tree( mc::Ctx& c )
{
	int n = c.pick( { 5, 8, 16, 17, 33, 64, 65, 129, 257 } ), kind = c.choose( 5 ); c.op( "%d nodes, kind %d", n, kind ); c.state( n * 5 + kind ); T t; std::function< void( T&, int ) > deep = [&]( T& x, int k ) { if ( k == 0 ) { x.v = "end"; return; } deep( x.add( k % 3 ? "d" : "other" ), k - 1 ); if ( k % 4 == 0 ) x.add( "after", "1" ); };
	if ( kind == 3 ) deep( t, std::min( n, 65 ) ); else for ( int i = 0; i < n; ++i ) { string k = kind == 1 ? "" : string( kind == 2 ? i : 1, 'k' ) + std::to_string( i ); T& x = t.add( k, kind == 2 ? string( n - i, 'v' ) : std::to_string( i ) ); if ( kind == 4 ) { x.v = ""; for ( int j = 0; j < i % 4; ++j ) x.add( "s" + std::to_string( j ), "1" ); } }
	return t;
}
MC_SUITE( "large trees as text" ) { T t = large_tree( c ); prop_node p; build( p, t ); c.eq( xo::make_str_from_prop_node( p ), as_text( t ), "make_str_from_prop_node" ); c.eq( pn::text( p ), canon( t ), "tree afterwards" ); as_outline( c, p, t ); }
MC_SUITE( "long identifiers and command lines" )
{
	if ( c.flip() ) { string s = c.longer( "a_.:", 1025 ); c.ops( s ); size_t b = 0; for ( size_t i = 0; i < s.size(); ++i ) if ( s[ i ] == '.' || s[ i ] == ':' ) b = i + 1; string r = s.substr( b ); size_t f = r.find_first_not_of( '_' ); r = f == string::npos ? "" : r.substr( f, r.find_last_not_of( '_' ) - f + 1 ); c.eq( xo::tidy_identifier( s ), r, "tidy_identifier" ); c.state( s ); return; }
	int n = c.pick( { 8, 16, 17, 33, 64, 65, 129, 257 } ), kind = c.choose( 3 ); c.op( "%d arguments, kind %d", n, kind ); c.state( n * 3 + kind ); std::vector< string > args{ "prog" }; T ref; ref.v = "prog";
	for ( int i = 0; i < n; ++i ) { string k = "f" + std::to_string( kind == 2 ? i % 5 : i ); args.push_back( "-" + k ); bool val = kind == 0 || i % 2; if ( val ) args.push_back( string( i, 'v' ) + "w" ); ref.add( k, val ? args.back() : "" ); }
	std::vector< const char* > argv; for ( auto& a : args ) argv.push_back( a.c_str() ); prop_node p = xo::prop_node_from_arg( (int)argv.size(), argv.data() ); c.eq( pn::text( p ), canon( ref ), "command line as tree" );
}

static void lines( const T& t, size_t depth, size_t align, std::vector< std::pair< int, string > >& out, size_t ind = 2 )
{
	for ( auto& k : t.ch )
	{
		bool lv = k.first.size() >= 2 && k.first[ 0 ] == '@' && k.first[ 1 ] >= '0' && k.first[ 1 ] <= '6';
		string s = string( depth * ind, ' ' ) + ( lv ? k.first.substr( 2 ) : k.first );
		if ( !k.second.v.empty() || k.second.ch.empty() ) { if ( s.size() < align ) s.resize( align, ' ' ); s += " = " + k.second.v; }
		out.push_back( { lv ? k.first[ 1 ] - '0' : 3, s } ); lines( k.second, depth + 1, align, out, ind );
	}
}
MC_SUITE( "trees in the log" )
{
	bool deep = c.flip(); int b = deep ? c.thorough ? 5 : 4 : 3;
	T t = deep ? gen( c, b, { "a", "@4warn", "@home" }, { "", "1" }, 4 ) : gen( c, b, { "a", "long name", "", "@4warn", "@2", "@home", "@", "@9" }, { "", "1" }, 3 ); c.ops( canon( t ) ); c.state( canon( t ) );
	prop_node p; build( p, t ); std::vector< std::pair< int, string > > ref; size_t w = width( t, 0 ); lines( t, 0, w, ref );
	p.set_accessed_recursively( false );
	c.eq( xo::prop_node_align_width( p ), w, "width of the names" );
	capture k; xo::log::add_sink( &k ); try { xo::log_prop_node( p ); } catch ( ... ) { xo::log::remove_sink( &k ); throw; } xo::log::remove_sink( &k );
	c.eq( k.msgs.size(), ref.size(), "number of lines" );
	for ( size_t i = 0; i < ref.size(); ++i ) { c.eq( k.msgs[ i ].second, ref[ i ].second, "line of the log" ); c.eq( k.msgs[ i ].first, ref[ i ].first, "level of the line" ); }
}
MC_SUITE( "trees in the log with a layout" )
{
	int b = c.thorough ? 4 : 3; T t = gen( c, b, { "a", "long name", "" }, { "", "1" }, 3 ); size_t ind = c.choose( 5 ), depth = c.choose( 3 ), align = c.pick< size_t >( { 0, 1, 5, 12, 30 } );
	c.op( "%s, indent %zu depth %zu align %zu", canon( t ).c_str(), ind, depth, align ); c.state( canon( t ) ); prop_node p; build( p, t );
	size_t w = width( t, depth, ind ); c.eq( xo::prop_node_align_width( p, ind, depth ), w, "width of the names" );
	std::vector< std::pair< int, string > > ref; lines( t, depth, align ? align : w, ref, ind );
	capture k; xo::log::add_sink( &k ); try { xo::log_prop_node( p, ind, depth, align ); } catch ( ... ) { xo::log::remove_sink( &k ); throw; } xo::log::remove_sink( &k );
	c.eq( k.msgs.size(), ref.size(), "number of lines" ); for ( size_t i = 0; i < ref.size(); ++i ) { c.eq( k.msgs[ i ].second, ref[ i ].second, "line of the log" ); c.eq( k.msgs[ i ].first, ref[ i ].first, "level of the line" ); }
}
MC_SUITE( "large trees in the log" )
{
	T t = large_tree( c ); prop_node p; build( p, t ); std::vector< std::pair< int, string > > ref; size_t w = width( t, 0 ); lines( t, 0, w, ref ); c.eq( xo::prop_node_align_width( p ), w, "width of the names" );
	capture k; xo::log::add_sink( &k ); try { xo::log_prop_node( p ); } catch ( ... ) { xo::log::remove_sink( &k ); throw; } xo::log::remove_sink( &k );
	c.eq( k.msgs.size(), ref.size(), "number of lines" ); for ( size_t i = 0; i < ref.size(); ++i ) { c.eq( k.msgs[ i ].second, ref[ i ].second, "line of the log" ); c.eq( k.msgs[ i ].first, ref[ i ].first, "level of the line" ); }
}
MC_SUITE( "lines of all levels" )
{
	string name = c.str( "@0367:a", 3 ); if ( name.size() > 1 && name[ 0 ] == '@' && name[ 1 ] == '7' ) throw mc::prune();
	c.ops( name ); T t; t.add( name, "v" ); t.add( "other", "" ).add( name, "w" ); prop_node p; build( p, t );
	for ( int level = 0; level <= 6; ++level )
	{
		std::vector< std::pair< int, string > > all, ref; lines( t, 0, width( t, 0 ), all );
		for ( auto& l : all ) if ( l.first >= level || l.first == 0 ) ref.push_back( l );
		capture k{ xo::log::level( level ) }; xo::log::add_sink( &k ); try { xo::log_prop_node( p ); } catch ( ... ) { xo::log::remove_sink( &k ); throw; } xo::log::remove_sink( &k );
		bool always = false; for ( auto& l : all ) always |= l.first == 0; if ( always ) continue; // level `always` is not claimed
		c.check( k.msgs == ref, "lines shown by a sink of level " + std::to_string( level ) );
	}
}

MC_SUITE( "scope timers" )
{
	long long us = c.pick( { 0LL, 1LL, 10LL, 1230LL, 999990LL, 1000000LL, 61000000LL } ); int level = 1 + c.choose( 6 ), shown = 1 + c.choose( 6 ); string name = c.pick( { "", "f", "a b%d" } ); bool nested = c.flip();
	c.op( "%lld us, level %d, sink %d, %s%s", us, level, shown, name.c_str(), nested ? ", nested" : "" );
	capture k{ xo::log::level( shown ) }; xo::log::add_sink( &k );
	{ xo::scope_timer t( name.c_str(), xo::log::level( level ) ); vclock::now += us * 1000; if ( nested ) { xo::scope_timer u( "in", xo::log::level( level ) ); vclock::now += 2500000; } vclock::wall_shift += 5000000; }
	xo::log::remove_sink( &k );
	auto ms = [&]( long long us ) { char b[ 64 ]; snprintf( b, sizeof b, "%3.2fms", us / 1000.0 ); return string( b ); };
	std::vector< std::pair< int, string > > ref; if ( level >= shown ) { if ( nested ) ref.push_back( { level, "in took " + ms( 2500 ) } ); ref.push_back( { level, name + " took " + ms( us + ( nested ? 2500 : 0 ) ) } ); }
	c.check( k.msgs == ref, "message of a scope timer: " + ( k.msgs.empty() ? "none" : k.msgs.back().second ) );
}

// ---- debug output: what was written is in the file when the program ends
static string read( const string& f ) { std::ifstream i( f ); std::ostringstream o; o << i.rdbuf(); return o.str(); }
static bool is_there( const string& f ) { struct stat s; return stat( f.c_str(), &s ) == 0; }
MC_SUITE( "debug output" )
{
	int n = c.choose( c.thorough ? 6 : 5 ); std::vector< std::pair< string, float > > w; string all;
	for ( int i = 0; i < n; ++i ) { w.push_back( { c.pick( { "a", "b", "long label" } ), c.pick( { 1.0f, -2.5f } ) } ); all += w.back().first + "=" + std::to_string( w.back().second ) + " "; }
	int at = n ? c.choose( 2 ) * n : 0; c.ops( all + ( at ? "named last" : "named first" ) );
	string dir = c.scratch(), file = dir + "/debug output.txt";
	int pid = fork(); if ( pid < 0 ) c.fail( "fork" );
	if ( pid == 0 )
	{
		if ( chdir( dir.c_str() ) ) _exit( 9 );
		int z = open( "/dev/null", O_RDWR ); for ( int i = 0; i < 3; ++i ) dup2( z, i ); for ( int i = 3; i < 256; ++i ) close( i );
		try { if ( !at ) xo::set_debug_output( file ); for ( auto& [ l, v ] : w ) xo::write_debug( l, v ); if ( at ) xo::set_debug_output( file ); } catch ( ... ) { _exit( 8 ); }
		exit( 0 );
	}
	int st = 0; waitpid( pid, &st, 0 ); c.check( WIFEXITED( st ) && WEXITSTATUS( st ) == 0, "exit of the program: " + std::to_string( st ) );
	c.check( !is_there( dir + "/debug.txt" ), "the default file is not written when another is chosen" );
	if ( n == 0 ) { c.check( !is_there( file ) || read( file ).empty(), "file without data" ); c.clean_scratch(); return; }
	std::vector< string > labels; std::vector< std::map< string, float > > rows( 1 );
	for ( auto& [ l, v ] : w ) { if ( std::find( labels.begin(), labels.end(), l ) == labels.end() ) labels.push_back( l ); if ( rows.back().count( l ) ) rows.push_back( {} ); rows.back()[ l ] = v; }
	string s = read( file ); std::vector< std::vector< string > > cells( 1, std::vector< string >( 1 ) ); c.check( !s.empty(), "the debug file is empty" );
	for ( char ch : s ) if ( ch == '\n' ) cells.push_back( { "" } ); else if ( ch == '\t' ) cells.back().push_back( "" ); else cells.back().back() += ch;
	c.eq( cells.back() == std::vector< string >{ "" }, true, "the last line ends" ); cells.pop_back();
	c.eq( cells.size(), rows.size() + 1, "number of lines" ); c.check( cells[ 0 ] == labels, "labels" );
	for ( size_t i = 0; i < rows.size(); ++i ) { c.eq( cells[ i + 1 ].size(), labels.size(), "number of values" ); for ( size_t j = 0; j < labels.size(); ++j ) { double x = atof( cells[ i + 1 ][ j ].c_str() ); auto it = rows[ i ].find( labels[ j ] ); if ( it == rows[ i ].end() ) c.check( x < -1e38, "value that was not written" ); else c.check( x == it->second, "value in the debug file" ); } }
	c.state( s ); c.clean_scratch();
}

template< typename V > static void function_file( mc::Ctx& c )
{
	V lo = c.pick( { V( 1 ), V( -2 ), V( 0.5 ), V( -0.25 ) } ); int steps = c.choose( 9 ) - 1; V step = c.pick( { V( 1 ), V( 0.5 ), V( 0.125 ) } ); int extra = c.choose( 2 ); int f = c.choose( 3 ), where = c.choose( 3 );
	V hi = lo + steps * step + extra * step / 2; if ( hi == 0 && extra ) throw mc::prune();
	string dir = c.scratch(), file = dir + ( where == 0 ? "/f.txt" : where == 1 ? "/new/sub folder/f.txt" : "/file/f.txt" ); if ( where == 2 ) std::ofstream( dir + "/file" ) << "x";
	c.op( "from %g to %g by %g, function %d, place %d", double( lo ), double( hi ), double( step ), f, where );
	std::vector< V > asked; auto fn = [&]( V x ) { asked.push_back( x ); return f == 0 ? V( 3 ) : f == 1 ? x * x : 1 / ( x - V( 100 ) ); };
	static std::function< V( V ) > cur; cur = fn; xo::simple_function_t< V > ptr = []( V x ) { return cur( x ); };
	if ( where == 2 ) { c.must_throw( [&] { xo::write_function< V >( file, lo, hi, ptr, step ); }, "function file that cannot be created" ); c.clean_scratch(); return; }
	xo::write_function< V >( file, lo, hi, ptr, step );
	std::istringstream i( read( file ) ); string l; size_t k = 0;
	while ( std::getline( i, l ) ) { V x = lo + V( k ) * step; c.check( k <= (size_t)std::max( 0, steps ) || false, "too many lines" ); std::ostringstream o; o << std::setprecision( 6 ) << x << '\t' << ( f == 0 ? V( 3 ) : f == 1 ? x * x : 1 / ( x - V( 100 ) ) ); c.eq( l, o.str(), "line of the function file" ); ++k; }
	c.eq( k, size_t( steps < 0 ? 0 : steps + 1 ), "number of lines" ); c.eq( asked.size(), k, "calls of the function" ); c.state( std::to_string( k ) + file ); c.clean_scratch();
}
MC_SUITE( "function files" ) { c.flip() ? function_file< double >( c ) : function_file< float >( c ); }

namespace here { struct thing {}; template< typename T > struct box {}; namespace in { struct deep { struct nested {}; }; enum kind { one }; } }
namespace { struct hidden {}; }
struct global {};
MC_SUITE( "names of types" )
{
	std::vector< std::pair< string, string > > v{ { xo::get_clean_type_name< int >(), "int" }, { xo::get_clean_type_name< double >(), "double" }, { xo::get_clean_type_name< here::thing >(), "thing" }, { xo::get_clean_type_name< here::in::deep >(), "deep" }, { xo::get_clean_type_name< here::in::deep::nested >(), "nested" },
		{ xo::get_clean_type_name< here::in::kind >(), "kind" }, { xo::get_clean_type_name< here::box< int > >(), "box" }, { xo::get_clean_type_name< here::box< here::thing > >(), "box" }, { xo::get_clean_type_name< here::box< here::box< std::pair< int, here::thing > > > >(), "box" }, { xo::get_clean_type_name< hidden >(), "hidden" }, { xo::get_clean_type_name< global >(), "global" }, { xo::get_clean_type_name< prop_node >(), "prop_node" } };
	here::in::deep d; v.push_back( { xo::get_clean_type_name( d ), "deep" } ); capture k; xo::log::sink& base = k; v.push_back( { xo::get_clean_type_name( base ), "capture" } );
	auto& [ a, b ] = v[ c.choose( (int)v.size() ) ]; c.ops( b ); c.eq( a, b, "name of the type" ); c.state( b );
}
