// MC: mode=sched
// C36: shared objects that are only read, and separate objects, can be used by several threads at once.
#include "mc.h"
#include "mcsched.h"
#include <sstream>
#include <fstream>
#include <ctime>
#include <sys/stat.h>
#include <unistd.h>
#include "xo/container/prop_node.h"
#include "xo/container/prop_node_tools.h"
#include "xo/serialization/serialize.h"
#include "xo/serialization/prop_node_serializer_zml.h"
#include "xo/serialization/char_stream.h"
#include "xo/system/settings.h"
#include "xo/system/system_tools.h"
#include "xo/system/type_class.h"
#include "xo/system/version.h"
#include "xo/filesystem/filesystem.h"
#include "xo/time/stopwatch.h"
#include "xo/time/date.h"
#include "xo/utility/smart_enum.h"
#include "xo/utility/color.h"
#include "xo/utility/factory.h"
#include "xo/utility/arg_parser.h"
#include "xo/utility/hash.h"
#include "xo/utility/side.h"
#include "xo/numerical/random.h"
#include "xo/numerical/bounds.h"
#include "xo/numerical/piecewise_linear_function.h"
#include "xo/numerical/console_plot.h"
#include "xo/container/storage.h"
#include "xo/container/table.h"
#include "xo/container/flat_map.h"
#include "xo/container/indexed_set.h"
#include "xo/container/circular_deque.h"
#include "xo/string/pattern_matcher.h"
#include "xo/string/string_tools.h"
#include "xo/string/dictionary.h"
#include "xo/shape/shape.h"
using std::string; using std::vector;

// functions of the C library that keep their result in a static buffer count as a write to that buffer
static int static_buffer;
static int use_static_buffer() { return ++*const_cast< int volatile* >( &static_buffer ); }
extern "C"
{
	char* strtok( char* s, const char* d ) noexcept { static char* p; use_static_buffer(); return strtok_r( s, d, &p ); }
	int rand() noexcept { static unsigned s = 1; use_static_buffer(); return rand_r( &s ); }
}

xo_smart_enum_class( fruit, apple, pear, plum );
namespace { struct animal { virtual ~animal() {} virtual string name() const = 0; }; struct cat : animal { string name() const override { return "cat"; } }; struct dog : animal { string name() const override { return "dog"; } };
	using FM = xo::flat_map< string, int >; using IS = xo::indexed_set< string >; }

/// objects shared by all threads
struct shared
{
	xo::prop_node pn = xo::parse_zml( "a = 5 b = text v = [ 1 2 3 ] d { e { x = 1.5 y = yes } e { x = 2 } } c = 7 c = 8 lo..hi = 1" );
	xo::prop_node same = pn;
	xo::settings set{ xo::parse_zml( "gui { width { type = int default = 5 label = w range { min = 0 max = 10 } } name { type = string default = bob label = n } } on { type = bool default = 1 label = o }" ), xo::path( "no_such_settings.zml" ) };
	xo::factory< animal > f = xo::factory< animal >().register_type< cat >( "cat" ).register_type< dog >( "dog" );
	xo::pattern_matcher pm{ "a*;?b" };
	xo::storage< double, string > sto; xo::table< double > tab;
	xo::piecewise_linear_function< double > fn;
	FM fm{ { "x", 1 }, { "y", 2 } }; IS is; xo::circular_deque< string > cd{ 3 };
	xo::dictionary< int > dict{ { 1, "one" }, { 2, "two" } };
	xo::shape shp{ xo::box{ 1, 2, 3 } };
	const char* argv[ 4 ] = { "prog", "-n", "12", "--on" }; xo::arg_parser args{ 4, argv };
	string dir[ 2 ];
	shared()
	{
		set.set< int >( "gui.width", 7 ); sto.add_channel( "p" ); sto.add_channel( "q" ); sto.add_frame( { 1, 2 } ); sto.add_frame( { 3, 4 } ); tab.add_row( "r" ); tab.add_column( "c" ); tab( "r", "c" ) = 3;
		fn.insert_point( 0, 1 ); fn.insert_point( 2, 5 ); is.get_or_add( "one" ); is.get_or_add( "two" ); for ( string s : { "1", "2", "3" } ) cd.push_back( s ); cd.pop_front(); cd.push_back( "4" );
		string base = getenv( "MC_SCRATCH" ); base += "/shared" + std::to_string( getpid() );
		for ( int i = 0; i < 2; ++i ) { dir[ i ] = base + char( 'a' + i ); mkdir( dir[ i ].c_str(), 0777 ); for ( string n : { "sub.zml", "main.zml", "inc.xml", "f.txt" } ) std::ofstream( dir[ i ] + "/" + n ) << ( n == "sub.zml" ? "s = " + std::to_string( i ) : n == "main.zml" ? string( "m = 1 << sub.zml >> n = \"q\"" ) : n == "inc.xml" ? "<r><k>" + std::to_string( i ) + "</k></r>" : "f" ); }
	}
};
static const shared& S() { static shared* s = new shared; return *s; }

struct op { const char* name; std::function< string() > f; bool same = true; };
using xo::to_str;
static string text( const xo::prop_node& pn ) { string s; xo::prop_node_serializer_zml z; std::ostringstream o; z.write_pn_ = &pn; z.write_stream( o ); return o.str(); }
static string trip( const string& type, xo::prop_node pn ) { std::stringstream st; xo::make_serializer( type, std::as_const( pn ) )->write_stream( st ); xo::prop_node q; auto r = xo::make_serializer( type, q ); r->read_stream( st ); return st.str() + "|" + text( q ); }
static const vector< op >& ops()
{
	static vector< op > o{
		{ "read values", [] { auto& p = S().pn; return to_str( p.get< int >( "a" ) ) + p.get< string >( "b" ) + to_str( p.get< double >( "zz", 2.5 ) ) + to_str( p.get_any< int >( { "q", "a" } ) ) + to_str( p[ "d" ][ "e" ].get< bool >( "y" ) ); } },
		{ "iterate", [] { string s; for ( auto& [ k, v ] : S().pn ) s += k + to_str( v.size() ); for ( auto& [ k, v ] : S().pn[ "d" ] ) s += k + v.get< string >( "x" ); return s; } },
		{ "query", [] { return S().pn.try_get_query( "d.#2.x" )->get_str() + to_str( S().pn.try_get_query( "d.f" ) == nullptr ) + to_str( S().pn.has_key( "c" ) ) + to_str( S().pn.count_key( "c" ) ); } },
		{ "mark all", [] { S().pn.set_accessed_recursively( true ); return string(); } },
		{ "unmark all", [] { S().pn.set_accessed_recursively( false ); return string(); } },
		{ "count unused", [] { return to_str( S().pn.count_unaccessed() ); }, false },
		{ "list unused", [] { return xo::to_str_unaccessed( S().pn ); }, false },
		{ "print tree", [] { return to_str( S().pn ); } },
		{ "write tree", [] { return text( S().pn ); } },
		{ "copy and change", [] { xo::prop_node c = S().pn; c[ "a" ] = 6; c.set_query( "d.e.x", 3 ); c.erase( "b" ); return text( c ); } },
		{ "compare", [] { return to_str( S().pn == S().same ) + to_str( S().pn[ "d" ] != S().same[ "d" ] ); } },
		{ "select", [] { string s; for ( int i : S().pn.get_all< int >( "c" ) ) s += to_str( i ); for ( auto& kv : S().pn.select_pattern( "?" ) ) s += kv.first; return s; } },
		{ "find path", [] { auto& n = S().pn[ "d" ][ 1 ]; return xo::make_prop_node_query( S().pn, n ) + xo::find_query_to_node( &S().pn, &n ).second; } },
		{ "vectors", [] { string s; for ( int i : S().pn.get< vector< int > >( "v" ) ) s += to_str( i ); return s; } },
		{ "settings", [] { return to_str( S().set.get< int >( "gui.width" ) ) + S().set.get< string >( "gui.name" ) + to_str( S().set.get< bool >( "on" ) ); } },
		{ "create", [] { auto& f = const_cast< xo::factory< animal >& >( S().f ); return f.create( "cat" )->name() + f.create( "dog" )->name() + to_str( f.try_create( "cow" ) == nullptr ); } },
		{ "parse", [] { return text( xo::parse_zml( "$m = 3 a = $m b { c = \"x y\" } /* c */ d = @a" ) ); } },
		{ "parse wrong text", [] { xo::error_code ec; xo::parse_zml( "a { b = ", &ec ); return ec.message(); } },
		{ "xml", [] { xo::prop_node p; p[ "r" ][ "k" ] = "<1>"; return trip( "xml", p ); } },
		{ "ini", [] { xo::prop_node p; p[ "g" ][ "k" ] = "1"; return trip( "ini", p ); } },
		{ "load a", [] { return text( xo::load_file( S().dir[ 0 ] + "/main.zml" ) ); } },
		{ "load b", [] { return text( xo::load_file( S().dir[ 1 ] + "/main.zml" ) ) + text( xo::load_file( S().dir[ 1 ] + "/inc.xml" ) ); } },
		{ "load missing", [] { xo::error_code ec; xo::load_file( S().dir[ 1 ] + "/none.zml", &ec ); return to_str( ec.good() ); } },
		{ "find file a", [] { xo::current_find_file_path( S().dir[ 0 ] ); auto r = xo::find_file( { xo::path( "f.txt" ) } ).str(); xo::current_find_file_path( xo::path() ); return r; } },
		{ "find file b", [] { xo::current_find_file_path( S().dir[ 1 ] ); auto r = xo::find_file( { xo::path( "f.txt" ) } ).str(); xo::current_find_file_path( xo::path() ); return r; } },
		{ "save and load", [] { string f = S().dir[ 0 ] + "/own" + to_str( sched::tid() ) + ".zml"; xo::save_file( S().same, f ); return text( xo::load_file( f ) ); } },
		{ "text files", [] { string f = S().dir[ 0 ] + "/txt" + to_str( sched::tid() ); xo::save_string( f, "hello" ); xo::append_string( f, "!" ); return xo::load_string( f ); } },
		{ "list files", [] { string s; auto v = xo::find_files( S().dir[ 1 ], "*.zml" ); std::sort( v.begin(), v.end() ); for ( auto& f : v ) s += f.filename().str(); return s; } },
		{ "stopwatch", [] { xo::stopwatch w; w.split( "x" ); w.split( "y" ); auto r = w.get_report( 3 ); return r.get_key( 0 ) + to_str( r.size() ); } },
		{ "numbers", [] { int i = 0; double d = 0; xo::from_str( "12", i ); xo::from_str( "2.5x", d ); return to_str( 1.0 / 3 ) + to_str( 0.1f ) + to_str( -5 ) + to_str( true ) + to_str( i ) + to_str( d ) + xo::stringf( "%05.2f %s", 3.14159, "abc" ); } },
		{ "strings", [] { string s = " a,b;c "; auto v = xo::split_str( s, ",;" ); return xo::trim_str( v[ 0 ] ) + xo::replace_str( std::as_const( s ), "b", "bb" ) + xo::to_upper( s ) + xo::quoted( "q\"\n" ) + xo::try_unquoted( "\"z\\n\"" ) + xo::concat_str( v, "." ) + xo::left_str( s, 2 ) + to_str( xo::pattern_match( s, "*a?b*" ) ); } },
		{ "patterns", [] { return to_str( S().pm( "abc" ) ) + to_str( S().pm( "xb" ) ) + to_str( S().pm( "xc" ) ) + S().pm.str(); } },
		{ "dates", [] { return xo::get_date_time_str( 86400 * 365, "%Y-%m-%d" ) + to_str( xo::date{ 2020, 2, 29 } ); } },
		{ "now", [] { return to_str( xo::get_date_time_str().size() ); } },
		{ "random numbers", [] { xo::random_number_generator_fast r( 7 ); string s; for ( int i = 0; i < 3; ++i ) s += to_str( r.uniform_int( 0, 1000 ) ) + " " + to_str( r.normal( 0.0, 1.0 ) ); return s; } },
		{ "colours", [] { auto k = xo::make_unique_color( 5 ); return to_str( xo::hex_rgba_from_color( k ) ) + to_str( xo::hex_rgb_from_color( xo::color_from_hsv( 200, 0.5f, 0.7f ) ) ); } },
		{ "storage", [] { std::ostringstream o; o << S().sto; return o.str() + to_str( S().sto.find_channel( "q" ) ) + to_str( S().sto( 1, 0 ) ) + to_str( S().sto[ 1 ][ "q" ] ) + to_str( S().tab( "r", "c" ) ); } },
		{ "interpolate", [] { return to_str( S().fn( 0.5 ) ) + to_str( S().fn( 3 ) ); } },
		{ "containers", [] { return to_str( S().fm.at( "y" ) ) + to_str( S().fm.find( "z" ) == S().fm.end() ) + to_str( *S().is.try_get( "two" ) ) + S().cd.front() + S().cd.back() + S().cd[ 1 ] + to_str( S().dict( "two" ) ); } },
		{ "type names", [] { return xo::get_clean_type_name< vector< int > >() + xo::get_clean_type_name< xo::prop_node >() + xo::tidy_identifier( "a.b_" ); } },
		{ "enumerations", [] { fruit f = fruit::apple; from_str( "plum", f ); return to_str( f ) + to_str( fruit::pear ); } },
		{ "shapes", [] { return text( to_prop_node( S().shp ) ) + to_str( xo::volume( S().shp ) ); } },
		{ "arguments", [] { return to_str( S().args.get( "n", 0 ) ) + to_str( S().args.has_flag( "on" ) ); } },
		{ "paths", [] { xo::path p( "/a/b.c/d.e" ); return p.stem().str() + p.parent_path().str() + p.extension_no_dot().str() + ( p / "f" ).str() + xo::temp_directory_path().str() + xo::get_config_dir().str(); } },
		{ "versions", [] { return to_str( xo::version( 1, 2, 3 ) ) + xo::to_str( xo::date{ 1, 2, 3 } ) + to_str( xo::get_xo_version() ); } },
		{ "streams", [] { xo::char_stream st( "ab \"c d\" 5 # x\nlast" ); string s; while ( st.good() ) s += st.get_token() + "|"; return s; } },
		{ "hashes and sides", [] { return to_str( xo::hash( "abc" ) ) + to_str( int( xo::str_get_side( "foot_l" ) ) ) + [] { string s = "foot_r"; xo::str_mirror_side( s ); return s; }(); } },
	};
	return o;
}
static const vector< string >& expected() { static vector< string > e; if ( e.empty() ) { for ( int k = 0; k < 2; ++k ) { e.clear(); for ( auto& x : ops() ) e.push_back( x.f() ); } } return e; }
static void together( mc::Ctx& c, vector< int > which, int rounds, int pb )
{
	auto& e = expected(); vector< std::function< void() > > f; S().pn.set_accessed_recursively( false );
	for ( int w : which ) f.push_back( [&, w] { for ( int i = 0; i < rounds; ++i ) { string r = ops()[ w ].f(); if ( ops()[ w ].same ) sched::check( r == e[ w ], string( ops()[ w ].name ) + " gives " + r + " instead of " + e[ w ] ); } } );
	sched::run( c, f, pb );
	c.eq( text( S().pn ), text( S().same ), "shared tree unchanged" );
}
// which is checked first: alone in a thread of its own
MC_SUITE( "alone" ) { expected(); int a = c.choose( int( ops().size() ) ); c.op( "%s", ops()[ a ].name ); together( c, { a }, 2, 0 ); c.state( std::to_string( a ) ); }
MC_SUITE( "schedules: two threads" ) { expected(); int n = int( ops().size() ), a = c.choose( n ), b = c.choose( a + 1 ); c.op( "%s, %s", ops()[ a ].name, ops()[ b ].name ); together( c, { a, b }, 1, c.thorough ? 2 : 1 ); c.state( std::to_string( a ) + "," + std::to_string( b ) ); }
MC_SUITE( "schedules: repeated" ) { expected(); int n = int( ops().size() ), a = c.choose( n ); c.op( "%s", ops()[ a ].name ); together( c, { a, a }, 2, 1 ); c.state( std::to_string( a ) ); }
MC_SUITE_THOROUGH( "schedules: three threads" ) { expected(); int n = int( ops().size() ), a = c.choose( n ), b = c.choose( a + 1 ), d = c.choose( b + 1 ); c.op( "%s, %s, %s", ops()[ a ].name, ops()[ b ].name, ops()[ d ].name ); together( c, { a, b, d }, 1, c.thorough ? 1 : 0 ); c.state( std::to_string( a ) + "," + std::to_string( b ) + "," + std::to_string( d ) ); }
