// C35: side markers, hashes, value streams, random numbers and console plots keep their laws.
#include "mc.h"
#include <cmath>
#include <string>
#include <vector>
#include <list>
#include <map>
#include <sstream>
#include <iostream>
#include <functional>
#include <limits>
#include "xo/utility/side.h"
#include "xo/utility/hash.h"
#include "xo/utility/pair_math.h"
#include "xo/utility/variant_cast.h"
#include "xo/utility/overload.h"
#include "xo/system/type_class.h"
#include "xo/geometry/vec3.h"
#include "xo/geometry/quat.h"
#include "xo/container/stream_wrapper.h"
#include "xo/numerical/random.h"
#include "xo/numerical/console_plot.h"
using std::string; using std::vector; using xo::side;

// ---- sides -----------------------------------------------------------------------------------------------------------------
MC_SUITE( "sides of names" )
{
	vector< string > toks{ "_l", "_r", "_", "l", "r", "L", "ab", "_L" }; string s = c.toks( toks, c.thorough ? 6 : 5 ); c.op( "%s", mc::show( s ).c_str() ); c.state( s );
	size_t n = s.size(); bool marked = n >= 2 && s[ n - 2 ] == '_' && ( s[ n - 1 ] == 'l' || s[ n - 1 ] == 'r' ); side want = !marked ? side::none : s[ n - 1 ] == 'l' ? side::left : side::right; string base = marked ? s.substr( 0, n - 2 ) : s; static const side all[] = { side::left, side::none, side::right };
	auto mark = []( side d ) { return string( d == side::left ? "_l" : d == side::right ? "_r" : "" ); }; auto other = []( side d ) { return d == side::left ? side::right : d == side::right ? side::left : side::none; };
	c.check( xo::str_get_side( s ) == want, "side of the name" ); c.eq( xo::str_remove_side( s ), base, "name without side" ); c.eq( xo::str_mirrored_side( s ), base + mark( other( want ) ), "mirrored name" ); c.eq( xo::str_mirrored_side( xo::str_mirrored_side( s ) ), s, "name mirrored twice" ); { string m = s; xo::str_mirror_side( m ); c.eq( m, base + mark( other( want ) ), "mirrored in place" ); }
	for ( side d : all ) { c.eq( xo::str_set_side( s, d ), base + mark( d ), "name with another side" ); c.check( xo::mirrored( d ) == other( d ) && xo::mirrored( xo::mirrored( d ) ) == d, "mirrored side" ); c.eq( string( xo::side_postfix( d ) ), mark( d ), "postfix" ); }
	for ( string p : { "", "x", "_1" } ) c.eq( xo::str_append_before_side( s, p ), base + p + mark( want ), "text before the side" );
}

// ---- hashes ----------------------------------------------------------------------------------------------------------------
static constexpr auto h0 = ""_hash, h1 = "name"_hash, h2 = "a longer name, with spaces"_hash; static std::map< xo::hash_t, string > hashes;
MC_SUITE( "hashes" )
{
	vector< string > toks{ "a", "b", "A", " ", "\x7f", "\x80", "\xff", "1" }; string s = c.toks( toks, c.thorough ? 6 : 5 ); c.op( "%s", mc::show( s ).c_str() ); c.state( s ); xo::hash_t h = xo::hash( s );
	c.eq( xo::hash( s.c_str() ), h, "hash of characters" ); c.eq( xo::hash_constexpr( s.c_str() ), h, "compile-time hash" ); xo::hash_t w = 0xCBF29CE484222325ull; for ( unsigned char k : s ) { w = ( w ^ k ) * 0x100000001B3ull; } c.eq( h, w, "FNV-1a" );
	auto it = hashes.emplace( h, s ).first; c.eq( it->second, s, "another text has the same hash" ); c.check( h0 == xo::hash( "" ) && h1 == xo::hash( string( "name" ) ) && h2 == xo::hash( "a longer name, with spaces" ), "literal" );
}

MC_SUITE( "long texts" )
{
	string s = c.longer( "a_\xff\x80l ", 4097 ), m = c.pick< string >( { "", "_l", "_r", "_", "l" } ); s += m; c.op( "%zu characters, %s", s.size(), mc::show( s.substr( 0, 60 ) ).c_str() ); c.state( s );
	xo::hash_t w = 0xCBF29CE484222325ull; for ( unsigned char k : s ) { w = ( w ^ k ) * 0x100000001B3ull; } c.eq( xo::hash( s ), w, "FNV-1a" ); c.eq( xo::hash( s.c_str() ), w, "FNV-1a of characters" ); if ( s.size() < 400 ) c.eq( xo::hash_constexpr( s.c_str() ), w, "compile-time hash" );
	size_t n = s.size(); side want = n >= 2 && s[ n - 2 ] == '_' && ( s[ n - 1 ] == 'l' || s[ n - 1 ] == 'r' ) ? s[ n - 1 ] == 'l' ? side::left : side::right : side::none; string base = want == side::none ? s : s.substr( 0, n - 2 );
	c.check( xo::str_get_side( s ) == want, "side of the name" ); c.eq( xo::str_remove_side( s ), base, "name without side" ); c.eq( xo::str_mirrored_side( s ), base + ( want == side::left ? "_r" : want == side::right ? "_l" : "" ), "mirrored name" ); c.eq( xo::str_set_side( s, side::right ), base + "_r", "name with another side" );
}

// ---- pairs, variants, streams ------------------------------------------------------------------------------------------------
template< typename A, typename B > static void pairs( mc::Ctx& c )
{
	A a = A( c.choose( 7 ) - 3 ), d = A( c.choose( 7 ) - 3 ); B b = B( c.choose( 5 ) - 2 ) / 2, e = B( c.choose( 5 ) - 2 ) / 2; c.op( "%g,%g %g,%g", double( a ), double( b ), double( d ), double( e ) ); c.state( mc::show( a ) + mc::show( b ) + mc::show( d ) + mc::show( e ) );
	xo::pair< A, B > p( a, b ), q( d, e ), s = p + q, t = p - q; c.check( s.first == a + d && s.second == b + e, "sum" ); c.check( t.first == a - d && t.second == b - e, "difference" ); s = p; c.check( &( s += q ) == &s && s == p + q, "sum in place" ); c.check( &( s -= q ) == &s && s == p, "difference in place" );
}
MC_SUITE( "pairs" ) { if ( c.flip() ) pairs< int, double >( c ); else pairs< double, float >( c ); }
MC_SUITE( "variants" )
{
	using S = std::variant< int, short, float >; using T = std::variant< string, int, short, float, double >; int v = c.choose( 9 ) - 4, k = c.choose( 3 ); S s; if ( k == 0 ) s = v; else if ( k == 1 ) s = short( v ); else s = v * 0.5f; c.op( "%d as %d", v, k ); c.state( v * 4 + k );
	T t = xo::variant_cast< T >( s ); c.eq( t.index(), size_t( 1 + k ), "type of the converted variant" ); double got = std::visit( xo::overload( []( string ) { return 1e9; }, []( auto x ) { return double( x ); } ), t ); c.eq( got, k == 2 ? v * 0.5 : v, "value of the converted variant" );
	auto which = xo::overload( []( int ) { return 1; }, []( short ) { return 2; }, []( float ) { return 3; } ); c.eq( std::visit( which, s ), k + 1, "overload" );
}
MC_SUITE( "value streams" )
{
	using V = xo::vec3d; using Q = xo::quatd; int n = 1 + c.choose( c.thorough ? 4 : 3 ), w = 0, target = c.choose( 3 ); vector< double > want, buf( 40, -1 ); std::list< double > lst( 40, -1 ); vector< double > back; vector< int > kinds;
	xo::output_iterator_stream< vector< double >::iterator > ov( buf.begin() ); xo::output_iterator_stream< std::list< double >::iterator > ol( lst.begin() ); xo::push_back_stream< vector< double > > pb( back );
	auto put = [&]( auto& o, int k ) { double x = ++w; if ( k == 0 ) { o << x; want.push_back( x ); } else if ( k == 1 ) { o << int( x ); want.push_back( x ); } else if ( k == 2 ) { o << float( x ) + 0.5f; want.push_back( x + 0.5 ); } else { o << short( x ); want.push_back( x ); } };
	for ( int i = 0; i < n; ++i )
	{
		int k = c.choose( target == 2 ? 4 : 6 ); kinds.push_back( k ); c.op( "%d to %d", k, target ); if ( target == 2 ) { put( pb, k ); continue; }
		if ( k < 4 ) { if ( target == 0 ) put( ov, k ); else put( ol, k ); }
		else if ( k == 4 ) { double x = ++w; V v( x, -x, x * 2 ); if ( target == 0 ) ov << v; else ol << v; want.insert( want.end(), { x, -x, x * 2 } ); }
		else { double x = ++w; Q q( x, x + 1, x + 2, x + 3 ); if ( target == 0 ) ov << q; else ol << q; want.insert( want.end(), { x, x + 1, x + 2, x + 3 } ); }
	}
	vector< double > got = target == 0 ? buf : target == 1 ? vector< double >( lst.begin(), lst.end() ) : back; if ( target < 2 ) { for ( size_t i = want.size(); i < got.size(); ++i ) c.eq( got[ i ], -1.0, "written behind the last value" ); got.resize( want.size() ); } c.eq( got, want, "values written" ); c.state( mc::show( want ) + std::to_string( target ) );
	vector< double > src = want; xo::input_iterator_stream< vector< double >::const_iterator > in( src.cbegin() ); size_t at = 0;
	for ( int k : kinds )
		if ( k == 0 || k == 2 ) { double x; in >> x; c.eq( x, want[ at++ ], "value read" ); } else if ( k == 1 ) { int x; in >> x; c.eq( x, int( want[ at++ ] ), "integer read" ); } else if ( k == 3 ) { float x; in >> x; c.eq( x, float( want[ at++ ] ), "float read" ); }
		else if ( k == 4 ) { V v; in >> v; for ( int i = 0; i < 3; ++i ) c.eq( v[ i ], want[ at++ ], "vector read" ); } else { Q q; in >> q; c.check( q.w == want[ at ] && q.x == want[ at + 1 ] && q.y == want[ at + 2 ] && q.z == want[ at + 3 ], "quaternion read" ); at += 4; }
	c.eq( at, want.size(), "values read" );
}
MC_SUITE( "streams of many values" )
{
	int n = c.pick( { 5, 16, 17, 33, 64, 65, 129, 257, 1025 } ), kind = c.choose( 3 ); c.op( "%d values, kind %d", n, kind ); c.state( n * 3 + kind ); vector< double > want, buf( n * 4 + 5, -1 ), back; using V = xo::vec3d;
	xo::output_iterator_stream< vector< double >::iterator > o( buf.begin() ); xo::push_back_stream< vector< double > > pb( back );
	for ( int i = 0; i < n; ++i ) if ( kind == 2 && i % 3 == 0 ) { o << V( i, -i, 0.5 ); for ( double x : { double( i ), double( -i ), 0.5 } ) { pb << x; want.push_back( x ); } } else if ( kind == 1 && i % 2 ) { o << i; pb << i; want.push_back( i ); } else { o << i * 0.25; pb << i * 0.25; want.push_back( i * 0.25 ); }
	for ( size_t i = want.size(); i < buf.size(); ++i ) c.eq( buf[ i ], -1.0, "written behind the last value" ); buf.resize( want.size() ); c.check( buf == want, "values written" ); c.check( back == want, "values appended" );
	xo::input_iterator_stream< vector< double >::const_iterator > in( want.cbegin() ); for ( size_t i = 0; i < want.size(); ++i ) { double x; in >> x; c.eq( x, want[ i ], "value read" ); }
}
enum en { en_a }; enum class ec { a };
MC_SUITE( "classes of types" )
{
	using namespace xo; c.op( "types" ); c.state( 1 ); c.check( get_type_class< void >() == void_type_class && get_type_class< bool >() == boolean_type_class && get_type_class< int >() == integral_type_class && get_type_class< unsigned char >() == integral_type_class && get_type_class< size_t >() == integral_type_class && get_type_class< float >() == floating_point_type_class && get_type_class< double >() == floating_point_type_class && get_type_class< en >() == enum_type_class && get_type_class< ec >() == enum_type_class && get_type_class< string >() == string_type_class && get_type_class< vector< int > >() == unknown_type_class && get_type_class< vec3d >() == unknown_type_class, "class of a type" );
}

// ---- random numbers ------------------------------------------------------------------------------------------------------------
template< typename G > static void numbers( mc::Ctx& c, const char* name )
{
	unsigned block = c.choose( c.thorough ? 4096 : 256 ), span = 64; c.op( "%s seeds %u to %u", name, block * span, block * span + span - 1 ); c.state( string( name ) + std::to_string( block ) ); static const double bs[][ 2 ] = { { 0, 1 }, { -2, -1 }, { -1, 3 }, { 5, 5 }, { -1e6, 1e6 } }; static const int is[][ 2 ] = { { 0, 1 }, { -3, 3 }, { 7, 7 }, { 0, 1000000 }, { -2147483647, 2147483647 } };
	for ( unsigned s = block * span; s < block * span + span; ++s )
	{
		unsigned seed = block % 16 == 15 ? ~s : s; G g( seed ), h( 1 ); h.seed( seed );
		for ( auto& b : bs ) { double x = g.uniform( b[ 0 ], b[ 1 ] ); c.check( x >= b[ 0 ] && x <= b[ 1 ], "a uniform number is out of bounds" ); c.check( h.uniform( xo::bounds< double >( b[ 0 ], b[ 1 ] ) ) == x, "seeds do not reproduce numbers" ); float y = g.uniform( float( b[ 0 ] ), float( b[ 1 ] ) ); c.check( y >= float( b[ 0 ] ) && y <= float( b[ 1 ] ), "a uniform number is out of bounds" ); c.check( h.uniform( float( b[ 0 ] ), float( b[ 1 ] ) ) == y, "seeds do not reproduce numbers" ); }
		for ( auto& b : is ) { int x = g.uniform_int( b[ 0 ], b[ 1 ] ); c.check( x >= b[ 0 ] && x <= b[ 1 ], "a uniform integer is out of bounds" ); c.check( h.uniform_int( xo::bounds< int >( b[ 0 ], b[ 1 ] ) ) == x, "seeds do not reproduce numbers" ); }
		{ G k = g; double x = g.normal( 3.0, 2.0 ); c.check( std::isfinite( x ) && std::abs( x - 3 ) < 40, "a normal number is far out" ); c.check( h.normal( 3.0, 2.0 ) == x && k.normal( 3.0, 2.0 ) == x, "seeds and copies do not reproduce numbers" ); G z = k; double n0 = k.normal( 0.0, 1.0 ), n1 = z.normal( 3.0, 2.0 ); c.check( std::abs( n1 - ( 3 + 2 * n0 ) ) < 1e-9, "mean and deviation" ); }
		xo::vec3d v = g.uniform_vec3( -1.0, 2.0 ), w = h.uniform_vec3( -1.0, 2.0 ); ( void )w; for ( int i = 0; i < 3; ++i ) c.check( v[ i ] >= -1 && v[ i ] <= 2, "a random vector is out of bounds" ); c.check( v != g.uniform_vec3( -1.0, 2.0 ), "random vectors repeat" );
	}
}
MC_SUITE( "random numbers" ) { switch ( c.choose( 4 ) ) { case 0: numbers< xo::random_number_generator_default >( c, "default" ); break; case 1: numbers< xo::random_number_generator_fast >( c, "fast" ); break; case 2: numbers< xo::random_number_generator_accurate >( c, "accurate" ); break; default: { xo::random_number_generator_fast a, b( 123 ); c.op( "default seed" ); c.state( 0 ); for ( int i = 0; i < 100; ++i ) c.eq( a.uniform_int( 0, 1000000 ), b.uniform_int( 0, 1000000 ), "default seed" ); } } }
MC_SUITE_THOROUGH( "every state of the fast generator" )
{
	// minstd has 2^31 - 2 states, each of which is reached by seeding with it
	const unsigned block = 1u << 20; unsigned b = c.choose( 2047 ); c.op( "states %u to %u", b * block + 1, ( b + 1 ) * block ); c.state( b ); unsigned long bad = 0; for ( unsigned s = b * block + 1; s <= ( b + 1 ) * block; ++s ) { xo::random_number_generator_fast g( s ); int x = g.uniform_int( -3, 9 ); bad += x < -3 || x > 9; double y = g.uniform( 0.0, 1.0 ); bad += !( y >= 0 && y <= 1 ); float z = g.uniform( 1.0f, 2.0f ); bad += !( z >= 1 && z <= 2 ); } c.eq( bad, 0ul, "numbers out of bounds" );
}

// ---- plots -----------------------------------------------------------------------------------------------------------------------
struct capture { std::ostringstream s; std::streambuf* old; capture() : old( std::cout.rdbuf( s.rdbuf() ) ) {} ~capture() { std::cout.rdbuf( old ); } };
template< typename T > static void plots( mc::Ctx& c )
{
	const T NaN = std::numeric_limits< T >::quiet_NaN(), inf = std::numeric_limits< T >::infinity(); int w = c.choose( 5 ), h = c.choose( 6 ), n = c.choose( 3 ); static const double xs[][ 2 ] = { { 0, 1 }, { -1, 1 }, { -3, -1 }, { 1, 1 }, { 2, 1 } }; const double* x = xs[ c.choose( 5 ) ]; if ( ( w < 2 || h < 2 ) && n ) n = 1; bool valid = x[ 0 ] < x[ 1 ] && w >= 2 && h >= 2;
	vector< vector< T > > ys; vector< std::function< T( T ) > > fns; bool finite = true; string desc; T off = T( 0 ); if ( valid && n ) off = c.pick< T >( { 0, 10, -10, T( 1e10 ) } );
	for ( int f = 0; f < n; ++f ) { ys.emplace_back(); for ( int i = 0; i < w; ++i ) { int k = valid ? c.choose( off || n > 1 ? 3 : 6 ) : 0; T y = k == 3 ? T( 2.5 ) : k == 4 ? NaN : k == 5 ? inf : T( k - 1 ) + ( off > 100 ? T( 0 ) : off ); if ( off > 100 ) y = off * ( y + 2 ); ys.back().push_back( y ); finite = finite && std::isfinite( y ); desc += std::to_string( y ) + " "; } desc += "; "; }
	int calls = 0; bool outside = false; for ( int f = 0; f < n; ++f ) fns.push_back( [&, f]( T v ) { ++calls; outside = outside || !( v >= T( x[ 0 ] ) - T( 1e-5 ) && v <= T( x[ 1 ] ) + T( 1e-5 ) ); if ( ys[ f ].empty() ) return T( 0 ); double p = ( double( v ) - x[ 0 ] ) / ( x[ 1 ] - x[ 0 ] ) * ( w - 1 ); long i = std::isfinite( p ) ? std::lround( p ) : 0; return ys[ f ][ std::min( std::max( i, 0l ), long( w - 1 ) ) ]; } );
	c.op( "%dx%d from %g to %g: %s", w, h, x[ 0 ], x[ 1 ], desc.c_str() ); string out; { capture cap; xo::console_plot< T >( fns, T( x[ 0 ] ), T( x[ 1 ] ), w, h ); out = cap.s.str(); } c.state( out ); c.check( !outside, "a function is evaluated outside the range" );
	vector< string > rows; { std::istringstream in( out ); string l; while ( std::getline( in, l ) ) rows.push_back( l ); } if ( !valid ) return;
	c.eq( rows.size(), size_t( h ), "number of rows" ); for ( auto& r : rows ) c.eq( r.size(), size_t( w ), "width of a row" );
	const string marks{ char( 219 ), char( 178 ), char( 177 ), char( 176 ) }, axes{ ' ', char( 196 ), char( 194 ), char( 197 ), char( 193 ), char( 179 ) };
	double lo = 1e300, up = -1e300; for ( auto& f : ys ) for ( T y : f ) if ( std::isfinite( y ) ) { lo = std::min( lo, double( y ) ); up = std::max( up, double( y ) ); }
	for ( int i = 0; i < w; ++i )
	{
		size_t marked = 0, expected = 0; for ( auto& r : rows ) { bool m = marks.find( r[ i ] ) != string::npos; marked += m; c.check( m || axes.find( r[ i ] ) != string::npos, "another character is plotted" ); }
		std::map< int, char > want; bool loose = false; for ( size_t f = 0; f < ys.size(); ++f ) { T y = ys[ f ][ i ]; if ( !std::isfinite( y ) ) continue; ++expected; if ( up <= lo ) { loose = true; continue; } double p = ( h - 1 ) * ( double( y ) - lo ) / ( up - lo ); if ( std::abs( p - std::floor( p ) - 0.5 ) < 1e-4 ) loose = true; want[ h - 1 - int( std::floor( p + 0.5 ) ) ] = marks[ f ]; }
		if ( !loose ) { c.eq( marked, want.size(), "number of marks in a column" ); for ( auto& k : want ) c.check( rows[ k.first ][ i ] == k.second, "a value is not marked at its place" ); } else c.check( marked >= 1 && marked <= expected, "number of marks in a column" );
	}
	if ( !n ) for ( auto& r : rows ) for ( char k : r ) c.check( axes.find( k ) != string::npos, "something is plotted without functions" );
}
MC_SUITE( "plots" ) { if ( c.flip() ) plots< float >( c ); else plots< double >( c ); }
// numbers whose differences and products do not fit in their type
template< typename T > static void extreme_plots( mc::Ctx& c )
{
	using N = std::numeric_limits< T >; const T M = N::max(); int w = 2 + c.choose( 3 ), h = c.pick( { 2, 3, 8, 40 } ); vector< std::pair< T, T > > ranges{ { T( 0 ), T( 1 ) }, { T( 0 ), M / 2 }, { -M / 2, M / 2 }, { -M, T( 0 ) }, { M / 4, M / 2 }, { T( 0 ), N::min() }, { T( -1 ), M / 8 } }; auto x = c.pick( ranges );
	vector< T > ys; string desc; for ( int i = 0; i < w; ++i ) { ys.push_back( c.pick( vector< T >{ T( 0 ), M, -M, M / 2, M / 64, T( 1 ), N::min() } ) ); desc += mc::show( ys.back() ) + " "; } int calls = 0; bool outside = false;
	c.op( "%dx%d from %g to %g: %s", w, h, double( x.first ), double( x.second ), desc.c_str() ); string out; { capture cap; xo::console_plot< T >( { [&]( T v ) { outside = outside || !( v >= x.first * ( 1 - N::epsilon() ) - M * N::epsilon() * ( x.first < 0 ) && v <= x.second * ( 1 + N::epsilon() * 2 ) + ( x.first < 0 ? x.second : T( 0 ) ) * N::epsilon() + N::epsilon() * ( x.first < 0 ? M : T( 0 ) ) ); return ys[ std::min( calls++, w - 1 ) ]; } }, x.first, x.second, w, h ); out = cap.s.str(); } c.state( out );
	c.eq( calls, w, "number of evaluations" ); c.check( !outside, "a function is evaluated outside the range" ); vector< string > rows; { std::istringstream in( out ); string l; while ( std::getline( in, l ) ) rows.push_back( l ); } c.eq( rows.size(), size_t( h ), "number of rows" ); for ( auto& r : rows ) c.eq( r.size(), size_t( w ), "width of a row" );
	long double lo = *std::min_element( ys.begin(), ys.end() ), up = *std::max_element( ys.begin(), ys.end() );
	for ( int i = 0; i < w; ++i ) { int marked = 0, at = -1; for ( int r = 0; r < h; ++r ) if ( rows[ r ][ i ] == char( 219 ) ) { ++marked; at = r; } c.eq( marked, 1, "number of marks in a column" ); if ( up > lo ) { long double p = ( h - 1 ) * ( ys[ i ] - lo ) / ( up - lo ), got = h - 1 - at; c.check( std::abs( p - got ) <= 0.5001L, "a value is not marked at its place" ); } }
}
MC_SUITE( "plots of extreme numbers" ) { if ( c.flip() ) extreme_plots< float >( c ); else extreme_plots< double >( c ); }
