// C34: vectors, lines, segments, paths and splines equal their algebraic and geometric definitions on every small grid.
#include "mc.h"
#include <cmath>
#include <string>
#include <vector>
#include "xo/geometry/vec3.h"
#include "xo/geometry/vec4.h"
#include "xo/geometry/scale3.h"
#include "xo/geometry/line.h"
#include "xo/geometry/segment.h"
#include "xo/geometry/path_alg.h"
#include "xo/geometry/catmull_rom.h"
#include "xo/container/prop_node.h"
using std::string; using std::vector;

struct V { double x, y, z; };
static V operator+( V a, V b ) { return { a.x + b.x, a.y + b.y, a.z + b.z }; }
static V operator-( V a, V b ) { return { a.x - b.x, a.y - b.y, a.z - b.z }; }
static V operator*( double s, V a ) { return { s * a.x, s * a.y, s * a.z }; }
static double dot( V a, V b ) { return a.x * b.x + a.y * b.y + a.z * b.z; }
static V cross( V a, V b ) { return { a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x }; }
static double len( V a ) { return std::sqrt( dot( a, a ) ); }
static string num( double v ) { char b[ 40 ]; snprintf( b, 40, "%.9g", v ); return b; }
static string str( V v ) { return num( v.x ) + " " + num( v.y ) + " " + num( v.z ); }
template< typename T > static V val( const xo::vec3_< T >& v ) { return { double( v.x ), double( v.y ), double( v.z ) }; }
template< typename T > static xo::vec3_< T > vec( V v ) { return xo::vec3_< T >( T( v.x ), T( v.y ), T( v.z ) ); }
template< typename T > static constexpr double eps() { return sizeof( T ) == 4 ? 3e-6 : 1e-12; }
static void same( mc::Ctx& c, double got, double want, const char* what, double e ) { ++c.checks; if ( !( std::abs( got - want ) <= e * ( 1 + std::abs( want ) ) ) ) c.fail( string( what ) + ": got " + num( got ) + ", expected " + num( want ) ); }
static void same( mc::Ctx& c, V got, V want, const char* what, double e ) { ++c.checks; if ( !( len( got - want ) <= e * ( 1 + len( want ) ) ) ) c.fail( string( what ) + ": got " + str( got ) + ", expected " + str( want ) ); }
static V grid( mc::Ctx& c, int n ) { int k = c.choose( ( 2 * n + 1 ) * ( 2 * n + 1 ) * ( 2 * n + 1 ) ), m = 2 * n + 1; return { double( k / m / m - n ), double( k / m % m - n ), double( k % m - n ) }; }

// ---- vectors ---------------------------------------------------------------------------------------------------------------
template< typename T > static void algebra( mc::Ctx& c )
{
	using X = xo::vec3_< T >; const double E = eps< T >(); int n = c.thorough ? 3 : 2; V a = grid( c, n ), b = grid( c, n ); c.op( "%s and %s", str( a ).c_str(), str( b ).c_str() ); c.state( str( a ) + "," + str( b ) ); const X u = vec< T >( a ), v = vec< T >( b );
	same( c, val( u + v ), a + b, "sum", 0 ); same( c, val( u - v ), a - b, "difference", 0 ); same( c, val( -u ), -1 * a, "negation", 0 ); { X w = u; w += v; same( c, val( w ), a + b, "sum in place", 0 ); w -= v; same( c, val( w ), a, "difference in place", 0 ); }
	same( c, xo::dot_product( u, v ), dot( a, b ), "dot product", 0 ); same( c, val( xo::cross_product( u, v ) ), cross( a, b ), "cross product", 0 ); V m{ a.x * b.x, a.y * b.y, a.z * b.z }; same( c, val( xo::multiply( u, v ) ), m, "product of elements", 0 ); same( c, val( xo::scaled( u, v ) ), m, "scaled", 0 ); { X w = u; w *= v; same( c, val( w ), m, "product of elements in place", 0 ); X s = u; c.check( &xo::scale( s, v ) == &s && s == w, "scale" ); }
	c.eq( u == v, str( a ) == str( b ), "equality" ); c.eq( u != v, str( a ) != str( b ), "inequality" ); c.eq( xo::equal( u, v ), str( a ) == str( b ), "equal" );
	same( c, xo::distance( u, v ), len( a - b ), "distance", E ); same( c, xo::squared_distance( u, v ), dot( a - b, a - b ), "squared distance", 0 );
	if ( b.x && b.y && b.z ) { V q{ a.x / b.x, a.y / b.y, a.z / b.z }; same( c, val( u / v ), q, "quotient of elements", E ); X w = u; w /= v; same( c, val( w ), q, "quotient of elements in place", E ); }
	if ( dot( b, b ) > 0 ) { V p = dot( a, b ) / dot( b, b ) * b; same( c, val( xo::projection( u, v ) ), p, "projection", E ); same( c, dot( a - val( xo::projection( u, v ) ), b ), 0, "the projection leaves a component", E * 20 ); }
}
MC_SUITE( "pairs of vectors" ) { if ( c.flip() ) algebra< float >( c ); else algebra< double >( c ); }
template< typename T > static void single( mc::Ctx& c )
{
	using X = xo::vec3_< T >; const double E = eps< T >(); V a = grid( c, c.thorough ? 4 : 3 ); double sz = c.pick< double >( { 1, 0.125, 1024 } ); a = sz * a; double s = c.pick< double >( { 2, -3, 0.5, 7, -0.25, 1 } ); c.op( "%s with %g", str( a ).c_str(), s ); c.state( str( a ) + "," + num( s ) ); const X u = vec< T >( a ); T t = T( s );
	same( c, val( u * t ), s * a, "scaled", E ); same( c, val( t * u ), s * a, "scaled", E ); { X w = u; w *= t; same( c, val( w ), s * a, "scaled in place", E ); w /= t; same( c, val( w ), a, "divided in place", E ); w = u; w /= t; same( c, val( w ), 1 / s * a, "divided in place", E ); } same( c, val( u / t ), 1 / s * a, "divided", E );
	if ( s > 1 ) { size_t k = size_t( s ); same( c, val( u / k ), 1.0 / k * a, "divided by a number of elements", E ); X w = u; w /= k; same( c, val( w ), 1.0 / k * a, "divided by a number of elements in place", E ); }
	if ( a.x && a.y && a.z ) same( c, val( t / u ), V{ s / a.x, s / a.y, s / a.z }, "inverted", E );
	same( c, xo::length( u ), len( a ), "length", E ); same( c, xo::squared_length( u ), dot( a, a ), "squared length", E ); same( c, xo::manhattan_length( u ), std::abs( a.x ) + std::abs( a.y ) + std::abs( a.z ), "Manhattan length", E ); same( c, val( xo::abs( u ) ), V{ std::abs( a.x ), std::abs( a.y ), std::abs( a.z ) }, "absolute value", 0 );
	bool null = len( a ) == 0; V d = null ? a : 1 / len( a ) * a; { X w = u; same( c, xo::normalize( w ), len( a ), "length returned by normalize", E ); same( c, val( w ), d, "normalize", E ); c.check( null || xo::is_normalized( w ), "is_normalized is false for a normalized vector" ); } same( c, val( xo::normalized( u ) ), d, "normalized", E ); { auto dl = xo::direction_length( u ); same( c, val( dl.first ), d, "direction", E ); same( c, dl.second, len( a ), "length with direction", E ); }
	if ( std::abs( dot( a, a ) - 1 ) > 1e-3 ) c.check( !xo::is_normalized( u ), "is_normalized is true for another length" );
	same( c, val( xo::projected_xy( u ) ), V{ a.x, a.y, 0 }, "projected_xy", 0 ); same( c, val( xo::projected_xz( u ) ), V{ a.x, 0, a.z }, "projected_xz", 0 ); same( c, val( xo::projected_yz( u ) ), V{ 0, a.y, a.z }, "projected_yz", 0 );
	{ X w = u; T lo = T( std::min( s, 1.0 ) ), up = T( std::max( s, 1.5 ) ); auto cl = [&]( double x ) { return std::min( double( up ), std::max( double( lo ), x ) ); }; c.check( &xo::clamp( w, lo, up ) == &w, "clamp" ); same( c, val( w ), V{ cl( a.x ), cl( a.y ), cl( a.z ) }, "clamp", 0 ); }
	c.eq( u.is_null(), null, "is_null" ); c.check( !u.is_nan(), "is_nan" ); for ( int i = 0; i < 3; ++i ) { X w = u; w[ i ] = xo::constants< T >::NaN(); c.check( w.is_nan(), "is_nan is false with one" ); c.check( w != w, "a vector with NaN equals" ); same( c, u[ i ], i == 0 ? a.x : i == 1 ? a.y : a.z, "element", 0 ); same( c, xo::dot_product( u, X::axis( i ) ), double( u[ i ] ), "axis", 0 ); X x = u; x[ i ] += T( 1 ); c.check( x != u && !( x == u ) && !xo::equal( x, u ), "a vector with another element is equal" ); }
	c.eq( u.size(), size_t( 3 ), "size" ); { double sum = 0; for ( auto& e : u ) sum = sum * 3 + e; same( c, sum, ( a.x * 3 + a.y ) * 3 + a.z, "iteration", E ); X w = u; for ( auto& e : w ) e += 1; same( c, val( w ), a + V{ 1, 1, 1 }, "iteration", E ); w.set( T( a.z ), T( a.x ), T( a.y ) ); same( c, val( w ), V{ a.z, a.x, a.y }, "set", 0 ); w.clear(); c.check( w.is_null() && w == X::zero() && w == X(), "clear" ); }
	same( c, val( xo::vec3f( u ) ), a, "conversion", 1e-6 ); same( c, val( xo::vec3d( u ) ), a, "conversion", 0 ); same( c, val( X( int( a.x ), int( a.y ), int( a.z ) ) ), V{ double( int( a.x ) ), double( int( a.y ) ), double( int( a.z ) ) }, "conversion", 0 );
	same( c, val( X::diagonal( t ) ), V{ s, s, s }, "diagonal", 0 ); same( c, val( X::one() ), V{ 1, 1, 1 }, "one", 0 ); c.check( X::unit_x() == X::axis( 0 ) && X::unit_y() == X::axis( 1 ) && X::unit_z() == X::axis( 2 ) && X::neg_unit_x() == -X::axis( 0 ) && X::neg_unit_y() == -X::axis( 1 ) && X::neg_unit_z() == -X::axis( 2 ), "unit vectors" );
	// forms as text and property tree
	X w = X::diagonal( T( 99 ) ); xo::prop_node pn = xo::to_prop_node( u ); c.check( xo::from_prop_node( pn, w ), "the property tree is not read" ); same( c, val( w ), a, "vector read from its property tree", 1e-5 );
	w = X::diagonal( T( 99 ) ); xo::prop_node tx( xo::to_str( u ) ); c.check( xo::from_prop_node( tx, w ), "the text is not read" ); same( c, val( w ), a, "vector read from its text", 1e-5 );
	w = X::diagonal( T( 99 ) ); xo::prop_node ar; ar.add_value( u.x ); ar.add_value( u.y ); ar.add_value( u.z ); c.check( xo::from_prop_node( ar, w ), "the array is not read" ); same( c, val( w ), a, "vector read from an array", 1e-5 );
	xo::prop_node parent; parent.set( "v", u ); same( c, val( parent.get< X >( "v" ) ), a, "vector in a property tree", 1e-5 );
	for ( string bad : { "1 2", "1 2 3 4", "1 2 x", "", "x" } ) { bool ok = true; xo::prop_node b( bad ); try { ok = xo::from_prop_node( b, w ); } catch ( std::exception& ) { ok = false; } c.check( !ok, "a vector is read from " + mc::show( bad ) ); } { xo::prop_node two; two.set( "x", 1 ); two.set( "y", 2 ); c.check( !xo::from_prop_node( two, w ), "a vector is read from two elements" ); }
}
MC_SUITE( "vectors" ) { if ( c.flip() ) single< float >( c ); else single< double >( c ); }
template< typename T > static void four( mc::Ctx& c )
{
	using X = xo::vec4_< T >; const double E = eps< T >(); double a[ 4 ], b[ 4 ]; X u, v; for ( int i = 0; i < 4; ++i ) { a[ i ] = c.choose( 3 ) - 1; b[ i ] = ( c.choose( 3 ) - 1 ) * 2.5; u[ i ] = T( a[ i ] ); v[ i ] = T( b[ i ] ); } double s = -3;
	c.op( "%g %g %g %g and %g %g %g %g", a[ 0 ], a[ 1 ], a[ 2 ], a[ 3 ], b[ 0 ], b[ 1 ], b[ 2 ], b[ 3 ] ); string st; for ( int i = 0; i < 4; ++i ) st += num( a[ i ] ) + "," + num( b[ i ] ) + ";"; c.state( st ); T t = T( s );
	auto is = [&]( const X& w, auto f, const char* what ) { double e[ 4 ] = { double( w.x ), double( w.y ), double( w.z ), double( w.w ) }; for ( int i = 0; i < 4; ++i ) { same( c, e[ i ], f( i ), what, E ); same( c, w[ i ], f( i ), what, E ); } };
	is( u + v, [&]( int i ) { return a[ i ] + b[ i ]; }, "sum" ); is( u - v, [&]( int i ) { return a[ i ] - b[ i ]; }, "difference" ); is( -u, [&]( int i ) { return -a[ i ]; }, "negation" ); is( u * t, [&]( int i ) { return s * a[ i ]; }, "scaled" ); is( t * v, [&]( int i ) { return s * b[ i ]; }, "scaled" ); is( v / t, [&]( int i ) { return b[ i ] / s; }, "divided" );
	X w = u; w += v; is( w, [&]( int i ) { return a[ i ] + b[ i ]; }, "sum in place" ); w -= v; is( w, [&]( int i ) { return a[ i ]; }, "difference in place" ); w *= t; is( w, [&]( int i ) { return s * a[ i ]; }, "scaled in place" ); w /= t; is( w, [&]( int i ) { return a[ i ]; }, "divided in place" );
	double q = 0; for ( double e : b ) q += e * e; same( c, v.squared_length(), q, "squared length", E ); same( c, v.length(), std::sqrt( q ), "length", E ); c.eq( v.is_null(), q == 0, "is_null" ); is( X( T( 1 ), T( 2 ), T( 3 ), T( 4 ) ), []( int i ) { return i + 1; }, "construction" );
	is( X::zero(), []( int ) { return 0; }, "zero" ); is( X::unit_x(), []( int i ) { return i == 0; }, "unit_x" ); is( X::unit_y(), []( int i ) { return i == 1; }, "unit_y" ); is( X::unit_z(), []( int i ) { return i == 2; }, "unit_z" ); is( X::unit_w(), []( int i ) { return i == 3; }, "unit_w" );
}
MC_SUITE( "vectors of four elements" ) { if ( c.flip() ) four< float >( c ); else four< double >( c ); }
template< typename T > static void scales( mc::Ctx& c )
{
	using S = xo::scale3_< T >; using X = xo::vec3_< T >; const double E = eps< T >(); static const double f[] = { 1, 2, 0.5, -3 }; V a{ f[ c.choose( 4 ) ], f[ c.choose( 4 ) ], f[ c.choose( 4 ) ] }, b = grid( c, 2 ), d{ f[ c.choose( 4 ) ], 2, 0.25 }; c.op( "scale %s of %s", str( a ).c_str(), str( b ).c_str() ); c.state( str( a ) + str( b ) + str( d ) );
	const S s( T( a.x ), T( a.y ), T( a.z ) ), r( T( d.x ), T( d.y ), T( d.z ) ); const X v = vec< T >( b ); V p{ a.x * b.x, a.y * b.y, a.z * b.z }, q{ b.x / a.x, b.y / a.y, b.z / a.z }, sr{ a.x * d.x, a.y * d.y, a.z * d.z }, sq{ a.x / d.x, a.y / d.y, a.z / d.z };
	same( c, val< T >( s * v ), p, "scale times vector", E ); same( c, val< T >( v * s ), p, "vector times scale", E ); same( c, val< T >( v / s ), q, "vector divided by scale", E ); same( c, val< T >( s * r ), sr, "product of scales", E ); same( c, val< T >( s / r ), sq, "quotient of scales", E );
	{ X w = v; w *= s; same( c, val( w ), p, "scaled in place", E ); w /= s; same( c, val( w ), b, "scaled in place and back", E ); S t = s; t *= r; same( c, val< T >( t ), sr, "product of scales in place", E ); t /= r; same( c, val< T >( t ), a, "quotient of scales in place", E ); t.set( T( 1 ), T( a.x ), T( 1 ) ); c.eq( t.is_one(), a.x == 1, "is_one" ); t.reset(); c.check( t.is_one(), "reset" ); }
	c.eq( s.is_one(), a.x == 1 && a.y == 1 && a.z == 1, "is_one" ); c.check( S().is_one(), "a scale is one by default" ); same( c, val< T >( S( T( a.x ) ) ), V{ a.x, a.x, a.x }, "uniform scale", 0 ); same( c, val< T >( S::uniform( T( a.x ) ) ), V{ a.x, a.x, a.x }, "uniform scale", 0 ); same( c, val< T >( S::one() ), V{ 1, 1, 1 }, "one", 0 );
	S w( T( 99 ) ); xo::prop_node g; g.set( "x", s.x ); g.set( "y", s.y ); g.set( "z", s.z ); c.check( xo::from_prop_node( g, w ), "the group is not read" ); same( c, val< T >( w ), a, "scale read from a group", 1e-5 ); w = S( T( 99 ) ); xo::prop_node n( xo::to_str( s.y ) ); c.check( xo::from_prop_node( n, w ), "the number is not read" ); same( c, val< T >( w ), V{ a.y, a.y, a.y }, "scale read from a number", 1e-5 );
	w = S( T( 99 ) ); xo::prop_node ar; for ( T e : { s.x, s.y, s.z } ) ar.add_value( e ); c.check( xo::from_prop_node( ar, w ), "the array is not read" ); same( c, val< T >( w ), a, "scale read from an array", 1e-5 ); xo::prop_node bad( "x" ); c.check( !xo::from_prop_node( bad, w ), "a scale is read from a word" );
	same( c, val( X( xo::scale3f( s ) ) ), a, "conversion", 1e-6 ); same( c, val< double >( xo::scale3d( s ) ), a, "conversion", 0 );
}
MC_SUITE( "scales" ) { if ( c.flip() ) scales< float >( c ); else scales< double >( c ); }

// ---- lines and segments ------------------------------------------------------------------------------------------------------
template< typename T > static void lines( mc::Ctx& c )
{
	const double E = sizeof( T ) == 4 ? 2e-4 : 1e-9; V p1 = c.pick< V >( { { 0, 0, 0 }, { 1, 2, -1 } } ), w = grid( c, c.thorough ? 2 : 1 ), u = grid( c, 1 ), v = c.thorough ? grid( c, 2 ) : grid( c, 1 ); if ( dot( u, u ) == 0 || dot( v, v ) == 0 ) throw mc::prune();
	double su = c.pick< double >( { 1, 1.0 / 1024, 1024 } ), sv = c.pick< double >( { 1, 1.0 / 4096, 64 } ); u = su * u; v = sv * v; V p2 = p1 + w; c.op( "%s along %s and %s along %s", str( p1 ).c_str(), str( u ).c_str(), str( p2 ).c_str(), str( v ).c_str() ); c.state( str( p1 ) + str( u ) + str( p2 ) + str( v ) );
	V k = cross( u, v ); bool parallel = dot( k, k ) == 0; double want = parallel ? len( cross( w, v ) ) / len( v ) : std::abs( dot( w, k ) ) / len( k );
	xo::line_< T > a( vec< T >( p1 ), vec< T >( u ) ), b( vec< T >( p2 ), vec< T >( v ) ); auto q = xo::closest_points( a, b ); V q1 = val( q.first ), q2 = val( q.second );
	same( c, len( cross( q1 - p1, u ) ) / len( u ), 0, "the first point is not on the first line", E ); same( c, len( cross( q2 - p2, v ) ) / len( v ), 0, "the second point is not on the second line", E ); same( c, len( q1 - q2 ), want, "distance between the closest points", E ); same( c, xo::distance( a, b ), want, "distance between lines", E ); same( c, xo::distance( b, a ), want, "distance between lines", E );
	if ( !parallel ) { same( c, dot( q1 - q2, u ) / len( u ), 0, "the shortest connection is not orthogonal", E ); same( c, dot( q1 - q2, v ) / len( v ), 0, "the shortest connection is not orthogonal", E ); auto r = xo::closest_points( b, a ); same( c, val( r.first ), q2, "closest points of swapped lines", E * 10 ); same( c, val( r.second ), q1, "closest points of swapped lines", E * 10 ); }
}
MC_SUITE( "lines" ) { if ( c.flip() ) lines< float >( c ); else lines< double >( c ); }
template< typename T > static void segments( mc::Ctx& c )
{
	const double E = sizeof( T ) == 4 ? 1e-5 : 1e-12; V p = grid( c, 1 ), a = grid( c, c.thorough ? 2 : 1 ), b = grid( c, 1 ); double s = c.pick< double >( { 1, 1.0 / 1024, 512 } ); a = 1.5 * a; p = s * p; a = s * a; b = s * b; c.op( "%s to %s %s", str( p ).c_str(), str( a ).c_str(), str( b ).c_str() ); c.state( str( p ) + str( a ) + str( b ) );
	double want = std::min( len( p - a ), len( p - b ) ); V d = b - a; if ( dot( d, d ) > 0 && dot( p - a, d ) > 0 && dot( p - b, d ) < 0 ) want = std::min( want, len( cross( p - a, d ) ) / len( d ) );
	xo::segment_< T > g( vec< T >( a ), vec< T >( b ) ), r( vec< T >( b ), vec< T >( a ) ); same( c, xo::distance( vec< T >( p ), g ) / s, want / s, "distance to a segment", E ); same( c, xo::distance( vec< T >( p ), r ) / s, want / s, "distance to a reversed segment", E );
}
MC_SUITE( "segments" ) { if ( c.flip() ) segments< float >( c ); else segments< double >( c ); }

// ---- paths ---------------------------------------------------------------------------------------------------------------------
static V along( const vector< V >& p, double l ) { if ( l <= 0 ) return p[ 0 ]; for ( size_t i = 1; i < p.size(); ++i ) { double s = len( p[ i ] - p[ i - 1 ] ); if ( l <= s && s > 0 ) return p[ i - 1 ] + l / s * ( p[ i ] - p[ i - 1 ] ); l -= s; } return p.back(); }
template< typename T > static void paths( mc::Ctx& c )
{
	const double E = sizeof( T ) == 4 ? 1e-5 : 1e-12; int n = 1 + c.choose( c.thorough ? 4 : 3 ); static const V dir[] = { { 0, 0, 0 }, { 1, 0, 0 }, { 0, 2, 0 }, { 0, 0, -1 }, { 3, 4, 0 } }; vector< V > p{ { 1, -1, 2 } }; vector< double > at{ 0 }; for ( int i = 0; i < n; ++i ) { V d = dir[ c.choose( 5 ) ]; p.push_back( p.back() + d ); at.push_back( at.back() + len( d ) ); }
	double total = at.back(); vector< xo::vec3_< T > > x; string text; for ( auto& v : p ) { x.push_back( vec< T >( v ) ); text += str( v ) + "; "; } same( c, xo::path_length( x ), total, "length of the path", E );
	int inserts = 1 + c.choose( 2 ); vector< V > cur = p;
	for ( int k = 0; k < inserts; ++k )
	{
		double l = ( c.choose( k ? 8 : 4 * int( total ) + 4 ) - 1 ) * ( k ? 0.75 : 0.25 ); c.op( "%sinsert at %g", text.c_str(), l ); double where = std::max( 0.0, std::min( l, total ) ); bool exists = false; for ( double e : at ) exists = exists || std::abs( e - where ) < 1e-9;
		xo::index_t i = xo::insert_path_point( x, T( l ) ); c.eq( x.size(), cur.size() + !exists, "number of points" ); c.check( i < x.size(), "the index is out of range" ); same( c, val( x[ i ] ), along( p, where ), "point at the index", E ); if ( !exists ) { cur.insert( cur.begin() + i, along( p, where ) ); at.push_back( where ); } for ( size_t j = 0; j < cur.size(); ++j ) same( c, val( x[ j ] ), cur[ j ], "points of the path", E ); same( c, xo::path_length( x ), total, "length of the path", E );
	}
	c.state( text + std::to_string( cur.size() ) + str( cur[ cur.size() / 2 ] ) );
}
MC_SUITE( "paths" ) { if ( c.flip() ) paths< float >( c ); else paths< double >( c ); }

template< typename T > static void long_paths( mc::Ctx& c )
{
	const double E = sizeof( T ) == 4 ? 1e-4 : 1e-11; static const V dir[] = { { 1, 0, 0 }, { 0, 2, 0 }, { 0, 0, -1 }, { 3, 4, 0 }, { 0, 0, 0 } }; int n = c.pick( { 5, 8, 16, 33, 65, 129 } ), kind = c.choose( 3 ), order = c.choose( 3 ); double step = c.pick< double >( { 0.75, 3.25, 7.5 } ); c.op( "%d segments, kind %d, points inserted at distances of %g, order %d", n, kind, step, order );
	vector< V > p{ { 1, -1, 2 } }; vector< double > at{ 0 }; for ( int i = 0; i < n; ++i ) { V d = dir[ kind == 0 ? 0 : kind == 1 ? i % 4 : ( i * 3 ) % 5 ]; p.push_back( p.back() + d ); at.push_back( at.back() + len( d ) ); } double total = at.back(); vector< xo::vec3_< T > > x; for ( auto& v : p ) x.push_back( vec< T >( v ) ); same( c, xo::path_length( x ), total, "length of the path", E ); vector< V > cur = p;
	int m = int( total / step ) + 2; for ( int q = 0; q < m; ++q )
	{
		double l = ( order == 0 ? q : order == 1 ? m - 1 - q : ( q * 37 ) % m ) * step, where = std::min( l, total ); bool exists = false; for ( double e : at ) exists = exists || std::abs( e - where ) < 1e-9;
		xo::index_t i = xo::insert_path_point( x, T( l ) ); bool grew = x.size() == cur.size() + 1; if ( exists ) c.check( grew || x.size() == cur.size(), "number of points" ); else c.check( grew, "number of points" ); // rounding after many steps
		c.check( i < x.size(), "the index is out of range" ); same( c, val( x[ i ] ), along( p, where ), "point at the index", E ); if ( grew ) { cur.insert( cur.begin() + i, along( p, where ) ); at.push_back( where ); }
	}
	for ( size_t j = 0; j < cur.size(); ++j ) same( c, val( x[ j ] ), cur[ j ], "points of the path", E ); same( c, xo::path_length( x ), total, "length of the path", E ); c.state( std::to_string( n ) + "," + std::to_string( kind ) + "," + std::to_string( cur.size() ) );
}
MC_SUITE( "long paths" ) { if ( c.flip() ) long_paths< float >( c ); else long_paths< double >( c ); }

// ---- splines -------------------------------------------------------------------------------------------------------------------
static V basis( const V* p, double t ) { return 0.5 * ( 2 * p[ 1 ] + t * ( p[ 2 ] - p[ 0 ] ) + t * t * ( 2 * p[ 0 ] - 5 * p[ 1 ] + 4 * p[ 2 ] - p[ 3 ] ) + t * t * t * ( 3 * p[ 1 ] - p[ 0 ] - 3 * p[ 2 ] + p[ 3 ] ) ); }
template< typename T > static void splines( mc::Ctx& c )
{
	using X = xo::vec3_< T >; const double E = 2e-4; static const V pts[] = { { 0, 0, 0 }, { 1, 0, 0 }, { 2, 1, 0 }, { 0, 3, -1 }, { -1, 1, 2 }, { 3, 0, 0 } }; int n = c.thorough ? 6 : 5; V p[ 4 ], r[ 4 ], o[ 4 ]; bool distinct = true; string s; for ( int i = 0; i < 4; ++i ) { p[ i ] = pts[ c.choose( n ) ]; r[ 3 - i ] = p[ i ]; o[ i ] = p[ i ] + V{ 5, -3, 1 }; s += str( p[ i ] ) + "; "; if ( i && len( p[ i ] - p[ i - 1 ] ) == 0 ) distinct = false; } c.op( "%s", s.c_str() ); c.state( s );
	auto seg = [&]( const V* q ) { return xo::catmull_rom_segment< X >( vec< T >( q[ 0 ] ), vec< T >( q[ 1 ] ), vec< T >( q[ 2 ] ), vec< T >( q[ 3 ] ) ); }; auto f = seg( p );
	for ( int i = 0; i <= 4; ++i ) same( c, val( f( T( i * 0.25 ) ) ), basis( p, i * 0.25 ), "uniform spline", 1e-5 ); same( c, val( f( T( 0 ) ) ), p[ 1 ], "start of the spline", 1e-5 ); same( c, val( f( T( 1 ) ) ), p[ 2 ], "end of the spline", 1e-5 );
	int steps = c.pick< int >( { 1, 2, 7 } ); double l = 0; for ( int i = 0; i < steps; ++i ) l += len( basis( p, ( i + 1.0 ) / steps ) - basis( p, double( i ) / steps ) ); same( c, xo::compute_spline_length( f, 0.0f, 1.0f, steps ), l, "length of the spline", 1e-5 );
	if ( distinct ) for ( float alpha : { 0.0f, 0.5f, 1.0f } )
	{
		auto sa = [&]( const V* q ) { return xo::catmull_rom_segment_alpha< X >( vec< T >( q[ 0 ] ), vec< T >( q[ 1 ] ), vec< T >( q[ 2 ] ), vec< T >( q[ 3 ] ), alpha ); }; auto g = sa( p ), h = sa( r ), m = sa( o );
		double k[ 4 ] = { 0 }; for ( int i = 1; i < 4; ++i ) k[ i ] = k[ i - 1 ] + std::pow( len( p[ i ] - p[ i - 1 ] ), double( alpha ) ); auto mix = [&]( V a, V b, int i, int j, double t ) { double w = ( t - k[ i ] ) / ( k[ j ] - k[ i ] ); return ( 1 - w ) * a + w * b; };
		for ( int i = 0; i <= 4; ++i )
		{
			float t = i * 0.25f; V v = val( g( t ) ); double tt = k[ 1 ] + t * ( k[ 2 ] - k[ 1 ] ); V a1 = mix( p[ 0 ], p[ 1 ], 0, 1, tt ), a2 = mix( p[ 1 ], p[ 2 ], 1, 2, tt ), a3 = mix( p[ 2 ], p[ 3 ], 2, 3, tt ); same( c, v, mix( mix( a1, a2, 0, 2, tt ), mix( a2, a3, 1, 3, tt ), 1, 2, tt ), "spline", E );
			if ( alpha == 0 ) same( c, v, basis( p, t ), "spline with equal steps", E ); same( c, v, val( h( 1 - t ) ), "the reversed spline differs", E ); same( c, val( m( t ) ), v + V{ 5, -3, 1 }, "the moved spline differs", E );
		}
		same( c, val( g( 0 ) ), p[ 1 ], "start of the spline", E ); same( c, val( g( 1 ) ), p[ 2 ], "end of the spline", E );
	}
}
MC_SUITE( "splines" ) { if ( c.flip() ) splines< float >( c ); else splines< double >( c ); }
// a spline through points at given times: each segment is the uniform spline of four points
MC_SUITE( "splines through times" )
{
	static const V pts[] = { { 0, 0, 0 }, { 1, 0, -2 }, { 0, 3, -1 }, { -1, 1, 2 } }; static const double step[] = { 0.5, 1, 2 }; int n = 4 + c.choose( c.thorough ? 4 : 3 ); vector< V > p; vector< xo::vec3d > x; vector< double > t{ -1.0 }; string s;
	for ( int i = 0; i < n; ++i ) { p.push_back( pts[ i < 5 ? c.choose( 4 ) : ( i * 3 ) % 4 ] ); x.push_back( vec< double >( p[ i ] ) ); s += str( p[ i ] ) + "; "; } int k = c.choose( 3 ); for ( int i = 0; i + 3 < n; ++i ) t.push_back( t.back() + step[ ( k + i ) % 3 ] ); c.op( "%s steps %d", s.c_str(), k ); c.state( s + num( k ) );
	xo::catmull_rom< xo::vec3d, double > f( x, t );
	for ( int i = 0; i + 3 < n; ++i ) for ( double u : { 0.0, 0.25, 0.5, 0.875, 1.0 } ) same( c, val( f( t[ i ] + u * ( t[ i + 1 ] - t[ i ] ) ) ), basis( &p[ i ], u ), "spline through times", 1e-9 );
}
// operands that are part of the value they change
MC_SUITE( "own components" )
{
	static const double pw[] = { -2, -0.5, 0.25, 1, 4 }; int k = c.choose( 12 ); double e[ 4 ]; for ( auto& v : e ) v = pw[ c.choose( 5 ) ]; c.op( "%g %g %g %g operation %d", e[ 0 ], e[ 1 ], e[ 2 ], e[ 3 ], k ); c.state( mc::hash( mc::show( e[ 0 ] ) + mc::show( e[ 1 ] ) + mc::show( e[ 2 ] ) + mc::show( e[ 3 ] ) ) + k );
	xo::vec3d v( e[ 0 ], e[ 1 ], e[ 2 ] ); xo::vec4d q( e[ 0 ], e[ 1 ], e[ 2 ], e[ 3 ] ); xo::scale3d s( e[ 0 ], e[ 1 ], e[ 2 ] );
	auto is = [&]( const auto& a, double x, double y, double z ) { c.check( a.x == x && a.y == y && a.z == z, "operand that is part of the value it changes" ); };
	int i = k % 3; double f = e[ i ]; auto& own = i == 0 ? v.x : i == 1 ? v.y : v.z; auto& own4 = i == 0 ? q.x : i == 1 ? q.y : q.w; double f4 = i == 0 ? e[ 0 ] : i == 1 ? e[ 1 ] : e[ 3 ];
	switch ( k / 3 )
	{
	case 0: v *= own; is( v, e[ 0 ] * f, e[ 1 ] * f, e[ 2 ] * f ); q *= own4; is( q, e[ 0 ] * f4, e[ 1 ] * f4, e[ 2 ] * f4 ); c.check( q.w == e[ 3 ] * f4, "operand that is part of the value it changes" ); break;
	case 1: v /= own; is( v, e[ 0 ] / f, e[ 1 ] / f, e[ 2 ] / f ); q /= own4; is( q, e[ 0 ] / f4, e[ 1 ] / f4, e[ 2 ] / f4 ); c.check( q.w == e[ 3 ] / f4, "operand that is part of the value it changes" ); break;
	case 2: if ( i == 0 ) { v += v; is( v, 2 * e[ 0 ], 2 * e[ 1 ], 2 * e[ 2 ] ); q += q; is( q, 2 * e[ 0 ], 2 * e[ 1 ], 2 * e[ 2 ] ); } else if ( i == 1 ) { v *= v; is( v, e[ 0 ] * e[ 0 ], e[ 1 ] * e[ 1 ], e[ 2 ] * e[ 2 ] ); s *= s; is( s, e[ 0 ] * e[ 0 ], e[ 1 ] * e[ 1 ], e[ 2 ] * e[ 2 ] ); } else { v /= v; is( v, 1, 1, 1 ); s /= s; is( s, 1, 1, 1 ); q -= q; is( q, 0, 0, 0 ); } break;
	case 3: { int b = ( i + 1 ) % 3, d = ( i + 2 ) % 3; double* vp[] = { &v.x, &v.y, &v.z }; double* spp[] = { &s.x, &s.y, &s.z }; v.set( *vp[ i ], *vp[ d ], *vp[ b ] ); is( v, e[ i ], e[ d ], e[ b ] ); s.set( *spp[ b ], *spp[ i ], *spp[ d ] ); is( s, e[ b ], e[ i ], e[ d ] ); xo::vec3d w( e[ 0 ], e[ 1 ], e[ 2 ] ); double* wp[] = { &w.x, &w.y, &w.z }; w.set( *wp[ b ], *wp[ d ], *wp[ i ] ); is( w, e[ b ], e[ d ], e[ i ] ); break; }
	}
}
