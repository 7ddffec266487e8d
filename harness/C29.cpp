// C29: every form of a rotation acts like its rotation matrix; conversions, composition and inverses keep it.
#include "mc.h"
#include <cmath>
#include <string>
#include <vector>
#include "xo/geometry/quat.h"
#include "xo/geometry/mat33.h"
#include "xo/geometry/angle.h"
#include "xo/geometry/transform.h"
#include "xo/geometry/mirror_tools.h"
using std::string; using std::vector;

static const double PI = 3.14159265358979323846;
#include <cstdarg>
static string described; // of the execution so far
static void put( mc::Ctx& c, const char* fmt, ... ) __attribute__( ( format( printf, 2, 3 ) ) );
static void put( mc::Ctx& c, const char* fmt, ... ) { char b[ 300 ]; va_list a; va_start( a, fmt ); vsnprintf( b, 300, fmt, a ); va_end( a ); c.ops( b ); described += b; described += ";"; }
static void done( mc::Ctx& c ) { c.state( described ); described.clear(); }
static string num( double v ) { char b[ 40 ]; snprintf( b, 40, "%.9g", v ); return b; }

// ---- reference: vectors and 3x3 matrices of doubles -----------------------------------------------------------------------
struct V { double e[ 3 ]; };
struct M { double e[ 3 ][ 3 ]; };
static V operator*( const M& m, const V& v ) { V r; for ( int i = 0; i < 3; ++i ) { r.e[ i ] = 0; for ( int k = 0; k < 3; ++k ) r.e[ i ] += m.e[ i ][ k ] * v.e[ k ]; } return r; }
static M operator*( const M& a, const M& b ) { M r; for ( int i = 0; i < 3; ++i ) for ( int j = 0; j < 3; ++j ) { r.e[ i ][ j ] = 0; for ( int k = 0; k < 3; ++k ) r.e[ i ][ j ] += a.e[ i ][ k ] * b.e[ k ][ j ]; } return r; }
static M transposed( const M& m ) { M r; for ( int i = 0; i < 3; ++i ) for ( int j = 0; j < 3; ++j ) r.e[ i ][ j ] = m.e[ j ][ i ]; return r; }
static const M unit{ { { 1, 0, 0 }, { 0, 1, 0 }, { 0, 0, 1 } } };
/// right-handed rotation about a unit axis
static M about( const V& u, double a )
{
	double s = std::sin( a ), k = 1 - std::cos( a ), x = u.e[ 0 ], y = u.e[ 1 ], z = u.e[ 2 ];
	M c{ { { 0, -z, y }, { z, 0, -x }, { -y, x, 0 } } }, cc = c * c, r;
	for ( int i = 0; i < 3; ++i ) for ( int j = 0; j < 3; ++j ) r.e[ i ][ j ] = unit.e[ i ][ j ] + s * c.e[ i ][ j ] + k * cc.e[ i ][ j ];
	return r;
}
static M about( int axis, double a ) { V u{ { 0, 0, 0 } }; u.e[ axis ] = 1; return about( u, a ); }
static const int orders[ 6 ][ 3 ] = { { 0, 1, 2 }, { 0, 2, 1 }, { 1, 0, 2 }, { 1, 2, 0 }, { 2, 0, 1 }, { 2, 1, 0 } };
static const char* order_names[ 6 ] = { "xyz", "xzy", "yxz", "yzx", "zxy", "zyx" };
static const xo::euler_order order_values[ 6 ] = { xo::euler_order::xyz, xo::euler_order::xzy, xo::euler_order::yxz, xo::euler_order::yzx, xo::euler_order::zxy, xo::euler_order::zyx };
static M euler( const double* a, int order ) { const int* o = orders[ order ]; return about( o[ 0 ], a[ o[ 0 ] ] ) * about( o[ 1 ], a[ o[ 1 ] ] ) * about( o[ 2 ], a[ o[ 2 ] ] ); }

template< typename T > struct tol { static constexpr double exact = 1e-12, conv = 3e-7, text = 1e-5; };
template<> struct tol< float > { static constexpr double exact = 3e-6, conv = 5e-3, text = 1e-4; };
template< typename T > static V val( const xo::vec3_< T >& v ) { return { { double( v.x ), double( v.y ), double( v.z ) } }; }
template< typename T > static xo::vec3_< T > vec( const V& v ) { return xo::vec3_< T >( T( v.e[ 0 ] ), T( v.e[ 1 ] ), T( v.e[ 2 ] ) ); }
static void same( mc::Ctx& c, const V& got, const V& want, const char* what, double eps )
{
	++c.checks; double s = 1; for ( double e : want.e ) s = std::max( s, std::abs( e ) );
	for ( int i = 0; i < 3; ++i ) if ( !( std::abs( got.e[ i ] - want.e[ i ] ) <= eps * s ) ) c.fail( string( what ) + ": got " + num( got.e[ 0 ] ) + " " + num( got.e[ 1 ] ) + " " + num( got.e[ 2 ] ) + ", expected " + num( want.e[ 0 ] ) + " " + num( want.e[ 1 ] ) + " " + num( want.e[ 2 ] ) );
}
static void same( mc::Ctx& c, double got, double want, const char* what, double eps ) { ++c.checks; if ( !( std::abs( got - want ) <= eps * ( 1 + std::abs( want ) ) ) ) c.fail( string( what ) + ": got " + num( got ) + ", expected " + num( want ) ); }
static const V probes[] = { { { 1, 0, 0 } }, { { 0, 1, 0 } }, { { 0, 0, 1 } }, { { 1, -2, 3 } } };
template< typename T > static void acts( mc::Ctx& c, const xo::quat_< T >& q, const M& r, const char* what, double eps ) { for ( auto& v : probes ) same( c, val( q * vec< T >( v ) ), r * v, what, eps ); }

static vector< V > directions() { vector< V > d; for ( int x = -1; x <= 1; ++x ) for ( int y = -1; y <= 1; ++y ) for ( int z = -1; z <= 1; ++z ) if ( x || y || z ) { double l = std::sqrt( double( x * x + y * y + z * z ) ); d.push_back( { { x / l, y / l, z / l } } ); } return d; }
template< typename T > static xo::quat_< T > from_euler( const double* a, int o, bool deg )
{
	if ( deg ) { xo::vec3deg_< T > e( xo::degree_< T >( a[ 0 ] * 180 / PI ), xo::degree_< T >( a[ 1 ] * 180 / PI ), xo::degree_< T >( a[ 2 ] * 180 / PI ) ); return xo::quat_from_euler( e, order_values[ o ] ); }
	return xo::quat_from_euler( xo::radian_< T >( a[ 0 ] ), xo::radian_< T >( a[ 1 ] ), xo::radian_< T >( a[ 2 ] ), order_values[ o ] );
}
/// everything that can be asked of one rotation
template< typename T > static void one_rotation( mc::Ctx& c, const xo::quat_< T >& q, const M& r )
{
	const double X = tol< T >::exact, C = tol< T >::conv; using Q = xo::quat_< T >;
	acts( c, q, r, "rotated vector", X );
	same( c, xo::length( q ), 1, "length", X ); same( c, xo::squared_length( q ), 1, "squared length", X ); same( c, xo::length_xyz( q ), std::sqrt( std::max( 0.0, 1 - double( q.w ) * q.w ) ), "length of the vector part", sizeof( T ) == 4 ? 2e-3 : 1e-7 ); c.check( xo::is_normalized( q ), "is_normalized" ); c.check( !xo::is_normalized( Q( q.w * T( 1.1 ), q.x * T( 1.1 ), q.y * T( 1.1 ), q.z * T( 1.1 ) ) ), "is_normalized" );
	V col[ 3 ]; for ( int k = 0; k < 3; ++k ) col[ k ] = { { r.e[ 0 ][ k ], r.e[ 1 ][ k ], r.e[ 2 ][ k ] } };
	same( c, val( xo::local_x_axis( q ) ), col[ 0 ], "local x axis", X ); same( c, val( xo::local_y_axis( q ) ), col[ 1 ], "local y axis", X ); same( c, val( xo::local_z_axis( q ) ), col[ 2 ], "local z axis", X );
	auto ax = xo::axes_from_quat( q ); same( c, val( ax.x ), col[ 0 ], "x axis", X ); same( c, val( ax.y ), col[ 1 ], "y axis", X ); same( c, val( ax.z ), col[ 2 ], "z axis", X );
	auto m = xo::mat33_from_axes( ax.x, ax.y, ax.z ); const auto& cm = m; for ( int i = 0; i < 3; ++i ) for ( int j = 0; j < 3; ++j ) { same( c, m[ i ][ j ], r.e[ i ][ j ], "rotation matrix", X ); c.check( &cm[ i ][ j ] == &m[ i ][ j ], "matrix element" ); }
	auto qm = xo::quat_from_mat33( m ); acts( c, qm, r, "rotation from a matrix", C ); same( c, xo::length( qm ), 1, "length of rotation from a matrix", C );
	for ( Q p : { q, Q( -q.w, -q.x, -q.y, -q.z ) } )
	{
		acts( c, p, r, "rotated vector", X ); auto pos = xo::positive( p ); acts( c, pos, r, "positive", X ); c.check( pos.w >= 0, "positive" );
		auto rv = xo::rotation_vector_from_quat( p ); acts( c, xo::quat_from_rotation_vector( rv ), r, "rotation vector", C );
		auto rva = xo::rotation_vector_angle_from_quat( p ); same( c, val( rva.first ), val( rv ), "rotation vector with angle", C ); same( c, double( rva.second.value ), xo::length( rv ), "angle of rotation vector", C );
		auto aa = xo::axis_angle_from_quat( p ); same( c, xo::length( aa.first ), 1, "length of axis", X * 4 ); acts( c, xo::quat_from_axis_angle( aa.first, aa.second ), r, "axis and angle", C ); same( c, val( q * aa.first ), val( aa.first ), "rotated axis", C );
		for ( int o = 0; o < 6; ++o )
		{
			auto e = xo::euler_from_quat( p, order_values[ o ] ); auto q2 = xo::quat_from_euler( e, order_values[ o ] ); string what = string( "Euler angles " ) + order_names[ o ]; acts( c, q2, r, what.c_str(), C );
			double mid = val( xo::value( e ) ).e[ orders[ o ][ 1 ] ]; c.check( std::abs( mid ) <= PI / 2 + 1e-6, "the second Euler angle is not within a quarter turn" ); double ev[ 3 ]; for ( int k = 0; k < 3; ++k ) ev[ k ] = e[ k ].value; for ( auto& v : probes ) same( c, euler( ev, o ) * v, r * v, what.c_str(), C );
		}
		c.check( !( p == q ) || !( p != q ), "comparison" );
	}
	c.check( q == q && !( q != q ), "comparison" );
	M inv = transposed( r ); acts( c, xo::conjugate( q ), inv, "conjugate", X ); acts( c, -q, inv, "negation", X ); acts( c, xo::inverse( q ), inv, "inverse", X ); c.check( xo::is_identity( xo::positive( q * xo::conjugate( q ) ), T( X ) ), "product with conjugate" );
	for ( double s : { 0.5, 1.0 - 1e-9, 1.0 + 1e-9, 1.0 - 1e-4, 1.0 + 1e-4, 3.0 } )
	{
		Q k = q; k *= T( s ); auto p = k * xo::inverse( k ); same( c, p.w, 1, "product with inverse", X * 4 ); same( c, V{ { p.x, p.y, p.z } }, { { 0, 0, 0 } }, "product with inverse", X * 4 );
		auto n = k; same( c, xo::normalize( n ), s, "length before normalizing", X * 4 ); acts( c, n, r, "normalized", X * 4 ); acts( c, xo::normalized( k ), r, "normalized", X * 4 ); acts( c, xo::normalized_try_fast( k ), r, "normalized with shortcut", X * 8 ); if ( std::abs( s - 1 ) < 1e-3 ) { auto f = xo::normalized_fast( k ); acts( c, f, r, "fast normalized", std::max( X * 8, 4 * ( s - 1 ) * ( s - 1 ) ) ); same( c, f.w, q.w, "fast normalized", std::max( X * 8, 4 * ( s - 1 ) * ( s - 1 ) ) ); }
	}
	for ( auto& d : directions() )
	{
		auto a = vec< T >( d ); double dq = q.x * double( a.x ) + q.y * double( a.y ) + q.z * double( a.z ), l = std::sqrt( double( q.w ) * q.w + dq * dq );
		auto tw = xo::quat_angle_around_axis( q, a ); same( c, xo::length( tw.first ), 1, "length of twist", C ); acts( c, xo::quat_from_axis_angle( a, tw.second ), about( d, tw.second.value ), "twist", C );
		for ( auto& v : probes ) if ( l > 1e-3 ) same( c, val( tw.first * vec< T >( v ) ), about( d, tw.second.value ) * v, "twist and its angle", C );
		auto sw = q * xo::conjugate( tw.first ); same( c, sw.x * double( a.x ) + sw.y * double( a.y ) + sw.z * double( a.z ), 0, "swing turns about the axis", C );
		double ang = xo::rotation_around_axis( q, a ).value; c.check( ang == ang, "rotation around an axis is not a number" );
		if ( l > 1e-3 ) { same( c, std::cos( ang ), std::cos( double( tw.second.value ) ), "rotation around an axis", C ); same( c, std::sin( ang ), std::sin( double( tw.second.value ) ), "rotation around an axis", C ); auto f = xo::quat_angle_around_axis_fast( q, a ); acts( c, f.first, about( d, tw.second.value ), "fast twist", C ); same( c, std::cos( double( f.second.value ) ), std::cos( ang ), "fast twist", C ); same( c, std::sin( double( f.second.value ) ), std::sin( ang ), "fast twist", C ); }
	}
	auto xyz = xo::rotation_around_xyz( q ); xo::radian_< T > each[] = { xo::rotation_around_x( q ), xo::rotation_around_y( q ), xo::rotation_around_z( q ) };
	for ( int k = 0; k < 3; ++k )
	{
		double a = each[ k ].value, b = xyz[ k ].value; c.check( a == a, "rotation around a local axis is not a number" ); same( c, a, b, "rotations around the local axes", C );
		double comp = ( &q.x )[ k ]; if ( std::hypot( comp, double( q.w ) ) > 1e-3 ) { double ref = xo::rotation_around_axis( q, xo::vec3_< T >::axis( k ) ).value; same( c, std::cos( a ), std::cos( ref ), "rotation around a local axis", C ); same( c, std::sin( a ), std::sin( ref ), "rotation around a local axis", C ); }
	}
	double p = xo::pitch( q ).value, y = xo::yaw( q ).value, ro = xo::roll( q ).value; c.check( p == p && y == y && ro == ro, "pitch, yaw and roll" );
	auto pn = xo::to_prop_node( q ); Q back; c.check( xo::from_prop_node( pn, back ), "read back" ); acts( c, back, r, "rotation read back from a property tree", tol< T >::text );
	same( c, T( Q( xo::quat_< double >( q ) ).x ), q.x, "converted", X );
	c.check( !q.is_nan() && Q( T( NAN ), 0, 0, 0 ).is_nan() && Q( 0, 0, 0, T( NAN ) ).is_nan(), "is_nan" );
}
template< typename T > static void euler_forms( mc::Ctx& c, int steps )
{
	int o = c.choose( 6 ); double a[ 3 ]; bool deg = c.flip(); int k[ 3 ];
	for ( int i = 0; i < 3; ++i ) { k[ i ] = c.choose( steps ); a[ i ] = 2 * PI * ( k[ i ] - steps / 2 + 1 ) / steps; }
	put( c, "Euler angles %g %g %g %s in %s", a[ 0 ] * 180 / PI, a[ 1 ] * 180 / PI, a[ 2 ] * 180 / PI, order_names[ o ], deg ? "degrees" : "radians" ); done( c );
	M r = euler( a, o ); auto q = from_euler< T >( a, o, deg ); acts( c, q, r, "rotation from Euler angles", tol< T >::exact * 4 );
	if ( deg ) return; // the same rotation again
	one_rotation( c, q, r );
	for ( int i = 0; i < 3; ++i ) if ( a[ ( i + 1 ) % 3 ] == 0 && a[ ( i + 2 ) % 3 ] == 0 )
	{
		double got = i == 0 ? xo::pitch( q ).value : i == 1 ? xo::yaw( q ).value : xo::roll( q ).value; same( c, std::cos( got ), std::cos( a[ i ] ), "pitch, yaw or roll", tol< T >::conv ); same( c, std::sin( got ), std::sin( a[ i ] ), "pitch, yaw or roll", tol< T >::conv );
		auto s = i == 0 ? xo::quat_from_x_angle( xo::radian_< T >( a[ i ] ) ) : i == 1 ? xo::quat_from_y_angle( xo::radian_< T >( a[ i ] ) ) : xo::quat_from_z_angle( xo::radian_< T >( a[ i ] ) ); acts( c, s, r, "rotation about one axis", tol< T >::exact );
	}
	xo::prop_node pn; static const char* names[] = { "x", "y", "z" }; for ( int i = 0; i < 3; ++i ) pn.set( names[ i ], a[ i ] * 180 / PI );
	if ( o ) pn.set( "order", order_names[ o ] );
	xo::quat_< T > back; c.check( xo::from_prop_node( pn, back ), "Euler angles from a property tree" ); acts( c, back, r, "Euler angles from a property tree", tol< T >::text );
	if ( !o )
	{
		pn.set( "order", order_names[ o ] ); c.check( xo::from_prop_node( pn, back ), "Euler angles from a property tree" ); acts( c, back, r, "Euler angles from a property tree", tol< T >::text );
		xo::prop_node text, list; string s; for ( int i = 0; i < 3; ++i ) { s += num( a[ i ] * 180 / PI ) + " "; list.add_value( a[ i ] * 180 / PI ); } text.set_value( s );
		c.check( xo::from_prop_node( text, back ), "Euler angles from text" ); acts( c, back, r, "Euler angles from text", tol< T >::text ); c.check( xo::from_prop_node( list, back ), "Euler angles from a list" ); acts( c, back, r, "Euler angles from a list", tol< T >::text );
	}
}
MC_SUITE( "Euler angles" ) { described.clear(); euler_forms< double >( c, c.thorough ? 48 : 24 ); }
MC_SUITE( "Euler angles of floats" ) { described.clear(); euler_forms< float >( c, c.thorough ? 48 : 24 ); }
MC_SUITE( "Euler angles in twelfths" ) { described.clear(); euler_forms< double >( c, 12 ); }
template< typename T > static void axis_angles( mc::Ctx& c )
{
	static auto dirs = directions(); V d = dirs[ c.choose( int( dirs.size() ) ) ]; int k = c.choose( 33 ) - 16; double tiny = c.pick< double >( { 0, 1e-9, -1e-9, 1e-5, -1e-5 } ); double a = k * PI / 8 + tiny;
	put( c, "axis %g %g %g angle %.9g", d.e[ 0 ], d.e[ 1 ], d.e[ 2 ], a ); done( c ); M r = about( d, a );
	auto q = xo::quat_from_axis_angle( vec< T >( d ), xo::radian_< T >( a ) ); acts( c, q, r, "rotation about an axis", tol< T >::exact * 8 ); acts( c, xo::quat_from_axis_angle( vec< T >( d ), xo::degree_< T >( a * 180 / PI ) ), r, "rotation about an axis", tol< T >::exact * 8 );
	V rv{ { d.e[ 0 ] * a, d.e[ 1 ] * a, d.e[ 2 ] * a } }; acts( c, xo::quat_from_rotation_vector( vec< T >( rv ) ), r, "rotation vector", tol< T >::exact * 8 );
	M rq; for ( int j = 0; j < 3; ++j ) { V e{ { 0, 0, 0 } }; e.e[ j ] = 1; V w = val( q * vec< T >( e ) ); for ( int i = 0; i < 3; ++i ) rq.e[ i ][ j ] = w.e[ i ]; }
	one_rotation( c, q, rq );
}
MC_SUITE( "axis and angle" ) { described.clear(); axis_angles< double >( c ); }
MC_SUITE( "axis and angle of floats" ) { described.clear(); axis_angles< float >( c ); }
template< typename T > static xo::quat_< T > rotation( mc::Ctx& c, M& r, int steps )
{
	double a[ 3 ]; for ( int i = 0; i < 3; ++i ) a[ i ] = i == 1 ? PI * ( c.choose( steps / 2 + 1 ) - steps / 4 ) * 2 / steps : 2 * PI * c.choose( steps ) / steps;
	put( c, "rotation %g %g %g", a[ 0 ] * 180 / PI, a[ 1 ] * 180 / PI, a[ 2 ] * 180 / PI ); r = euler( a, 0 ); return from_euler< T >( a, 0, false );
}
template< typename T > static void composition( mc::Ctx& c, int steps )
{
	M a, b; auto p = rotation< T >( c, a, steps ), q = rotation< T >( c, b, steps ); done( c ); M r = a * b; auto pq = p * q;
	acts( c, pq, r, "composition", tol< T >::exact * 2 ); auto k = p; k *= q; c.check( k == pq, "composition in place" ); for ( auto& v : probes ) same( c, val( p * ( q * vec< T >( v ) ) ), r * v, "one after the other", tol< T >::exact * 2 );
	acts( c, xo::inverse( pq ), transposed( r ), "inverse of a composition", tol< T >::exact * 2 ); acts( c, xo::conjugate( q ) * xo::conjugate( p ), transposed( r ), "inverse of a composition", tol< T >::exact * 2 );
	auto d = xo::quat_from_quats( p, q ); acts( c, p * d, b, "rotation between rotations", tol< T >::exact * 4 );
	c.check( ( p == q ) == ( p.w == q.w && p.x == q.x && p.y == q.y && p.z == q.z ) && ( p != q ) == !( p == q ), "comparison" );
	auto rv = xo::rotation_vector_from_quat( pq ); acts( c, xo::quat_from_rotation_vector( rv ), r, "rotation vector of a composition", tol< T >::conv ); auto aa = xo::axis_angle_from_quat( pq ); acts( c, xo::quat_from_axis_angle( aa.first, aa.second ), r, "axis and angle of a composition", tol< T >::conv );
	for ( int o = 0; o < 6; ++o ) acts( c, xo::quat_from_euler( xo::euler_from_quat( pq, order_values[ o ] ), order_values[ o ] ), r, "Euler angles of a composition", tol< T >::conv );
	auto sm = xo::mirrored( p ); for ( auto& v : probes ) same( c, val( sm * xo::mirrored( vec< T >( v ) ) ), val( xo::mirrored( p * vec< T >( v ) ) ), "mirrored rotation", tol< T >::exact ); auto mpq = xo::mirrored( p ) * xo::mirrored( q ); acts( c, mpq, [&] { M s = unit; s.e[ 2 ][ 2 ] = -1; return s * r * s; }(), "mirrored composition", tol< T >::exact * 2 );
}
/// two rotations about the same axis that together are close to a whole number of half turns: rounding makes |w| larger than 1
template< typename T > static void full_turns( mc::Ctx& c )
{
	static auto dirs = directions(); V d = dirs[ c.choose( int( dirs.size() ) ) ]; int n = c.choose( c.thorough ? 160 : 40 ) + 1; double total = c.pick( { 0.0, 2 * PI, -2 * PI, 4 * PI, PI, -PI } ), tiny = c.pick( { 0.0, 1e-9, 1e-8, 1e-7, 1e-6, 3e-6, 1e-5, 3e-5, 1e-4, 3e-4, 1e-3, 1e-2 } ) * c.pick( { 1, -1 } ), a = n * 0.0377, b = total + tiny - a;
	put( c, "axis %g %g %g angles %.9g and %.9g", d.e[ 0 ], d.e[ 1 ], d.e[ 2 ], a, b ); done( c ); const double X = tol< T >::exact * 4, S = sizeof( T ) == 4 ? 1e-5 : 1e-13; M r = about( d, total + tiny );
	auto q = xo::quat_from_axis_angle( vec< T >( d ), xo::radian_< T >( a ) ) * xo::quat_from_axis_angle( vec< T >( d ), xo::radian_< T >( b ) ); acts( c, q, r, "composition", X ); c.check( xo::is_normalized( q ) || std::abs( xo::length( q ) - 1 ) < X, "length" );
	auto rv = xo::rotation_vector_from_quat( q ); acts( c, xo::quat_from_rotation_vector( rv ), r, "rotation vector", X + S ); auto rva = xo::rotation_vector_angle_from_quat( q ); same( c, val( rva.first ), val( rv ), "rotation vector with angle", X ); same( c, double( rva.second.value ), xo::length( rv ), "angle of rotation vector", X );
	auto aa = xo::axis_angle_from_quat( q ); same( c, xo::length( aa.first ), 1, "length of axis", X ); acts( c, xo::quat_from_axis_angle( aa.first, aa.second ), r, "axis and angle", X + S );
	double limit = 2 * PI + X; c.check( xo::length( rv ) <= limit && double( aa.second.value ) >= 0 && double( aa.second.value ) <= limit, "size of the angle" );
	const double C = tol< T >::conv; auto ax = vec< T >( d ); auto ra = double( xo::rotation_around_axis( q, ax ).value ), qa = double( xo::quat_angle_around_axis( q, ax ).second.value ), qf = double( xo::quat_angle_around_axis_fast( q, ax ).second.value );
	for ( double t : { ra, qa, qf } ) { V u{ { std::cos( t ), std::sin( t ), 0 } }, w{ { std::cos( total + tiny ), std::sin( total + tiny ), 0 } }; same( c, u, w, "angle around the axis", C ); }
	auto xyz = xo::rotation_around_xyz( q ); c.check( std::isfinite( xyz.x.value ) && std::isfinite( xyz.y.value ) && std::isfinite( xyz.z.value ), "angles around the axes" );
	for ( int o = 0; o < 6; ++o ) acts( c, xo::quat_from_euler( xo::euler_from_quat( q, order_values[ o ] ), order_values[ o ] ), r, "Euler angles", C );
}
MC_SUITE( "full turns" ) { described.clear(); full_turns< double >( c ); }
MC_SUITE( "full turns of floats" ) { described.clear(); full_turns< float >( c ); }
MC_SUITE( "composition" ) { described.clear(); composition< double >( c, c.thorough ? 24 : 12 ); }
MC_SUITE( "composition of floats" ) { described.clear(); composition< float >( c, 4 ); }
template< typename T > static void from_directions( mc::Ctx& c )
{
	static auto dirs = directions(); V s = dirs[ c.choose( int( dirs.size() ) ) ], t = dirs[ c.choose( int( dirs.size() ) ) ]; V side = dirs[ c.choose( 4 ) * 5 ]; double off = c.pick< double >( { 0, 1e-10, 1e-3, -1e-6 } );
	for ( int i = 0; i < 3; ++i ) t.e[ i ] += off * side.e[ i ]; double l = std::sqrt( t.e[ 0 ] * t.e[ 0 ] + t.e[ 1 ] * t.e[ 1 ] + t.e[ 2 ] * t.e[ 2 ] ); for ( double& e : t.e ) e /= l;
	put( c, "from %g %g %g to %.12g %.12g %.12g", s.e[ 0 ], s.e[ 1 ], s.e[ 2 ], t.e[ 0 ], t.e[ 1 ], t.e[ 2 ] ); done( c );
	double dot = 0; for ( int i = 0; i < 3; ++i ) dot += s.e[ i ] * t.e[ i ]; if ( dot < -1 + ( sizeof( T ) == 4 ? 3e-6 : 1e-14 ) ) return; // see the next suite
	auto q = xo::quat_from_directions( vec< T >( s ), vec< T >( t ) ); same( c, xo::length( q ), 1, "length", tol< T >::exact * 4 ); same( c, val( q * vec< T >( s ) ), t, "rotated direction", tol< T >::conv );
	// the shortest rotation: its angle is the angle between the directions
	same( c, 2 * q.w * double( q.w ) - 1, dot, "cosine of the angle", tol< T >::conv );
}
MC_SUITE( "directions" ) { described.clear(); from_directions< double >( c ); }
MC_SUITE( "directions of floats" ) { described.clear(); from_directions< float >( c ); }
/// one execution, so that the message names all directions that fail
template< typename T > static void opposite_directions( mc::Ctx& c )
{
	string bad; for ( auto& s : directions() ) { auto q = xo::quat_from_directions( vec< T >( s ), -vec< T >( s ) ); auto v = val( q * vec< T >( s ) ); ++c.checks; double e = std::abs( xo::length( q ) - 1 ) ; for ( int i = 0; i < 3; ++i ) e += std::abs( v.e[ i ] + s.e[ i ] ); if ( !( e < tol< T >::conv ) ) { bad += " "; for ( double x : s.e ) bad += x < 0 ? "-" : x > 0 ? "+" : "0"; } }
	put( c, "all directions" ); done( c ); if ( !bad.empty() ) c.fail( "the rotation to the opposite direction leads elsewhere for" + bad );
}
MC_SUITE( "opposite directions" ) { opposite_directions< double >( c ); }
MC_SUITE( "opposite directions of floats" ) { opposite_directions< float >( c ); }

// ---- angles -----------------------------------------------------------------------------------------------------------------
template< typename T > static void angles( mc::Ctx& c )
{
	int k = c.choose( 97 ) - 48, j = c.choose( 25 ) - 12; double deg = k * 15, rad = deg * PI / 180, deg2 = j * 30; put( c, "%g and %g degrees", deg, deg2 ); c.state( k * 100 + j ); const double X = tol< T >::exact;
	using D = xo::degree_< T >; using R = xo::radian_< T >; D d( deg ); R r( rad );
	same( c, d.deg_value(), deg, "degrees", X ); same( c, d.rad_value(), rad, "radians of degrees", X ); same( c, r.rad_value(), rad, "radians", X ); same( c, r.deg_value(), deg, "degrees of radians", X );
	same( c, D( r ).value, deg, "converted to degrees", X ); same( c, R( d ).value, rad, "converted to radians", X ); same( c, D( R( D( deg ) ) ).value, deg, "there and back", X ); same( c, T( xo::radian_< float >( d ).value ), rad, "converted to float", 1e-6 ); same( c, xo::rad_to_deg( T( rad ) ), deg, "rad_to_deg", X ); same( c, xo::deg_to_rad( T( deg ) ), rad, "deg_to_rad", X ); same( c, T( d ), deg, "cast", X ); same( c, T( r ), rad, "cast", X );
	same( c, xo::sin( d ), std::sin( rad ), "sine", X * 8 ); same( c, xo::cos( d ), std::cos( rad ), "cosine", X * 8 ); same( c, xo::sin( r ), std::sin( rad ), "sine", X * 8 ); same( c, xo::cos( r ), std::cos( rad ), "cosine", X * 8 ); if ( k % 12 != 6 && k % 12 != -6 ) same( c, xo::tan( d ), std::tan( rad ), "tangent", X * 50 );
	D e( deg2 ); auto check = [&]( const D& got, double want, const char* what ) { same( c, got.value, want, what, X ); };
	check( d + e, deg + deg2, "sum" ); check( d - e, deg - deg2, "difference" ); check( -d, -deg, "negation" ); check( d * T( 2.5 ), deg * 2.5, "product" ); check( T( 2.5 ) * d, deg * 2.5, "product" ); check( d / T( 4 ), deg / 4, "quotient" ); check( xo::abs( d ), std::abs( deg ), "absolute value" );
	{ D f = d; f += e; check( f, deg + deg2, "sum in place" ); f -= e; check( f, deg, "difference in place" ); f *= 3; check( f, deg * 3, "product in place" ); f /= 3; check( f, deg, "quotient in place" ); f = e; check( f, deg2, "assigned" ); D z; check( z, 0, "default angle" ); }
	c.check( ( d < e ) == ( deg < deg2 ) && ( d > e ) == ( deg > deg2 ) && ( d <= e ) == ( deg <= deg2 ) && ( d >= e ) == ( deg >= deg2 ) && ( d == e ) == ( deg == deg2 ) && ( d != e ) == ( deg != deg2 ), "comparison" );
	D back; c.check( xo::from_str( xo::to_str( d ), back ), "read back" ); check( back, deg, "read back" );
	for ( double rad_ : { 0.0, 1.0, 2.5 } ) { double ra = rad, rb = deg2 * PI / 180; same( c, val( xo::vec3_from_polar( T( rad_ ), d, e ) ), { { rad_ * std::sin( ra ) * std::sin( rb ), rad_ * std::cos( ra ), rad_ * std::sin( ra ) * std::cos( rb ) } }, "polar coordinates", X * 10 ); }
	xo::vec3deg_< T > v( d, e, D( 1 ) ); same( c, val( xo::value( v ) ), { { deg, deg2, 1 } }, "values of angles", X ); xo::vec3rad_< T > w( v ); same( c, val( xo::value( w ) ), { { rad, deg2 * PI / 180, PI / 180 } }, "vector of angles", X );
}
MC_SUITE( "angles" ) { described.clear(); if ( c.flip() ) angles< float >( c ); else angles< double >( c ); }
MC_SUITE( "angle literals" )
{ described.clear();
	using namespace xo::angle_literals; put( c, "literals" ); auto near = [&]( double a, double b ) { same( c, a, b, "literal", 1e-6 ); };
	near( ( 90_degd ).value, 90 ); near( ( 90.5_degd ).value, 90.5 ); near( ( 3_degf ).value, 3 ); near( ( 3.5_degf ).value, 3.5 ); near( ( 2_radd ).value, 2 ); near( ( 2.5_radd ).value, 2.5 ); near( ( 2_radf ).value, 2 ); near( ( 1.5_radf ).value, 1.5 ); near( ( 180_degd ).rad_value(), PI ); near( ( 2_radf ).deg_value(), 360 / PI );
	c.check( xo::quatd().is_identity() && xo::quatd::identity().is_identity() && xo::is_identity( xo::quatd() ) && !xo::quatd( 1, 0, 0, 1e-9 ).is_identity() && !xo::is_identity( xo::quatd( 0, 1, 0, 0 ) ) && !xo::is_identity( xo::quatd( 1, 0, 0, 1e-9 ) ) && xo::is_identity( xo::quatd( 1, 0, 0, 1e-16 ) ), "identity" );
	auto m = xo::mat33_from_diagonal( xo::vec3d( 1, 2, 3 ) ); for ( int i = 0; i < 3; ++i ) for ( int j = 0; j < 3; ++j ) c.check( m[ i ][ j ] == ( i == j ? i + 1 : 0 ), "diagonal matrix" );
	xo::quatd q; for ( auto* bad : { "", "1", "1 2", "1 2 3 4", "a b c" } ) { xo::prop_node pn; pn.set_value( string( bad ) ); bool ok = true; try { ok = xo::from_prop_node( pn, q ); } catch ( std::exception& ) { ok = false; } c.check( !ok, "rotation from other text" ); }
}
// ---- transforms -------------------------------------------------------------------------------------------------------------
struct TF { M r; V p; V operator*( const V& v ) const { V w = r * v; for ( int i = 0; i < 3; ++i ) w.e[ i ] += p.e[ i ]; return w; } TF operator*( const TF& o ) const { return { r * o.r, *this * o.p }; } TF inv() const { M t = transposed( r ); V n = t * p; for ( double& e : n.e ) e = -e; return { t, n }; } };
template< typename T > static xo::transform_< T > transform( mc::Ctx& c, TF& r ) { auto q = rotation< T >( c, r.r, 4 ); static const V pos[] = { { { 0, 0, 0 } }, { { 1, -2, 3 } }, { { 0.5, 0, 0 } } }; r.p = pos[ c.choose( 3 ) ]; put( c, "at %g %g %g", r.p.e[ 0 ], r.p.e[ 1 ], r.p.e[ 2 ] ); return { vec< T >( r.p ), q }; }
template< typename T > static void acts( mc::Ctx& c, const xo::transform_< T >& t, const TF& r, const char* what, double eps ) { for ( auto& v : probes ) same( c, val( t * vec< T >( v ) ), r * v, what, eps ); same( c, val( t.p ), r.p, what, eps ); }
template< typename T > static void transforms( mc::Ctx& c )
{
	TF a, b; auto s = transform< T >( c, a ), t = transform< T >( c, b ); done( c ); const double X = tol< T >::exact * 4;
	acts( c, s, a, "transformed point", X ); acts( c, s * t, a * b, "composition", X ); acts( c, s.trans( t ), a * b, "composition", X ); auto k = s; k *= t; acts( c, k, a * b, "composition in place", X );
	acts( c, s.inv(), a.inv(), "inverse", X ); acts( c, s * s.inv(), TF{ unit, { { 0, 0, 0 } } }, "product with inverse", X ); acts( c, s.inv() * s, TF{ unit, { { 0, 0, 0 } } }, "product with inverse", X ); acts( c, s.inv_trans( t ), a.inv() * b, "relative transform", X ); acts( c, s * s.inv_trans( t ), b, "relative transform", X ); acts( c, ( s * t ).inv(), b.inv() * a.inv(), "inverse of a composition", X );
	for ( auto& v : probes ) { auto w = vec< T >( v ); same( c, val( s.trans( w ) ), a * v, "transformed point", X ); same( c, val( s.inv_trans( w ) ), a.inv() * v, "inversely transformed point", X ); same( c, val( s.inv_trans( s * w ) ), v, "there and back", X ); }
	acts( c, s * t.q, a.r * b.r, "transformed rotation", X ); acts( c, s.trans( t.q ), a.r * b.r, "transformed rotation", X ); acts( c, s.inv_trans( t.q ), transposed( a.r ) * b.r, "inversely transformed rotation", X );
	xo::transform_< T > back; c.check( xo::from_prop_node( xo::prop_node( s ), back ), "read back" ); acts( c, back, a, "transform read back from a property tree", tol< T >::text );
	acts( c, xo::transform_< T >( s.q ), TF{ a.r, { { 0, 0, 0 } } }, "rotation only", X ); acts( c, xo::transform_< T >( s.p ), TF{ unit, a.p }, "position only", X ); acts( c, xo::transform_< T >(), TF{ unit, { { 0, 0, 0 } } }, "default transform", X ); c.check( xo::transform_< T >().is_identity() && xo::transform_< T >::identity().is_identity(), "identity" ); c.check( s.is_identity() == ( s.p.is_null() && s.q.is_identity() ), "identity" );
	// mirroring commutes with transforming
	auto ms = xo::mirrored( s ); for ( auto& v : probes ) { auto w = vec< T >( v ); same( c, val( ms * xo::mirrored( w ) ), val( xo::mirrored( s * w ) ), "mirrored transform", X ); } auto mm = xo::mirrored( ms ); c.check( mm.p == s.p && mm.q == s.q, "mirrored twice" ); auto mi = xo::mirrored_if( s, false ); c.check( mi.p == s.p && mi.q == s.q, "not mirrored" ); mi = xo::mirrored_if( s, true ); c.check( mi.p == ms.p && mi.q == ms.q, "mirrored if" );
	for ( auto& v : probes ) for ( auto& w : probes ) { auto x = vec< T >( v ), y = vec< T >( w ); auto cr = xo::cross_product( x, y ); xo::mirror_axis_if( cr, true ); same( c, val( cr ), val( xo::cross_product( xo::mirrored( x ), xo::mirrored( y ) ) ), "mirrored axis", X ); }
}
MC_SUITE( "transforms" ) { described.clear(); transforms< double >( c ); }
MC_SUITE( "transforms of floats" ) { described.clear(); transforms< float >( c ); }
MC_SUITE( "mirrored values" )
{ described.clear();
	double l = c.choose( 5 ) - 2, u = c.choose( 5 ) - 2; put( c, "%g %g", l, u ); c.state( int( l * 10 + u ) );
	xo::bounds< double > b( l, u ); auto m = xo::mirrored( b ); c.check( m.lower == -u && m.upper == -l, "mirrored bounds" ); c.check( xo::mirrored( l ) == -l && xo::mirrored( float( l ) ) == -float( l ) && xo::mirrored( int( l ) ) == -int( l ), "mirrored numbers" );
	xo::vec3_< xo::bounds< double > > v( b, xo::bounds< double >( u, l ), xo::bounds< double >( 3, 4 ) ); xo::mirror( v ); c.check( v.x.lower == -u && v.x.upper == -l && v.y.lower == -l && v.y.upper == -u && v.z.lower == 3 && v.z.upper == 4, "mirrored limits" );
	auto a = xo::mirrored_axis_if( xo::vec3f( l, u, 5 ), true ); c.check( a == xo::vec3f( -l, -u, 5 ) && xo::mirrored_axis_if( xo::vec3f( l, u, 5 ), false ) == xo::vec3f( l, u, 5 ), "mirrored axis" );
}
// operands that are part of the value they change
MC_SUITE( "own components" )
{
	int k = c.choose( 8 ); double w = c.choose( 5 ) - 2, x = c.choose( 5 ) - 2, y = c.choose( 3 ) - 1, z = 0.5 * ( c.choose( 3 ) - 1 ); put( c, "%g %g %g %g operation %d", w, x, y, z, k ); done( c );
	xo::quatd q( w, x, y, z ), p = q; double e[ 4 ] = { w, x, y, z };
	auto is = [&]( const xo::quatd& a, double s, const char* what ) { c.check( a.w == w * s && a.x == x * s && a.y == y * s && a.z == z * s, what ); };
	switch ( k )
	{
	case 0: q *= q.w; is( q, e[ 0 ], "scaled by own component" ); break;
	case 1: q *= q.x; is( q, e[ 1 ], "scaled by own component" ); break;
	case 2: q *= q.y; is( q, e[ 2 ], "scaled by own component" ); break;
	case 3: q *= q.z; is( q, e[ 3 ], "scaled by own component" ); break;
	case 4: q *= q; p = p * p; c.check( q.w == p.w && q.x == p.x && q.y == p.y && q.z == p.z, "multiplied by itself" ); break;
	case 5: q.set( q.z, q.y, q.x, q.w ); c.check( q.w == z && q.x == y && q.y == x && q.z == w, "set to own components" ); break;
	case 6: { xo::transformd t( xo::vec3d( w, x, y ), xo::normalized( xo::quatd( 2, x, y, z ) ) ), u = t * t; t *= t; c.check( t.p == u.p && t.q.w == u.q.w && t.q.x == u.q.x && t.q.y == u.q.y && t.q.z == u.q.z, "transform of itself" ); break; }
	case 7: { xo::degreed a( w ); a *= a.value; c.check( a.value == w * w, "angle scaled by own value" ); a = xo::degreed( w ); a += a; c.check( a.value == w + w, "angle added to itself" ); a -= a; c.check( a.value == 0, "angle subtracted from itself" ); break; }
	}
}
