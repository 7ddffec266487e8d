// C32: shapes, bounding boxes and colours against their geometric definitions.
#include "mc.h"
#include <cmath>
#include <set>
#include <string>
#include <vector>
#include "xo/geometry/quat.h"
#include "xo/geometry/transform.h"
#include "xo/shape/shape.h"
#include "xo/shape/shape_tools.h"
#include "xo/utility/color.h"
#include "xo/container/prop_node.h"
using std::string; using std::vector;
using V = xo::vec3f;
static const double PI = 3.14159265358979323846;
static string num( double v ) { char b[ 40 ]; snprintf( b, 40, "%.9g", v ); return b; }
static void same( mc::Ctx& c, double got, double want, const char* what, double eps = 1e-5 ) { ++c.checks; if ( !( std::abs( got - want ) <= eps * ( 1 + std::abs( want ) ) ) ) c.fail( string( what ) + ": got " + num( got ) + ", expected " + num( want ) ); }
static void same( mc::Ctx& c, const V& g, double x, double y, double z, const char* what, double eps = 1e-5 ) { same( c, g.x, x, what, eps ); same( c, g.y, y, what, eps ); same( c, g.z, z, what, eps ); }

enum kind { SPHERE, BOX, CYLINDER, CAPSULE, CONE, PLANE };
static const char* names[] = { "sphere", "box", "cylinder", "capsule", "cone", "plane" };
/// reference: a shape by its full dimensions: radius a, height b, or the three sizes of a box or the normal of a plane
struct ref
{
	int kind = SPHERE; double a = 0, b = 0, z = 0;
	bool inside( double x, double y, double w ) const
	{
		double r = std::sqrt( x * x + w * w );
		switch ( kind )
		{
		case SPHERE: return r * r + y * y <= a * a;
		case BOX: return std::abs( x ) <= a / 2 && std::abs( y ) <= b / 2 && std::abs( w ) <= z / 2;
		case CYLINDER: return r <= a && std::abs( y ) <= b / 2;
		case CAPSULE: { double o = std::max( 0.0, std::abs( y ) - b / 2 ); return r * r + o * o <= a * a; }
		default: return false;
		}
	}
};
static xo::shape make( const ref& r )
{
	switch ( r.kind )
	{
	case SPHERE: return xo::sphere( r.a );
	case BOX: return xo::make_box( r.a, r.b, r.z );
	case CYLINDER: return xo::cylinder( r.a, r.b );
	case CAPSULE: return xo::capsule( r.a, r.b );
	case CONE: return xo::cone( r.a, r.b );
	default: return xo::plane( V( r.a, r.b, r.z ) );
	}
}
static double ref_volume( const ref& r )
{
	switch ( r.kind )
	{
	case SPHERE: return 4.0 / 3 * PI * r.a * r.a * r.a;
	case BOX: return r.a * r.b * r.z;
	case CYLINDER: return PI * r.a * r.a * r.b;
	case CAPSULE: return PI * r.a * r.a * r.b + 4.0 / 3 * PI * r.a * r.a * r.a;
	case CONE: return PI * r.a * r.a * r.b / 3;
	default: return 0;
	}
}
/// moments of inertia by integrating discs perpendicular to y: a disc of radius s at height y has mass dm = rho pi s^2 dy,
/// dm s^2 / 2 about y and dm ( s^2 / 4 + y^2 ) about x and z
static void ref_inertia( const ref& r, double rho, double& x, double& y, double& z )
{
	if ( r.kind == BOX ) { double m = rho * ref_volume( r ); x = m / 12 * ( r.b * r.b + r.z * r.z ); y = m / 12 * ( r.a * r.a + r.z * r.z ); z = m / 12 * ( r.a * r.a + r.b * r.b ); return; }
	x = y = z = 0; if ( r.kind == PLANE ) return;
	double top = r.kind == SPHERE ? r.a : r.kind == CAPSULE ? r.b / 2 + r.a : r.b / 2; const int n = 400; // Simpson, in pieces that are polynomials
	double cuts[] = { 0, r.kind == CAPSULE ? r.b / 2 : 0, top };
	for ( int piece = 0; piece < 2; ++piece )
	{
		double lo = cuts[ piece ], hi = cuts[ piece + 1 ]; if ( hi <= lo ) continue;
		for ( int i = 0; i <= n; ++i )
		{
			double h = lo + ( hi - lo ) * i / n, w = ( hi - lo ) / n / 3 * ( i == 0 || i == n ? 1 : i % 2 ? 4 : 2 ) * 2; // both halves
			double off = r.kind == SPHERE ? h : r.kind == CAPSULE ? std::max( 0.0, h - r.b / 2 ) : 0, s2 = r.a * r.a - off * off; if ( s2 < 0 ) s2 = 0;
			double dm = rho * PI * s2 * w; y += dm * s2 / 2; x += dm * ( s2 / 4 + h * h );
		}
	}
	z = x;
}
static string desc( const ref& r ) { return string( names[ r.kind ] ) + " " + num( r.a ) + " " + num( r.b ) + " " + num( r.z ); }
static ref choose_shape( mc::Ctx& c, bool planes = true )
{
	ref r; r.kind = c.choose( planes ? 6 : 5 ); auto size = [&] { return c.pick< double >( { 0.5, 1, 2, 3.25 } ); };
	if ( r.kind == PLANE ) { static const double n[][ 3 ] = { { 1, 0, 0 }, { 0, 1, 0 }, { 0, 0, -1 }, { 0.6, 0.8, 0 }, { 0, -0.6, 0.8 } }; int k = c.choose( 5 ); r.a = n[ k ][ 0 ]; r.b = n[ k ][ 1 ]; r.z = n[ k ][ 2 ]; }
	else { r.a = size(); if ( r.kind != SPHERE ) r.b = size(); if ( r.kind == BOX ) r.z = size(); }
	c.op( "%s", desc( r ).c_str() ); return r;
}
static void is( mc::Ctx& c, const xo::shape& s, const ref& r, const char* what, double eps = 1e-5 )
{
	c.eq( int( s.index() ), r.kind, what );
	if ( auto* p = std::get_if< xo::sphere >( &s ) ) same( c, p->radius_, r.a, what, eps );
	if ( auto* p = std::get_if< xo::box >( &s ) ) same( c, p->half_dim_, r.a / 2, r.b / 2, r.z / 2, what, eps );
	if ( auto* p = std::get_if< xo::cylinder >( &s ) ) { same( c, p->radius_, r.a, what, eps ); same( c, p->height_, r.b, what, eps ); }
	if ( auto* p = std::get_if< xo::capsule >( &s ) ) { same( c, p->radius_, r.a, what, eps ); same( c, p->height_, r.b, what, eps ); }
	if ( auto* p = std::get_if< xo::cone >( &s ) ) { same( c, p->radius_, r.a, what, eps ); same( c, p->height_, r.b, what, eps ); }
	if ( auto* p = std::get_if< xo::plane >( &s ) ) same( c, p->normal_, r.a, r.b, r.z, what, eps );
}
static ref scaled( ref r, double x, double y, double z )
{
	switch ( r.kind )
	{
	case SPHERE: r.a *= std::cbrt( x * y * z ); break;
	case BOX: r.a *= x; r.b *= y; r.z *= z; break;
	case PLANE: break;
	default: r.a *= std::sqrt( x * z ); r.b *= y;
	}
	return r;
}
static void quantities( mc::Ctx& c, const xo::shape& s, const ref& r )
{
	same( c, xo::volume( s ), ref_volume( r ), "volume" );
	for ( double rho : { 1.0, 0.25, 1000.0 } ) if ( r.kind != CONE ) { double x, y, z; ref_inertia( r, rho, x, y, z ); same( c, xo::inertia( s, rho ), x, y, z, "inertia", 2e-5 ); }
	switch ( r.kind )
	{
	case SPHERE: same( c, xo::dim( s ), 2 * r.a, 2 * r.a, 2 * r.a, "dimensions" ); break;
	case BOX: same( c, xo::dim( s ), r.a, r.b, r.z, "dimensions" ); break;
	case CYLINDER: case CONE: same( c, xo::dim( s ), 2 * r.a, r.b, 2 * r.a, "dimensions" ); break;
	}
}
MC_SUITE( "quantities and scaling" )
{
	ref r = choose_shape( c ); auto s = make( r ); is( c, s, r, "made shape" ); quantities( c, s, r );
	static const double f[] = { 1, 0.5, 2, 1.5 }; double x = f[ c.choose( 4 ) ], y = f[ c.choose( 4 ) ], z = f[ c.choose( 4 ) ]; c.op( "scaled by %g %g %g", x, y, z ); c.state( desc( r ) + num( x ) + num( y ) + num( z ) );
	ref q = scaled( r, x, y, z ); auto t = s; xo::scale( t, V( x, y, z ) ); is( c, t, q, "scaled shape" ); is( c, xo::scaled( s, V( x, y, z ) ), q, "scaled shape" ); quantities( c, t, q ); is( c, s, r, "original of a scaled shape" ); if ( r.kind != PLANE ) same( c, xo::volume( t ), r.kind == CAPSULE ? ref_volume( q ) : x * y * z * xo::volume( s ), "volume of a scaled shape" );
	auto u = s; xo::scale( u, float( x ) ); ref uq = scaled( r, x, x, x ); is( c, u, uq, "uniformly scaled shape" ); is( c, xo::scaled( s, float( x ) ), uq, "uniformly scaled shape" ); quantities( c, u, uq ); same( c, xo::volume( u ), x * x * x * ref_volume( r ), "volume of a uniformly scaled shape" );
	c.check( xo::is_valid( s ) && !xo::is_valid( xo::shape() ), "is_valid" );
}
MC_SUITE( "as property tree" )
{
	ref r = choose_shape( c ); auto s = make( r ); c.state( desc( r ) ); auto pn = xo::to_prop_node( s ); c.eq( pn.get< string >( "type" ), string( names[ r.kind ] ), "type" );
	xo::shape before[] = { xo::shape(), xo::cone( 7, 8 ), xo::make_box( 7, 8, 9 ) }; auto t = before[ c.choose( 3 ) ]; c.op( "read over a %s", names[ t.index() ] ); c.check( xo::from_prop_node( pn, t ), "read back" ); is( c, t, r, "shape read back", 1e-4 );
	xo::shape u; pn.set( "type", "unknown" ); c.check( !xo::from_prop_node( pn, u ), "unknown type" );
	xo::prop_node text; text.set( "type", names[ r.kind ] );
	if ( r.kind == PLANE ) { c.check( xo::from_prop_node( text, u ), "plane without normal" ); is( c, u, ref{ PLANE, 1, 0, 0 }, "plane without normal" ); string n = num( r.a ) + " " + num( r.b ) + " " + num( r.z ); text.set( "normal", n ); }
	else { c.must_throw( [&] { xo::shape v; xo::from_prop_node( text, v ); }, "shape without dimensions" ); if ( r.kind == BOX ) text.set( "dim", num( r.a ) + " " + num( r.b ) + " " + num( r.z ) ); else { text.set( "radius", num( r.a ) ); if ( r.kind != SPHERE ) { if ( r.kind == CAPSULE && c.flip() ) { c.op( "total length" ); text.set( "total_length", num( r.b + 2 * r.a ) ); } else text.set( "height", num( r.b ) ); } } }
	c.check( xo::from_prop_node( text, u ), "shape from text" ); is( c, u, r, "shape from text" ); is( c, text.get< xo::shape >(), r, "shape from text" );
	string str = xo::to_str( s ); c.check( str.compare( 0, strlen( names[ r.kind ] ), names[ r.kind ] ) == 0, "type in text" );
	auto has = [&]( double v ) { c.check( str.find( xo::to_str( float( v ) ) ) != string::npos, "the text lacks a value: " + str ); };
	if ( r.kind == BOX ) { has( r.a / 2 ); has( r.b / 2 ); has( r.z / 2 ); } else { has( r.a ); if ( r.kind != SPHERE ) has( r.b ); if ( r.kind == PLANE ) has( r.z ); }
}
static xo::quatf rotation( mc::Ctx& c, int steps ) { double a[ 3 ]; for ( int i = 0; i < 3; ++i ) a[ i ] = 2 * PI * c.choose( steps ) / steps; c.op( "rotated %g %g %g", a[ 0 ], a[ 1 ], a[ 2 ] ); return xo::quat_from_euler( xo::radianf( a[ 0 ] ), xo::radianf( a[ 1 ] ), xo::radianf( a[ 2 ] ) ); }
MC_SUITE( "bounding boxes of shapes" )
{
	ref r = choose_shape( c ); auto s = make( r ); xo::transformf t( c.pick< V >( { V( 0, 0, 0 ), V( 1, -2, 3 ) } ), rotation( c, c.thorough ? 36 : 12 ) ); c.state( desc( r ) + xo::to_str( t.p ) + xo::to_str( t.q ) );
	if ( r.kind != SPHERE && r.kind != BOX ) { c.must_throw( [&] { xo::aabb( s, t ); }, "bounding box of a shape without one" ); throw mc::prune(); }
	double lo[ 3 ], hi[ 3 ]; const float* p = &t.p.x;
	if ( r.kind == SPHERE ) for ( int i = 0; i < 3; ++i ) { lo[ i ] = p[ i ] - r.a; hi[ i ] = p[ i ] + r.a; }
	else
	{
		V ax[ 3 ] = { t.q * V( r.a / 2, 0, 0 ), t.q * V( 0, r.b / 2, 0 ), t.q * V( 0, 0, r.z / 2 ) };
		for ( int i = 0; i < 3; ++i ) { double e = 0; for ( auto& a : ax ) e += std::abs( a[ i ] ); lo[ i ] = p[ i ] - e; hi[ i ] = p[ i ] + e; }
		auto cs = xo::corners( std::get< xo::box >( s ) ); std::set< int > used; for ( auto& k : cs ) { same( c, std::abs( k.x ), r.a / 2, "corner" ); same( c, std::abs( k.y ), r.b / 2, "corner" ); same( c, std::abs( k.z ), r.z / 2, "corner" ); used.insert( ( k.x > 0 ) + 2 * ( k.y > 0 ) + 4 * ( k.z > 0 ) ); } c.eq( used.size(), size_t( 8 ), "corners" );
	}
	auto bb = xo::aabb( s, t ); same( c, bb.lower_bounds, lo[ 0 ], lo[ 1 ], lo[ 2 ], "lower corner" ); same( c, bb.upper_bounds, hi[ 0 ], hi[ 1 ], hi[ 2 ], "upper corner" );
}
template< typename T > static void boxes( mc::Ctx& c )
{
	int n = c.choose( 4 ); xo::aabb_< T > bb, other; bool first_point = n && c.flip(); double lo[ 3 ], hi[ 3 ]; for ( int i = 0; i < 3; ++i ) lo[ i ] = 1e30, hi[ i ] = -1e30;
	static const double pts[][ 3 ] = { { 0, 0, 0 }, { 1, -2, 3 }, { -4, 5, -6 }, { -1, 0, 2 }, { 7, -8, -9 }, { 1, 6, 3 } }; string d;
	for ( int k = 0; k < n; ++k )
	{
		int p = c.choose( 6 ), how = k == 0 && first_point ? 3 : c.choose( 3 ); xo::vec3_< T > v( T( pts[ p ][ 0 ] ), T( pts[ p ][ 1 ] ), T( pts[ p ][ 2 ] ) ); c.op( "point %d by %d", p, how ); d += char( '0' + p );
		int p2 = how == 2 ? c.choose( 6 ) : p; if ( how == 2 ) c.op( "and %d", p2 );
		for ( int i = 0; i < 3; ++i ) { lo[ i ] = std::min( { lo[ i ], pts[ p ][ i ], pts[ p2 ][ i ] } ); hi[ i ] = std::max( { hi[ i ], pts[ p ][ i ], pts[ p2 ][ i ] } ); }
		if ( how == 0 ) c.check( &( bb += v ) == &bb, "result of addition" ); else if ( how == 1 ) bb += xo::aabb_< T >( v ); else if ( how == 3 ) bb = xo::aabb_< T >( v );
		else { xo::aabb_< T > o( v ); o += xo::vec3_< T >( T( pts[ p2 ][ 0 ] ), T( pts[ p2 ][ 1 ] ), T( pts[ p2 ][ 2 ] ) ); xo::aabb_< T > o2( o.lower_bounds, o.upper_bounds ); bb += o2; }
		bb += other; // an empty box adds nothing
		for ( int i = 0; i < 3; ++i ) { c.check( bb.lower_bounds[ i ] == T( lo[ i ] ) && bb.upper_bounds[ i ] == T( hi[ i ] ), "corners" ); }
	}
	c.state( d ); if ( !n ) c.check( !( bb.lower_bounds.x <= bb.upper_bounds.x ), "a box without points is not empty" );
}
MC_SUITE( "growing boxes" ) { if ( c.flip() ) boxes< float >( c ); else boxes< double >( c ); }
static V direction( mc::Ctx& c, int steps ) { int x, y, z; do { x = c.choose( 2 * steps + 1 ) - steps; y = c.choose( 2 * steps + 1 ) - steps; z = c.choose( 2 * steps + 1 ) - steps; if ( !x && !y && !z ) throw mc::prune(); } while ( false ); double l = std::sqrt( double( x * x + y * y + z * z ) ); c.op( "direction %d %d %d", x, y, z ); return V( x / l, y / l, z / l ); }
MC_SUITE( "distances from the centre" )
{
	ref r = choose_shape( c ); auto s = make( r ); V d = direction( c, c.thorough ? 12 : 4 ); c.state( desc( r ) + xo::to_str( d ) );
	if ( r.kind == CONE ) { c.must_throw( [&] { xo::distance_from_center( s, d ); }, "distance of a shape without one" ); return; }
	double t = xo::distance_from_center( s, d ); auto p = xo::intersection_from_center( s, d ); same( c, p, t * d.x, t * d.y, t * d.z, "point" );
	if ( r.kind == PLANE ) { same( c, t, 0, "distance" ); return; }
	// the reference: bisection on the definition of the inside
	double a = 0, b = 100; for ( int i = 0; i < 60; ++i ) { double m = ( a + b ) / 2; ( r.inside( m * d.x, m * d.y, m * d.z ) ? a : b ) = m; } same( c, t, a, "distance" );
}
MC_SUITE( "distances near edges" )
{
	ref r; r.kind = c.pick< int >( { BOX, CYLINDER, CAPSULE } ); auto size = [&] { return c.pick< double >( { 0.5, 1, 2, 3.25 } ); }; r.a = size(); r.b = size(); r.z = r.kind == BOX ? size() : 0; auto s = make( r );
	static const double offs[] = { 1, 0.995, 1.005, 0.9, 1.1 }; double u = offs[ c.choose( 5 ) ], v = offs[ c.choose( 5 ) ]; int sx = c.flip() ? 1 : -1, sy = c.flip() ? 1 : -1, sz = c.flip() ? 1 : -1; double x, y = sy * r.b / 2 * u, z;
	if ( r.kind == BOX ) { x = sx * r.a / 2; z = sz * r.z / 2 * v; } else { double f = c.choose( 5 ) * PI / 8; x = sx * r.a * std::cos( f ); z = sz * r.a * std::sin( f ); }
	double l = std::sqrt( x * x + y * y + z * z ); V d( x / l, y / l, z / l ); c.op( "%s towards %g %g %g", desc( r ).c_str(), x, y, z ); c.state( desc( r ) + xo::to_str( d ) );
	double a = 0, b = 100; for ( int i = 0; i < 60; ++i ) { double m = ( a + b ) / 2; ( r.inside( m * d.x, m * d.y, m * d.z ) ? a : b ) = m; } same( c, xo::distance_from_center( s, d ), a, "distance" );
}
MC_SUITE( "planes and lines" )
{
	static const double n[][ 3 ] = { { 1, 0, 0 }, { 0, 1, 0 }, { 0.6, 0.8, 0 }, { 0, -0.6, 0.8 } }; int k = c.choose( 4 ); xo::plane pl( V( n[ k ][ 0 ], n[ k ][ 1 ], n[ k ][ 2 ] ) ); xo::transformf t( c.pick< V >( { V( 0, 0, 0 ), V( 1, -2, 3 ) } ), rotation( c, 4 ) ); V pos = c.pick< V >( { V( 0, 0, 0 ), V( 2, 1, -1 ) } ); V dir = direction( c, 1 ); if ( c.flip() ) dir *= 2.5f; c.op( "plane %d at %s, line at %s along %s", k, xo::to_str( t.p ).c_str(), xo::to_str( pos ).c_str(), xo::to_str( dir ).c_str() ); c.state( xo::to_str( t.q ) + xo::to_str( t.p ) + xo::to_str( pos ) + xo::to_str( dir ) + num( k ) );
	V normal = t.q * pl.normal_; double along = xo::dot_product( normal, dir ); if ( std::abs( along ) < 1e-3 ) throw mc::prune();
	V x = xo::intersection( xo::linef( pos, dir ), pl, t ); same( c, xo::dot_product( x - t.p, normal ), 0, "the point is not on the plane", 2e-5 ); V off = x - pos; V cr = xo::cross_product( off, dir ); same( c, cr, 0, 0, 0, "the point is not on the line", 1e-4 );
	xo::capsule cap( 0.5f, c.pick< float >( { 1, 2.5f } ) ); auto ends = xo::center_positions( cap, t ); V axis = t.q * V( 0, cap.height_, 0 ); same( c, ends.second - ends.first, axis.x, axis.y, axis.z, "centres of the caps" );
}
// ---- colours ------------------------------------------------------------------------------------------------------------------
static void is( mc::Ctx& c, const xo::color& k, double r, double g, double b, double a, const char* what, double eps = 1e-6 ) { ++c.checks; if ( !( std::abs( k.r - r ) <= eps && std::abs( k.g - g ) <= eps && std::abs( k.b - b ) <= eps && std::abs( k.a - a ) <= eps ) ) c.fail( string( what ) + ": got " + num( k.r ) + " " + num( k.g ) + " " + num( k.b ) + " " + num( k.a ) + ", expected " + num( r ) + " " + num( g ) + " " + num( b ) + " " + num( a ) ); }
MC_SUITE( "colours as integers" )
{
	int r = c.choose( 256 ), other = c.choose( 6 ), place = c.choose( 4 ); static const int o[][ 3 ] = { { 0, 0, 0 }, { 255, 255, 255 }, { 1, 128, 254 }, { 127, 0, 255 }, { 51, 102, 204 }, { 255, 0, 128 } };
	unsigned ch[ 4 ]; for ( int i = 0, k = 0; i < 4; ++i ) ch[ i ] = i == place ? r : o[ other ][ k++ ]; unsigned rgb = ch[ 0 ] << 16 | ch[ 1 ] << 8 | ch[ 2 ], rgba = rgb << 8 | ch[ 3 ]; c.op( "%08x", rgba ); c.state( rgba );
	auto k = xo::color_from_hex_rgb( rgb ), ka = xo::color_from_hex_rgba( rgba ); is( c, k, ch[ 0 ] / 255.0, ch[ 1 ] / 255.0, ch[ 2 ] / 255.0, 1, "colour from rgb" ); is( c, ka, ch[ 0 ] / 255.0, ch[ 1 ] / 255.0, ch[ 2 ] / 255.0, ch[ 3 ] / 255.0, "colour from rgba" );
	c.eq( xo::hex_rgb_from_color( k ), rgb, "rgb of colour" ); c.eq( xo::hex_rgba_from_color( ka ), rgba, "rgba of colour" ); c.eq( xo::hex_rgba_from_color( k ), rgb << 8 | 255, "rgba of opaque colour" ); c.eq( xo::hex_rgb_from_color( ka ), rgb, "rgb of transparent colour" );
	for ( double off : { -0.45, 0.45 } ) { auto s = ka; s.r += off / 255; s.g += off / 255; s.b += off / 255; s.a += off / 255; c.eq( xo::hex_rgba_from_color( s ), rgba, "rgba of a colour nearby" ); }
	char six[ 20 ], eight[ 20 ]; auto text = [&]( const char* t, bool alpha ) { xo::prop_node pn; pn.set_value( string( t ) ); xo::color x; c.check( xo::from_prop_node( pn, x ), "colour from text" ); is( c, x, k.r, k.g, k.b, alpha ? ka.a : 1, "colour from text" ); };
	for ( const char* f : { "%06x", "0x%06x", "%06X", "0x%06X" } ) { snprintf( six, 20, f, rgb ); text( six, false ); } for ( const char* f : { "%08x", "0x%08x", "0X%08X" } ) { snprintf( eight, 20, f, rgba ); text( eight, true ); }
	char t[ 60 ]; for ( const char* f : { "rgb( %d, %d, %d )", "rgb(%d,%d,%d)", "RGB %d %d %d", "rgb %d;%d;%d" } ) { snprintf( t, 60, f, ch[ 0 ], ch[ 1 ], ch[ 2 ] ); text( t, false ); }
}
MC_SUITE( "colours as trees" )
{
	static const double v[] = { 0, 0.25, 0.5, 1 }; double k[ 4 ]; bool alpha = c.flip(), named = c.flip(); for ( double& x : k ) x = v[ c.choose( 4 ) ]; if ( !alpha ) k[ 3 ] = 1; c.op( "%g %g %g %g named %d alpha %d", k[ 0 ], k[ 1 ], k[ 2 ], k[ 3 ], named, alpha ); c.state( num( k[ 0 ] ) + num( k[ 1 ] ) + num( k[ 2 ] ) + num( k[ 3 ] ) );
	xo::prop_node pn; static const char* keys[] = { "r", "g", "b", "a" }; for ( int i = 0; i < 3 + alpha; ++i ) if ( named ) pn.set( keys[ i ], k[ i ] ); else pn.add_value( k[ i ] );
	xo::color x; c.check( xo::from_prop_node( pn, x ), "colour from a tree" ); is( c, x, k[ 0 ], k[ 1 ], k[ 2 ], k[ 3 ], "colour from a tree" );
	if ( named ) { xo::prop_node rev; for ( int i = 3 + alpha; i-- > 0; ) rev.set( keys[ i ], k[ i ] ); xo::color y; c.check( xo::from_prop_node( rev, y ), "colour from a tree" ); is( c, y, k[ 0 ], k[ 1 ], k[ 2 ], k[ 3 ], "colour from a tree in another order" ); }
	is( c, xo::color( k[ 0 ], k[ 1 ], k[ 2 ], k[ 3 ] ), k[ 0 ], k[ 1 ], k[ 2 ], k[ 3 ], "colour of doubles" ); is( c, xo::color( float( k[ 0 ] ), float( k[ 1 ] ), float( k[ 2 ] ), float( k[ 3 ] ) ), k[ 0 ], k[ 1 ], k[ 2 ], k[ 3 ], "colour of floats" ); is( c, xo::color( k[ 0 ], k[ 1 ], k[ 2 ] ), k[ 0 ], k[ 1 ], k[ 2 ], 1, "opaque colour" ); is( c, xo::color( float( k[ 0 ] ), float( k[ 1 ] ), float( k[ 2 ] ) ), k[ 0 ], k[ 1 ], k[ 2 ], 1, "opaque colour" );
	xo::color y( 0.5, 1.0, 0.25, 0.75 ); is( c, x + y, k[ 0 ] + 0.5, k[ 1 ] + 1, k[ 2 ] + 0.25, k[ 3 ] + 0.75, "sum" ); is( c, x - y, k[ 0 ] - 0.5, k[ 1 ] - 1, k[ 2 ] - 0.25, k[ 3 ] - 0.75, "difference" ); is( c, 2 * x, 2 * k[ 0 ], 2 * k[ 1 ], 2 * k[ 2 ], 2 * k[ 3 ], "product" ); is( c, x * 0.5, 0.5 * k[ 0 ], 0.5 * k[ 1 ], 0.5 * k[ 2 ], 0.5 * k[ 3 ], "product" );
	auto z = 2.0f * x - y; xo::clamp( z ); auto cl = [&]( double a, double b ) { return std::min( 1.0, std::max( 0.0, 2 * a - b ) ); }; is( c, z, cl( k[ 0 ], 0.5 ), cl( k[ 1 ], 1 ), cl( k[ 2 ], 0.25 ), cl( k[ 3 ], 0.75 ), "clamped" ); z = 2.0f * x - y; c.check( &xo::clamp( z, 0.25f, 0.5f ) == &z, "clamp returns something else" ); auto cm = [&]( double a, double b ) { return std::min( 0.5, std::max( 0.25, 2 * a - b ) ); }; is( c, z, cm( k[ 0 ], 0.5 ), cm( k[ 1 ], 1 ), cm( k[ 2 ], 0.25 ), cm( k[ 3 ], 0.75 ), "clamped within limits" ); z = 2.0f * x - y; xo::clamp( z ); c.eq( xo::hex_rgb_from_color( 2.0f * x - y ), xo::hex_rgb_from_color( z ), "integer of a colour out of range" );
	same( c, xo::perceived_brightness( x ), std::sqrt( 0.299 * k[ 0 ] * k[ 0 ] + 0.587 * k[ 1 ] * k[ 1 ] + 0.114 * k[ 2 ] * k[ 2 ] ), "brightness" ); c.check( x.is_null() == ( k[ 0 ] == 0 && k[ 1 ] == 0 && k[ 2 ] == 0 && k[ 3 ] == 0 ) && xo::color::null().is_null() && !xo::color().is_null(), "is_null" );
	for ( const char* bad : { "zzz", "rgb(1,2)", "hsv", "rgb(a,b,c)", "" } ) { xo::prop_node b; b.set_value( string( bad ) ); xo::color w; c.check( !xo::from_prop_node( b, w ), "colour from other text" ); }
}
MC_SUITE( "order of colours" )
{
	static const float v[] = { 0, 0.5f, 1 }; float a[ 4 ], b[ 4 ]; for ( float& x : a ) x = v[ c.choose( 3 ) ]; for ( float& x : b ) x = v[ c.choose( 3 ) ]; xo::color x( a[ 0 ], a[ 1 ], a[ 2 ], a[ 3 ] ), y( b[ 0 ], b[ 1 ], b[ 2 ], b[ 3 ] ); c.op( "%08x %08x", xo::hex_rgba_from_color( x ), xo::hex_rgba_from_color( y ) ); c.state( mc::hash( num( xo::hex_rgba_from_color( x ) ) + " " + num( xo::hex_rgba_from_color( y ) ) ) );
	c.check( ( x < y ) == std::lexicographical_compare( a, a + 4, b, b + 4 ), "less" ); c.check( ( x == y ) == std::equal( a, a + 4, b ) && ( x != y ) == !std::equal( a, a + 4, b ), "equal" );
}
static void ref_hsv( double h, double s, double v, double* out ) { int n[] = { 5, 3, 1 }; for ( int i = 0; i < 3; ++i ) { double k = std::fmod( n[ i ] + h / 60, 6 ); out[ i ] = v - v * s * std::max( 0.0, std::min( { k, 4 - k, 1.0 } ) ); } }
MC_SUITE( "hue, saturation and value" )
{
	double h = c.choose( 145 ) * 5, s = c.choose( 5 ) / 4.0, v = c.choose( 5 ) / 4.0, w[ 3 ]; c.op( "hsv %g %g %g", h, s, v ); c.state( num( h ) + " " + num( s ) + " " + num( v ) ); ref_hsv( h, s, v, w ); is( c, xo::color_from_hsv( h, s, v ), w[ 0 ], w[ 1 ], w[ 2 ], 1, "colour", 2e-5 );
	char t[ 60 ]; snprintf( t, 60, "hsv( %g, %g, %g )", h, s * 100, v * 100 ); xo::prop_node pn; pn.set_value( string( t ) ); xo::color x; c.check( xo::from_prop_node( pn, x ), "colour from text" ); is( c, x, w[ 0 ], w[ 1 ], w[ 2 ], 1, "colour from text", 2e-5 );
	xo::prop_node tree; tree.set( "h", h ); if ( s != 1 ) tree.set( "s", s ); if ( v != 1 ) tree.set( "v", v ); c.check( xo::from_prop_node( tree, x ), "colour from a tree" ); is( c, x, w[ 0 ], w[ 1 ], w[ 2 ], 1, "colour from a tree", 2e-5 );
}
MC_SUITE( "named and unique colours" )
{
	float br = c.choose( 5 ) / 4.0f, sat = c.choose( 5 ) / 4.0f; c.op( "brightness %g saturation %g", br, sat ); c.state( num( br ) + " " + num( sat ) ); float d = br * ( 1 - sat ); using K = xo::color;
	is( c, K::red( br, sat ), br, d, d, 1, "red" ); is( c, K::green( br, sat ), d, br, d, 1, "green" ); is( c, K::blue( br, sat ), d, d, br, 1, "blue" ); is( c, K::yellow( br, sat ), br, br, d, 1, "yellow" ); is( c, K::cyan( br, sat ), d, br, br, 1, "cyan" ); is( c, K::magenta( br, sat ), br, d, br, 1, "magenta" ); is( c, K::white( br ), br, br, br, 1, "white" ); is( c, K::orange( br, sat ), br, br / 2 + d / 2, d, 1, "orange" );
	if ( br > 0 ) { std::set< K > all; for ( int i = 0; i < 60; ++i ) { auto k = xo::make_unique_color( i, br ); c.check( k.r >= 0 && k.r <= 1 && k.g >= 0 && k.g <= 1 && k.b >= 0 && k.b <= 1 && k.a == 1, "a unique colour is out of range" ); c.check( all.insert( k ).second, "a unique colour occurs twice" ); } }
}
