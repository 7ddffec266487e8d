// C33: scalar functions equal their definition on every number of a grid.
#include "mc.h"
#include <cmath>
#include <string>
#include <vector>
#include <limits>
#include "xo/numerical/math.h"
#include "xo/numerical/bounded.h"
#include "xo/numerical/compare.h"
#include "xo/numerical/functions.h"
#include "xo/numerical/constants.h"
#include "xo/numerical/delta.h"
using std::string; using std::vector;

static string num( double v ) { char b[ 40 ]; snprintf( b, 40, "%.9g", v ); return b; }
static void same( mc::Ctx& c, double got, double want, const char* what, double eps = 1e-12 ) { ++c.checks; if ( !( std::abs( got - want ) <= eps * ( 1 + std::abs( want ) ) ) ) c.fail( string( what ) + ": got " + num( got ) + ", expected " + num( want ) ); }
template< typename T > static constexpr double eps() { return sizeof( T ) == 4 ? 2e-6 : 1e-12; }
/// the number x with x = v + k ( u - l ) for a whole k that lies between l and u
static bool wraps( double v, double l, double u, double x, double e ) { double k = ( v - x ) / ( u - l ); return std::abs( k - std::round( k ) ) < e && x >= l - e && x <= u + e; }
static double fold( double v, double p ) { double r = v - p * std::floor( v / p ); return r >= p ? 0 : r; } // exact on the grids used here

template< typename T > static void comparing( mc::Ctx& c, const vector< T >& dom )
{
	int n = int( dom.size() ); T a = dom[ c.choose( n ) ], b = dom[ c.choose( n ) ], d = dom[ c.choose( n ) ]; c.op( "%s %s %s", num( a ).c_str(), num( b ).c_str(), num( d ).c_str() ); c.state( num( a ) + " " + num( b ) + " " + num( d ) );
	c.eq( xo::min( a, b ), std::min( a, b ), "min" ); c.eq( xo::max( a, b ), std::max( a, b ), "max" ); c.eq( xo::min( a, b, d ), std::min( { a, b, d } ), "min of three" ); c.eq( xo::max( a, b, d ), std::max( { a, b, d } ), "max of three" );
	c.check( &xo::min( a, b ) == &a || &xo::min( a, b ) == &b, "min is a copy" );
	{ T x = a; xo::set_if_smaller( x, b ); c.eq( x, std::min( a, b ), "set_if_smaller" ); x = a; xo::set_if_bigger( x, b ); c.eq( x, std::max( a, b ), "set_if_bigger" ); x = a; bool set = xo::set_if_different( x, b ); c.check( set == ( a != b ) && x == b, "set_if_different" ); }
	if ( b <= d )
	{
		T want = std::max( b, std::min( d, a ) ); T x = a; c.check( &xo::clamp( x, b, d ) == &x, "clamp returns something else" ); c.eq( x, want, "clamp" ); c.eq( xo::clamped( a, b, d ), want, "clamped" ); c.eq( xo::is_between( a, b, d ), a >= b && a <= d, "is_between" );
	}
	c.eq( xo::same_sign( a, b ), ( a > 0 ) - ( a < 0 ) == ( b > 0 ) - ( b < 0 ), "same_sign" ); c.eq( xo::signum( a ), ( a > 0 ) - ( a < 0 ), "signum" ); c.eq( xo::sign( a ), T( a >= 0 ? 1 : -1 ), "sign" ); c.eq( xo::abs( a ), T( a < 0 ? -a : a ), "abs" );
	c.eq( xo::squared( a ), T( a * a ), "squared" ); c.eq( xo::cubed( a ), T( a * a * a ), "cubed" );
	xo::delta< T > dl( a ); c.eq( dl( b ), T( b - a ), "first difference" ); c.eq( dl( d ), T( d - b ), "second difference" ); xo::delta< T > dz; c.eq( dz( a ), a, "difference with zero" );
}
MC_SUITE( "comparing integers" ) { vector< int > d; int n = c.thorough ? 20 : 9; for ( int i = -n; i <= n; ++i ) d.push_back( i ); d.insert( d.end(), { 100, -100 } ); comparing( c, d ); }
MC_SUITE( "comparing numbers" ) { if ( c.flip() ) { vector< double > d; for ( int i = -8; i <= 8; ++i ) d.push_back( i * 0.25 ); d.insert( d.end(), { 1e3, -1e3, 1e-9, -1e-9 } ); comparing( c, d ); } else { vector< float > d; for ( int i = -8; i <= 8; ++i ) d.push_back( i * 0.25f ); comparing( c, d ); } }
template< typename T > static void extremes( mc::Ctx& c )
{
	using N = std::numeric_limits< T >; vector< T > d{ T( 0 ), T( 1 ), T( 2 ), T( 3 ), N::max(), T( N::max() / 2 ), T( N::max() / 2 + 1 ), N::lowest(), T( N::lowest() / 2 ) };
	if constexpr ( N::is_integer ) { d.push_back( N::max() - 1 ); d.push_back( N::lowest() + 1 ); if ( N::is_signed ) for ( int i = 1; i <= 3; ++i ) d.push_back( T( -i ) ); }
	else for ( T v : { N::min(), N::denorm_min(), N::epsilon(), T( 0.5 ), T( 1.5 ), T( 1 ) + N::epsilon(), T( 1 ) - N::epsilon() / 2, T( 0.5 ) - N::epsilon() / 4, T( 1 ) / N::epsilon(), T( 1 ) / N::epsilon() - T( 0.5 ), T( 0.5 ) / N::epsilon() + T( 0.5 ), T( 9.3e18 ), N::infinity(), T( 0 ) } ) { d.push_back( v ); d.push_back( -v ); }
	T a = c.pick( d ), b = c.pick( d ), e = c.pick( d ); c.op( "%s %s %s", num( double( a ) ).c_str(), num( double( b ) ).c_str(), num( double( e ) ).c_str() ); c.state( mc::show( a ) + " " + mc::show( b ) + " " + mc::show( e ) );
	c.eq( xo::min( a, b ), b < a ? b : a, "min" ); c.eq( xo::max( a, b ), a < b ? b : a, "max" ); c.eq( xo::min( a, b, e ), std::min( { a, b, e } ), "min of three" ); c.eq( xo::max( a, b, e ), std::max( { a, b, e } ), "max of three" );
	{ T x = a; xo::set_if_smaller( x, b ); c.eq( x, std::min( a, b ), "set_if_smaller" ); x = a; xo::set_if_bigger( x, b ); c.eq( x, std::max( a, b ), "set_if_bigger" ); x = a; bool set = xo::set_if_different( x, b ); c.check( set == ( a != b ) && x == b, "set_if_different" ); }
	if ( b <= e ) { T want = a < b ? b : a > e ? e : a, x = a; xo::clamp( x, b, e ); c.eq( x, want, "clamp" ); c.eq( xo::clamped( a, b, e ), want, "clamped" ); } c.eq( xo::is_between( a, b, e ), a >= b && a <= e, "is_between" );
	int sa = ( a > T( 0 ) ) - ( a < T( 0 ) ), sb = ( b > T( 0 ) ) - ( b < T( 0 ) ); c.eq( xo::signum( a ), sa, "signum" ); c.eq( xo::same_sign( a, b ), sa == sb, "same_sign" );
	if constexpr ( N::is_signed ) { c.eq( xo::sign( a ), T( sa < 0 ? -1 : 1 ), "sign" ); if ( !N::is_integer || a != N::lowest() ) c.eq( xo::abs( a ), T( sa < 0 ? -a : a ), "abs" ); }
	if constexpr ( N::is_integer )
	{
		__int128 A = a, B = b, D = B - A; if ( D >= N::lowest() && D <= N::max() ) { __int128 m = xo::midpoint( a, b ); c.check( 2 * m - A - B <= 1 && 2 * m - A - B >= -1, "midpoint" ); }
		c.eq( xo::is_even( a ), A % 2 == 0, "is_even" ); c.eq( xo::is_odd( a ), A % 2 != 0, "is_odd" ); if ( a >= 0 ) c.eq( xo::is_power_of_two( a ), A > 0 && ( A & ( A - 1 ) ) == 0, "is_power_of_two" );
		if ( b > 0 ) { __int128 m = A % B; c.eq( (long long)xo::pos_mod( a, b ), (long long)( m < 0 ? m + B : m ), "pos_mod" ); }
		if ( a >= 0 && b >= 0 ) { __int128 p = A, q = B; while ( q ) { auto t = p % q; p = q; q = t; } c.eq( (long long)xo::greatest_common_divisor( a, b ), (long long)p, "greatest_common_divisor" ); }
	}
	else
	{
		if ( std::isfinite( a ) && std::isfinite( b ) && std::isfinite( b - a ) ) { long double w = ( (long double)a + b ) / 2, m = xo::midpoint( a, b ), s = std::max( std::abs( (long double)a ), std::abs( (long double)b ) ); c.check( std::abs( m - w ) <= 2 * N::epsilon() * s + N::denorm_min(), "midpoint" ); }
		c.eq( xo::is_whole( a ), std::floor( a ) == a, "is_whole" ); c.check( !xo::is_whole( N::quiet_NaN() ), "NaN is whole" );
		if ( std::abs( a ) < T( 9e18 ) ) { long double A = a, w = A < 0 ? -std::floor( -A + 0.5L ) : std::floor( A + 0.5L ); c.eq( xo::round_cast< long long >( a ), (long long)w, "round_cast" ); if ( std::abs( w ) < 2e9L ) c.eq( xo::round_cast< int >( a ), int( w ), "round_cast" ); }
		T r = std::sqrt( sa < 0 ? -a : a ); c.check( xo::signed_sqrt( a ) == ( sa < 0 ? -r : r ), "signed_sqrt" ); c.check( xo::squared( a ) == a * a && xo::cubed( a ) == a * a * a, "powers" ); if ( a != 0 ) c.check( xo::inv( a ) == 1 / a, "inv" ); c.eq( xo::float_to_byte( a ), unsigned( std::lround( std::min( 1.0, std::max( 0.0, double( a ) ) ) * 255 ) ), "float_to_byte" );
	}
}
MC_SUITE( "extreme arguments" ) { switch ( c.choose( 5 ) ) { case 0: extremes< int >( c ); break; case 1: extremes< long long >( c ); break; case 2: extremes< unsigned >( c ); break; case 3: extremes< float >( c ); break; case 4: extremes< double >( c ); break; } }
template< typename I > static void integers( mc::Ctx& c, int lo, int hi )
{
	I v = I( lo + c.choose( hi - lo + 1 ) ); c.op( "%lld", (long long)v ); c.state( num( double( v ) ) ); long long w = (long long)v;
	bool pow2 = false; for ( int k = 0; k < 62; ++k ) if ( w == 1ll << k ) pow2 = true; c.eq( xo::is_power_of_two( v ), pow2, "is_power_of_two" );
	c.eq( xo::is_even( v ), w % 2 == 0, "is_even" ); c.eq( xo::is_odd( v ), w % 2 != 0, "is_odd" );
	if ( w >= 0 ) for ( size_t base = 2; base <= 36; ++base ) { size_t n = 1; for ( unsigned long long x = w; x >= base; x /= base ) ++n; c.eq( xo::count_digits( size_t( w ), base ), n, "count_digits" ); }
	if ( w >= 0 ) { c.eq( xo::count_digits( size_t( w ) ), std::to_string( w ).size(), "count_digits" ); }
	for ( int bit = 0; bit < 32; bit += 8 ) c.eq( xo::get_byte( unsigned( w ), bit ), unsigned( w ) >> bit & 255u, "get_byte" );
}
MC_SUITE( "integers" ) { if ( c.flip() ) integers< int >( c, -1100, 70000 ); else integers< unsigned >( c, 0, 70000 ); }
MC_SUITE( "large integers" )
{
	int k = c.choose( 63 ), o = c.choose( 3 ) - 1; long long v = ( 1ll << k ) + o; c.op( "%lld", v ); c.state( v ); c.eq( xo::is_power_of_two( v ), v > 0 && __builtin_popcountll( v ) == 1, "is_power_of_two" ); c.eq( xo::is_power_of_two( (unsigned long long)v ), __builtin_popcountll( v ) == 1, "is_power_of_two" );
	for ( size_t base : { 2, 3, 8, 10, 16 } ) { size_t n = 1; for ( unsigned long long x = v; x >= base; x /= base ) ++n; c.eq( xo::count_digits( size_t( v ), base ), n, "count_digits" ); } size_t most = ~size_t( 0 ) - ( o + 1 ); c.eq( xo::count_digits( most, 10 ), size_t( 20 ), "count_digits" ); c.eq( xo::count_digits( most, 16 ), size_t( 16 ), "count_digits" );
}
MC_SUITE( "divisors and modulo" )
{
	int n = c.thorough ? 400 : 150; int a = c.choose( n ), b = c.choose( n ); c.op( "%d %d", a, b ); c.state( a * 1000 + b );
	int g = 0; for ( int k = 1; k <= std::max( a, b ); ++k ) if ( a % k == 0 && b % k == 0 ) g = k; c.eq( xo::greatest_common_divisor( a, b ), g, "greatest_common_divisor" ); c.eq( xo::greatest_common_divisor( size_t( a ), size_t( b ) ), size_t( g ), "greatest_common_divisor" );
	int m = a - n / 2, p = b + 1; int want = ( ( m % p ) + p ) % p; c.eq( xo::pos_mod( m, p ), want, "pos_mod" ); c.eq( xo::pos_mod( double( m ), double( p ) ), double( want ), "pos_mod" ); c.eq( xo::pos_mod( float( m ) / 4, float( p ) / 4 ), float( want ) / 4, "pos_mod" );
}
template< typename T > static void waves( mc::Ctx& c )
{
	int i = c.choose( 401 ) - 200; T v = T( i ) / 8; double w = i / 8.0; const double E = eps< T >(); c.op( "%g", w ); c.state( i );
	c.eq( xo::square_wave( v ), T( fold( w, 2 ) < 1 ? 1 : 0 ), "square_wave" ); double f = fold( w, 2 ); same( c, xo::triangle_wave( v ), f <= 1 ? f : 2 - f, "triangle_wave", E );
	for ( int l = -3; l <= 3; ++l ) for ( int d = 1; d <= 4; ++d )
	{
		double lo = l * 0.5, up = lo + d * 0.75; T tl = T( lo ), tu = T( up ); double x = xo::wrapped( v, tl, tu ); c.check( wraps( w, lo, up, x, 1e-5 ), "wrapped: " + num( x ) ); double ex = lo + fold( w - lo, up - lo ); if ( ex > lo + 1e-4 && ex < up - 1e-4 ) same( c, x, ex, "wrapped", E * 10 ); T y = v; c.check( &xo::wrap( y, tl, tu ) == &y && y == T( x ), "wrap" );
		double q = fold( w - lo, 2 * ( up - lo ) ); same( c, xo::triangle_wave( v, tl, tu ), lo + ( q <= up - lo ? q : 2 * ( up - lo ) - q ), "triangle_wave between bounds", E * 10 );
	}
	c.eq( xo::is_whole( v ), i % 8 == 0, "is_whole" ); c.eq( xo::round_cast< int >( v ), int( w < 0 ? -std::floor( -w + 0.5 ) : std::floor( w + 0.5 ) ), "round_cast" ); for ( int d = 0; d <= 3; ++d ) { double p = std::pow( 10.0, d ), r = xo::round_decimals( v, d ) * p; same( c, r, std::round( r ), "rounded to decimals", E * 100 ); c.check( std::abs( r - w * p ) <= 0.5 + 1e-3, "rounded to decimals" ); }
	if ( i ) { same( c, xo::inv( v ), 1 / w, "inv", E ); same( c, xo::power< -1 >( v ), 1 / w, "power", E ); same( c, xo::power< -3 >( v ), 1 / ( w * w * w ), "power", E * 10 ); } if ( i > 0 ) same( c, xo::invsqrt( v ), 1 / std::sqrt( w ), "invsqrt", E );
	same( c, xo::signed_sqrt( v ), w < 0 ? -std::sqrt( -w ) : std::sqrt( w ), "signed_sqrt", E ); same( c, xo::power< 0 >( v ), 1, "power", E ); same( c, xo::power< 1 >( v ), w, "power", E ); same( c, xo::power< 2 >( v ), w * w, "power", E ); same( c, xo::power< 5 >( v ), w * w * w * w * w, "power", E * 10 ); same( c, xo::midpoint( v, T( 3 ) ), ( w + 3 ) / 2, "midpoint", E );
	c.eq( xo::float_to_byte( v ), unsigned( std::lround( std::min( 1.0, std::max( 0.0, w ) ) * 255 ) ), "float_to_byte" );
}
MC_SUITE( "waves, wrapping and powers" ) { if ( c.flip() ) waves< float >( c ); else waves< double >( c ); }
template< typename T > static void clamps( mc::Ctx& c )
{
	int i = c.choose( 161 ) - 80; double w = i / 8.0; T v = T( w ); int l = c.choose( 5 ) - 2, d = c.choose( 4 ) + 1; double lo = l * 1.5, up = lo + d, bnd = c.pick< double >( { 0.5, 0.25, 0.1, 0.01 } ); c.op( "%g between %g and %g, boundary %g", w, lo, up, bnd ); c.state( num( w ) + " " + num( lo ) + " " + num( up ) + " " + num( bnd ) ); const double E = eps< T >() * 4;
	auto f = [&]( double x ) { T t = T( x ); return double( xo::soft_clamped( t, T( lo ), T( up ), T( bnd ) ) ); }; double x = f( w ), r = bnd * ( up - lo ); { T t = v; c.check( &xo::soft_clamp( t, T( lo ), T( up ), T( bnd ) ) == &t && t == T( x ), "soft_clamp" ); }
	c.check( x >= lo - E * 10 && x <= up + E * 10, "the soft clamped value is out of bounds" ); if ( w >= lo + r + 1e-4 && w <= up - r - 1e-4 ) same( c, x, w, "soft clamped value away from the bounds", E ); c.check( f( w + 0.125 ) >= x - E * 10, "soft clamping is not monotonic" ); same( c, f( lo + up - w ), lo + up - x, "soft clamping is not symmetric", E * 20 ); same( c, f( w + 1e-3 ), x, "soft clamping is not continuous", 2e-3 );
	double lb = lo + r, ub = up - r * 0.5; auto g = [&]( double y ) { return double( xo::smooth_clamped( T( y ), T( lo ), T( up ), T( lb ), T( ub ) ) ); }; double y = g( w ); c.check( y >= lo - E && y <= up + E, "the smoothly clamped value is out of bounds" ); if ( w >= lb && w <= ub ) same( c, y, w, "smoothly clamped value away from the bounds", E ); c.check( g( w + 0.125 ) >= y - E, "smooth clamping is not monotonic" ); same( c, g( w + 1e-3 ), y, "smooth clamping is not continuous", 2e-3 );
	same( c, g( lb ), lb, "smooth clamping at the bound", E ); same( c, g( ub ), ub, "smooth clamping at the bound", E ); if ( w < lo - 20 * r ) same( c, y, lo, "smooth clamping far away", 1e-5 ); if ( w > up + 20 * r ) same( c, y, up, "smooth clamping far away", 1e-5 );
}
MC_SUITE( "soft and smooth clamping" ) { if ( c.flip() ) clamps< float >( c ); else clamps< double >( c ); }
template< typename T > static void tolerances( mc::Ctx& c )
{
	static const double base[] = { 0, 1, -1, 1000, -0.001, 3.5 }; double b = base[ c.choose( 6 ) ]; int k = c.choose( 13 ) - 6; static const double es[] = { 0, 1e-4, 0.1 }; int ei = c.choose( 4 ); T e = ei < 3 ? T( es[ ei ] ) : xo::constants< T >::ample_epsilon(); T v1 = T( b ), v2 = T( v1 + v1 * e * T( k ) * T( 0.4 ) ); if ( b == 0 ) v2 = T( k ); c.op( "%.9g %.9g within %g", double( v1 ), double( v2 ), double( e ) ); c.state( num( b ) + num( k ) + num( ei ) );
	bool eq = v2 == v1 || ( e > 0 && b != 0 && std::abs( k ) <= 2 ); // 0.4 and 0.8 are within, 1.2 is not
	auto t = [&]( bool got, bool want, const char* what ) { c.check( got == want, what ); };
	t( xo::equal( v1, v2, e ), eq, "equal" ); t( xo::less_than_or_equal( v1, v2, e ), v1 < v2 || eq, "less_than_or_equal" ); t( xo::less_than_not_equal( v1, v2, e ), v1 < v2 && !eq, "less_than_not_equal" ); t( xo::greater_than_or_equal( v1, v2, e ), v1 > v2 || eq, "greater_than_or_equal" ); t( xo::greater_than_not_equal( v1, v2, e ), v1 > v2 && !eq, "greater_than_not_equal" );
	if ( ei == 3 ) { t( xo::equal( v1, v2 ), eq, "equal by default" ); t( xo::less_than_or_equal( v1, v2 ), v1 < v2 || eq, "less_than_or_equal by default" ); t( xo::greater_than_not_equal( v1, v2 ), v1 > v2 && !eq, "greater_than_not_equal by default" ); }
}
MC_SUITE( "comparing within a tolerance" ) { if ( c.flip() ) tolerances< float >( c ); else tolerances< double >( c ); }
template< int L, int U > static void bounded( mc::Ctx& c )
{
	using B = xo::bounded< int, L, U >; { const B z; c.check( int( z ) >= L && int( z ) <= U, "a new value is out of bounds" ); B o( U ); o = z; c.eq( int( o ), int( z ), "copy of a new value" ); } int start = L + c.choose( U - L + 1 ); B b( start ); int want = start; c.op( "%d in %d to %d", start, L, U ); int n = 1 + c.choose( c.thorough ? 3 : 2 );
	for ( int i = 0; i < n; ++i )
	{
		int v = L - 3 + c.choose( U - L + 7 ), how = c.choose( 3 ); bool ok = v >= L && v <= U; c.op( "%d by %d", v, how ); bool threw = false;
		try { if ( how == 0 ) b = v; else if ( how == 1 ) b.set( v ); else { B o( v ); b = o; } } catch ( std::exception& ) { threw = true; }
		c.check( threw == !ok, "a value out of bounds is accepted or one within is not" ); if ( ok ) want = v; c.eq( int( b ), want, "value" ); const B& k = b; c.eq( int( k ), want, "value" );
	}
	c.state( want );
}
MC_SUITE( "bounded values" ) { switch ( c.choose( 4 ) ) { case 0: bounded< -2, 3 >( c ); break; case 1: bounded< 0, 5 >( c ); break; case 2: bounded< 2, 5 >( c ); break; case 3: bounded< -4, -1 >( c ); break; } }
MC_SUITE( "approximations and curves" )
{
	int i = c.choose( 2001 ); double x = i / 1000.0 - 1; c.op( "%g", x ); c.state( i );
	c.check( std::abs( xo::fast_acos( x ) - std::acos( x ) ) < 0.02, "fast_acos" ); c.check( std::abs( xo::fast_acos( float( x ) ) - std::acos( x ) ) < 0.02, "fast_acos" ); same( c, xo::fast_acos( -x ), std::acos( -1.0 ) - xo::fast_acos( x ), "symmetry of fast_acos", 1e-9 );
	if ( x >= 0 ) { double j = xo::minimum_jerk( x ); same( c, j, x * x * x * ( 10 + x * ( -15 + 6 * x ) ), "minimum_jerk" ); same( c, xo::minimum_jerk( 1 - x ), 1 - j, "symmetry of minimum_jerk" ); c.check( j >= -1e-12 && j <= 1 + 1e-12, "minimum_jerk is out of range" ); }
	using L = std::numeric_limits< double >; c.check( xo::constantsd::pi() == M_PI && xo::constantsd::half_pi() == M_PI_2 && xo::constantsd::two_pi() == 2 * M_PI && xo::constantsd::e() == M_E && xo::constantsd::max() == L::max() && xo::constantsd::lowest() == L::lowest() && xo::constantsd::epsilon() == L::epsilon() && xo::constantsd::infinity() == L::infinity() && xo::constantsd::NaN() != xo::constantsd::NaN(), "constants" );
	c.check( xo::num< double >::pi == M_PI && xo::num< double >::two_pi == 2 * M_PI && xo::num< double >::half_pi == M_PI_2 && xo::num< double >::highest == L::max() && xo::num< double >::smallest == L::min() && xo::num< float >::max == std::numeric_limits< float >::max() && xo::num< double >::sentinel() == L::lowest() && xo::constants< size_t >::sentinel() == ~size_t( 0 ) && xo::constantsi::sentinel() == std::numeric_limits< int >::min(), "constants" );
}
