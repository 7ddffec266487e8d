// C28: interpolating functions, delays, filters and regressions on every small point set and input history.
#include "mc.h"
#include <cmath>
#include <complex>
#include <functional>
#include <map>
#include <vector>
#include "xo/numerical/interpolation.h"
#include "xo/numerical/piecewise_linear_function.h"
#include "xo/numerical/piecewise_constant_function.h"
#include "xo/numerical/regular_piecewise_linear_function.h"
#include "xo/numerical/delayer.h"
#include "xo/numerical/filter.h"
#include "xo/numerical/filter_1st_order.h"
#include "xo/numerical/delta.h"
#include "xo/numerical/average.h"
#include "xo/numerical/polynomial.h"
#include "xo/numerical/regression.h"
#include "xo/numerical/bounds.h"
#include "xo/geometry/catmull_rom.h"
#include "xo/utility/color_gradient.h"
using std::string; using std::vector;

template< typename T > constexpr double tol = sizeof( T ) == 4 ? 2e-5 : 1e-11;
static string num( double v ) { char b[ 40 ]; snprintf( b, 40, "%.9g", v ); return b; }
static void near( mc::Ctx& c, double got, double want, double eps, const string& what )
{
	++c.checks;
	if ( !( std::abs( got - want ) <= eps * ( 1 + std::abs( want ) ) ) ) c.fail( what + ": got " + num( got ) + ", expected " + num( want ) );
}
static const vector< double > xs = { 0, 1, 2, 4, -1.5 };
static const vector< double > ys = { 0, -1, 2.5 };

/// linear through the neighbouring points, the outer segments are extended
static double ref_linear( const std::map< double, double >& m, double x )
{
	auto b = m.lower_bound( x );
	if ( b == m.end() ) --b; else if ( b == m.begin() ) ++b;
	auto a = std::prev( b );
	return a->second + ( b->second - a->second ) * ( x - a->first ) / ( b->first - a->first );
}
template< typename T > static void piecewise( mc::Ctx& c, int maxn )
{
	xo::piecewise_linear_function< T > lin; xo::piecewise_constant_function< T > con; std::map< double, double > m; std::map< double, double > fm;
	xo::flat_map< double, double > flat;
	c.must_throw( [&] { lin( T( 0 ) ); }, "no points" ); c.must_throw( [&] { con( T( 0 ) ); }, "no points" );
	for ( int n = 0; n < maxn; ++n )
	{
		double x = c.pick( xs ), y = c.pick( ys );
		c.op( "point %g %g", x, y );
		lin.insert_point( T( x ), T( y ) ); con.insert_point( T( x ), T( y ) ); m[ x ] = y; flat[ x ] = y;
		if ( !c.fresh() ) continue;
		c.eq( lin.size(), m.size(), "number of points" ); c.eq( con.size(), m.size(), "number of points" );
		size_t i = 0; for ( auto& p : m ) { c.check( lin.point( i ).first == T( p.first ) && lin.point( i ).second == T( p.second ), "point of a linear function" ); c.check( con.point( i ).first == T( p.first ) && con.point( i ).second == T( p.second ), "point of a constant function" ); ++i; }
		if ( m.size() < 2 ) c.must_throw( [&] { lin( T( 0 ) ); }, "linear function of one point" );
		string st;
		for ( double q = -3; q <= 6; q += 0.25 )
		{
			if ( m.size() >= 2 ) near( c, lin( T( q ) ), ref_linear( m, q ), tol< T >, "piecewise linear at " + num( q ) );
			auto ub = m.upper_bound( q );
			near( c, con( T( q ) ), ub == m.begin() ? ub->second : std::prev( ub )->second, 0, "piecewise constant at " + num( q ) );
			double clamped = q <= m.begin()->first ? m.begin()->second : q >= m.rbegin()->first ? m.rbegin()->second : ref_linear( m, q );
			near( c, xo::lerp_map( m, q ), clamped, 1e-12, "lerp_map at " + num( q ) );
			near( c, xo::lerp_map( flat, q ), clamped, 1e-12, "lerp_map of a flat_map at " + num( q ) );
			st += num( clamped ) + " ";
		}
		c.state( st );
		for ( auto& p : m )
		{
			if ( m.size() >= 2 ) near( c, lin( T( p.first ) ), p.second, tol< T >, "piecewise linear at a point" );
			near( c, con( T( p.first ) ), p.second, 0, "piecewise constant at a point" );
		}
	}
}
MC_SUITE( "piecewise functions" ) { piecewise< double >( c, c.thorough ? 5 : 4 ); }
MC_SUITE( "piecewise functions, float" ) { piecewise< float >( c, c.thorough ? 4 : 3 ); }

template< typename T, size_t N > static void regular( mc::Ctx& c )
{
	double lo = c.pick< double >( { 0, -2, 0.5 } ), len = c.pick< double >( { 1, 3, 0.75 } );
	vector< double > v; string s; for ( size_t i = 0; i < N; ++i ) { v.push_back( c.pick( ys ) ); s += num( v.back() ) + " "; }
	c.op( "%d points from %g to %g: %s", (int)N, lo, lo + len, s.c_str() ); c.state( s );
	std::map< double, double > m; for ( size_t i = 0; i < N; ++i ) m[ lo + len * i / ( N - 1 ) ] = v[ i ];
	int calls = 0;
	xo::regular_piecewise_linear_function< T, N > f( T( lo ), T( lo + len ), [&]( T x ) { ++calls; int i = (int)std::lround( ( x - lo ) / len * ( N - 1 ) ); near( c, x, lo + len * i / ( N - 1 ), tol< T >, "sample position" ); return T( v.at( i ) ); } );
	c.eq( calls, (int)N, "samples" );
	for ( auto& p : m ) near( c, f( T( p.first ) ), p.second, 10 * tol< T >, "regular function at a point" );
	for ( int k = -8; k <= 24; ++k ) { double x = lo + len * k / 16; near( c, f( T( x ) ), ref_linear( m, x ), 20 * tol< T >, "regular function at " + num( x ) ); }
}
MC_SUITE( "regular piecewise functions" ) { switch ( c.choose( 4 ) ) { case 0: regular< double, 2 >( c ); break; case 1: regular< double, 3 >( c ); break; case 2: regular< double, 5 >( c ); break; case 3: regular< float, 4 >( c ); break; } }

MC_SUITE( "interpolated sequences" )
{
	int n = c.choose( 5 ); vector< double > v; string s;
	for ( int i = 0; i < n; ++i ) { v.push_back( c.pick( ys ) ); s += num( v.back() ) + " "; }
	c.op( "sequence %s", s.c_str() ); c.state( s );
	if ( n == 0 ) { c.must_throw( [&] { xo::lerp_vec( v, 0.0 ); }, "empty sequence" ); c.must_throw( [&] { xo::lerp_map( std::map< double, double >(), 0.0 ); }, "empty map" ); return; }
	for ( double q = -2; q <= 6; q += 0.125 )
	{
		double want = q <= 0 ? v.front() : q >= n - 1 ? v.back() : v[ (int)q ] + ( q - (int)q ) * ( v[ (int)q + 1 ] - v[ (int)q ] );
		near( c, xo::lerp_vec( v, q ), want, 1e-12, "lerp_vec at " + num( q ) );
		near( c, xo::lerp_vec( v, (float)q ), want, 1e-6, "lerp_vec at " + num( q ) );
		near( c, xo::lerp_span( v.begin(), v.end(), q ), want, 1e-12, "lerp_span at " + num( q ) );
	}
	for ( double a : v ) for ( double b : v ) for ( double t = -1; t <= 2; t += 0.25 ) { near( c, xo::lerp( a, b, t ), a + t * ( b - a ), 1e-12, "lerp" ); near( c, xo::lerp_precise( a, b, t ), a + t * ( b - a ), 1e-12, "lerp_precise" ); }
}
MC_SUITE( "interpolated colours" )
{
	xo::color k[ 3 ] = { xo::color( 1.f, 0.f, 0.f ), xo::color( 0.f, 0.5f, 1.f, 0.5f ), xo::color( 0.25f, 1.f, 0.f ) };
	int a = c.choose( 3 ), b = c.choose( 3 ), d = c.choose( 3 ); c.op( "colours %d %d %d", a, b, d ); c.state( a * 9 + b * 3 + d );
	xo::color_gradient g{ { 0.f, k[ a ] }, { 2.f, k[ d ] }, { 1.f, k[ b ] } };
	for ( float q = -1; q <= 3; q += 0.125f )
	{
		auto& l = q < 1 ? k[ a ] : k[ b ]; auto& u = q < 1 ? k[ b ] : k[ d ]; float t = q <= 0 ? 0 : q >= 2 ? 1 : q < 1 ? q : q - 1;
		auto r = g( q );
		near( c, r.r, l.r + t * ( u.r - l.r ), 1e-6, "red" ); near( c, r.g, l.g + t * ( u.g - l.g ), 1e-6, "green" ); near( c, r.b, l.b + t * ( u.b - l.b ), 1e-6, "blue" ); near( c, r.a, l.a + t * ( u.a - l.a ), 1e-6, "alpha" );
	}
}
template< typename P, typename G > static void spline( mc::Ctx& c, int n, G gen )
{
	vector< P > p; vector< double > t; string s; double at = 0;
	for ( int i = 0; i < n; ++i ) p.push_back( gen( s ) );
	for ( int i = 0; i < n - 2; ++i ) { t.push_back( at ); at += i % 2 ? 1 : 0.5; }
	c.op( "spline %s", s.c_str() ); c.state( s );
	xo::catmull_rom< P, double > f( p, t );
	auto dist = []( const P& a, const P& b ) { if constexpr ( std::is_same_v< P, double > ) return std::abs( a - b ); else return double( xo::distance( a, b ) ); };
	for ( int i = 0; i < n - 2; ++i )
	{
		near( c, dist( f( t[ i ] ), p[ i + 1 ] ), 0, 1e-9, "spline at its point " + std::to_string( i ) );
		if ( i ) near( c, dist( f( t[ i ] - 1e-7 ), f( t[ i ] + 1e-7 ) ), 0, 1e-4, "continuity of the spline" );
	}
	// a straight line of evenly spaced points is followed exactly, and the middle of a segment is the known blend of four points
	for ( int i = 0; i + 3 < n; ++i ) near( c, dist( f( ( t[ i ] + t[ i + 1 ] ) / 2 ), ( 9.0 * ( p[ i + 1 ] + p[ i + 2 ] ) - p[ i ] - p[ i + 3 ] ) / 16.0 ), 0, 1e-9, "middle of a spline segment" );
}
MC_SUITE( "splines" )
{
	int n = 4 + c.choose( c.thorough ? 4 : 3 );
	spline< double >( c, n, [&]( string& s ) { double v = c.pick( ys ); s += num( v ) + " "; return v; } );
}
MC_SUITE( "splines in space" )
{
	spline< xo::vec3d >( c, 4 + c.choose( 2 ), [&]( string& s ) { int k = c.choose( 4 ); s += std::to_string( k ) + " "; return k == 3 ? xo::vec3d( 1, 2, -1 ) : xo::vec3d( k == 0, k == 1, k == 2 ); } );
}

// ---- histories -------------------------------------------------------------------------------------------------------

/// linear between samples (or means) that are a window apart; without means, the sample of a window is the one closest to its end
template< typename D, int N > static void delay( mc::Ctx& c, bool smooth, int len, std::function< double( int ) > gen = {} )
{
	static const double ks[] = { 1, 1.5, 2, 2.25, 3, 3.5 };
	double k = smooth ? c.choose( 4 ) + 1 : ks[ c.choose( 3 ) * 2 + c.choose( 2 ) ]; double dt = 0.25, init = c.pick( ys ), window = k * dt;
	c.op( "%d samples, window of %g steps, initially %g", N, k, init );
	D d( float( window * ( smooth ? N - 0.5 : N - 1 ) ), init );
	near( c, d(), init, 0, "initial value" );
	vector< double > in; std::map< int, double > sample; int j = 0; // windows that have ended
	auto at = [&]( int i ) { auto it = sample.find( i ); return i <= 0 || it == sample.end() ? init : it->second; };
	for ( int m = 1; m <= len; ++m )
	{
		double v = gen ? gen( m ) : c.pick( ys ); in.push_back( v ); if ( !gen ) c.op( "sample %g", v );
		double got = d( v, float( dt ) );
		if ( m + ( smooth ? 0.01 : 0.5 ) > ( j + 1 ) * k )
		{
			++j; double s = 0; if ( smooth ) for ( int i = m - int( k ); i < m; ++i ) s += in[ i ];
			sample[ j ] = smooth ? s / k : v;
		}
		double w = ( m - j * k ) / k, want = w * at( j - N + 2 ) + ( 1 - w ) * at( j - N + 1 );
		near( c, got, want, 1e-5, "delayed value" );
		near( c, d(), got, 0, "value without a new sample" );
		c.state( num( got ) + "/" + num( w ) );
	}
}
MC_SUITE( "delays" ) { int l = c.thorough ? 11 : 9; switch ( c.choose( 3 ) ) { case 0: delay< xo::delayer< double, 2 >, 2 >( c, false, l ); break; case 1: delay< xo::delayer< double, 3 >, 3 >( c, false, l ); break; case 2: delay< xo::delayer< double, 5 >, 5 >( c, false, l ); break; } }
MC_SUITE( "smooth delays" ) { int l = c.thorough ? 11 : 9; switch ( c.choose( 3 ) ) { case 0: delay< xo::smooth_delayer< double, 2 >, 2 >( c, true, l ); break; case 1: delay< xo::smooth_delayer< double, 3 >, 3 >( c, true, l ); break; case 2: delay< xo::smooth_delayer< double, 4 >, 4 >( c, true, l ); break; } }
MC_SUITE( "delays of a constant" )
{
	// any step sizes: a constant input stays constant
	double v = c.pick( ys ); c.op( "constant %g", v );
	xo::delayer< double, 3 > d( 1.0f, v ); xo::smooth_delayer< double, 3 > s( 1.25f, v );
	for ( int i = 0; i < ( c.thorough ? 9 : 7 ); ++i )
	{
		float dt = c.pick< float >( { 0.125f, 0.25f, 0.375f, 0.5f } ); c.op( "step %g", dt );
		near( c, d( v, dt ), v, 1e-6, "delayed constant" ); near( c, s( v, dt ), v, 1e-6, "smoothly delayed constant" );
		c.state( num( d.delayed_value() ) + num( i ) );
	}
}
template< int N > static void filters( mc::Ctx& c, int len, std::function< double( int ) > gen = {} )
{
	xo::iir_filter< double, N > f; int set = c.choose( 3 );
	double b0 = set == 0 ? 0.5 : 1, b[ N ], a[ N ]; for ( int i = 0; i < N; ++i ) { b[ i ] = set == 2 ? 0.25 * ( i + 1 ) : i == 0 ? 0.5 : -0.25; a[ i ] = set == 1 ? 0 : i == 0 ? 0.5 : -0.125 * i; }
	f.b0_ = b0; for ( int i = 0; i < N; ++i ) { f.b_[ i ] = b[ i ]; f.a_[ i ] = a[ i ]; }
	c.op( "order %d, coefficients %d", N, set );
	vector< double > x, y; near( c, f(), 0, 0, "initial output" );
	for ( int n = 0; n < len; ++n )
	{
		double v = gen ? gen( n ) : c.pick( ys ); x.push_back( v ); if ( !gen ) c.op( "input %g", v );
		double w = b0 * v; for ( int i = 0; i < N; ++i ) if ( n - 1 - i >= 0 ) w += b[ i ] * x[ n - 1 - i ] + a[ i ] * y[ n - 1 - i ];
		y.push_back( w ); near( c, f( v ), w, 1e-12, "filter output" ); near( c, f(), w, 1e-12, "filter value" );
		near( c, f.velocity(), n ? y[ n ] - y[ n - 1 ] : y[ n ], 1e-12, "filter velocity" ); c.state( num( w ) );
	}
}
MC_SUITE( "filters" ) { int l = c.thorough ? 9 : 7; switch ( c.choose( 2 ) ) { case 0: filters< 2 >( c, l ); break; case 1: filters< 3 >( c, l ); break; } }
MC_SUITE( "low-pass filters" )
{
	int k = 1 + c.choose( 49 ); double r = k / 100.0; c.op( "cutoff %g", r ); c.state( k );
	auto f = xo::make_lowpass_butterworth_2nd_order( r );
	auto gain = [&]( double w ) { std::complex< double > z = std::polar( 1.0, -2 * M_PI * w ); return std::abs( ( f.b0_ + f.b_[ 0 ] * z + f.b_[ 1 ] * z * z ) / ( 1.0 - f.a_[ 0 ] * z - f.a_[ 1 ] * z * z ) ); };
	near( c, gain( 0 ), 1, 1e-9, "gain of a constant" ); near( c, gain( 0.5 ), 0, 1e-9, "gain of the highest frequency" ); near( c, gain( r ), std::sqrt( 0.5 ), 1e-9, "gain at the cutoff frequency" );
	double last = 1; for ( int i = 1; i <= 50; ++i ) { double g = gain( i / 100.0 ); c.check( g <= last + 1e-9, "gain increases with the frequency" ); last = g; }
	double y = 0; for ( int i = 0; i < 3000; ++i ) y = f( 2.0 ); if ( k >= 2 ) near( c, y, 2, 1e-3, "response to a constant" );
}
MC_SUITE( "first order filters, differences and averages" )
{
	double rate = c.pick< double >( { 0.5, 2, 0 } ), init = c.pick( ys ); c.op( "rate %g from %g", rate, init );
	xo::filter_1st_order< double, double > acc( rate, init ), fast( rate, init ), half( rate, init ); xo::delta< double > d( init ); xo::averaged avg; xo::averagef avgf;
	double va = init, vf = init, last = init, sum = 0, weight = 0;
	c.check( avg.empty(), "new average" ); near( c, avg.get(), 0, 0, "average of nothing" );
	for ( int i = 0; i < ( c.thorough ? 5 : 4 ); ++i )
	{
		double v = c.pick( ys ), dt = c.pick< double >( { 0.25, 1 } ); c.op( "input %g during %g", v, dt );
		va = v + ( va - v ) * std::exp( -rate * dt ); vf += dt * rate * ( v - vf );
		near( c, acc( v, dt ), va, 1e-12, "first order filter" ); near( c, acc.value(), va, 1e-12, "value" );
		near( c, fast.update_fast( v, dt ), vf, 1e-12, "fast first order filter" );
		half( v, dt / 2 ); near( c, half( v, dt / 2 ), va, 1e-12, "two half steps" );
		near( c, d( v ), v - last, 0, "difference" ); last = v;
		avg.add( v, dt ); avgf.add( float( v ), float( dt ) ); sum += v * dt; weight += dt; near( c, avg.get(), sum / weight, 1e-12, "weighted average" ); near( c, avgf.get(), sum / weight, 1e-5, "weighted average" ); c.check( !avg.empty(), "average is empty" );
		c.state( num( va ) + num( sum ) );
	}
	avg.reset(); c.check( avg.empty() && avg.get() == 0, "average after reset" );
}

// ---- polynomials, regression, bounds --------------------------------------------------------------------------------

template< size_t D, typename... A > static void poly( mc::Ctx& c, A... a )
{
	xo::polynomial< double, D > p( a... ); double k[] = { a... };
	auto q = p; xo::polynomial< double, D > z; z = q;
	for ( double x = -3; x <= 3; x += 0.5 ) { double want = 0; for ( size_t i = 0; i <= D; ++i ) want += k[ i ] * std::pow( x, i ); near( c, p( x ), want, 1e-12, "polynomial" ); near( c, z( x ), want, 1e-12, "copied polynomial" ); }
	for ( size_t i = 0; i <= D; ++i ) near( c, p[ i ], k[ i ], 0, "coefficient" );
	near( c, p.offset(), k[ 0 ], 0, "offset" ); near( c, p.slope(), k[ 1 ], 0, "slope" );
}
MC_SUITE( "polynomials" )
{
	double a[ 5 ]; int n = 2 + c.choose( 4 ); for ( int i = 0; i < n; ++i ) a[ i ] = c.pick< double >( { 0, 1, -2, 0.5 } ); c.op( "%d coefficients", n ); c.state( string( (char*)a, n * 8 ) );
	if ( n == 2 ) { poly< 1 >( c, a[ 0 ], a[ 1 ] ); if ( a[ 1 ] != 0 ) for ( double y = -2; y <= 2; ++y ) { xo::linear_function< double > f( a[ 0 ], a[ 1 ] ); near( c, f( xo::intersect_y( f, y ) ), y, 1e-12, "intersection" ); } }
	else if ( n == 3 ) poly< 2 >( c, a[ 0 ], a[ 1 ], a[ 2 ] ); else if ( n == 4 ) poly< 3 >( c, a[ 0 ], a[ 1 ], a[ 2 ], a[ 3 ] ); else poly< 4 >( c, a[ 0 ], a[ 1 ], a[ 2 ], a[ 3 ], a[ 4 ] );
}
static double ref_median( vector< double > v ) { std::sort( v.begin(), v.end() ); size_t n = v.size(); return n % 2 ? v[ n / 2 ] : ( v[ n / 2 ] + v[ n / 2 - 1 ] ) / 2; }
MC_SUITE( "regression" )
{
	int n = 2 + c.choose( c.thorough ? 5 : 4 ); bool even = c.flip(); double x0 = c.pick< double >( { 0, -1 } ), step = c.pick< double >( { 1, 0.5 } );
	vector< double > x, y; string s; double at = x0;
	for ( int i = 0; i < n; ++i ) { x.push_back( at ); at += even ? step : step * ( 1 + ( i * 2 ) % 3 ); y.push_back( c.pick< double >( { 0, 1, -2, 5 } ) ); s += num( x[ i ] ) + ":" + num( y[ i ] ) + " "; }
	c.op( "points %s", s.c_str() ); c.state( s );
	auto least = [&]( const xo::linear_function< double >& f, const char* what )
	{
		// the residuals of the best line sum to zero, also when weighted by x
		double r = 0, rx = 0; for ( int i = 0; i < n; ++i ) { double e = y[ i ] - f( x[ i ] ); r += e; rx += e * x[ i ]; }
		near( c, r, 0, 1e-9, what ); near( c, rx, 0, 1e-9, what );
	};
	least( xo::linear_regression( x, y ), "least squares" ); least( xo::linear_regression( x.begin(), x.end(), y.begin(), y.end() ), "least squares of ranges" );
	if ( even )
	{
		least( xo::linear_regression( y, x0, step ), "least squares of evenly spaced values" );
		vector< double > sl; for ( int i = 0; i + 1 < n; ++i ) sl.push_back( ( y[ i + 1 ] - y[ i ] ) / step );
		auto m = xo::linear_median_regression( y, x0, step ); near( c, m.slope(), ref_median( sl ), 1e-12, "median slope" ); near( c, m( x0 + step * ( n - 1 ) / 2 ), ref_median( y ), 1e-12, "median line passes through the median" );
	}
	vector< double > sl; for ( int i = 0; i < n; ++i ) { vector< double > q; for ( int j = 0; j < n; ++j ) if ( j != i ) q.push_back( ( y[ j ] - y[ i ] ) / ( x[ j ] - x[ i ] ) ); sl.push_back( ref_median( q ) ); }
	double slope = ref_median( sl ); vector< double > in; for ( int i = 0; i < n; ++i ) in.push_back( y[ i ] - slope * x[ i ] );
	auto r = xo::repeated_median_regression( x.begin(), x.end(), y.begin(), y.end() ); near( c, r.slope(), slope, 1e-12, "repeated median slope" ); near( c, r.offset(), ref_median( in ), 1e-12, "repeated median offset" );
}
MC_SUITE( "bounds" )
{
	double a = c.pick< double >( { -2, 0, 0.5, 3 } ), b = c.pick< double >( { -2, 0, 0.5, 3 } ); if ( b < a ) throw mc::prune();
	c.op( "bounds %g %g", a, b ); c.state( num( a ) + ".." + num( b ) );
	xo::boundsd r( a, b ); xo::boundsf rf( r );
	near( c, r.length(), b - a, 0, "length" ); near( c, r.center(), ( a + b ) / 2, 0, "center" ); c.eq( r.is_null(), a == 0 && b == 0, "is_null" );
	auto inv = -r; near( c, inv.lower, -b, 0, "negated" ); near( c, inv.upper, -a, 0, "negated" );
	xo::boundsd t; c.check( from_str( to_str( r ), t ), "text of bounds" ); near( c, t.lower, a, 0, "lower from text" ); near( c, t.upper, b, 0, "upper from text" );
	xo::prop_node pn; pn.add_child( "min" ).set( a ); pn.add_child( "max" ).set( b ); auto q = pn.get< xo::boundsd >(); near( c, q.lower, a, 0, "lower from tree" ); near( c, q.upper, b, 0, "upper from tree" );
	for ( double v = -4; v <= 5; v += 0.25 )
	{
		bool in = v >= a && v <= b; double cl = v < a ? a : v > b ? b : v, w = v;
		c.eq( r.is_within( v ), in, "is_within" ); near( c, r.clamped( v ), cl, 0, "clamped" ); r.clamp( w ); near( c, w, cl, 0, "clamp" ); near( c, r.get_violation( v ), v - cl, 0, "violation" );
		c.eq( r.check( v ).first, in, "check" ); near( c, r.check( v ).second, v - cl, 0, "check" ); c.eq( rf.is_within( float( v ) ), in, "is_within" );
		auto e = r; e.extend( v ); near( c, e.lower, std::min( a, v ), 0, "extended" ); near( c, e.upper, std::max( b, v ), 0, "extended" );
		if ( b > a )
		{
			double s = r.soft_clamped( v, 0.1 ), m = 0.1 * ( b - a ); c.check( s >= a && s <= b, "soft clamped value is out of bounds" ); if ( v >= a + m && v <= b - m ) near( c, s, v, 1e-12, "soft clamp in the middle" );
			double next = r.soft_clamped( v + 1e-6, 0.1 ); c.check( next >= s - 1e-12 && next - s <= 1.1e-6, "soft clamp is not monotonous and continuous" ); double x = v; near( c, r.soft_clamp( x, 0.1 ), s, 0, "soft clamp in place" ); near( c, x, s, 0, "soft clamp in place" );
		}
	}
}

template< typename T > static void whole_bounds( mc::Ctx& c )
{
	using N = std::numeric_limits< T >; vector< T > d; for ( int i = -6; i <= 6; ++i ) d.push_back( T( i ) ); for ( int i = 0; i < 3; ++i ) { d.push_back( T( N::max() - i ) ); d.push_back( T( N::lowest() + i ) ); d.push_back( T( N::max() / 2 + i ) ); d.push_back( T( N::lowest() / 2 + i ) ); }
	T a = c.pick( d ), b = c.pick( d ); if ( b < a ) throw mc::prune(); xo::bounds< T > r( a, b ); c.op( "whole number bounds %s %s", mc::show( a ).c_str(), mc::show( b ).c_str() ); c.state( mc::show( a ) + ".." + mc::show( b ) );
	__int128 A = a, B = b, m = r.center(); c.check( m >= A && m <= B && 2 * m - A - B <= 1 && 2 * m - A - B >= -1, "center" ); if ( B - A <= N::max() ) c.eq( r.length(), T( B - A ), "length" ); c.eq( r.is_null(), a == 0 && b == 0, "is_null" ); if ( -A <= N::max() ) { auto n = -r; c.check( n.lower == T( -B ) && n.upper == T( -A ), "negated bounds" ); }
	if constexpr ( sizeof( T ) >= 4 ) { xo::bounds< T > t; c.check( from_str( to_str( r ), t ) && t.lower == a && t.upper == b, "text of bounds" ); }
	for ( T v : d ) { T cl = std::max( a, std::min( b, v ) ), w = v; __int128 vi = __int128( v ) - cl; c.eq( r.is_within( v ), v == cl, "is_within" ); c.eq( r.clamped( v ), cl, "clamped" ); c.check( &r.clamp( w ) == &w && w == cl, "clamp" ); if ( vi >= N::lowest() && vi <= N::max() ) { c.eq( r.get_violation( v ), T( vi ), "violation" ); c.check( r.check( v ).first == ( vi == 0 ) && r.check( v ).second == T( vi ), "check" ); } auto e = r; e.extend( v ); c.check( e.lower == std::min( a, v ) && e.upper == std::max( b, v ), "extended" ); e = r; e.extend( xo::bounds< T >( v, v ) ); c.check( e.lower == std::min( a, v ) && e.upper == std::max( b, v ), "extended with bounds" ); }
	c.check( xo::bounds< T >::infinite().is_within( a ) && xo::bounds< T >::positive().is_within( a ) == ( a >= 0 ) && xo::bounds< T >::negative().is_within( a ) == ( a <= 0 ), "standard bounds" );
}
MC_SUITE( "whole number bounds" ) { switch ( c.choose( 3 ) ) { case 0: whole_bounds< int >( c ); break; case 1: whole_bounds< long long >( c ); break; case 2: whole_bounds< short >( c ); break; } }

// ---- larger sizes -----------------------------------------------------------------------------------------------------
static const vector< int > large = { 5, 8, 9, 16, 17, 31, 32, 33, 63, 64, 65, 100, 128, 129, 255, 256, 257 };
static double pattern( int kind, int i ) { return kind == 0 ? i * 0.5 : kind == 1 ? ( i * 7 ) % 5 - 2.0 : kind == 2 ? ( i % 2 ? 3 : -1 ) : i == 4 ? 10 : 1; }
MC_SUITE( "functions of many points" )
{
	int n = c.pick( large ), order = c.choose( 4 ), kind = c.choose( 4 ); bool twice = c.flip(); c.op( "%d points, order %d, values %d%s", n, order, kind, twice ? ", all set twice" : "" ); c.state( n * 100 + order * 10 + kind * 2 + twice );
	xo::piecewise_linear_function< double > lin; xo::piecewise_constant_function< double > con; std::map< double, double > m; xo::flat_map< double, double > flat;
	auto pos = [&]( int i ) { int k = order == 0 ? i : order == 1 ? n - 1 - i : order == 2 ? ( i % 2 ? n - 1 - i / 2 : i / 2 ) : int( ( i * 101LL ) % n ); return k * 0.5 + ( k % 3 ? 0.125 : 0 ); };
	for ( int r = twice ? 0 : 1; r < 2; ++r ) for ( int i = 0; i < n; ++i ) { double x = pos( i ), y = pattern( kind, i ) + ( r ? 0 : 99 ); lin.insert_point( x, y ); con.insert_point( x, y ); m[ x ] = y; flat[ x ] = y; }
	c.eq( lin.size(), m.size(), "number of points" ); c.eq( con.size(), m.size(), "number of points" );
	size_t i = 0; for ( auto& p : m ) { c.check( lin.point( i ).first == p.first && lin.point( i ).second == p.second && con.point( i ).first == p.first && con.point( i ).second == p.second, "point " + std::to_string( i ) ); ++i; }
	for ( double q = -1; q <= n * 0.5 + 1; q += 0.0625 )
	{
		double want = ref_linear( m, q ), clamped = q <= m.begin()->first ? m.begin()->second : q >= m.rbegin()->first ? m.rbegin()->second : want; auto ub = m.upper_bound( q );
		near( c, lin( q ), want, 1e-11, "piecewise linear at " + num( q ) ); near( c, con( q ), ub == m.begin() ? ub->second : std::prev( ub )->second, 0, "piecewise constant at " + num( q ) );
		near( c, xo::lerp_map( m, q ), clamped, 1e-11, "lerp_map at " + num( q ) ); near( c, xo::lerp_map( flat, q ), clamped, 1e-11, "lerp_map of a flat_map at " + num( q ) );
	}
	vector< double > v; for ( int k = 0; k < n; ++k ) v.push_back( pattern( kind, k ) );
	for ( double q = -1; q <= n + 1; q += 0.25 )
	{
		double want = q <= 0 ? v.front() : q >= n - 1 ? v.back() : v[ (int)q ] + ( q - (int)q ) * ( v[ (int)q + 1 ] - v[ (int)q ] );
		near( c, xo::lerp_vec( v, q ), want, 1e-12, "lerp_vec at " + num( q ) ); near( c, xo::lerp_span( v.begin(), v.end(), q ), want, 1e-12, "lerp_span at " + num( q ) );
	}
}
template< size_t N > static void regular_large( mc::Ctx& c )
{
	int kind = c.choose( 4 ); double lo = c.pick< double >( { 0, -2 } ), step = c.pick< double >( { 0.5, 0.03125 } ), hi = lo + step * ( N - 1 ); c.op( "%d points from %g in steps of %g, values %d", (int)N, lo, step, kind ); c.state( string( "r" ) + std::to_string( N ) + num( lo ) + num( step ) + num( kind ) );
	std::map< double, double > m; for ( size_t i = 0; i < N; ++i ) m[ lo + step * i ] = pattern( kind, (int)i );
	xo::regular_piecewise_linear_function< double, N > f( lo, hi, [&]( double x ) { return pattern( kind, (int)std::lround( ( x - lo ) / step ) ); } );
	for ( double q = -2; q <= N + 1.0; q += 0.25 ) near( c, f( lo + step * q ), ref_linear( m, lo + step * q ), 1e-10, "regular function at " + num( lo + step * q ) );
}
MC_SUITE( "regular functions of many points" ) { switch ( c.choose( 5 ) ) { case 0: regular_large< 16 >( c ); break; case 1: regular_large< 17 >( c ); break; case 2: regular_large< 64 >( c ); break; case 3: regular_large< 129 >( c ); break; case 4: regular_large< 257 >( c ); break; } }
// arguments far outside of the points
MC_SUITE( "far arguments" )
{
	int n = 1 + c.choose( 5 ), kind = c.choose( 4 ), e = c.choose( 40 ); bool neg = c.flip(); double off = c.pick< double >( { 0, 0.5, -1, 1 } ), x = ( neg ? -1 : 1 ) * ( std::ldexp( 1.0, 2 * e ) + off ); c.op( "%d points, values %d, at %g", n, kind, x ); c.state( num( n * 10 + kind ) + " " + num( e ) + num( off ) + ( neg ? "-" : "" ) );
	vector< double > v; std::map< double, double > m; xo::piecewise_linear_function< double > lin; xo::piecewise_constant_function< double > con; for ( int i = 0; i < n; ++i ) { v.push_back( pattern( kind, i ) ); m[ i ] = v.back(); lin.insert_point( i, v.back() ); con.insert_point( i, v.back() ); }
	double end = x <= 0 ? v.front() : x >= n - 1 ? v.back() : ref_linear( m, x ), inf = neg ? -INFINITY : INFINITY, iend = neg ? v.front() : v.back();
	near( c, xo::lerp_vec( v, x ), end, 1e-12, "lerp_vec" ); if ( x >= n - 1 || x <= 0 ) { near( c, xo::lerp_vec( v, float( x ) ), end, 1e-6, "lerp_vec with a float index" ); if ( std::abs( x ) < 2e9 ) near( c, xo::lerp_vec( v, int( x ) ), int( x ) <= 0 ? v.front() : v[ std::min( int( x ), n - 1 ) ], 1e-12, "lerp_vec with an int index" ); } near( c, xo::lerp_span( v.begin(), v.end(), x ), end, 1e-12, "lerp_span" ); near( c, xo::lerp_vec( v, inf ), iend, 0, "lerp_vec at infinity" );
	near( c, xo::lerp_map( m, x ), end, 1e-12, "lerp_map" ); near( c, con( inf ), iend, 0, "piecewise constant at infinity" ); near( c, xo::lerp_map( m, inf ), iend, 0, "lerp_map at infinity" );
	if ( n >= 2 ) near( c, lin( x ) / ( 1 + std::abs( x ) ), ref_linear( m, x ) / ( 1 + std::abs( x ) ), 1e-10, "piecewise linear per unit of distance" );
	auto reg = [&]( auto f ) { std::map< double, double > r; const int k = 4; for ( int i = 0; i < k; ++i ) r[ i ] = pattern( kind, i ); near( c, f( x ) / ( 1 + std::abs( x ) ), ref_linear( r, x ) / ( 1 + std::abs( x ) ), 1e-10, "regular function per unit of distance" ); };
	reg( xo::regular_piecewise_linear_function< double, 4 >( 0, 3, [&]( double p ) { return pattern( kind, (int)std::lround( p ) ); } ) );
}
MC_SUITE( "long histories of delays and filters" )
{
	int kind = c.choose( 4 ), l = c.pick( { 40, 300 } ); c.op( "%d samples, values %d", l, kind ); auto gen = [=]( int i ) { return pattern( kind, i ) - 1; };
	switch ( c.choose( 9 ) )
	{
	case 0: delay< xo::delayer< double, 2 >, 2 >( c, false, l, gen ); break;
	case 1: delay< xo::delayer< double, 5 >, 5 >( c, false, l, gen ); break;
	case 2: delay< xo::delayer< double, 16 >, 16 >( c, false, l, gen ); break;
	case 3: delay< xo::delayer< double, 33 >, 33 >( c, false, l, gen ); break;
	case 4: delay< xo::smooth_delayer< double, 3 >, 3 >( c, true, l, gen ); break;
	case 5: delay< xo::smooth_delayer< double, 8 >, 8 >( c, true, l, gen ); break;
	case 6: delay< xo::smooth_delayer< double, 17 >, 17 >( c, true, l, gen ); break;
	case 7: filters< 2 >( c, l, gen ); break;
	case 8: filters< 3 >( c, l, gen ); break;
	}
}
MC_SUITE( "regression of many points" )
{
	int n = c.pick( { 7, 8, 16, 17, 33, 64, 65, 129 } ), kind = c.choose( 4 ), order = c.choose( 3 ); double x0 = c.pick< double >( { 0, -3 } ), step = c.pick< double >( { 1, 0.5 } ); bool even = c.flip();
	vector< double > x, y; for ( int i = 0; i < n; ++i ) { int k = order == 0 ? i : order == 1 ? n - 1 - i : int( ( i * 101LL ) % n ); x.push_back( x0 + step * ( even ? i : k + ( k % 3 ) * 0.25 ) ); y.push_back( pattern( kind, i ) ); }
	if ( even && order ) throw mc::prune();
	c.op( "%d points%s, order %d, values %d, from %g in steps of %g", n, even ? ", evenly spaced" : "", order, kind, x0, step ); c.state( num( n ) + num( kind ) + num( order ) + num( x0 ) + num( step ) + num( even ) );
	auto least = [&]( const xo::linear_function< double >& f, const char* what ) { double r = 0, rx = 0; for ( int i = 0; i < n; ++i ) { double e = y[ i ] - f( x[ i ] ); r += e; rx += e * x[ i ]; } near( c, r / n, 0, 1e-8, what ); near( c, rx / n / n, 0, 1e-8, what ); };
	least( xo::linear_regression( x, y ), "least squares" ); least( xo::linear_regression( x.begin(), x.end(), y.begin(), y.end() ), "least squares of ranges" );
	if ( even )
	{
		least( xo::linear_regression( y, x0, step ), "least squares of evenly spaced values" );
		vector< double > sl; for ( int i = 0; i + 1 < n; ++i ) sl.push_back( ( y[ i + 1 ] - y[ i ] ) / step );
		auto m = xo::linear_median_regression( y, x0, step ); near( c, m.slope(), ref_median( sl ), 1e-11, "median slope" ); near( c, m( x0 + step * ( n - 1 ) / 2 ), ref_median( y ), 1e-11, "median line passes through the median" );
	}
	vector< double > sl; for ( int i = 0; i < n; ++i ) { vector< double > q; for ( int j = 0; j < n; ++j ) if ( j != i ) q.push_back( ( y[ j ] - y[ i ] ) / ( x[ j ] - x[ i ] ) ); sl.push_back( ref_median( q ) ); }
	double slope = ref_median( sl ); vector< double > in; for ( int i = 0; i < n; ++i ) in.push_back( y[ i ] - slope * x[ i ] );
	auto r = xo::repeated_median_regression( x.begin(), x.end(), y.begin(), y.end() ); near( c, r.slope(), slope, 1e-10, "repeated median slope" ); near( c, r.offset(), ref_median( in ), 1e-10, "repeated median offset" );
}
MC_SUITE( "splines of many points" )
{
	int n = c.pick( { 8, 9, 16, 17, 33, 65, 129 } ), kind = c.choose( 4 ); c.op( "%d points, values %d", n, kind ); int i = 0;
	spline< double >( c, n, [&]( string& s ) { s += "n"; return pattern( kind, i++ ); } );
}
