// C14: dynarray, dynvec, dynmat and array as values.
#include "mc.h"
#include "xo/container/dynarray.h"
#include "xo/container/array.h"
#include "xo/numerical/math.h"
#include "xo/geometry/dynvec.h"
#include "xo/geometry/dynmat.h"
#include <sstream>
#include <memory>
#include <cmath>
using std::string; using std::vector;

static long alive = 0;
struct Own { std::unique_ptr<int> p; Own( int i = 0 ) : p( new int( i ) ) { ++alive; } Own( const Own& o ) : p( new int( *o.p ) ) { ++alive; } ~Own() { --alive; } Own& operator=( const Own& o ) { *p = *o.p; return *this; } bool operator==( const Own& o ) const { return *p == *o.p; } bool operator!=( const Own& o ) const { return *p != *o.p; } };
namespace mc { inline string show( const Own& o ) { return std::to_string( *o.p ); } }
template< typename V > V mk( int i ) { return V( i ); }
template<> string mk<string>( int i ) { return i ? "a string too long for the small buffer " + std::to_string( i ) : string(); }

template< typename V > void compare( mc::Ctx& c, xo::dynarray<V>* a, const vector<V>* m, int n )
{
	if ( !c.fresh() ) return;
	for ( int i = 0; i < n; ++i )
	{
		auto& x = a[ i ]; const auto& cx = x; auto& r = m[ i ]; c.eq( x.size(), r.size(), "size" ); c.eq( cx.empty(), r.empty(), "empty" );
		for ( size_t k = 0; k < r.size(); ++k ) { c.check( x[ k ] == r[ k ], "element" ); c.check( cx[ k ] == r[ k ], "element (const)" ); c.check( x.at( k ) == r[ k ] && cx.at( k ) == r[ k ], "element with check" ); c.check( x.data()[ k ] == r[ k ] && cx.data()[ k ] == r[ k ], "data" ); }
		c.must_throw( [&] { x.at( r.size() ); }, "at past the end" ); c.must_throw( [&] { cx.at( r.size() + 3 ); }, "at past the end" ); c.must_throw( [&] { cx.at( size_t( -1 ) ); }, "at past the end" );
		size_t k = 0; for ( auto& v : x ) { c.check( k < r.size() && v == r[ k ], "iteration" ); ++k; } c.eq( k, r.size(), "iteration length" ); k = 0; for ( auto it = cx.cbegin(); it != cx.cend(); it++, ++k ) c.check( *it == r[ k ], "const iteration" ); c.eq( k, r.size(), "const iteration length" ); for ( auto it = x.end(); it != x.begin(); ) { --it; c.check( *it == r[ --k ], "backward iteration" ); } for ( auto it = x.end(); it != x.begin(); it-- ) ++k; c.eq( k, r.size(), "backward iteration length" );
		for ( int j = 0; j < n; ++j ) { c.eq( x == a[ j ], r == m[ j ], "equality" ); c.eq( x != a[ j ], r != m[ j ], "inequality" ); if ( i != j && r.size() ) c.check( x.data() != a[ j ].data(), "shared elements" ); }
	}
}
template< typename V > void histories( mc::Ctx& c, int depth )
{
	alive = 0;
	{
		using D = xo::dynarray<V>; D a[ 2 ]; vector<V> m[ 2 ]; int next = 1; compare( c, a, m, 2 );
		for ( int d = 0; d < depth; ++d )
		{
			int i = c.choose( 2 ); D& x = a[ i ]; D& y = a[ !i ]; auto& r = m[ i ]; auto& s = m[ !i ];
			switch ( c.choose( 16 ) )
			{
			case 0: { int n = c.choose( c.thorough ? 4 : 3 ); c.op( "%d.resize %d", i, n ); x.resize( n ); r.assign( n, V() ); break; }
			case 1: { int n = c.choose( c.thorough ? 4 : 3 ); V v = mk<V>( next++ ); c.op( "%d.resize %d with value", i, n ); x.resize( n, v ); r.assign( n, v ); break; }
			case 2: c.op( "%d.clear", i ); x.clear(); r.clear(); break;
			case 3: c.op( "%d = other", i ); { auto& q = ( x = y ); c.check( &q == &x, "result of assignment" ); } r = s; break;
			case 4: c.op( "%d = itself", i ); { D& z = x; x = z; } break;
			case 5: c.op( "%d = moved other", i ); { auto& q = ( x = std::move( y ) ); c.check( &q == &x, "result of assignment" ); } r = s; s.clear(); break;
			case 6: { c.op( "%d copy constructed", i ); D t( x ); c.check( t == x, "copy equal" ); if ( r.size() ) { t[ 0 ] = mk<V>( 900 ); c.check( t != x, "copy independent" ); } compare( c, a, m, 2 ); break; }
			case 7: { c.op( "%d move constructed", i ); D t( std::move( x ) ); D u[ 1 ] = { std::move( t ) }; vector<V> um[ 1 ] = { r }; c.check( t.empty() && t.size() == 0 && t.begin() == t.end(), "moved-from array is not empty" ); compare( c, u, um, 1 ); r.clear(); compare( c, a, m, 2 ); break; }
			case 8: { if ( r.empty() ) throw mc::prune(); V v = mk<V>( next++ ); c.op( "%d write last", i ); x[ r.size() - 1 ] = v; r.back() = v; break; }
			case 9: { V v = mk<V>( next++ ); c.op( "%d assign", i ); x.assign( v ); std::fill( r.begin(), r.end(), v ); break; }
			case 10: { if ( r.empty() ) throw mc::prune(); c.op( "%d assign first", i ); x.assign( V( x[ 0 ] ) ); std::fill( r.begin() + 1, r.end(), r[ 0 ] ); break; }
			case 11: { if ( r.empty() ) throw mc::prune(); c.op( "%d resize with own element", i ); V v = r.back(); x.resize( r.size() + 1, x[ r.size() - 1 ] ); r.assign( r.size() + 1, v ); if ( r.size() > 6 ) throw mc::prune(); break; }
			case 12: { int n = c.choose( c.thorough ? 4 : 3 ); V v = mk<V>( next++ ); c.op( "%d constructed %d", i, n ); x = D( n, v ); r.assign( n, v ); break; }
			case 13: c.op( "swap" ); std::swap( x, y ); std::swap( r, s ); break;
			case 14: { if ( r.empty() ) throw mc::prune(); V v = mk<V>( next++ ); c.op( "%d write first through iterator", i ); *x.begin() = v; r[ 0 ] = v; x.at( r.size() - 1 ) = v; r.back() = v; break; }
			case 15: c.op( "%d moved to itself", i ); { D& z = x; x = std::move( z ); } c.check( x.empty() || x.size() == r.size(), "self-moved array" ); if ( x.empty() ) r.clear(); break;
			}
			compare( c, a, m, 2 ); string k; for ( auto& v : m[ 0 ] ) k += mc::show( v ) + ","; k += "/"; for ( auto& v : m[ 1 ] ) k += mc::show( v ) + ","; c.state( k );
		}
	}
	c.eq( alive, 0L, "elements not destroyed exactly once" );
}
MC_SUITE( "array histories" ) { histories<int>( c, c.thorough ? 5 : 4 ); }
MC_SUITE( "array histories, owning elements" ) { histories<Own>( c, c.thorough ? 4 : 3 ); }
MC_SUITE( "array histories, strings" ) { histories<string>( c, c.thorough ? 4 : 3 ); }
MC_SUITE( "fixed arrays" )
{
	xo::array<string, 3> a; const auto& ca = a; vector<string> m( 3 ); for ( int d = 0; d < 3; ++d ) { int i = c.choose( 3 ); string v = c.pick<string>( { "", "x", "a string too long for the small buffer" } ); c.op( "%d %s", i, v.c_str() ); a[ i ] = v; m[ i ] = v; }
	c.eq( a.size(), size_t( 3 ), "size" ); int k = 0; for ( auto& v : a ) c.eq( v, m[ k++ ], "iteration" ); c.eq( k, 3, "length" ); k = 0; for ( auto& v : ca ) c.eq( v, m[ k++ ], "const iteration" ); k = 0; for ( auto i = ca.cbegin(); i != ca.cend(); ++i ) c.eq( *i, m[ k++ ], "const iteration" ); c.eq( k, 3, "length" ); for ( int i = 0; i < 3; ++i ) { c.eq( a[ i ], m[ i ], "element" ); c.eq( ca[ i ], m[ i ], "element (const)" ); } auto b = a; b[ 0 ] = "other"; c.eq( a[ 0 ], m[ 0 ], "copy is independent" ); c.state( m[ 0 ] + m[ 1 ] + m[ 2 ] );
}
// vectors ----------------------------------------------------------------------------------------------------
using DV = xo::dynvec<double>;
static DV vec( const vector<double>& m ) { DV v( m.size() ); for ( size_t i = 0; i < m.size(); ++i ) v[ i ] = m[ i ]; return v; }
static void same( mc::Ctx& c, const DV& v, const vector<double>& m, const char* what ) { c.eq( v.size(), m.size(), what ); c.eq( v.empty(), m.empty(), what ); size_t k = 0; for ( auto& e : v ) { c.eq( e, m[ k ], what ); c.eq( v[ k ], m[ k ], what ); ++k; } c.eq( k, m.size(), what ); }
static void near( mc::Ctx& c, double a, double b, const char* what ) { if ( !( std::abs( a - b ) <= 1e-12 * std::max( 1.0, std::abs( b ) ) ) ) c.eq( a, b, what ); }
template< typename F > vector<double> map( const vector<double>& a, const vector<double>& b, F f ) { vector<double> r; for ( size_t i = 0; i < a.size(); ++i ) r.push_back( f( a[ i ], b[ i ] ) ); return r; }
MC_SUITE( "vector arithmetic" )
{
	int n = c.choose( 5 ), k = c.choose( 5 ); vector<double> V = { 0, 1, -2.5 }; if ( n + k > 6 && !c.thorough ) V = { 0.5, -2 }; vector<double> a, b; for ( int i = 0; i < n; ++i ) a.push_back( c.pick( V ) ); for ( int i = 0; i < k; ++i ) b.push_back( c.pick( V ) );
	string t; for ( auto x : a ) t += mc::show( x ) + " "; t += "|"; for ( auto x : b ) t += mc::show( x ) + " "; c.op( "%s", t.c_str() ); c.state( t ); DV x = vec( a ), y = vec( b );
	if ( n != k ) { c.must_throw( [&] { x + y; }, "sum of different sizes" ); c.must_throw( [&] { x - y; }, "difference of different sizes" ); c.must_throw( [&] { x += y; }, "+= of different sizes" ); c.must_throw( [&] { x -= y; }, "-= of different sizes" ); c.must_throw( [&] { xo::dot_product( x, y ); }, "dot product of different sizes" ); c.must_throw( [&] { xo::distance( x, y ); }, "distance of different sizes" ); same( c, x, a, "failed operation changed the vector" ); same( c, y, b, "failed operation changed the operand" ); return; }
	same( c, x + y, map( a, b, []( double p, double q ) { return p + q; } ), "sum" ); same( c, x - y, map( a, b, []( double p, double q ) { return p - q; } ), "difference" ); same( c, -x, map( a, b, []( double p, double ) { return -p; } ), "negation" ); same( c, x * 2.5, map( a, b, []( double p, double ) { return p * 2.5; } ), "scaled" ); same( c, 2.5 * x, map( a, b, []( double p, double ) { return p * 2.5; } ), "scaled from the left" ); same( c, x, a, "operand" ); same( c, y, b, "operand" );
	{ DV z = x; auto& r = ( z += y ); c.check( &r == &z, "result of +=" ); same( c, z, map( a, b, []( double p, double q ) { return p + q; } ), "+=" ); } { DV z = x; z -= y; same( c, z, map( a, b, []( double p, double q ) { return p - q; } ), "-=" ); } { DV z = x; z *= -4.0; same( c, z, map( a, b, []( double p, double ) { return p * -4.0; } ), "*=" ); } { DV z = x; z += z; same( c, z, map( a, a, []( double p, double q ) { return p + q; } ), "+= itself" ); }
	{ DV z = x / 3.0; c.eq( z.size(), x.size(), "quotient size" ); for ( int i = 0; i < n; ++i ) near( c, z[ i ], a[ i ] / 3.0, "quotient" ); z = x; z /= 4.0; same( c, z, map( a, b, []( double p, double ) { return p / 4.0; } ), "/=" ); }
	double sq = 0, dot = 0, dist = 0; bool null = true; for ( int i = 0; i < n; ++i ) { sq += a[ i ] * a[ i ]; dot += a[ i ] * b[ i ]; dist += ( a[ i ] - b[ i ] ) * ( a[ i ] - b[ i ] ); null &= a[ i ] == 0; }
	near( c, x.squared_length(), sq, "squared length" ); near( c, x.length(), std::sqrt( sq ), "length" ); near( c, xo::dot_product( x, y ), dot, "dot product" ); near( c, xo::distance( x, y ), std::sqrt( dist ), "distance" ); c.eq( x.is_null(), null, "null vector" ); c.eq( x == y, a == b, "equal" ); c.eq( x != y, a != b, "different" );
	{ DV u = xo::normalized( x ); same( c, x, a, "operand" ); DV z = x; near( c, xo::normalize( z ), std::sqrt( sq ), "length returned" ); c.check( z == u, "normalize and normalized" ); if ( null ) same( c, z, a, "normalized null vector" ); else { near( c, z.length(), 1, "length of normalized" ); c.check( xo::is_normalized( z ) != 0, "is normalized" ); for ( int i = 0; i < n; ++i ) near( c, z[ i ], a[ i ] / std::sqrt( sq ), "normalized" ); } }
	{ std::ostringstream o; o.precision( 17 ); o << x; std::istringstream i( o.str() ); DV z( n, 77.0 ); i >> z; same( c, z, a, "text round trip" ); c.eq( bool( i.fail() ), false, "text complete" ); }
	{ DV z; z = x; if ( n ) { z[ 0 ] = 50; c.eq( x[ 0 ], a[ 0 ], "copy is independent" ); } DV w( std::move( z ) ); c.check( z.empty() && z.size() == 0, "moved-from vector is empty" ); c.eq( w.size(), size_t( n ), "moved size" ); z = std::move( w ); c.check( w.empty(), "moved-from vector is empty" ); DV& zz = z; z = zz; c.eq( z.size(), size_t( n ), "self assignment" ); if ( n > 1 ) c.eq( z[ 1 ], a[ 1 ], "self assignment" ); z.resize( k + 1, 3.0 ); same( c, z, vector<double>( k + 1, 3.0 ), "resized" ); w.resize( 2 ); same( c, w, { 0, 0 }, "moved-from vector can be used" ); same( c, DV( n, 2.0 ), vector<double>( n, 2.0 ), "filled vector" ); }
}
// matrices ---------------------------------------------------------------------------------------------------
using DM = xo::dynmat<double>; struct MM { size_t cols = 0, rows = 0; vector<vector<double>> v; MM( size_t cc = 0, size_t r = 0, double x = 0 ) : cols( cc ), rows( r ), v( r, vector<double>( cc, x ) ) {} };
static void same( mc::Ctx& c, DM& m, const MM& r ) { if ( !c.fresh() ) return; const DM& cm = m; bool empty = r.cols * r.rows == 0; c.eq( m.empty(), empty, "empty" ); c.eq( m.rows(), empty ? 0 : r.rows, "rows" ); if ( !empty ) c.eq( m.cols(), r.cols, "columns" ); size_t n = 0; if ( !empty ) for ( size_t y = 0; y < r.rows; ++y ) for ( size_t x = 0; x < r.cols; ++x ) { c.eq( m( x, y ), r.v[ y ][ x ], "cell" ); c.eq( cm( x, y ), r.v[ y ][ x ], "cell (const)" ); ++n; } size_t k = 0; for ( auto& e : m ) { c.eq( e, r.v[ k / r.cols ][ k % r.cols ], "iteration" ); ++k; } c.eq( k, n, "iteration length" ); k = 0; for ( auto i = cm.cbegin(); i != cm.cend(); ++i ) ++k; for ( auto& e : cm ) { (void)e; ++k; } c.eq( k, 2 * n, "const iteration length" ); }
MC_SUITE( "matrix histories" )
{
	DM m; MM r; same( c, m, r ); int next = 1; int depth = c.thorough ? 5 : 4;
	for ( int d = 0; d < depth; ++d )
	{
		switch ( c.choose( 7 ) )
		{
		case 0: { int x = c.choose( c.thorough ? 4 : 3 ), y = c.choose( c.thorough ? 4 : 3 ); c.op( "construct %d x %d", x, y ); double v = c.flip() ? next++ : 0; m = v ? DM( x, y, v ) : DM( x, y ); r = MM( x, y, v ); break; }
		case 1: { int x = c.choose( c.thorough ? 4 : 3 ), y = c.choose( 4 ); c.op( "resize %d x %d", x, y ); m.resize( x, y ); MM q( x, y ); if ( r.cols * r.rows ) for ( size_t j = 0; j < std::min( q.rows, r.rows ); ++j ) for ( size_t i = 0; i < std::min( q.cols, r.cols ); ++i ) q.v[ j ][ i ] = r.v[ j ][ i ]; r = q; break; }
		case 2: { if ( r.rows * r.cols == 0 ) throw mc::prune(); int x = c.choose( int( r.cols ) ), y = c.choose( int( r.rows ) ); c.op( "write %d %d", x, y ); m( x, y ) = next; r.v[ y ][ x ] = next++; break; }
		case 3: c.op( "clear" ); m.clear(); r = MM(); c.eq( m.cols(), size_t( 0 ), "columns after clear" ); break;
		case 4: { c.op( "copy, change copy" ); DM n = m; if ( r.rows * r.cols ) n( 0, 0 ) = 99; same( c, m, r ); DM& mm = m; m = mm; break; }
		case 5: { c.op( "move away and back" ); DM n( std::move( m ) ); c.check( m.empty() && m.rows() == 0, "moved-from matrix is empty" ); if ( c.flip() ) { m.resize( 2, 1 ); MM q( 2, 1 ); same( c, m, q ); } m = std::move( n ); break; }
		case 6: { if ( r.rows * r.cols == 0 ) throw mc::prune(); c.op( "fill through iterators" ); for ( auto& e : m ) e = next; for ( auto& row : r.v ) for ( auto& e : row ) e = next; ++next; break; }
		}
		same( c, m, r ); string k = std::to_string( r.cols ) + "x" + std::to_string( r.rows ) + ":"; for ( auto& row : r.v ) for ( auto e : row ) k += mc::show( e ) + " "; c.state( k );
	}
}
MC_SUITE( "matrix times vector" )
{
	int x = 1 + c.choose( 3 ), y = 1 + c.choose( 3 ), n = c.choose( 5 ); if ( n != x && c.choose( 1 ) ) return; vector<double> V = { 0, 1, -2 }; if ( x * y > 4 && !c.thorough ) V = { 1, -2 }; DM m( x, y ); vector<vector<double>> r( y, vector<double>( x ) ); vector<double> v; string t;
	if ( n != x ) { DV z( n, 1.0 ); c.op( "%d x %d times %d", x, y, n ); c.must_throw( [&] { m * z; }, "product of different sizes" ); return; }
	for ( int j = 0; j < y; ++j ) for ( int i = 0; i < x; ++i ) { m( i, j ) = r[ j ][ i ] = c.pick( V ); t += mc::show( m( i, j ) ) + " "; } for ( int i = 0; i < x; ++i ) { v.push_back( i + 2 ); } if ( c.flip() ) v[ 0 ] = 0; t += "| " + mc::show( v[ 0 ] ) + " " + std::to_string( x ); c.op( "%s", t.c_str() ); c.state( t );
	DV z = m * vec( v ); vector<double> want; for ( int j = 0; j < y; ++j ) { double s = 0; for ( int i = 0; i < x; ++i ) s += r[ j ][ i ] * v[ i ]; want.push_back( s ); } same( c, z, want, "product" );
}
// larger sizes -----------------------------------------------------------------------------------------------
template< typename V > void larger( mc::Ctx& c )
{
	static const vector<int> N = { 0, 1, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 255, 256, 257, 1000, 1025 }; int n = c.pick( N ), k = c.pick( N ), diff = c.choose( 4 ); alive = 0; c.op( "%d and %d elements, change %d", n, k, diff ); c.state( ( n * 2000 + k ) * 4 + diff );
	{
		xo::dynarray<V> a[ 3 ]; vector<V> m[ 3 ]; a[ 0 ] = xo::dynarray<V>( n ); m[ 0 ].resize( n ); for ( int i = 0; i < n; ++i ) a[ 0 ][ i ] = m[ 0 ][ i ] = mk<V>( 1 + i % 300 );
		a[ 1 ] = a[ 0 ]; m[ 1 ] = m[ 0 ]; a[ 2 ].resize( k, mk<V>( 3 ) ); m[ 2 ].assign( k, mk<V>( 3 ) ); compare( c, a, m, 3 );
		if ( n && diff ) { int at = diff == 1 ? 0 : diff == 2 ? n / 2 : n - 1; a[ 1 ][ at ] = mk<V>( 777 ); m[ 1 ][ at ] = mk<V>( 777 ); compare( c, a, m, 3 ); }
		a[ 2 ] = a[ 1 ]; m[ 2 ] = m[ 1 ]; compare( c, a, m, 3 ); a[ 1 ].resize( k, mk<V>( 2 ) ); m[ 1 ].assign( k, mk<V>( 2 ) ); a[ 0 ] = std::move( a[ 2 ] ); m[ 0 ] = m[ 2 ]; m[ 2 ].clear(); compare( c, a, m, 3 ); a[ 1 ].assign( mk<V>( 8 ) ); m[ 1 ].assign( k, mk<V>( 8 ) ); a[ 0 ].clear(); m[ 0 ].clear(); compare( c, a, m, 3 );
	}
	c.eq( alive, 0L, "elements not destroyed exactly once" );
}
MC_SUITE( "larger arrays" ) { switch ( c.choose( 3 ) ) { case 0: larger<int>( c ); break; case 1: larger<Own>( c ); break; case 2: larger<string>( c ); break; } }
MC_SUITE( "larger vectors and matrices" )
{
	static const vector<int> N = { 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 129 }; int x = c.pick( N ), y = c.pick( N ), hot = c.choose( 4 ); c.op( "%d x %d, %d", x, y, hot ); c.state( ( x * 1000 + y ) * 4 + hot );
	DM m( x, y, 0.5 ); MM r( x, y, 0.5 ); same( c, m, r ); for ( int j = 0; j < y; ++j ) for ( int i = 0; i < x; ++i ) m( i, j ) = r.v[ j ][ i ] = ( i * 7 + j * 3 ) % 11 - 5; same( c, m, r );
	vector<double> v( x ), w; for ( int i = 0; i < x; ++i ) v[ i ] = hot == 0 ? i - 2 : hot == 1 ? i == 0 : hot == 2 ? i == x - 1 : i % 2 * 0.25; for ( int j = 0; j < y; ++j ) { double s = 0; for ( int i = 0; i < x; ++i ) s += r.v[ j ][ i ] * v[ i ]; w.push_back( s ); } DV p = vec( v ); same( c, m * p, w, "product" );
	double sq = 0, dot = 0; vector<double> u( x ); for ( int i = 0; i < x; ++i ) { u[ i ] = i % 3 - 1; sq += v[ i ] * v[ i ]; dot += u[ i ] * v[ i ]; } DV q = vec( u ); near( c, p.squared_length(), sq, "squared length" ); near( c, p.length(), std::sqrt( sq ), "length" ); near( c, xo::dot_product( p, q ), dot, "dot product" ); c.eq( p.is_null(), sq == 0, "null vector" );
	same( c, p + q, map( v, u, []( double a, double b ) { return a + b; } ), "sum" ); same( c, p - q, map( v, u, []( double a, double b ) { return a - b; } ), "difference" ); c.eq( p == q, v == u, "equal" ); { DV z = p; z[ x - 1 ] += 1; c.check( z != p && !( z == p ), "differs in the last element" ); }
	{ std::ostringstream o; o.precision( 17 ); o << p; std::istringstream i( o.str() ); DV z( x, 77.0 ); i >> z; same( c, z, v, "text round trip" ); }
	DM n = m; n( x - 1, y - 1 ) = 50; same( c, m, r ); MM g( x + 3, y + 2 ); for ( int j = 0; j < y; ++j ) for ( int i = 0; i < x; ++i ) g.v[ j ][ i ] = r.v[ j ][ i ]; DM big = m; big.resize( x + 3, y + 2 ); same( c, big, g ); MM h( x / 2, y - 1 ); for ( int j = 0; j < y - 1; ++j ) for ( int i = 0; i < x / 2; ++i ) h.v[ j ][ i ] = r.v[ j ][ i ]; m.resize( x / 2, y - 1 ); same( c, m, h );
}
