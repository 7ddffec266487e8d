// C30: ranges, views and container algorithms visit exactly the elements of their definition.
#include "mc.h"
#include <cmath>
#include <algorithm>
#include <deque>
#include <list>
#include <map>
#include <set>
#include <string>
#include <vector>
#include "xo/utility/irange.h"
#include "xo/utility/frange.h"
#include "xo/container/view_if.h"
#include "xo/container/zip.h"
#include "xo/container/container_tools.h"
#include "xo/container/container_algorithms.h"
#include "xo/numerical/function_tools.h"
#include "xo/utility/data_algorithms.h"
#include "xo/utility/pointer_iterator.h"
using std::string; using std::vector;

static string num( double v ) { char b[ 40 ]; snprintf( b, 40, "%.9g", v ); return b; }
template< typename C > static string text( const C& v ) { string s; for ( auto& x : v ) s += num( x ) + " "; return s; }
static void near( mc::Ctx& c, double got, double want, const char* what, double eps = 1e-12 ) { ++c.checks; if ( !( std::abs( got - want ) <= eps * ( 1 + std::abs( want ) ) ) ) c.fail( string( what ) + ": got " + num( got ) + ", expected " + num( want ) ); }
/// visits at most a hundred elements
template< typename R > static auto visit( mc::Ctx& c, const R& r, size_t limit = 100 )
{
	vector< std::decay_t< decltype( *r.begin() ) > > v, w;
	for ( auto x : r ) { v.push_back( x ); if ( v.size() > limit ) c.fail( "the range does not end: " + text( v ) ); }
	auto it = r.begin(); auto e = r.end();
	while ( !( it == e ) ) { w.push_back( *it ); it++; if ( w.size() > limit ) c.fail( "the range does not end" ); }
	c.check( v == w, "stepping with the other increment operator visits something else" );
	return v;
}
template< typename T > static void iranges( mc::Ctx& c, int lo, int hi )
{
	T b = T( lo + c.choose( hi - lo + 1 ) ), e = T( lo + c.choose( hi - lo + 1 ) ); int kind = c.choose( 3 );
	T s = T( 1 );
	if ( kind ) { int m = std::is_signed_v< T > ? 4 : 0; int k = c.choose( 5 + m ) - m; s = T( k ); c.op( "from %g to %g in steps of %g", double( b ), double( e ), double( s ) ); }
	else c.op( "from %g to %g", double( b ), double( e ) );
	vector< T > want;
	if ( s == 0 )
	{
		c.must_throw( [&] { xo::irange_step< T > r( b, e, s ); visit( c, r ); }, "a step of zero" );
		return;
	}
	for ( long long v = (long long)b; s > 0 ? v < (long long)e : v > (long long)e; v += (long long)s ) want.push_back( T( v ) );
	vector< T > got;
	if ( kind == 0 ) { xo::irange< T > r( b, e ); got = visit( c, r ); if ( e >= b ) c.eq( (long long)( r.end() - r.begin() ), (long long)want.size(), "distance of the ends" ); if ( b == T( 0 ) ) c.check( visit( c, xo::irange< T >( e ) ) == want, "range from zero" ); }
	else if ( kind == 1 ) { xo::irange_step< T > r( b, e, s ); got = visit( c, r ); c.eq( (long long)( r.end() - r.begin() ), (long long)want.size(), "distance of the ends" ); }
	else { xo::irange_step< T > r( xo::irange< T >( b, e ), s ); got = visit( c, r ); }
	c.eq( text( got ), text( want ), "visited numbers" ); c.state( text( want ) );
}
MC_SUITE( "integer ranges" ) { iranges< int >( c, -6, 8 ); }
MC_SUITE( "unsigned ranges" ) { if ( c.flip() ) iranges< size_t >( c, 0, 9 ); else iranges< unsigned >( c, 0, 9 ); }
MC_SUITE( "whole number ranges" ) { if ( c.flip() ) iranges< float >( c, -4, 5 ); else iranges< double >( c, -4, 5 ); }
// ranges whose length does not fit in the type of their elements
template< typename T > static void wide_ranges( mc::Ctx& c )
{
	using N = std::numeric_limits< T >; __int128 lo = N::lowest(), hi = N::max(); auto at = [&]( int k, int o ) { return lo + ( hi - lo ) / 8 * k + ( k == 8 ? ( hi - lo ) % 8 : 0 ) + o; };
	int kb = c.choose( 9 ), ob = c.choose( 3 ) - 1, ke = c.choose( 9 ), oe = c.choose( 3 ) - 1, ks = 1 + c.choose( 8 ), os = c.choose( 3 ) - 1; bool down = c.flip(); __int128 b = at( kb, ob ), e = at( ke, oe ), s = ( hi - lo ) / 16 * ks + os; if ( down ) s = -s;
	if ( b < lo || b > hi || e < lo || e > hi || s < lo || s > hi ) throw mc::prune();
	vector< T > want; __int128 v = b; for ( ; s > 0 ? v < e : v > e; v += s ) want.push_back( T( v ) ); if ( v < lo || v > hi ) throw mc::prune();
	c.op( "from %s to %s in steps of %s", mc::show( T( b ) ).c_str(), mc::show( T( e ) ).c_str(), mc::show( T( s ) ).c_str() ); c.state( mc::show( T( b ) ) + " " + mc::show( T( e ) ) + " " + mc::show( T( s ) ) );
	c.check( visit( c, xo::irange_step< T >( T( b ), T( e ), T( s ) ) ) == want, "numbers of a wide range" ); if ( s > 0 ) c.check( visit( c, xo::make_irange( T( b ), T( e ), T( s ) ) ) == want, "numbers of a made wide range" ); c.check( visit( c, xo::make_irange( xo::irange< T >( T( b ), T( e ) ), T( s ) ) ) == want, "numbers of a wide range with a step" );
}
MC_SUITE( "wide ranges" ) { switch ( c.choose( 6 ) ) { case 0: wide_ranges< int >( c ); break; case 1: wide_ranges< long long >( c ); break; case 2: wide_ranges< unsigned >( c ); break; case 3: wide_ranges< size_t >( c ); break; case 4: wide_ranges< short >( c ); break; case 5: wide_ranges< unsigned short >( c ); break; } }
MC_SUITE( "made ranges" )
{
	int b = c.choose( 10 ) - 4, e = c.choose( 10 ) - 4, s = c.choose( 3 ) + 1; c.op( "%d %d %d", b, e, s ); c.state( b * 1000 + e * 10 + s );
	vector< int > one, step; for ( int i = b; i < e; ++i ) one.push_back( i ); for ( int i = b; i < e; i += s ) step.push_back( i );
	c.check( visit( c, xo::make_irange( b, e ) ) == one, "make_irange" ); c.check( visit( c, xo::make_irange( b, e, s ) ) == step, "make_irange with step" ); c.check( visit( c, xo::make_irange( xo::make_irange( b, e ), s ) ) == step, "make_irange of a range" );
	if ( b == 0 ) c.check( visit( c, xo::make_irange( e ) ) == one, "make_irange from zero" );
	vector< char > v( b + 4 ); vector< size_t > idx; for ( size_t i = 0; i < v.size(); ++i ) idx.push_back( i ); c.check( visit( c, xo::size_range( v ) ) == idx, "size_range" );
	c.must_throw( [&] { visit( c, xo::irange< double >( 0.5, 3 ) ); }, "a fractional bound" );
	// numbers that end at the largest one
	vector< unsigned char > big; for ( int i = 250 - b; i < 255; ++i ) big.push_back( i ); c.check( visit( c, xo::irange< unsigned char >( 250 - b, 255 ) ) == big, "range up to the largest number" );
}
template< typename T > static void franges( mc::Ctx& c )
{
	T lo = c.pick< T >( { 0, -1, T( 0.1 ) } ); int n = c.choose( 12 ); T inc = c.pick< T >( { 1, T( 0.1 ), T( 0.25 ), T( 1 ) / 3, -T( 0.5 ) } ); int kind = c.choose( 4 );
	T hi = lo + n * inc; bool by_steps = kind >= 2;
	c.op( "%d elements from %g to %g by %s", n, double( lo ), double( hi ), by_steps ? "number" : "increment" );
	vector< T > want;
	int count = by_steps ? n : n + 1; // by number: n elements of which the last is hi
	for ( int i = 0; i < count; ++i ) want.push_back( count == 1 ? lo : lo + i * ( hi - lo ) / ( count - 1 ) );
	xo::frange< T > r = kind == 0 ? xo::frange< T >( lo, hi, inc ) : kind == 1 ? xo::frange< T >( xo::bounds< T >( lo, hi ), inc ) : kind == 2 ? xo::frange< T >( lo, hi, n ) : xo::frange< T >( xo::bounds< T >( lo, hi ), n );
	auto got = visit( c, r );
	c.eq( got.size(), want.size(), "number of elements" ); c.eq( r.size(), want.size(), "size" );
	for ( size_t i = 0; i < want.size(); ++i ) near( c, got[ i ], want[ i ], "element", sizeof( T ) == 4 ? 1e-6 : 1e-12 );
	if ( want.size() > 1 ) { c.check( got.front() == lo, "the range starts elsewhere" ); near( c, got.back(), hi, "last element", sizeof( T ) == 4 ? 1e-6 : 1e-12 ); }
	auto f = xo::evaluate_function< T >( []( T x ) { return x * x; }, r ); c.eq( f.size(), want.size(), "function values" ); for ( size_t i = 0; i < want.size(); ++i ) near( c, f[ i ], got[ i ] * got[ i ], "function value" );
	if ( n > 0 && !by_steps ) c.eq( visit( c, xo::frange< T >( hi, lo, inc ) ).size(), size_t( n == 0 ), "elements of a reversed range" );
	c.state( text( want ) );
}
MC_SUITE( "floating point ranges" ) { if ( c.flip() ) franges< float >( c ); else franges< double >( c ); }

// ---- containers: all contents up to a length over a small alphabet -------------------------------------------------------

static vector< int > content( mc::Ctx& c, int maxlen, int values = 3, int longest = 257 ) { vector< int > v; if ( c.flip() ) { for ( char x : c.longer( string( "012345" ).substr( 0, values ), longest ) ) v.push_back( x - '0' ); } else { int n = c.choose( maxlen + 1 ); for ( int i = 0; i < n; ++i ) v.push_back( c.choose( values ) ); } c.op( "content %s", text( v ).c_str() ); c.state( text( v ) ); return v; }

template< typename C > static void searches( mc::Ctx& c, const vector< int >& v )
{
	C a( v.begin(), v.end() ); const C& k = a; size_t n = v.size();
	for ( int e = -1; e <= 3; ++e )
	{
		size_t first = std::find( v.begin(), v.end(), e ) - v.begin(), cnt = std::count( v.begin(), v.end(), e );
		c.eq( size_t( std::distance( a.begin(), xo::find( a, e ) ) ), first, "find" ); c.eq( size_t( std::distance( k.begin(), xo::find( k, e ) ) ), first, "find" );
		auto p = [e]( int x ) { return x == e; };
		c.eq( size_t( std::distance( a.begin(), xo::find_if( a, p ) ) ), first, "find_if" ); c.eq( size_t( std::distance( k.begin(), xo::find_if( k, p ) ) ), first, "find_if" );
		c.eq( xo::count( k, e ), cnt, "count" ); c.eq( xo::count_if( k, p ), cnt, "count_if" );
		c.eq( xo::any_of( k, p ), cnt > 0, "any_of" ); c.eq( xo::none_of( k, p ), cnt == 0, "none_of" ); c.eq( xo::contains( k, e ), cnt > 0, "contains" ); c.eq( xo::contains_if( k, p ), cnt > 0, "contains_if" );
		if ( cnt ) { c.check( &xo::find_ref_if( a, p ) == &*std::next( a.begin(), first ) && &xo::find_ref_if( k, p ) == &*std::next( k.begin(), first ), "find_ref_if" ); xo::find_ref_if( a, p ) = e; }
		else { c.must_throw( [&] { xo::find_ref_if( a, p ); }, "find_ref_if of nothing" ); c.must_throw( [&] { xo::find_ref_if( k, p ); }, "find_ref_if of nothing" ); }
		if constexpr ( !std::is_same_v< C, std::list< int > > )
			for ( size_t from = 0; from <= n + 1; ++from )
			{
				size_t w = from; while ( w < n && v[ w ] != e ) ++w; if ( w >= n ) w = xo::no_index;
				c.eq( xo::find_index( k, e, from ), w, "find_index" ); if ( from == 0 ) { c.eq( xo::find_index( k, e ), w, "find_index from the start" ); c.eq( xo::find_index_if( k, p ), w, "find_index_if from the start" ); } c.eq( xo::find_index_if( k, p, from ), w, "find_index_if" );
			}
	}
	vector< int > seen; xo::for_each( k, [&]( int x ) { seen.push_back( x ); } ); c.check( seen == v, "for_each" ); xo::for_each( a, []( int& x ) { x += 10; } ); size_t i = 0; for ( int x : a ) c.eq( x, v[ i++ ] + 10, "for_each with changes" );
	c.eq( xo::back_index( k ), n ? n - 1 : xo::no_index, "back_index" );
}
MC_SUITE( "searching" ) { auto v = content( c, c.thorough ? 8 : 7 ); searches< vector< int > >( c, v ); searches< std::deque< int > >( c, v ); searches< std::list< int > >( c, v ); for ( auto& e : v ) c.eq( xo::index_of( e, v ), size_t( &e - v.data() ), "index_of" ); }
MC_SUITE( "copying" )
{
	auto v = content( c, 5 ); int room = c.choose( 7 ); size_t n = v.size(), m = room; c.op( "room for %d", room );
	if ( n <= m )
	{
		vector< int > t( m, -1 ); c.check( xo::copy( v.begin(), v.end(), t.begin() ) == t.begin() + n, "end of the copy" ); auto want = v; want.resize( m, -1 ); c.check( t == want, "copy" );
		std::list< int > l( m, -1 ); xo::copy( v, l.begin() ); c.check( vector< int >( l.begin(), l.end() ) == want, "copy to a list" );
		vector< int > u( m, -1 ); xo::copy_container( v, u ); c.check( u == want, "copy_container" );
		vector< char > ch( m, -1 ); xo::copy_cast( v, ch ); c.check( vector< int >( ch.begin(), ch.end() ) == want, "copy_cast" ); vector< double > d( m, -1 ); c.check( xo::copy_cast( v.begin(), v.end(), d.begin() ) == d.begin() + n, "end of copy_cast" ); c.check( vector< int >( d.begin(), d.end() ) == want, "copy_cast of a range" );
	}
	else { vector< int > t( m, -1 ); vector< char > d( m, -1 ); c.must_throw( [&] { xo::copy_container( v, t ); }, "copy_container without room" ); c.must_throw( [&] { xo::copy_cast( v, d ); }, "copy_cast without room" ); c.check( t == vector< int >( m, -1 ), "the target is changed" ); }
	if ( m <= n )
	{
		vector< int > t( m, -1 ); c.check( xo::copy_to_range( v.begin(), t.begin(), t.end() ) == v.begin() + m, "end of copy_to_range" ); c.check( t == vector< int >( v.begin(), v.begin() + m ), "copy_to_range" );
		vector< int > u( m, -1 ); c.check( xo::copy_to_range( v.begin(), u ) == v.begin() + m && u == t, "copy_to_range of a container" );
	}
	vector< int > a( m, 7 ); xo::append( a, v ); vector< int > want( m, 7 ); want.insert( want.end(), v.begin(), v.end() ); c.check( a == want, "append" ); c.eq( xo::emplace_back_get_index( a, 5 ), n + m, "emplace_back_get_index" ); c.eq( a.back(), 5, "emplace_back_get_index" );
}
MC_SUITE( "views" )
{
	auto v = content( c, c.thorough ? 8 : 6 ); int mask = c.choose( 8 ); c.op( "accepting %d", mask );
	auto pred = [mask]( int x ) { return ( mask >> x & 1 ) != 0; };
	vector< int > want; for ( int x : v ) if ( pred( x ) ) want.push_back( x );
	auto check = [&]( const auto& w ) { vector< int > a, b; for ( auto& x : w ) a.push_back( x ); for ( auto i = w.begin(); i != w.end(); ) { auto j = i++; b.push_back( *j.operator->() ); } c.check( a == want && b == want, "filtered view" ); };
	check( xo::make_view_if( v, pred ) ); check( xo::make_view_if( v.begin(), v.end(), pred ) ); std::list< int > l( v.begin(), v.end() ); check( xo::make_view_if( l, pred ) ); check( xo::make_view_if( l.cbegin(), l.cend(), pred ) );
	std::set< int > s( v.begin(), v.end() ); want.erase( want.begin(), want.end() ); for ( int x : s ) if ( pred( x ) ) want.push_back( x ); check( xo::make_view_if( s, pred ) );
}
MC_SUITE( "zipped containers" )
{
	auto v = content( c, 4, 3, c.thorough ? 65 : 23 ), w = content( c, 4, 3, c.thorough ? 65 : 23 ); size_t n = std::min( v.size(), w.size() );
	std::list< int > l( w.begin(), w.end() ); size_t i = 0;
	for ( auto&& [ a, b ] : xo::zip( v, l ) ) { if ( i >= n ) c.fail( "past the end of the shortest container" ); c.eq( a, v[ i ], "first" ); c.eq( b, w[ i ], "second" ); b = a + 5; ++i; }
	c.eq( i, n, "zipped elements" ); i = 0; for ( int x : l ) { c.eq( x, i < n ? v[ i ] + 5 : w[ i ], "writing through a zipped element" ); ++i; }
	const auto& cv = v; i = 0; for ( auto&& [ a, b ] : xo::zip( cv, w ) ) { c.check( &a == &v[ i ] && &b == &w[ i ], "elements are copied" ); ++i; }
}
MC_SUITE( "pointers" )
{
	auto v = content( c, 5 ); int n = int( v.size() ); using pi = xo::pointer_iterator< int >; pi b( v.data() ), e( v.data() + n );
	vector< int > w; for ( pi i = b; i != e; ++i ) w.push_back( *i ); c.check( w == v, "visited elements" ); w.clear(); for ( pi i = b; i < e; ) w.push_back( *i++ ); c.check( w == v, "visited elements" );
	w.clear(); for ( pi i = e; !( i == b ); ) w.push_back( *--i ); std::reverse( w.begin(), w.end() ); c.check( w == v, "visited elements backwards" ); c.eq( long( e - b ), long( n ), "distance" );
	for ( int k = 0; k < n; ++k ) { pi i = b + k, j = i; c.check( &*i == &v[ k ] && i - b == k && i == j, "position" ); if ( k + 1 < n ) { c.check( j++ == i && j - i == 1 && i < j && i != j, "step" ); c.check( j-- - i == 1 && j == i, "step back" ); } j = e; c.check( j == e, "assignment" ); *i += 10; c.check( v[ k ] >= 10, "writing" ); }
}
static double ref_median( vector< double > v ) { std::sort( v.begin(), v.end() ); size_t n = v.size(); return n % 2 ? v[ n / 2 ] : ( v[ n / 2 ] + v[ n / 2 - 1 ] ) / 2; }
MC_SUITE( "statistics" )
{
	auto iv = content( c, c.thorough ? 8 : 7, 4 ); vector< double > v; for ( int i : iv ) v.push_back( i * 1.5 - 2 ); size_t n = v.size();
	double sum = 0; for ( double x : v ) sum += x;
	near( c, xo::accumulate( v, 1.0 ), sum + 1, "accumulate" ); near( c, xo::accumulate( v.begin(), v.end(), 0.0 ), sum, "accumulate" );
	double alt = 0; for ( double x : v ) alt = 2 * alt - x; auto op = []( double a, double b ) { return 2 * a - b; }; near( c, xo::accumulate( v, 0.0, op ), alt, "accumulate with operation" );
	vector< double > sorted = v; std::sort( sorted.begin(), sorted.end() ); c.check( xo::sorted_copy( v ) == sorted, "sorted_copy" );
	auto idx = xo::sorted_indices( v ); vector< bool > used( n, false ); c.eq( idx.size(), n, "sorted_indices" ); for ( size_t i = 0; i < n; ++i ) { c.check( idx[ i ] < n && !used[ idx[ i ] ], "an index occurs twice" ); used[ idx[ i ] ] = true; near( c, v[ idx[ i ] ], sorted[ i ], "sorted_indices" ); }
	auto rev = xo::sorted_indices( v, std::greater< double >() ); for ( size_t i = 0; i < n; ++i ) near( c, v[ rev[ i ] ], sorted[ n - 1 - i ], "sorted_indices with predicate" );
	if ( n == 0 ) { c.must_throw( [&] { xo::average( v ); }, "average of nothing" ); c.must_throw( [&] { xo::median( v ); }, "median of nothing" ); c.must_throw( [&] { xo::mean_var( v ); }, "variance of nothing" ); c.must_throw( [&] { xo::mean_std( v ); }, "deviation of nothing" ); return; }
	double mean = sum / n, var = 0; for ( double x : v ) var += ( x - mean ) * ( x - mean ); var /= n;
	near( c, xo::average( v ), mean, "average" ); near( c, xo::average( v.begin(), v.end(), 0.0 ), mean, "average" ); near( c, xo::average( v, 0.0, op ), alt / n, "average with operation" );
	near( c, xo::mean_var( v ).first, mean, "mean" ); near( c, xo::mean_var( v ).second, var, "variance" ); near( c, xo::mean_std( v ).first, mean, "mean" ); near( c, xo::mean_std( v ).second, std::sqrt( var ), "deviation" );
	near( c, xo::min_value( v ), sorted.front(), "min_value" ); near( c, xo::max_value( v ), sorted.back(), "max_value" ); c.eq( size_t( xo::min_element( v ) - v.begin() ), size_t( std::find( v.begin(), v.end(), sorted.front() ) - v.begin() ), "min_element" ); near( c, *xo::max_element( v ), sorted.back(), "max_element" );
	double med = ref_median( v ); near( c, xo::median( v ), med, "median" ); near( c, xo::median_slow( v ), med, "median_slow" ); auto w = v; near( c, xo::median_non_const( w ), med, "median_non_const" ); std::sort( w.begin(), w.end() ); c.check( w == sorted, "median_non_const loses elements" ); c.check( v.size() == n, "size" );
	std::deque< double > d( v.begin(), v.end() ); near( c, xo::median( d ), med, "median of a deque" );
	double low = 0; for ( size_t k = 1; k <= sorted.size(); ++k ) { low += sorted[ k - 1 ]; near( c, xo::top_average( v, k ), low / k, "average of the first in order" ); }
}
MC_SUITE( "channels of data" )
{
	int frames = 1 + c.choose( 3 ), channels = 1 + c.choose( 2 ); xo::storage< double > s; vector< vector< double > > ref( frames, vector< double >( channels ) ); string t;
	for ( int k = 0; k < channels; ++k ) s.add_channel( "ch" + std::to_string( k ) );
	for ( int f = 0; f < frames; ++f ) { s.add_frame(); for ( int k = 0; k < channels; ++k ) { ref[ f ][ k ] = c.pick< double >( { 0, 1, -2.5 } ); s( f, k ) = ref[ f ][ k ]; t += num( ref[ f ][ k ] ) + " "; } }
	c.op( "%d frames of %d channels: %s", frames, channels, t.c_str() ); c.state( t );
	vector< double > mean( channels, 0 ); for ( auto& f : ref ) for ( int k = 0; k < channels; ++k ) mean[ k ] += f[ k ] / frames;
	auto m = xo::compute_channel_means( s ); c.eq( m.size(), mean.size(), "means" ); for ( int k = 0; k < channels; ++k ) near( c, m[ k ], mean[ k ], "channel mean" );
	auto cv = xo::compute_covariance( s ); c.eq( cv.row_size(), size_t( channels ), "rows" ); c.eq( cv.column_size(), size_t( channels ), "columns" );
	for ( int a = 0; a < channels; ++a ) for ( int b = 0; b < channels; ++b ) { double w = 0; for ( auto& f : ref ) w += ( f[ a ] - mean[ a ] ) * ( f[ b ] - mean[ b ] ) / frames; near( c, cv( a, b ), w, "covariance" ); }
}
// a container appended to itself
MC_SUITE( "append to itself" )
{
	int n = c.choose( 9 ); bool room = c.flip(); c.op( "%d elements%s", n, room ? ", reserved" : "" ); c.state( n * 2 + room );
	vector< string > v; string s; for ( int i = 0; i < n; ++i ) { v.push_back( "an element longer than the text stored in place " + std::to_string( i ) ); s += char( 'a' + i ); } auto want = v; want.insert( want.end(), v.begin(), v.end() ); string swant = s + s;
	if ( room ) { v.reserve( 40 ); s.reserve( 90 ); }
	auto& r = xo::append( v, v ); c.check( &r == &v && v == want, "a container appended to itself" ); xo::append( s, s ); c.check( s == swant, "a text appended to itself" );
}
