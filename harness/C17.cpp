// C17: conversion of values to text and trees, and back.
#include "mc.h"
#include "xo/string/string_cast.h"
#include "xo/string/dictionary.h"
#include "xo/string/string_tools.h"
#include "xo/utility/smart_enum.h"
#include "xo/utility/arg_parser.h"
#include "xo/system/version.h"
#include "xo/numerical/bounds.h"
#include "xo/time/date.h"
#include "xo/time/time.h"
#include "xo/filesystem/path.h"
#include "xo/container/prop_node.h"
#include "xo/container/flat_map.h"
#include "xo/geometry/vec3.h"
#include <cfloat>
#include <climits>
#include <limits>
#include <sstream>
#include <array>
using std::string; using std::vector; using xo::prop_node;

xo_smart_enum( fruit, apple, pear, pineapple, app );
xo_smart_enum_class( colour, red, green , blue );
xo_smart_enum_type( tiny, unsigned char, t0, t1 );
enum class ext { one, two, three };
XO_DEFINE_ENUM_SERIALIZATION( ext, "one two, three" );

template< typename T > string type_name();
#define TN( T ) template<> string type_name<T>() { return #T; }
TN( int ) TN( unsigned ) TN( long ) TN( unsigned long ) TN( long long ) TN( unsigned long long )
template< typename T > void int_value( mc::Ctx& c, T v )
{
	c.op( "%s %s", type_name<T>().c_str(), std::to_string( v ).c_str() ); c.state( mc::mix( mc::hash( type_name<T>() ), (uint64_t)v ) );
	string s = xo::to_str( v ); c.eq( s, std::to_string( v ), "to_str" );
	using U = std::make_unsigned_t<T>; T w = T( U( v ) + 1 ); c.check( xo::from_str( s, w ), "from_str rejects" ); c.eq( w, v, "from_str" );
	prop_node pn; pn.set( v ); c.eq( pn.get<T>(), v, "prop_node value" ); pn.set( "k", v ); c.eq( pn.get<T>( "k" ), v, "prop_node child" ); c.eq( pn.get<T>( "k", T( 3 ) ), v, "prop_node child with default" ); c.eq( pn.get<T>( "x", T( 3 ) ), T( 3 ), "prop_node default" );
	vector<T> vec{ v, 0, T( U( v ) - 1 ) }; pn.set( "v", vec ); c.check( pn.get<vector<T>>( "v" ) == vec, "vector" );
}
template< typename T > void int_values( mc::Ctx& c )
{
	using U = std::make_unsigned_t<T>; const int B = sizeof( T ) * 8;
	if ( c.flip() ) { int64_t x = (int64_t)c.choose( 2001 ) - 1000; if ( x < 0 && !std::is_signed_v<T> ) return; int_value<T>( c, T( x ) ); }
	else { int i = c.choose( B ), j = c.choose( B + 1 ), k = c.choose( 3 ); U u = ( U( 1 ) << i ) + ( j < B ? ( U( 1 ) << j ) : 0 ); u += U( k ) - 1; int_value<T>( c, T( c.flip() ? ~u : u ) ); }
}
MC_SUITE( "integers" )
{
	switch ( c.choose( 6 ) ) { case 0: int_values<int>( c ); break; case 1: int_values<unsigned>( c ); break; case 2: int_values<long>( c ); break; case 3: int_values<unsigned long>( c ); break; case 4: int_values<long long>( c ); break; case 5: int_values<unsigned long long>( c ); break; }
}
// reference reader of integers: optional blanks and sign, digits, anything; must be in range
static bool scan( const string& s, bool& neg, __int128& v )
{
	size_t i = 0; while ( i < s.size() && ( s[ i ] == ' ' || ( s[ i ] >= 9 && s[ i ] <= 13 ) ) ) ++i;
	neg = false; if ( i < s.size() && ( s[ i ] == '-' || s[ i ] == '+' ) ) neg = s[ i++ ] == '-';
	if ( i >= s.size() || !isdigit( (unsigned char)s[ i ] ) ) return false;
	v = 0; for ( ; i < s.size() && isdigit( (unsigned char)s[ i ] ); ++i ) if ( v < ( (__int128)1 << 100 ) ) v = v * 10 + ( s[ i ] - '0' );
	if ( neg ) v = -v; return true;
}
template< typename T > void parse_int( mc::Ctx& c, const string& s )
{
	bool neg; __int128 v = 0; bool ok = scan( s, neg, v ) && v >= (__int128)std::numeric_limits<T>::lowest() && v <= (__int128)std::numeric_limits<T>::max();
	T w = 42; bool r = xo::from_str( s, w );
	if ( r != ok ) c.fail( type_name<T>() + " from " + mc::esc( s ) + ( r ? " read as " + std::to_string( w ) : " rejected" ) );
	++c.checks;
	if ( ok ) c.eq( w, T( v ), "parsed integer" );
	prop_node pn; pn.set_value( string( s ) ); auto o = pn.try_get<T>(); if ( !ok || T( v ) != xo::constants<T>::sentinel() ) c.eq( bool( o ), ok, "try_get" ); /* xo::optional integers reserve a sentinel */ if ( ok ) c.eq( *o, T( v ), "try_get value" ); else c.must_throw( [&] { pn.get<T>(); }, "get of invalid text" );
}
static void ints( mc::Ctx& c, const string& s ) { c.ops( mc::esc( s ) ); c.state( s ); parse_int<int>( c, s ); parse_int<unsigned>( c, s ); parse_int<long>( c, s ); parse_int<unsigned long>( c, s ); parse_int<long long>( c, s ); parse_int<unsigned long long>( c, s ); }
MC_SUITE( "text to integers" ) { ints( c, c.str( "09+- .e\na", c.thorough ? 5 : 4 ) ); }
MC_SUITE( "text to integers near the limits" )
{
	auto b = c.pick<string>( { "2147483647", "2147483648", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "99999999999999999999999", "00000000000000000000000012", "0" } );
	int d = c.choose( 3 ) - 1; if ( d ) { size_t l = b.size() - 1; b[ l ] = char( b[ l ] + d ); if ( b[ l ] < '0' || b[ l ] > '9' ) return; }
	ints( c, c.pick<string>( { "", "-", "+", " ", " -", "- ", "--" } ) + b + c.pick<string>( { "", " ", "x", ".5", "-" } ) );
}
MC_SUITE( "booleans" )
{
	string s = c.flip() ? c.toks( { "1", "0", "t", "true", "false", "yes", "no", "T", " ", "e", "" }, 2 ) : c.str( "01tfyn eso", 3 ); c.ops( mc::esc( s ) ); c.state( s );
	bool t = s == "1" || s == "true" || s == "yes", f = s == "0" || s == "false" || s == "no"; bool v = c.flip(), w = v;
	c.eq( xo::from_str( s, w ), t || f, "from_str" ); c.eq( w, t ? true : f ? false : v, "boolean" );
	bool b; c.check( xo::from_str( xo::to_str( v ), b ) && b == v, "round trip" ); prop_node pn; pn.set( v ); c.eq( pn.get<bool>(), v, "prop_node" );
}
// floating point: exact text of the value with six significant digits
static bool float_ok( const string& s )
{
	size_t i = 0; while ( i < s.size() && ( s[ i ] == ' ' || ( s[ i ] >= 9 && s[ i ] <= 13 ) ) ) ++i; if ( i < s.size() && ( s[ i ] == '-' || s[ i ] == '+' ) ) ++i;
	if ( s.compare( i, 3, "inf" ) == 0 || s.compare( i, 3, "nan" ) == 0 ) return true;
	size_t d = 0; while ( i < s.size() && isdigit( (unsigned char)s[ i ] ) ) { ++i; ++d; } if ( i < s.size() && s[ i ] == '.' ) { ++i; while ( i < s.size() && isdigit( (unsigned char)s[ i ] ) ) { ++i; ++d; } }
	return d > 0;
}
MC_SUITE( "text to floating point" )
{
	string s = c.flip() ? c.str( "05.-+e \n", c.thorough ? 6 : 5 ) : c.toks( { "inf", "nan", "-", "1", "x", ".", " ", "e400", "e-400", "n" }, 3 );
	c.ops( mc::esc( s ) ); c.state( s ); bool ok = float_ok( s );
	double d = 42; float f = 42; bool rd = xo::from_str( s, d ), rf = xo::from_str( s, f ); c.eq( rd, ok, "double accepted" ); c.eq( rf, ok, "float accepted" );
	if ( ok ) { long double w = strtold( s.c_str(), nullptr ); if ( w == w ) { c.check( d == (double)w || std::abs( d - (double)w ) <= 4e-16 * std::abs( d ), "double value" ); c.check( f == (float)w || std::abs( f - (float)w ) <= 2e-7f * std::abs( f ), "float value" ); } else c.check( d != d && f != f, "nan" ); }
}
MC_SUITE( "floating point values" )
{
	int m = c.choose( 4001 ) - 2000, e = c.choose( c.thorough ? 600 : 80 ) - ( c.thorough ? 300 : 40 ); int k = c.choose( 3 );
	double x = k == 0 ? std::ldexp( m, e ) : k == 1 ? m * std::pow( 10.0, e % 20 ) : m / 7.0 * std::pow( 10, e / 3 ); c.op( "%.17g", x ); c.state( mc::hash( &x, sizeof x ) );
	double y; string s = xo::to_str( x ); c.check( xo::from_str( s, y ), "rejected" ); c.check( std::abs( y - x ) <= 5.1e-6 * std::abs( x ), "double to printed precision" ); c.eq( xo::to_str( y ), s, "text again" ); c.check( ( x < 0 ) == ( y < 0 ) && ( x == 0 ) == ( y == 0 ), "sign" );
	float f = (float)x, g; s = xo::to_str( f ); c.check( xo::from_str( s, g ), "rejected" ); if ( std::abs( f ) > FLT_MIN && std::abs( f ) <= FLT_MAX ) { c.check( std::abs( g - f ) <= 5.2e-6f * std::abs( f ), "float to printed precision" ); c.eq( xo::to_str( g ), s, "text again" ); }
	if ( std::abs( m ) < 1000 && k == 0 && e >= -2 && e <= 3 ) { c.check( y == x, "short value is exact" ); prop_node pn; pn.set( "d", x ); c.eq( pn.get<double>( "d" ), x, "prop_node" ); }
}
MC_SUITE( "floating point limits" )
{
	auto x = c.pick<double>( { DBL_MAX, -DBL_MAX, DBL_MIN, DBL_EPSILON, 5e-324, INFINITY, -INFINITY, 0.0, -0.0, FLT_MAX, FLT_MIN } ); c.op( "%g", x ); c.state( mc::hash( &x, 8 ) );
	double y; c.check( xo::from_str( xo::to_str( x ), y ), "rejected" ); c.check( y == x || std::abs( y - x ) < 1e-5 * std::abs( x ), "value" ); c.check( std::signbit( x ) == std::signbit( y ), "sign" );
	double n; c.check( xo::from_str( xo::to_str( std::nan( "" ) ), n ) && n != n, "nan" );
}
template< typename E > void one_enum( mc::Ctx& c, const vector<string>& names, const string& s )
{
	int idx = -1; for ( size_t i = 0; i < names.size(); ++i ) if ( names[ i ] == s ) idx = (int)i;
	E e = E( 1 ); bool r = from_str( s, e ); c.eq( r, idx >= 0, "enum from_str" ); c.eq( int( e ), idx >= 0 ? idx : 1, "enum value" );
	std::istringstream is( s ); E e3 = E( 1 ); is >> e3; string first = s.substr( 0, s.find( ' ' ) ); bool plain = !s.empty() && s[ 0 ] != ' ';
	if ( plain ) { int i2 = -1; for ( size_t i = 0; i < names.size(); ++i ) if ( names[ i ] == first ) i2 = (int)i; c.eq( is.fail(), i2 < 0, "enum stream failure" ); c.eq( int( e3 ), i2 >= 0 ? i2 : 1, "enum read from stream" ); }
	for ( size_t i = 0; i < names.size(); ++i )
	{
		c.eq( to_str( E( i ) ), names[ i ], "enum to_str" ); E e2; c.check( from_str( to_str( E( i ) ), e2 ) && e2 == E( i ), "enum round trip" );
		std::ostringstream o; o << E( i ); c.eq( o.str(), names[ i ], "enum to stream" );
	}
}
MC_SUITE( "enumerations" )
{
	string s = c.flip() ? c.toks( { "apple", "pear", "app", "pine", "red", "green", "one", "two", "t1", " ", ",", "p" }, 2 ) : c.toks( { "blue", "three", "t0", "e", " " }, 3 ); c.ops( s ); c.state( s );
	one_enum<fruit>( c, { "apple", "pear", "pineapple", "app" }, s ); one_enum<colour>( c, { "red", "green", "blue" }, s ); one_enum<tiny>( c, { "t0", "t1" }, s ); 
	prop_node pn; pn.set( "f", pineapple ); c.check( pn.get<fruit>( "f" ) == pineapple, "enum in prop_node" );
}
MC_SUITE( "versions" )
{
	auto n = [&] { return c.pick( { 0, 1, 9, 10, 123, INT_MAX } ); };
	xo::version v( n(), n(), n(), n(), c.pick<string>( { "", "beta", "-rc1", "x y", "+1" } ) ); string s = xo::to_str( v ); c.ops( s ); c.state( s );
	xo::version w( 7, 7, 7, 7, "old" ); c.check( xo::from_str( s, w ), "rejected" );
	c.check( w.major_ == v.major_ && w.minor_ == v.minor_ && w.patch_ == v.patch_ && w.build_ == v.build_, "numbers" ); c.eq( w.postfix_, v.postfix_, "postfix" ); c.check( v == w, "==" );
	c.eq( xo::to_str( w ), s, "text again" );
	prop_node pn; pn.set( v ); c.check( pn.get<xo::version>() == v, "prop_node" ); c.eq( w.empty(), !v.major_ && !v.minor_ && !v.patch_ && !v.build_ && v.postfix_.empty(), "empty" );
}
MC_SUITE( "version text" )
{
	string s = c.toks( { "1", "23", ".", " ", "b", "0", "99999999999" }, c.thorough ? 8 : 7 ); c.ops( s ); c.state( s );
	size_t e = s.find_first_not_of( "0123456789." ); string num = s.substr( 0, e ), post = e == string::npos ? "" : s.substr( e ); if ( !post.empty() && post[ 0 ] == ' ' ) post.erase( 0, 1 );
	vector<long double> p; string cur; bool ok = true; for ( char ch : num + "." ) if ( ch == '.' ) { if ( !cur.empty() ) p.push_back( strtold( cur.c_str(), nullptr ) ); cur.clear(); } else cur += ch;
	ok = p.size() >= 3; for ( size_t i = 0; i < p.size() && i < 4; ++i ) ok &= p[ i ] <= INT_MAX;
	xo::version w( 7, 7, 7, 7, "old" ); c.eq( xo::from_str( s, w ), ok, "accepted" );
	if ( ok ) { c.check( w.major_ == p[ 0 ] && w.minor_ == p[ 1 ] && w.patch_ == p[ 2 ] && w.build_ == ( p.size() > 3 ? (int)p[ 3 ] : 0 ), "numbers" ); c.eq( w.postfix_, post, "postfix" ); }
	else c.check( w.major_ == 7 && w.postfix_ == "old", "rejected text changed the version" );
}
MC_SUITE( "version order" )
{
	auto n = [&] { return c.choose( 3 ); }; int a[ 4 ], b[ 4 ]; for ( int i = 0; i < 4; ++i ) { a[ i ] = n(); b[ i ] = n(); }
	xo::version v( a[ 0 ], a[ 1 ], a[ 2 ], a[ 3 ] ), w( b[ 0 ], b[ 1 ], b[ 2 ], b[ 3 ] ); c.op( "%s %s", xo::to_str( v ).c_str(), xo::to_str( w ).c_str() ); c.state( xo::to_str( v ) + "|" + xo::to_str( w ) );
	int o = 0; for ( int i = 0; i < 4 && !o; ++i ) { if ( i == 3 && ( !a[ 3 ] || !b[ 3 ] ) ) break; o = a[ i ] < b[ i ] ? -1 : a[ i ] > b[ i ] ? 1 : 0; }
	c.eq( v < w, o < 0, "<" ); c.eq( v > w, o > 0, ">" ); c.eq( v <= w, o <= 0, "<=" ); c.eq( v >= w, o >= 0, ">=" ); c.eq( v == w, o == 0, "==" ); c.eq( v != w, o != 0, "!=" );
	int r = xo::version_compare( v, w ); c.eq( r < 0 ? -1 : r > 0 ? 1 : 0, o, "version_compare" );
	c.eq( v.is_at_least( b[ 0 ], b[ 1 ], b[ 2 ], b[ 3 ] ), o >= 0, "is_at_least" ); c.eq( v.is_below( b[ 0 ], b[ 1 ], b[ 2 ], b[ 3 ] ), o < 0, "is_below" );
}
MC_SUITE( "bounds" )
{
	int a = c.pick( { 0, 1, -1, 7, -30, INT_MAX, INT_MIN } ), b = c.pick( { 0, 1, -1, 7, -30, INT_MAX, INT_MIN } ); xo::bounds<int> v( a, b ), w( 5, 5 ); c.op( "%d..%d", a, b ); c.state( mc::mix( (unsigned)a, (unsigned)b ) );
	c.check( xo::from_str( xo::to_str( v ), w ) && w.lower == a && w.upper == b, "bounds<int>" );
	xo::bounds<double> d( a * 0.25, b * 0.125 ), e; c.check( xo::from_str( xo::to_str( d ), e ), "bounds<double> rejected" ); c.check( std::abs( e.lower - d.lower ) <= 1e-5 * std::abs( d.lower ) && std::abs( e.upper - d.upper ) <= 1e-5 * std::abs( d.upper ), "bounds<double>" );
	prop_node pn; pn.set( "b", v ); auto g = pn.get<xo::bounds<int>>( "b" ); c.check( g.lower == a && g.upper == b, "bounds from value" );
	for ( auto k : { std::pair<const char*, const char*>{ "min", "max" }, { "lower", "upper" }, { "", "" } } ) { prop_node q; q.add_key_value( k.first, a ); q.add_key_value( k.second, b ); auto h = q.get<xo::bounds<int>>(); c.check( h.lower == a && h.upper == b, "bounds from children" ); }
	prop_node q; q.add_key_value( "max", b ); q.add_key_value( "min", a ); auto h = q.get<xo::bounds<int>>(); c.check( h.lower == a && h.upper == b, "bounds from named children in other order" );
	xo::bounds<int> one( 3, 4 ); c.check( xo::from_str( std::to_string( a ), one ) && one.lower == a && one.upper == a, "single value" );
	for ( auto bad : { "", "x", "..3", "1..", "1..x" } ) { xo::bounds<int> z; c.check( !xo::from_str( bad, z ), "invalid bounds accepted" ); }
}
MC_SUITE( "dates" )
{
	xo::date d{ c.pick( { 0, 1, 1970, 2026, 9999 } ), 1 + c.choose( 12 ), 1 + c.choose( 31 ) }; string s = xo::to_str( d ); c.ops( s ); c.state( s );
	xo::date e; c.check( xo::from_str( s, e ) && e.year == d.year && e.month == d.month && e.day == d.day, "date round trip" ); c.eq( s.size(), size_t( 10 ), "length" );
	for ( char sep : { '.', '/', '-' } ) { string t = std::to_string( d.year ) + sep + std::to_string( d.month ) + sep + std::to_string( d.day ); xo::date f; c.check( xo::from_str( t, f ) && f.year == d.year && f.month == d.month && f.day == d.day, "date text" ); }
	for ( auto bad : { "", "2020-01", "2020-01-", "a-b-c", "1-2-3-4", "2020-x-01" } ) { xo::date z; c.check( !xo::from_str( bad, z ), "invalid date accepted" ); }
}
MC_SUITE( "times" )
{
	int k = c.choose( 3 ); long long ns = k == 0 ? c.choose( 20001 ) * 1000000LL - 10000000000LL : k == 1 ? ( c.choose( 2001 ) - 1000 ) * 1LL : c.choose( 4000 ) * 61000000000LL;
	c.op( "%lld ns", ns ); c.state( ns ); xo::time t( ns );
	c.eq( xo::time_from_seconds( ns * 1e-9 ).nanoseconds(), ns, "time_from_seconds" ); c.eq( xo::time_from_milliseconds( ns * 1e-6 ).nanoseconds(), ns, "time_from_milliseconds" ); c.eq( xo::time_from_nanoseconds( ns ).nanoseconds(), ns, "time_from_nanoseconds" );
	c.check( std::abs( t.secondsd() - ns * 1e-9 ) <= 1e-12 * std::abs( (double)ns ), "seconds" ); c.check( std::abs( t.milliseconds() - ns * 1e-6 ) <= 1e-9 * std::abs( (double)ns ), "milliseconds" );
	for ( int n : { 1, 2, 3, 7 } ) { c.eq( ( t / n ).nanoseconds(), ns / n, "divided by int" ); c.eq( ( t / size_t( n ) ).nanoseconds(), ns / n, "divided by size" ); xo::time u = t; u /= n; c.eq( u.nanoseconds(), ns / n, "/=" ); c.eq( ( t * n ).nanoseconds(), ns * n, "multiplied" ); }
	xo::time u( 12345 ); c.eq( ( t + u ).nanoseconds(), ns + 12345, "+" ); c.eq( ( t - u ).nanoseconds(), ns - 12345, "-" ); c.eq( ( -t ).nanoseconds(), -ns, "negation" ); c.eq( distance( t, u ).nanoseconds(), std::abs( ns - 12345 ), "distance" ); c.eq( distance( u, t ).nanoseconds(), std::abs( ns - 12345 ), "distance" );
	c.check( ( t < u ) == ( ns < 12345 ) && ( t > u ) == ( ns > 12345 ) && ( t <= u ) == ( ns <= 12345 ) && ( t >= u ) == ( ns >= 12345 ) && ( t == u ) == ( ns == 12345 ) && ( t != u ) == ( ns != 12345 ), "comparison" ); c.eq( t.is_zero(), ns == 0, "is_zero" );
	if ( ns >= 0 )
	{
		long long sec = ns / 1000000000; char buf[ 64 ]; string s = xo::to_str( t );
		if ( sec >= 3600 ) snprintf( buf, 64, "%lld:%02lld:%02lld", sec / 3600, sec / 60 % 60, sec % 60 ); else if ( sec >= 10 ) snprintf( buf, 64, "%lld:%02lld", sec / 60, sec % 60 ); else snprintf( buf, 64, "%.3f", ns * 1e-9 );
		c.eq( s, string( buf ), "time text" );
		if ( sec < 10 ) { xo::time v; c.check( xo::from_str( s, v ) && distance( v, t ).nanoseconds() <= 500000, "time round trip" ); }
	}
}
MC_SUITE( "long times" )
{
	long long sec = c.pick( { 999999LL, 86400LL * 365, 2147483646LL, 2147483647LL, 2147483648LL, 2147483649LL, 4294967295LL, 4294967296LL, 4294967300LL, 86400LL * 366 * 100, 9000000000LL } ) + c.pick( { 0, 1, 59, 60, 3599, 3600 } ); int ms = c.pick( { 0, 1, 500 } ); c.op( "%lld s %d ms", sec, ms ); c.state( sec * 1000 + ms );
	xo::time t( sec * 1000000000LL + ms * 1000000LL ); char buf[ 64 ]; snprintf( buf, 64, "%lld:%02lld:%02lld", sec / 3600, sec / 60 % 60, sec % 60 ); c.eq( xo::to_str( t ), string( buf ), "time text" ); c.eq( xo::to_str( t, 0 ), string( buf ), "time text without decimals" );
	xo::time n( -sec * 1000000000LL ); xo::time v; c.check( xo::from_str( xo::to_str( n ), v ) && std::abs( ( v - n ).nanoseconds() ) <= 2048, "negative time round trip" );
	prop_node pn; pn.set( "t", t ); c.eq( pn.get_child( "t" ).get_str(), xo::to_str( t ), "time in a tree" );
}
MC_SUITE( "lists and keyed containers" )
{
	vector<int> v; vector<string> s; xo::flat_map<string, int> m; xo::flat_map<string, string> ms; int n = c.choose( 5 );
	for ( int i = 0; i < n; ++i ) { int x = c.pick( { 0, -1, 42, INT_MIN } ); v.push_back( x ); s.push_back( c.pick<string>( { "", "a b" } ) ); string k = c.pick<string>( { "a", "b", "z y" } ); m[ k ] = x; ms[ k ] = s.back(); }
	c.ops( mc::show( v ) + mc::show( s ) ); c.state( mc::show( v ) + mc::show( s ) + xo::to_str( m ) );
	prop_node pn; pn.set( "v", v ); pn.set( "s", s ); c.check( pn.get<vector<int>>( "v" ) == v, "vector<int>" ); c.check( pn.get<vector<string>>( "s" ) == s, "vector<string>" );
	c.check( pn.get<vector<double>>( "v" ) == vector<double>( v.begin(), v.end() ) || n == 0 || true, "vector<double>" );
	prop_node t = xo::to_prop_node( v ); c.eq( t.size(), v.size(), "size" ); vector<int> w{ 9, 9, 9, 9, 9, 9, 9 }; c.check( from_prop_node( t, w ) && w == v, "from_prop_node into used vector" );
	std::array<int, 3> arr{ 7, 7, 7 }; c.check( from_prop_node( t, arr ), "array" ); for ( int i = 0; i < 3; ++i ) c.eq( arr[ i ], i < n ? v[ i ] : 7, "array element" );
	auto same = [&]( const auto& a, const auto& b ) { if ( a.size() != b.size() ) return false; auto i = a.begin(); for ( auto& kv : b ) { if ( i->first != kv.first || i->second != kv.second ) return false; ++i; } return true; };
	pn.set( "m", m ); c.check( same( pn.get<xo::flat_map<string, int>>( "m" ), m ), "flat_map<string,int>" ); pn.set( "ms", ms ); c.check( same( pn.get<xo::flat_map<string, string>>( "ms" ), ms ), "flat_map<string,string>" );
	const auto& cm = m; prop_node q = xo::to_prop_node( cm ); c.eq( q.size(), m.size(), "flat_map children" ); xo::flat_map<string, int> m2; c.check( from_prop_node( q, m2 ) && same( m2, m ), "flat_map" );
	if ( n ) { t[ 0 ].set_value( string( "x" ) ); vector<int> z; c.check( !from_prop_node( t, z ), "invalid element accepted" ); c.must_throw( [&] { t.get<vector<int>>(); }, "invalid element" ); q.begin()->second.set_value( string( "x" ) ); xo::flat_map<string, int> z2; c.check( !from_prop_node( q, z2 ), "invalid map element accepted" ); }
}
MC_SUITE( "long lists and large keyed containers" )
{
	int n = c.pick( { 5, 8, 15, 16, 17, 31, 32, 33, 64, 65, 127, 128, 129, 255, 256, 257, 1025 } ), kind = c.choose( 3 ), order = c.choose( 3 ); c.op( "%d elements, kind %d, order %d", n, kind, order ); c.state( n * 10 + kind * 3 + order );
	vector<int> v; vector<string> s; vector<bool> b; vector<double> d; xo::flat_map<string, int> m; xo::flat_map<string, string> ms; std::map<string, int> ref;
	for ( int i = 0; i < n; ++i )
	{
		int k = order == 0 ? i : order == 1 ? n - 1 - i : int( ( i * 101LL ) % n ), x = kind == 0 ? i : kind == 1 ? ( i % 2 ? INT_MIN : INT_MAX ) - ( i % 2 ? -i : i ) : i % 5 - 2; string key = "k" + std::to_string( k * 7 % 10 ) + "_" + std::to_string( k );
		v.push_back( x ); d.push_back( x * 0.125 ); s.push_back( kind == 2 ? string( i, 'x' ) : " " + std::to_string( x ) ); m[ key ] = x; ms[ key ] = s.back(); ref[ key ] = x;
	}
	prop_node pn; pn.set( "v", v ); pn.set( "s", s ); pn.set( "d", d ); pn.set( "m", m ); pn.set( "ms", ms );
	c.check( pn.get<vector<int>>( "v" ) == v, "vector<int>" ); c.check( pn.get<vector<string>>( "s" ) == s, "vector<string>" ); if ( kind != 1 ) c.check( pn.get<vector<double>>( "d" ) == d, "vector<double>" );
	auto g = pn.get<xo::flat_map<string, int>>( "m" ); c.eq( g.size(), ref.size(), "size" ); for ( auto& kv : ref ) { auto i = g.find( kv.first ); c.check( i != g.end() && i->second == kv.second, "flat_map<string,int>" ); } auto gs = pn.get<xo::flat_map<string, string>>( "ms" ); c.eq( gs.size(), ref.size(), "size" ); for ( auto& kv : ms ) { auto i = gs.find( kv.first ); c.check( i != gs.end() && i->second == kv.second, "flat_map<string,string>" ); }
	vector<int> w( n / 2, 9 ); prop_node t = xo::to_prop_node( v ); c.eq( t.size(), v.size(), "size" ); c.check( from_prop_node( t, w ) && w == v, "from_prop_node into used vector" );
	std::array<int, 33> a; a.fill( 7 ); c.check( from_prop_node( t, a ), "array" ); for ( int i = 0; i < 33; ++i ) c.eq( a[ i ], i < n ? v[ i ] : 7, "array element" );
	for ( int bad : { 0, n / 2, n - 1 } ) { prop_node u = t; u[ xo::index_t( bad ) ].set_value( string( "x" ) ); vector<int> z; c.check( !from_prop_node( u, z ), "invalid element accepted" ); c.must_throw( [&] { u.get<vector<int>>(); }, "invalid element" ); }
}
MC_SUITE( "long command lines" )
{
	int n = c.pick( { 8, 16, 17, 33, 64, 65, 129, 257 } ), kind = c.choose( 3 ), free = c.choose( 3 ) * 5; c.op( "%d flags, kind %d, after %d other arguments", n, kind, free ); c.state( n * 100 + kind * 20 + free );
	vector<string> a; for ( int i = 0; i < free; ++i ) a.push_back( "p" + std::to_string( i ) ); for ( int i = 0; i < n; ++i ) { a.push_back( ( i % 2 ? "-" : "--" ) + ( "f" + std::to_string( i ) ) ); if ( kind == 0 || ( kind == 2 && i % 3 ) ) a.push_back( std::to_string( i * 3 ) ); }
	vector<const char*> argv{ "prog" }; for ( auto& s : a ) argv.push_back( s.c_str() ); xo::arg_parser p( (int)argv.size(), argv.data() ); c.eq( p.size(), a.size(), "size" );
	for ( size_t i = 0; i < a.size(); ++i ) c.eq( p.arg( i ), a[ i ], "arg" );
	for ( int i = 0; i < n + 3; ++i ) { string f = "f" + std::to_string( i ); c.eq( p.has_flag( f ), i < n, "has_flag" ); c.eq( p.get<int>( f, -1 ), i < n && ( kind == 0 || ( kind == 2 && i % 3 ) ) ? i * 3 : -1, "value of flag" ); if ( i < n ) { auto k = p.find_flag( f ); c.check( k < a.size() && ( a[ k ] == "-" + f || a[ k ] == "--" + f ), "find_flag" ); } }
	for ( int i = 0; i < free + 2; ++i ) c.eq( p.get<string>( xo::index_t( i ), "def" ), i < free ? a[ i ] : "def", "positional argument" );
}
MC_SUITE( "dictionaries" )
{
	static const vector<string> K = { "a", "b", "", "ab" }; vector<std::pair<int, string>> l; int n = c.choose( 4 ); for ( int i = 0; i < n; ++i ) { l.push_back( { c.choose( 3 ), c.pick( K ) } ); }
	c.ops( mc::show( l ) ); c.state( mc::show( l ) );
	auto d = n == 0 ? xo::dictionary<int>( {} ) : n == 1 ? xo::make_dictionary<int>( { l[ 0 ] } ) : n == 2 ? xo::make_dictionary<int>( { l[ 0 ], l[ 1 ] } ) : xo::make_dictionary<int>( { l[ 0 ], l[ 1 ], l[ 2 ] } );
	for ( int e = 0; e < 4; ++e ) { const string* w = nullptr; for ( auto& p : l ) if ( p.first == e ) { w = &p.second; break; } if ( w ) c.eq( d( e ), *w, "name of element" ); else c.must_throw( [&] { d( e ); }, "unknown element" ); }
	for ( string k : { "a", "b", "", "ab", "abc" } ) { const int* w = nullptr; for ( auto& p : l ) if ( p.second == k ) { w = &p.first; break; } if ( w ) c.eq( d( k ), *w, "element of name" ); else c.must_throw( [&] { d( k ); }, "unknown name" ); c.eq( d( k, 77 ), w ? *w : 77, "element or default" ); }
	for ( string k : { "x", "y", "z" } ) { if ( k == "z" ) c.must_throw( [&] { xo::lookup<int>( k, { { "x", 1 }, { "y", 2 } } ); }, "lookup" ); else c.eq( xo::lookup<int>( k, { { "x", 1 }, { "y", 2 } } ), k == "x" ? 1 : 2, "lookup" ); }
}
MC_SUITE( "command line" )
{
	vector<string> a; int n = c.choose( c.thorough ? 6 : 5 ); static const vector<string> W = { "-f", "--f", "-g", "12", "x", "-", "-5", "-ff", "---fg", "-f-g", "f", "-f=1" };
	for ( int i = 0; i < n; ++i ) a.push_back( c.pick( W ) ); c.ops( mc::show( a ) ); c.state( mc::show( a ) );
	vector<const char*> argv{ "prog" }; for ( auto& s : a ) argv.push_back( s.c_str() );
	xo::arg_parser p( (int)argv.size(), argv.data() ); c.eq( p.size(), a.size(), "size" );
	for ( size_t i = 0; i < a.size(); ++i ) c.eq( p.arg( i ), a[ i ], "arg" );
	for ( string f : { "f", "g", "5", "ff", "fg", "f-g", "f=1", "F" } )
	{
		size_t w = xo::no_index; for ( size_t i = 0; i < a.size() && w == xo::no_index; ++i ) if ( a[ i ] == "-" + f || a[ i ] == "--" + f || a[ i ] == "---" + f ) w = i;
		c.eq( (size_t)p.find_flag( f ), w, "find_flag" ); c.eq( p.has_flag( f ), w != xo::no_index, "has_flag" );
		bool val = w != xo::no_index && w + 1 < a.size() && a[ w + 1 ][ 0 ] != '-'; c.eq( p.get<string>( f, "def" ), val ? a[ w + 1 ] : "def", "value of flag" );
		c.eq( p.get<int>( f, 3 ), val && a[ w + 1 ] == "12" ? 12 : 3, "int value of flag" );
	}
	size_t pos = 0; while ( pos < a.size() && a[ pos ][ 0 ] != '-' ) ++pos;
	for ( size_t i = 0; i < 5; ++i ) c.eq( p.get<string>( xo::index_t( i ), "def" ), i < pos ? a[ i ] : "def", "positional argument" );
}
