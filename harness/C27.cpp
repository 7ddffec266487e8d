// Optionals, results, error objects and flag sets: operation histories and all pairs of states.
#include "mc.h"
#include <optional>
#include <limits>
#include <memory>
#include "xo/utility/optional.h"
#include "xo/utility/result.h"
#include "xo/container/flag_set.h"
#include "xo/system/error_code.h"
#include "xo/filesystem/path.h"

using std::string;

template< typename T > static std::vector< T > values( bool thorough )
{
	if constexpr ( std::is_same_v< T, string > ) return thorough ? std::vector< T >{ "", "a", "b", string( 40, 'x' ) } : std::vector< T >{ "", "a", string( 40, 'x' ) };
	else if constexpr ( std::is_same_v< T, bool > ) return { false, true };
	else if constexpr ( std::is_same_v< T, std::vector< int > > ) return { {}, { 1 }, { 1, 2 } };
	else if constexpr ( std::is_same_v< T, xo::path > ) return { xo::path(), xo::path( "a" ), xo::path( "a/b" ) };
	else if constexpr ( std::is_floating_point_v< T > ) return { T( 0 ), T( -1.5 ), std::numeric_limits< T >::infinity(), -std::numeric_limits< T >::max(), std::numeric_limits< T >::min() };
	else if constexpr ( std::is_signed_v< T > ) return { T( 0 ), T( -1 ), std::numeric_limits< T >::max(), T( std::numeric_limits< T >::lowest() + 1 ) }; // lowest() stands for no value
	else return { T( 0 ), T( 1 ), T( std::numeric_limits< T >::max() - 1 ), T( std::numeric_limits< T >::max() / 2 + 1 ) }; // max() stands for no value
}
namespace mc {
	inline std::string show( const xo::path& p ) { return esc( p.str() ); }
}
template< typename T > static string text( const std::optional< T >& o ) { return o ? mc::show( *o ) : "-"; }
template< typename T > static string text( const xo::optional< T >& o ) { return o ? mc::show( *o ) : "-"; }

template< typename T > static void same( mc::Ctx& c, xo::optional< T >& o, const std::optional< T >& r )
{
	const auto& k = o;
	c.eq( bool( k ), r.has_value(), "has a value" );
	if ( r ) { c.check( *k == *r, "value by dereferencing" ); c.check( k.value() == *r, "value()" ); c.check( *k.operator->() == *r, "value by arrow" ); c.check( *o == *r, "value" ); }
	else c.must_throw( [&] { k.value(); }, "value() of an empty optional does not throw" );
	for ( T v : values< T >( true ) )
	{
		c.check( k.value_or( v ) == r.value_or( v ), "value_or" );
		bool e = r && *r == v;
		c.eq( k == v, e, "optional == value" ); c.eq( v == k, e, "value == optional" );
		c.eq( k != v, !e, "optional != value" ); c.eq( v != k, !e, "value != optional" );
	}
}
template< typename T > static void history( mc::Ctx& c, const char* name )
{
	c.note( "%s", name );
	auto vals = values< T >( c.thorough );
	xo::optional< T > o[ 2 ]; std::optional< T > r[ 2 ];
	int depth = c.thorough ? 6 : 4;
	for ( int d = 0; d < depth; ++d )
	{
		int op = c.choose( 9 ), i = c.choose( 2 ), j = 1 - i;
		switch ( op )
		{
		case 0: { T v = vals[ c.choose( (int)vals.size() ) ]; c.op( "o%d=%s", i, mc::show( v ).c_str() ); o[ i ] = v; r[ i ] = v; break; }
		case 1: { T v = vals[ c.choose( (int)vals.size() ) ]; c.op( "o%d=move %s", i, mc::show( v ).c_str() ); T w( v ); o[ i ] = std::move( w ); r[ i ] = v; break; }
		case 2: { T v = vals[ c.choose( (int)vals.size() ) ]; c.op( "o%d=optional(%s)", i, mc::show( v ).c_str() ); o[ i ] = xo::optional< T >( v ); r[ i ] = v; break; }
		case 3: c.op( "o%d.reset", i ); o[ i ].reset(); r[ i ].reset(); break;
		case 4: c.op( "o%d=o%d", i, j ); o[ i ] = o[ j ]; r[ i ] = r[ j ]; break;
		case 5: { c.op( "o%d=move copy of o%d", i, j ); xo::optional< T > x( o[ j ] ); o[ i ] = std::move( x ); r[ i ] = r[ j ]; break; }
		case 6: if ( !r[ i ] ) throw mc::prune(); { T v = vals[ c.choose( (int)vals.size() ) ]; c.op( "*o%d=%s", i, mc::show( v ).c_str() ); *o[ i ] = v; r[ i ] = v; break; }
		case 7: c.op( "swap" ); if ( i ) throw mc::prune(); std::swap( o[ 0 ], o[ 1 ] ); std::swap( r[ 0 ], r[ 1 ] ); break;
		case 8: c.op( "o%d=none", i ); o[ i ] = xo::optional< T >(); r[ i ].reset(); break;
		}
		same( c, o[ 0 ], r[ 0 ] ); same( c, o[ 1 ], r[ 1 ] );
		for ( int a = 0; a < 2; ++a ) for ( int b = 0; b < 2; ++b )
		{
			bool e = r[ a ] == r[ b ];
			c.eq( o[ a ] == o[ b ], e, "optional == optional" );
			c.eq( o[ a ] != o[ b ], !e, "optional != optional" );
		}
		string st = string( name ) + text( r[ 0 ] ) + "/" + text( r[ 1 ] );
		c.state( st );
		if ( c.seen( st, depth - d ) ) throw mc::prune();
	}
}
MC_SUITE( "optional histories" )
{
	switch ( c.choose( 13 ) )
	{
	case 0: history< int >( c, "int" ); break;
	case 1: history< unsigned >( c, "unsigned" ); break;
	case 2: history< short >( c, "short" ); break;
	case 3: history< unsigned char >( c, "unsigned char" ); break;
	case 4: history< long long >( c, "long long" ); break;
	case 5: history< size_t >( c, "size_t" ); break;
	case 6: history< float >( c, "float" ); break;
	case 7: history< double >( c, "double" ); break;
	case 8: history< bool >( c, "bool" ); break;
	case 9: history< string >( c, "string" ); break;
	case 10: history< std::vector< int > >( c, "vector" ); break;
	case 11: history< xo::path >( c, "path" ); break;
	case 12: history< signed char >( c, "signed char" ); break;
	}
}
MC_SUITE( "every value of the small integer types is held" )
{
	int v = c.choose( 65536 );
	if ( v < 255 ) { xo::optional< unsigned char > o( (unsigned char)v ); c.check( o && *o == v && o == (unsigned char)v, "unsigned char" ); }
	if ( v < 255 ) { xo::optional< signed char > o( (signed char)( v - 127 ) ); c.check( o && *o == v - 127, "signed char" ); }
	if ( v < 65535 ) { xo::optional< unsigned short > o; o = (unsigned short)v; c.check( o && o.value() == v, "unsigned short" ); }
	if ( v < 65535 ) { xo::optional< short > o; o = (short)( v - 32767 ); c.check( o && o.value() == v - 32767, "short" ); }
}

// ---- results ----------------------------------------------------------------------------------------------------------

template< typename T, typename E > struct RR { bool ok = true; T value{}; };
template< typename T, typename E > static void result_history( mc::Ctx& c, const std::vector< T >& vals, const std::vector< E >& errs, string ( *msg )( const E& ), const char* name )
{
	c.note( "%s", name );
	using R = xo::result< T, E >;
	struct ref { bool ok; T v; string e; };
	R x[ 2 ]; ref r[ 2 ] = { { true, T(), "" }, { true, T(), "" } };
	int depth = c.thorough ? 6 : 5;
	for ( int d = 0; d < depth; ++d )
	{
		int op = c.choose( 8 ), i = c.choose( 2 ), j = 1 - i;
		if ( op <= 2 )
		{
			T v = c.pick( vals ); c.op( "r%d=value %s form %d", i, mc::show( v ).c_str(), op );
			if ( op == 0 ) x[ i ] = v; else if ( op == 1 ) { T w( v ); x[ i ] = std::move( w ); } else x[ i ] = R( v );
			r[ i ] = { true, v, "" };
		}
		else if ( op <= 5 )
		{
			E e = c.pick( errs ); c.op( "r%d=error %s form %d", i, msg( e ).c_str(), op );
			if ( op == 3 ) x[ i ] = e; else if ( op == 4 ) { E w( e ); x[ i ] = std::move( w ); } else x[ i ] = R( e );
			r[ i ] = { false, T(), msg( e ) };
		}
		else if ( op == 6 ) { c.op( "r%d=r%d", i, j ); x[ i ] = x[ j ]; r[ i ] = r[ j ]; }
		else { c.op( "r%d=move copy of r%d", i, j ); R y( x[ j ] ); R z( std::move( y ) ); x[ i ] = std::move( z ); r[ i ] = r[ j ]; }
		string st = name;
		for ( int k = 0; k < 2; ++k )
		{
			c.eq( bool( x[ k ] ), r[ k ].ok, "is a value" );
			c.eq( x[ k ].has_value(), r[ k ].ok, "has_value" );
			c.eq( msg( x[ k ].error() ), r[ k ].e, "error" );
			if ( r[ k ].ok ) c.check( x[ k ].value() == r[ k ].v, "value" );
			st += r[ k ].ok ? "v" + mc::show( r[ k ].v ) : "e" + r[ k ].e;
		}
		c.state( st );
		if ( c.seen( st, depth - d ) ) throw mc::prune();
	}
}
static string msg_of( const xo::error_message& e ) { return e.message(); }
static string code_of( const xo::error_code& e ) { return e.good() ? "" : std::to_string( e.code() ) + e.message(); }
MC_SUITE( "result histories" )
{
	const std::vector< xo::error_message > em = { xo::error_message( "e1" ), xo::error_message( string( "e2" ) ) };
	const std::vector< xo::error_code > ec = { xo::error_code( 1, "x" ), xo::error_code( -1 ) };
	switch ( c.choose( 3 ) )
	{
	case 0: result_history< int, xo::error_message >( c, { 0, 7 }, em, msg_of, "int" ); break;
	case 1: result_history< std::vector< int >, xo::error_message >( c, { {}, { 1, 2 } }, em, msg_of, "vector" ); break;
	case 2: result_history< double, xo::error_code >( c, { 0.0, 2.5 }, ec, code_of, "double with code" ); break;
	}
}
MC_SUITE( "error messages" )
{
	xo::error_message m; string r;
	c.check( m.good() && !m.bad(), "a new error message is good" );
	for ( int d = 0; d < 4; ++d )
	{
		string s = c.pick( { string( "a" ), string( "bc" ), string( "" ) } );
		switch ( c.choose( 6 ) )
		{
		case 0: c.op( "= const char* %s", s.c_str() ); m = s.c_str(); r = s; break;
		case 1: c.op( "= string %s", s.c_str() ); m = s; r = s; break;
		case 2: c.op( "= move string %s", s.c_str() ); m = string( s ); r = s; break;
		case 3: c.op( "= message %s", s.c_str() ); m = xo::error_message( s ); r = s; break;
		case 4: c.op( "append %s", s.c_str() ); if ( s.empty() ) throw mc::prune(); m.append( s ); r += ( r.empty() ? "" : "\n" ) + s; break;
		case 5: { c.op( "copy and move" ); xo::error_message k( m ), l( std::move( k ) ); m = std::move( l ); break; }
		}
		c.eq( m.message(), r, "message" );
		c.eq( m.bad(), !r.empty(), "bad" ); c.eq( m.good(), r.empty(), "good" );
	}
}
MC_SUITE( "error codes" )
{
	xo::error_code e; int code = 0; string m;
	for ( int d = 0; d < 4; ++d )
	{
		switch ( c.choose( 5 ) )
		{
		case 0: { int v = c.pick( { 0, 1, -1, 2147483647 } ); c.op( "set %d", v ); auto& b = e.set( v, "m" ); c.check( &b == &e, "set returns the object" ); code = v; m = "m"; break; }
		case 1: { int v = c.pick( { 0, 5 } ); c.op( "set %d without text", v ); e.set( v ); code = v; m = ""; break; }
		case 2: c.op( "try_set_error" ); c.check( xo::try_set_error( &e, "t" ), "try_set_error with an object" ); c.check( e.bad(), "an error was set" ); code = e.code(); m = "t"; break;
		case 3: c.op( "set_error_or_throw" ); xo::set_error_or_throw( &e, "s" ); c.check( e.bad(), "an error was set" ); code = e.code(); m = "s"; break;
		case 4: c.op( "without object" ); c.must_throw( [&] { xo::set_error_or_throw( nullptr, "q" ); }, "without error object an error must throw" ); c.check( !xo::try_set_error( nullptr, "q" ), "try_set_error without object" ); break;
		}
		xo::error_code k( e );
		for ( auto* x : { &e, &k } )
		{
			c.eq( x->bad(), code != 0, "bad" ); c.eq( x->good(), code == 0, "good" ); c.eq( x->code(), code, "code" ); c.eq( x->message(), m, "message" );
		}
	}
}

// ---- flag sets --------------------------------------------------------------------------------------------------------

template< typename S > static void flags( mc::Ctx& c, const char* name )
{
	enum flag { A = 0, B = 1, X = sizeof( S ) * 4 - 1, Y = sizeof( S ) * 4, Z = sizeof( S ) * 8 - 1 };
	static const flag all[] = { A, B, X, Y, Z };
	using F = xo::flag_set< flag, S >;
	c.note( "%s", name );
	F f; std::set< int > r;
	int start = c.choose( 4 );
	if ( start == 1 ) { f = F( Y ); r = { Y }; c.op( "flag_set(Y)" ); }
	else if ( start == 2 ) { f = F{ A, Z }; r = { A, Z }; c.op( "flag_set{A,Z}" ); }
	else if ( start == 3 ) { f = F( S( ( S( 1 ) << B ) | ( S( 1 ) << X ) ) ); r = { B, X }; c.op( "flag_set(bits)" ); }
	int depth = c.thorough ? 7 : 4;
	for ( int d = 0; d < depth; ++d )
	{
		int op = c.choose( 12 );
		flag i = op < 5 ? all[ c.choose( 5 ) ] : A;
		switch ( op )
		{
		case 0: c.op( "set %d", i ); c.check( &f.set( i ) == &f, "set returns the set" ); r.insert( i ); break;
		case 1: c.op( "set %d true", i ); f.set( i, true ); r.insert( i ); break;
		case 2: c.op( "set %d false", i ); f.set( i, false ); r.erase( i ); break;
		case 3: c.op( "toggle %d", i ); f.toggle( i ); if ( !r.erase( i ) ) r.insert( i ); break;
		case 4: c.op( "clear {%d}", i ); f.clear( { i } ); r.erase( i ); break;
		case 5: c.op( "clear all" ); f.clear(); r.clear(); break;
		case 6: c.op( "set {A,Y}" ); f.set( { A, Y } ); r.insert( { A, Y } ); break;
		case 7: c.op( "set {B,Z} true" ); f.set( { B, Z }, true ); r.insert( { B, Z } ); break;
		case 8: c.op( "set {X,Z} false" ); f.set( { X, Z }, false ); r.erase( X ); r.erase( Z ); break;
		case 9: c.op( "clear {A,B,Y}" ); f.clear( { A, B, Y } ); r.erase( A ); r.erase( B ); r.erase( Y ); break;
		case 10: { int k = c.choose( 6 ); c.op( "compile time form %d", k ); switch ( k ) {
			case 0: f.template set< Z >(); r.insert( Z ); break;
			case 1: f.template set< B >( true ); r.insert( B ); break;
			case 2: f.template set< X >( false ); r.erase( X ); break;
			case 3: f.template clear< Z >(); r.erase( Z ); break;
			case 4: f.template toggle< Y >(); if ( !r.erase( Y ) ) r.insert( Y ); break;
			case 5: f.template clear< A >(); r.erase( A ); break; } break; }
		case 11: { c.op( "copy" ); F g( f ), h; h = g; g.clear(); f = h; break; }
		}
		S bits = 0; string st = name; size_t n = 0;
		for ( auto x : all )
		{
			bool e = r.count( x ) != 0;
			c.eq( f.get( x ), e, "flag" ); c.eq( f( x ), e, "flag by call" );
			if ( e ) { bits = S( bits | ( S( 1 ) << x ) ); ++n; }
			st += e ? '1' : '0';
		}
		c.eq( f.template get< A >(), r.count( A ) != 0, "flag A" ); c.eq( f.template get< Z >(), r.count( Z ) != 0, "flag Z" );
		c.check( f.data() == bits, "bits" );
		c.eq( f.any(), n > 0, "any" );
		c.eq( f.any( { A, X } ), r.count( A ) || r.count( X ), "any of two" );
		c.eq( f.count( { A, B, X, Y, Z } ), n, "count" );
		c.eq( f.count( { A, Z } ), r.count( A ) + r.count( Z ), "count of two" );
		c.state( st );
		if ( c.seen( st, depth - d ) ) throw mc::prune();
	}
}
MC_SUITE( "flag set histories" )
{
	switch ( c.choose( 4 ) )
	{
	case 0: flags< xo::uint64 >( c, "64 bits" ); break;
	case 1: flags< unsigned >( c, "32 bits" ); break;
	case 2: flags< unsigned short >( c, "16 bits" ); break;
	case 3: flags< unsigned char >( c, "8 bits" ); break;
	}
}

template< typename S > static void all_flags( mc::Ctx& c )
{
	constexpr int n = sizeof( S ) * 8; int i = c.choose( n ), j = c.choose( n ), op = c.choose( 6 ); enum flag { first = 0, last = n - 1 }; using F = xo::flag_set< flag, S >; c.op( "%d bits, %d and %d, operation %d", n, i, j, op ); S ri = S( S( 1 ) << i ), rj = S( S( 1 ) << j ), r = ri; F f{ flag( i ) };
	switch ( op ) { case 0: f.set( flag( j ) ); r |= rj; break; case 1: f.set( flag( j ), false ); r = S( r & ~rj ); break; case 2: f.toggle( flag( j ) ); r = S( r ^ rj ); break; case 3: f.clear( { flag( j ) } ); r = S( r & ~rj ); break; case 4: f = F( S( ~S( 0 ) ) ); f.toggle( flag( i ) ); f.clear( { flag( j ) } ); r = S( ~ri & ~rj ); break; case 5: f.set( { flag( i ), flag( j ) } ); r |= rj; break; }
	c.check( f.data() == r, "bits" ); int count = 0; for ( int k = 0; k < n; ++k ) { bool e = ( r >> k ) & 1; count += e; c.eq( f.get( flag( k ) ), e, "flag" ); c.eq( f( flag( k ) ), e, "flag by call" ); c.eq( f.any( { flag( k ) } ), e, "any of one" ); c.eq( f.count( { flag( k ) } ), size_t( e ), "count of one" ); } c.eq( f.any(), count > 0, "any" ); c.state( std::to_string( n ) + "," + std::to_string( (unsigned long long)r ) );
}
MC_SUITE( "every pair of flags" ) { switch ( c.choose( 4 ) ) { case 0: all_flags< xo::uint64 >( c ); break; case 1: all_flags< xo::uint32 >( c ); break; case 2: all_flags< xo::uint16 >( c ); break; default: all_flags< xo::uint8 >( c ); } }
