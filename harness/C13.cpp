// C13: handles, typed indices, handle vectors, collections, owning pointers.
#include "mc.h"
#include "xo/system/assert.h"
#include "xo/utility/handle.h"
#include "xo/utility/index.h"
#include "xo/utility/pointer_types.h"
#include "xo/utility/memory_tools.h"
#include "xo/container/prop_node.h"
#include "xo/utility/proxy.h"
#include "xo/container/handle_vector.h"
#include "xo/container/collection.h"
#include "xo/container/collection_ic.h"
#include <map>
#include <set>
#include <optional>
#include <memory>
using std::string; using std::vector;

static long alive = 0; // instances, every one must be destroyed exactly once
template< int K > struct Elem { std::unique_ptr<int> p; Elem( int i = -99 ) : p( new int( i ) ) { ++alive; } Elem( const Elem& o ) : p( new int( *o.p ) ) { ++alive; } Elem( Elem&& o ) : p( std::move( o.p ) ) { o.p.reset( new int( -77 ) ); ++alive; } ~Elem() { --alive; }
	Elem& operator=( const Elem& o ) { *p = *o.p; return *this; } Elem& operator=( Elem&& o ) { *p = *o.p; return *this; } int id() const { return *p; } bool operator==( const Elem& o ) const { return *p == *o.p; } };

template< typename I > void vector_histories( mc::Ctx& c, int depth )
{
	using E = Elem<0>; using HV = xo::handle_vector<E, I>; using H = typename HV::handle_type; using S = typename HV::handle_span_type; alive = 0;
	{
		HV v; vector<int> m; std::map<int, H> issued; int next = 1; // element id -> handle issued for it
		auto compare = [&]
		{
			if ( !c.fresh() ) return; const HV& cv = v; c.eq( v.size(), m.size(), "size" ); c.eq( v.empty(), m.empty(), "empty" ); c.eq( alive, long( m.size() ), "live elements" );
			size_t k = 0; for ( auto& e : v ) { c.check( k < m.size() && e.id() == m[ k ], "iteration" ); ++k; } c.eq( k, m.size(), "iteration length" );
			for ( auto& i : issued ) { H h = i.second; c.check( bool( h ), "issued handle is invalid" ); c.check( v.contains( h ), "issued handle not contained" ); c.eq( v[ h ].id(), i.first, "element of handle" ); c.eq( cv[ h ].id(), i.first, "element of handle (const)" ); c.eq( v.iter( h )->id(), i.first, "iterator of handle" ); c.eq( cv.iter( h )->id(), i.first, "iterator of handle (const)" ); c.eq( h.iter( v )->id(), i.first, "iterator from handle" ); c.eq( h.iter( cv )->id(), i.first, "iterator from handle (const)" ); c.check( v.handle_from_iterator( v.begin() + h.value() ) == h, "handle of iterator" ); c.check( v.span().contains( h ) && !v.span().is_beyond( h ), "span contains handle" );
				for ( auto& j : issued ) c.check( ( h == j.second ) == ( i.first == j.first ) && ( h != j.second ) == ( i.first != j.first ), "handles of different elements are equal" ); c.check( h != H() && !( h == H() ), "issued handle equals the invalid handle" ); }
			c.check( !H() && H() == H() && !v.contains( H() ), "default handle" ); for ( size_t i = m.size(); i < m.size() + 4; ++i ) c.check( !v.contains( H( I( i ) ) ) && !v.span().contains( H( I( i ) ) ), "handle beyond the end is contained" ); c.check( !v.handle_from_iterator( v.end() ), "handle of the end" );
			size_t n = 0; for ( auto h : v.span() ) { c.check( n < m.size() && v[ h ].id() == m[ n ], "span iteration" ); ++n; } c.eq( n, m.size(), "span length" ); c.eq( size_t( v.span().size() ), m.size(), "span size" ); c.eq( v.span().empty(), m.empty(), "empty span" ); c.check( v.end_handle() == H( I( m.size() ) ) && v.span().is_beyond( v.end_handle() ) && !v.span().contains( v.end_handle() ) && H::end( v ) == v.end_handle(), "end handle" );
			if ( m.size() ) { c.eq( v[ v.back_handle() ].id(), m.back(), "back handle" ); c.check( H::back( v ) == v.back_handle(), "back of container" ); c.eq( v.back().id(), m.back(), "back" ); c.eq( v.front().id(), m.front(), "front" ); } else c.check( !H::back( v ), "back of an empty container" );
			for ( int id = 0; id <= next + 1; ++id ) { auto h = v.find( E( id ) ); size_t i = 0; while ( i < m.size() && m[ i ] != id ) ++i; c.check( i == m.size() ? !h : h && size_t( h.value() ) == i, "find" ); if ( m.size() ) { auto h2 = v.find( v.span( ++v.span_begin() ), E( id ) ); size_t j = 1; while ( j < m.size() && m[ j ] != id ) ++j; c.check( j >= m.size() ? !h2 : h2 && size_t( h2.value() ) == j, "find in span" ); } }
		};
		auto erased = [&]( size_t from, size_t to ) { for ( size_t i = from; i < to; ++i ) issued.erase( m[ i ] ); S moved( H( I( to ) ), H( I( m.size() ) ) ); typename S::iterator nb( ( H( I( from ) ) ) ); for ( auto& i : issued ) { H h = i.second; auto& r = xo::update_moved_handle( h, moved, nb ); c.check( &r == &h, "updated handle" ); i.second = h; } m.erase( m.begin() + from, m.begin() + to ); };
		compare();
		for ( int d = 0; d < depth; ++d )
		{
			switch ( c.choose( 9 ) )
			{
			case 0: { c.op( "push_back" ); const E e( next ); H h = v.push_back( e ); issued[ next ] = h; m.push_back( next++ ); break; }
			case 1: { c.op( "push_back moved" ); H h = v.push_back( E( next ) ); issued[ next ] = h; m.push_back( next++ ); break; }
			case 2: { c.op( "emplace_back" ); H h = v.emplace_back( next ); issued[ next ] = h; m.push_back( next++ ); break; }
			case 3: { if ( m.empty() ) throw mc::prune(); size_t i = c.choose( int( m.size() ) ); c.op( "erase %d", int( i ) ); H h = v.erase( H( I( i ) ) ); c.eq( size_t( h.value() ), i, "handle after erase" ); erased( i, i + 1 ); break; }
			case 4: { size_t a = c.choose( int( m.size() ) + 1 ), b = a + c.choose( int( m.size() - a ) + 1 ); c.op( "erase %d to %d", int( a ), int( b ) ); H h = v.erase( S( H( I( a ) ), H( I( b ) ) ) ); c.eq( size_t( h.value() ), a, "handle after erase" ); erased( a, b ); break; }
			case 5: if ( m.empty() ) throw mc::prune(); c.op( "pop_back" ); v.pop_back(); issued.erase( m.back() ); m.pop_back(); break;
			case 6: c.op( "clear" ); v.clear(); m.clear(); issued.clear(); break;
			case 7: c.op( "reserve" ); v.reserve( v.capacity() + 3 ); break;
			case 8: { if ( m.empty() ) throw mc::prune(); c.op( "copy, change copy" ); HV w = v; w.push_back( E( 500 ) ); w[ H( I( 0 ) ) ] = E( 501 ); { HV u; u = w; } w = HV(); break; }
			}
			compare(); string s; for ( int i : m ) s += std::to_string( i ) + ","; c.state( s );
		}
	}
	c.eq( alive, 0L, "elements not destroyed exactly once" );
}
MC_SUITE( "handle vector histories" ) { vector_histories<xo::uint32>( c, c.thorough ? 8 : 6 ); }
MC_SUITE( "handle vector histories, other index types" ) { switch ( c.choose( 3 ) ) { case 0: vector_histories<xo::uint8>( c, c.thorough ? 7 : 5 ); break; case 1: vector_histories<short>( c, c.thorough ? 7 : 5 ); break; case 2: vector_histories<xo::uint64>( c, c.thorough ? 7 : 5 ); break; } }

template< typename I > void overflow( mc::Ctx& c )
{
	xo::handle_vector<int, I> v; xo::collection<I, int, double> k; xo::collection_ic<I, int, double> ic; const int limit = std::numeric_limits<I>::max(); vector<xo::handle<int, I>> h, kh; vector<xo::index_class<int, I>> ih; int kind = c.choose( 3 ); c.op( "kind %d limit %d", kind, limit );
	for ( int i = 0; i < limit + 5; ++i )
	{
		bool ok = true; try { if ( kind == 0 ) h.push_back( i % 2 ? v.push_back( i ) : v.emplace_back( i ) ); else if ( kind == 1 ) kh.push_back( k.push_back( int( i ) ) ); else ih.push_back( ic.push_back( int( i ) ) ); } catch ( std::runtime_error& ) { ok = false; }
		if ( !ok ) { c.check( i >= limit - 1, "element rejected too early" ); c.eq( kind == 0 ? v.size() : kind == 1 ? k.template get_vec<int>().size() : ic.template get_vec<int>().size(), std::max( h.size(), std::max( kh.size(), ih.size() ) ), "size after rejected element" ); }
	}
	std::set<long> seen; for ( size_t i = 0; i < h.size(); ++i ) { c.check( bool( h[ i ] ), "valid handle" ); c.eq( v[ h[ i ] ], int( i ), "element of handle" ); c.check( seen.insert( long( h[ i ].value() ) ).second, "handle given twice" ); }
	for ( size_t i = 0; i < kh.size(); ++i ) { c.check( bool( kh[ i ] ), "valid handle" ); c.eq( k[ kh[ i ] ], int( i ), "element of handle" ); } for ( size_t i = 0; i < ih.size(); ++i ) { c.check( bool( ih[ i ] ), "valid index" ); c.eq( ic[ ih[ i ] ], int( i ), "element of index" ); } c.state( kind * 1000 + limit );
}
MC_SUITE( "more elements than the index type can hold" ) { switch ( c.choose( 2 ) ) { case 0: overflow<xo::uint8>( c ); break; case 1: overflow<signed char>( c ); break; } }

MC_SUITE( "collection histories" )
{
	alive = 0;
	{
		using A = Elem<0>; using B = Elem<1>; using C = xo::collection<xo::uint32, A, B, string>; C k; vector<int> ma, mb; vector<string> ms; int next = 1; vector<xo::handle<A, xo::uint32>> ha; vector<xo::handle<B, xo::uint32>> hb; vector<xo::handle<string, xo::uint32>> hs;
		int depth = c.thorough ? 8 : 6;
		for ( int d = 0; d < depth; ++d )
		{
			switch ( c.choose( 8 ) )
			{
			case 0: { c.op( "push A" ); const A e( next ); ha.push_back( k.push_back( e ) ); ma.push_back( next++ ); break; }
			case 1: { c.op( "push B" ); hb.push_back( k.push_back( B( next ) ) ); mb.push_back( next++ ); break; }
			case 2: { c.op( "push string" ); hs.push_back( k.push_back( "a string that is long enough for the heap " + std::to_string( next ) ) ); ms.push_back( "a string that is long enough for the heap " + std::to_string( next++ ) ); break; }
			case 3: { if ( ma.empty() ) throw mc::prune(); size_t i = c.choose( int( ma.size() ) ); c.op( "erase A %d", int( i ) ); k.erase( ha[ i ] ); ma.erase( ma.begin() + i ); ha.pop_back(); break; }
			case 4: { if ( mb.empty() ) throw mc::prune(); size_t i = c.choose( int( mb.size() ) ); c.op( "erase B from %d", int( i ) ); using S = xo::handle_span<B, xo::uint32>; k.erase( S( hb[ i ], xo::handle<B, xo::uint32>( xo::uint32( mb.size() ) ) ) ); mb.resize( i ); hb.resize( i ); break; }
			case 5: c.op( "clear" ); k.clear(); ma.clear(); mb.clear(); ms.clear(); ha.clear(); hb.clear(); hs.clear(); break;
			case 6: { if ( ma.empty() ) throw mc::prune(); c.op( "write A" ); k[ ha.back() ] = A( next ); ma.back() = next++; break; }
			case 7: { if ( ma.empty() ) throw mc::prune(); c.op( "copy" ); C l = k; l.push_back( A( 700 ) ); l[ ha[ 0 ] ] = A( 701 ); c.eq( l[ ha[ 0 ] ].id(), 701, "copy" ); break; }
			}
			const C& ck = k; c.eq( k.get_vec<A>().size(), ma.size(), "As" ); c.eq( ck.get_vec<B>().size(), mb.size(), "Bs" ); c.eq( k.get_vec<string>().size(), ms.size(), "strings" ); c.eq( alive, long( ma.size() + mb.size() ), "live elements" );
			for ( size_t i = 0; i < ma.size(); ++i ) { c.eq( k[ ha[ i ] ].id(), ma[ i ], "A of handle" ); c.eq( ck[ ha[ i ] ].id(), ma[ i ], "A of handle (const)" ); c.check( k.get_handle( k[ ha[ i ] ] ) == ha[ i ], "handle of A" ); }
			for ( size_t i = 0; i < mb.size(); ++i ) { c.eq( k[ hb[ i ] ].id(), mb[ i ], "B of handle" ); c.check( k.get_handle( ck[ hb[ i ] ] ) == hb[ i ], "handle of B" ); } for ( size_t i = 0; i < ms.size(); ++i ) c.eq( k[ hs[ i ] ], ms[ i ], "string of handle" );
			c.eq( std::get<0>( ck.data() ).size(), ma.size(), "data" ); c.state( mc::show( ma.size() ) + "," + mc::show( mb.size() ) + "," + mc::show( ms.size() ) + ":" + std::to_string( next ) );
		}
	}
	c.eq( alive, 0L, "elements not destroyed exactly once" );
}
MC_SUITE( "indexed collection histories" )
{
	alive = 0;
	{
		using A = Elem<0>; using C = xo::collection_ic<xo::uint32, A, string>; C k; vector<int> ma; vector<string> ms; int next = 1; using IA = xo::index_class<A, xo::uint32>; using IS = xo::index_class<string, xo::uint32>; vector<IA> ha; vector<IS> hs;
		int depth = c.thorough ? 8 : 6;
		for ( int d = 0; d < depth; ++d )
		{
			switch ( c.choose( 7 ) )
			{
			case 0: { c.op( "push A" ); const A e( next ); ha.push_back( k.push_back( e ) ); ma.push_back( next++ ); break; }
			case 1: { c.op( "push A moved" ); ha.push_back( k.push_back( A( next ) ) ); ma.push_back( next++ ); break; }
			case 2: { c.op( "push string" ); hs.push_back( k.push_back( "a string that is long enough for the heap " + std::to_string( next ) ) ); ms.push_back( "a string that is long enough for the heap " + std::to_string( next++ ) ); break; }
			case 3: { if ( ma.empty() ) throw mc::prune(); size_t i = c.choose( int( ma.size() ) ); c.op( "erase A %d", int( i ) ); auto r = k.erase( ha[ i ] ); c.check( r == ha[ i ], "index after erase" ); ma.erase( ma.begin() + i ); ha.pop_back(); break; }
			case 4: { if ( ma.empty() ) throw mc::prune(); c.op( "pop_back A" ); k.pop_back<A>(); ma.pop_back(); ha.pop_back(); break; }
			case 5: c.op( "clear" ); k.clear(); ma.clear(); ms.clear(); ha.clear(); hs.clear(); break;
			case 6: { if ( ma.empty() ) throw mc::prune(); c.op( "write A" ); k[ ha[ 0 ] ] = A( next ); ma[ 0 ] = next++; break; }
			}
			const C& ck = k; c.eq( k.get_vec<A>().size(), ma.size(), "As" ); c.eq( ck.get_vec<string>().size(), ms.size(), "strings" ); c.eq( alive, long( ma.size() ), "live elements" );
			for ( size_t i = 0; i < ma.size(); ++i ) { c.check( bool( ha[ i ] ), "valid index" ); c.eq( k[ ha[ i ] ].id(), ma[ i ], "A of index" ); c.eq( ck[ ha[ i ] ].id(), ma[ i ], "A of index (const)" ); c.check( k.get_index( k[ ha[ i ] ] ) == ha[ i ], "index of A" ); c.eq( ha[ i ].iter( k.get_vec<A>() )->id(), ma[ i ], "iterator of index" ); }
			for ( size_t i = 0; i < ms.size(); ++i ) c.eq( k[ hs[ i ] ], ms[ i ], "string of index" );
			auto sp = k.get_index_span<A>(); c.eq( size_t( sp.size() ), ma.size(), "span size" ); c.eq( sp.empty(), ma.empty(), "empty span" ); size_t n = 0; for ( auto i : sp ) { c.eq( k[ i ].id(), ma[ n++ ], "span iteration" ); } c.eq( n, ma.size(), "span length" ); c.check( ( k.begin_index<A>() == k.end_index<A>() ) == ma.empty(), "begin and end index" ); if ( ma.empty() ) c.check( !k.back_index<A>(), "back index of nothing" ); else c.eq( k[ k.back_index<A>() ].id(), ma.back(), "back index" );
			n = 0; for ( auto it = k.begin<A>(); it != k.end<A>(); ++it ) c.eq( it->id(), ma[ n++ ], "iteration" ); c.eq( n, ma.size(), "iteration length" );
			n = 0; for ( auto it = ck.begin<A>(); it != ck.end<A>(); ++it ) c.eq( it->id(), ma[ n++ ], "iteration (const)" ); c.eq( n, ma.size(), "iteration length (const)" ); c.state( mc::show( ma.size() ) + "," + mc::show( ms.size() ) + ":" + std::to_string( next ) );
		}
	}
	c.eq( alive, 0L, "elements not destroyed exactly once" );
}
// handles and indices as values --------------------------------------------------------------------------
template< typename H, typename I > void handle_values( mc::Ctx& c )
{
	// state of each of two handles: no value or a value; every operation sequence
	H h[ 2 ]; std::optional<long> m[ 2 ]; const vector<long> V = { 0, 1, long( I( ~I( 0 ) ) ) - 1 };
	for ( int d = 0; d < 4; ++d )
	{
		int a = c.choose( 2 );
		switch ( c.choose( 7 ) )
		{
		case 0: { long v = c.pick( V ); c.op( "%d = %ld", a, v ); h[ a ] = H( I( v ) ); m[ a ] = v; break; }
		case 1: c.op( "%d = other", a ); h[ a ] = h[ !a ]; m[ a ] = m[ !a ]; break;
		case 2: { c.op( "move from other to %d", a ); h[ a ] = std::move( h[ !a ] ); m[ a ] = m[ !a ]; h[ !a ].reset(); m[ !a ].reset(); break; }
		case 3: c.op( "reset %d", a ); h[ a ].reset(); m[ a ].reset(); break;
		case 4: { c.op( "copy constructed" ); H t( h[ a ] ); h[ !a ] = t; m[ !a ] = m[ a ]; break; }
		case 5: { c.op( "move constructed" ); H t( std::move( h[ a ] ) ); c.check( !h[ a ] && h[ a ] == H(), "moved-from handle designates something" ); m[ !a ] = m[ a ]; m[ a ].reset(); h[ !a ] = std::move( t ); break; }
		case 6: c.op( "swap" ); std::swap( h[ 0 ], h[ 1 ] ); std::swap( m[ 0 ], m[ 1 ] ); break;
		}
		string s; for ( int i = 0; i < 2; ++i ) { c.eq( bool( h[ i ] ), m[ i ].has_value(), "validity" ); c.eq( h[ i ] == H(), !m[ i ].has_value(), "equal to the invalid handle" ); c.eq( h[ i ] != H(), m[ i ].has_value(), "different from the invalid handle" ); if ( m[ i ] ) c.eq( long( h[ i ].value() ), *m[ i ], "value" ); s += m[ i ] ? std::to_string( *m[ i ] ) : "-"; s += ","; }
		c.eq( h[ 0 ] == h[ 1 ], m[ 0 ] == m[ 1 ], "equal" ); c.eq( h[ 0 ] != h[ 1 ], m[ 0 ] != m[ 1 ], "different" ); if ( m[ 0 ] && m[ 1 ] ) { c.eq( h[ 0 ] < h[ 1 ], *m[ 0 ] < *m[ 1 ], "order" ); } c.check( !( h[ 0 ] < h[ 0 ] ), "irreflexive order" ); c.state( s );
	}
}
struct X {}; struct Y {};
MC_SUITE( "handle values" ) { switch ( c.choose( 4 ) ) { case 0: handle_values<xo::handle<X>, xo::uint32>( c ); break; case 1: handle_values<xo::handle<X, xo::uint8>, xo::uint8>( c ); break; case 2: handle_values<xo::index_class<X>, xo::uint32>( c ); break; case 3: handle_values<xo::index_class<X, xo::uint8>, xo::uint8>( c ); break; } }
MC_SUITE( "typed index arithmetic" )
{
	using I8 = xo::index_class<X, xo::uint8>; int v = c.choose( 256 ), w = c.choose( 256 ); c.op( "%d %d", v, w ); c.state( v * 256 + w ); I8 a{ xo::uint8( v ) }, b( w ); c.eq( bool( a ), v != 255, "valid" ); c.eq( bool( b ), w != 255, "valid from int" ); c.eq( a == b, v == w, "==" ); c.eq( a != b, v != w, "!=" ); c.eq( a < b, v < w, "<" ); c.eq( a <= b, v <= w, "<=" ); c.eq( a > b, v > w, ">" ); c.eq( a >= b, v >= w, ">=" );
	if ( v + w < 255 ) c.eq( int( ( a + xo::uint8( w ) ).value() ), v + w, "sum" ); if ( v != 255 && w <= v ) c.eq( int( ( a - xo::uint8( w ) ).value() ), v - w, "difference" ); if ( v < 254 ) { I8 d = a; c.eq( int( ( d++ ).value() ), v, "post increment" ); c.eq( int( d.value() ), v + 1, "incremented" ); I8 e = a; c.eq( int( ( ++e ).value() ), v + 1, "pre increment" ); }
	c.check( !I8( -1 - v ) && !I8( 255 + w ) && !I8( size_t( 255 + v ) ) && !I8( size_t( -1 ) ) && I8( size_t( 254 ) ) && ( I8( size_t( v ) ) == a ), "indices outside the range are invalid" ); xo::index_class<Y, xo::uint8> y( a ); c.check( y.value() == a.value() && bool( y ) == bool( a ), "converted index" ); xo::handle<X, xo::uint8> h( a.value() ); xo::handle<Y, xo::uint8> hy( h ); c.check( hy.value() == h.value() && bool( hy ) == bool( h ), "converted handle" );
	if ( v <= w ) { xo::index_span<X, xo::uint8> sp( a, b ); c.eq( int( sp.size() ), w - v, "span size" ); c.eq( sp.empty(), v == w, "empty span" ); int n = 0; for ( auto i : sp ) c.eq( int( i.value() ), v + n++, "span element" ); c.eq( n, w - v, "span length" ); using HS = xo::handle_span<X, xo::uint8>; using H = xo::handle<X, xo::uint8>; HS hs{ H( xo::uint8( v ) ), H( xo::uint8( w ) ) }; c.eq( int( hs.size() ), w - v, "handle span size" ); c.eq( hs.empty(), v == w, "empty handle span" ); n = 0; for ( auto it = hs.begin(); it != hs.end(); it++ ) { c.eq( int( it.value() ), v + n, "handle span element" ); c.eq( int( ( *it ).value() ), v + n, "handle" ); ++n; } c.eq( n, w - v, "handle span length" );
		for ( int p : { v - 1, v, ( v + w ) / 2, w - 1, w, w + 1 } ) if ( p >= 0 && p < 255 ) { H q{ xo::uint8( p ) }; c.eq( hs.contains( q ), p >= v && p < w, "contains" ); c.eq( hs.is_beyond( q ), p >= w, "is beyond" ); } c.check( !hs.contains( H() ), "contains the invalid handle" );
		// elements [v,w) move down by k
		for ( int k : { 0, 1, v } ) if ( k <= v ) for ( int p : { 0, v - 1, v, w - 1, w } ) if ( p >= 0 && p < 255 ) { H q{ xo::uint8( p ) }; typename HS::iterator nb{ H( xo::uint8( v - k ) ) }; xo::update_moved_handle( q, hs, nb ); c.eq( int( q.value() ), p >= v && p < w ? p - k : p, "moved handle" ); } }
	{ xo::handle_span<X> e; c.check( e.empty() && e.size() == 0 && !e.contains( xo::handle<X>( 0u ) ), "default span" ); }
}
// owning pointers ------------------------------------------------------------------------------------------
struct Base { Base() { ++alive; } Base( const Base& ) { ++alive; } virtual ~Base() { --alive; } int v = 1; }; struct D1 : Base { int w = 2; }; struct D2 : Base { string s = "a string that is long enough for the heap"; }; struct D11 : D1 {};
MC_SUITE( "casting and cloning owning pointers" )
{
	alive = 0;
	{
		int kind = c.choose( 5 ), how = c.choose( 2 ); c.op( "%d %d", kind, how ); c.state( kind * 2 + how ); xo::u_ptr<Base> p( kind == 0 ? nullptr : kind == 1 ? new Base : kind == 2 ? new D1 : kind == 3 ? (Base*)new D2 : new D11 ); Base* raw = p.get(); bool is = kind == 2 || kind == 4;
		if ( how == 0 ) { auto r = xo::try_dynamic_unique_cast<D1>( p ); c.check( ( r != nullptr ) == is, "cast result" ); c.check( is ? r.get() == raw && !p : p.get() == raw, "ownership" ); c.eq( alive, long( kind != 0 ), "objects" ); }
		else { auto r = xo::dynamic_unique_cast<D1>( std::move( p ) ); c.check( ( r != nullptr ) == is, "cast result" ); if ( is ) c.check( r.get() == raw && !p, "ownership" ); }
	}
	c.eq( alive, 0L, "objects not destroyed exactly once" );
	{ vector<std::unique_ptr<Elem<0>>> v; int n = c.choose( 4 ); for ( int i = 0; i < n; ++i ) v.push_back( std::make_unique<Elem<0>>( i ) ); auto w = xo::clone( v ); c.eq( int( w.size() ), n, "clones" ); for ( int i = 0; i < n; ++i ) { c.check( w[ i ]->id() == i && w[ i ] != v[ i ], "clone" ); *w[ i ] = Elem<0>( 9 ); c.eq( v[ i ]->id(), i, "original" ); } c.eq( alive, 2L * n, "objects" ); Elem<0> e( 4 ); const Elem<0>* ce = &e; c.check( &xo::dereference_or_throw( &e, "x" ) == &e && &xo::dereference_or_throw( ce, "x" ) == &e, "dereference" ); c.must_throw( [&] { xo::dereference_or_throw( (Elem<0>*)nullptr, "x" ); }, "dereferencing null" ); c.must_throw( [&] { xo::dereference_or_throw( (const Elem<0>*)nullptr, "x" ); }, "dereferencing null" ); }
	c.eq( alive, 0L, "objects not destroyed exactly once" );
}
// interned values ------------------------------------------------------------------------------------------
static xo::indexed_set<string, xo::uint8>& names() { static xo::indexed_set<string, xo::uint8> s; return s; }
namespace xo { template<> struct proxy_data<string, uint8> { static const string& get_value( uint8 i ) { return names()[ i ]; } static uint8 get_index( const string& v ) { return names().get_or_add( v ); } }; }
MC_SUITE( "proxies of interned values" )
{
	using P = xo::proxy<string, xo::uint8>; names().clear(); static const vector<string> V = { "", "a", "b", "a string that is long enough for the heap" }; P p[ 3 ]; string m[ 3 ];
	for ( int d = 0; d < 4; ++d ) { int i = c.choose( 3 ); string v = c.pick( V ); switch ( c.choose( 4 ) ) { case 0: p[ i ] = v; m[ i ] = v; break; case 1: p[ i ].set( v ); m[ i ] = v; break; case 2: p[ i ] = P( v ); m[ i ] = v; break; case 3: p[ i ] = p[ ( i + 1 ) % 3 ]; m[ i ] = m[ ( i + 1 ) % 3 ]; break; } c.op( "%d %s", i, v.c_str() );
		for ( int a = 0; a < 3; ++a ) { c.eq( p[ a ].get(), m[ a ], "value" ); const string& s = p[ a ]; c.eq( s, m[ a ], "converted value" ); for ( int b = 0; b < 3; ++b ) { c.eq( p[ a ] == p[ b ], m[ a ] == m[ b ], "equal" ); c.eq( p[ a ] != p[ b ], m[ a ] != m[ b ], "different" ); c.eq( p[ a ].index() == p[ b ].index(), m[ a ] == m[ b ], "index" ); } } c.state( m[ 0 ] + "|" + m[ 1 ] + "|" + m[ 2 ] ); }
}
// many elements: build, erase a stretch, one element, the last one, and build on
template< typename I > void larger( mc::Ctx& c )
{
	static const vector<int> N = { 7, 8, 9, 15, 16, 17, 31, 33, 64, 65, 127, 200, 254 }; int n = c.pick( N ), a = c.choose( 5 ), b = c.choose( 5 ), one = c.choose( 4 ), more = c.pick( { 0, 1, 20, 70 } ), kind = c.choose( 3 ); if ( a > b || n + more > 255 ) return;
	auto pos = [&]( int k, size_t z ) { return k == 0 ? 0 : k == 1 ? std::min<size_t>( 1, z ) : k == 2 ? z / 2 : k == 3 ? z - ( z > 0 ) : z; }; c.op( "kind %d: %d elements, erase %d to %d, then %d, then add %d", kind, n, int( pos( a, n ) ), int( pos( b, n ) ), one, more ); c.state( ( ( ( ( kind * 300 + n ) * 10 + a ) * 10 + b ) * 10 + one ) * 100 + more );
	using E = Elem<0>; alive = 0;
	{
		vector<int> m; using HV = xo::handle_vector<E, I>; using H = typename HV::handle_type; HV v; xo::collection<I, E, string> k; xo::collection_ic<I, E, string> ic; using IC = xo::index_class<E, I>; auto h = [&]( size_t i ) { return H( I( i ) ); }; auto ix = [&]( size_t i ) { return IC{ I( i ) }; };
		auto push = [&]( int x ) { size_t at = kind == 0 ? size_t( ( x % 2 ? v.push_back( E( x ) ) : v.emplace_back( x ) ).value() ) : kind == 1 ? size_t( k.push_back( E( x ) ).value() ) : size_t( ic.push_back( E( x ) ).value() ); c.eq( at, m.size(), "handle of new element" ); m.push_back( x ); };
		auto erase1 = [&]( size_t i ) { size_t at = kind == 0 ? size_t( v.erase( h( i ) ).value() ) : kind == 1 ? ( k.erase( h( i ) ), i ) : size_t( ic.erase( ix( i ) ).value() ); c.eq( at, i, "handle after erase" ); m.erase( m.begin() + i ); };
		auto compare = [&]
		{
			c.eq( alive, long( m.size() ), "live elements" ); c.eq( kind == 0 ? v.size() : kind == 1 ? k.template get_vec<E>().size() : ic.template get_vec<E>().size(), m.size(), "size" );
			for ( size_t i = 0; i < m.size(); ++i )
			{
				c.eq( kind == 0 ? v[ h( i ) ].id() : kind == 1 ? k[ h( i ) ].id() : ic[ ix( i ) ].id(), m[ i ], "element of handle" );
				if ( kind == 0 ) { c.check( v.contains( h( i ) ), "contained" ); c.check( v.find( E( m[ i ] ) ) == h( i ), "found" ); c.check( v.handle_from_iterator( v.begin() + i ) == h( i ), "handle of iterator" ); }
				else if ( kind == 1 ) c.check( k.get_handle( k[ h( i ) ] ) == h( i ), "handle of element" ); else c.check( ic.get_index( ic[ ix( i ) ] ) == ix( i ), "index of element" );
			}
			if ( kind == 0 ) { for ( size_t i = m.size(); i < 255; ++i ) c.check( !v.contains( h( i ) ), "handle beyond the end" ); size_t q = 0; for ( auto x : v.span() ) { c.check( q < m.size() && v[ x ].id() == m[ q ], "span iteration" ); ++q; } c.eq( q, m.size(), "span length" ); }
		};
		for ( int i = 0; i < n; ++i ) push( 10 + i ); compare();
		size_t f = pos( a, m.size() ), t = pos( b, m.size() ); if ( kind == 0 ) v.erase( typename HV::handle_span_type( h( f ), h( t ) ) ); else if ( kind == 1 ) k.erase( xo::handle_span<E, I>( h( f ), h( t ) ) ); else for ( size_t i = f; i < t; ++i ) ic.erase( ix( f ) ); m.erase( m.begin() + f, m.begin() + t ); compare();
		if ( m.size() ) { erase1( pos( one, m.size() ) % m.size() ); compare(); } for ( int i = 0; i < more; ++i ) push( 1000 + i ); compare(); if ( m.size() ) { erase1( m.size() - 1 ); compare(); } push( 5 ); compare();
		if ( kind == 0 ) { HV w = v; w.clear(); v.reserve( 1 ); compare(); v.clear(); } else if ( kind == 1 ) k.clear(); else ic.clear(); m.clear(); compare(); push( 6 ); compare();
	}
	c.eq( alive, 0L, "elements not destroyed exactly once" );
}
MC_SUITE( "larger handle vectors and collections" ) { if ( c.flip() ) larger<xo::uint8>( c ); else larger<xo::uint32>( c ); }
