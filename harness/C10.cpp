// C10: flat_map, flat_set, indexed_map, indexed_set, sorted_vector against std reference containers.
#include "mc.h"
#include "xo/container/flat_map.h"
#include "xo/container/flat_set.h"
#include "xo/container/indexed_map.h"
#include "xo/container/indexed_set.h"
#include "xo/container/sorted_vector.h"
#include <map>
#include <set>
#include <memory>
using std::string;

// key types -------------------------------------------------------------------------------------------
template< typename K > K mk( int i );
template<> int mk<int>( int i ) { return i * 3 - 4; }
template<> string mk<string>( int i ) { static const char* s[] = { "", "a", "aa", "b", "ab", "B", "\xc3\xa9", "zz" }; return i < 8 ? s[ i ] : "k" + std::to_string( i ); }
template<> double mk<double>( int i ) { return i * 0.5 - 1; }
// a key that owns memory and detects use after move / double free through ASan
struct Own { std::unique_ptr<int> p; Own( int i = -99 ) : p( new int( i ) ) {} Own( const Own& o ) : p( new int( *o.p ) ) {} Own( Own&& o ) : p( std::move( o.p ) ) { o.p.reset( new int( -77 ) ); }
	Own& operator=( const Own& o ) { *p = *o.p; return *this; } Own& operator=( Own&& o ) { *p = *o.p; *o.p = -77; return *this; }
	bool operator<( const Own& o ) const { return *p < *o.p; } bool operator==( const Own& o ) const { return *p == *o.p; } bool operator!=( const Own& o ) const { return *p != *o.p; } };
namespace mc { inline std::string show( const Own& o ) { return std::to_string( *o.p ); } }
std::ostream& operator<<( std::ostream& s, const Own& o ) { return s << *o.p; }
template<> Own mk<Own>( int i ) { return Own( i ); }

template< typename K, typename V > string canon( const std::map<K, V>& m ) { string s; for ( auto& [k, v] : m ) s += mc::show( k ) + "=" + mc::show( v ) + ","; return s; }

template< typename K, typename V, typename M >
void compare_map( mc::Ctx& c, M& m, const std::map<K, V>& r, int nk )
{
	if ( !c.fresh() ) return;
	const M& cm = m;
	c.eq( m.size(), r.size(), "size" );
	c.eq( m.empty(), r.empty(), "empty" );
	// iteration order and content, all iterator flavours
	auto rit = r.begin();
	for ( auto it = m.begin(); it != m.end(); ++it, ++rit ) { c.check( rit != r.end(), "iterates too far" ); c.check( it->first == rit->first && it->second == rit->second, "iteration order or content" ); }
	c.check( rit == r.end(), "iteration ends early" );
	rit = r.begin();
	for ( auto& kv : cm ) { c.check( kv.first == rit->first && kv.second == rit->second, "const iteration" ); ++rit; }
	rit = r.begin();
	for ( auto it = cm.cbegin(); it != cm.cend(); ++it ) { c.check( it->first == rit->first, "cbegin iteration" ); ++rit; }
	auto rr = r.rbegin();
	for ( auto it = m.rbegin(); it != m.rend(); ++it, ++rr ) c.check( rr != r.rend() && it->first == rr->first && it->second == rr->second, "reverse iteration" );
	rr = r.rbegin();
	for ( auto it = cm.crbegin(); it != cm.crend(); ++it, ++rr ) c.check( rr != r.rend() && it->first == rr->first, "const reverse iteration" );
	if ( !r.empty() )
	{
		c.check( m.front().first == r.begin()->first && cm.front().second == r.begin()->second, "front" );
		c.check( m.back().first == r.rbegin()->first && cm.back().second == r.rbegin()->second, "back" );
	}
	for ( int i = 0; i < nk; ++i )
	{
		K k = mk<K>( i );
		auto f = r.find( k );
		bool in = f != r.end();
		c.eq( cm.contains( k ), in, "contains" );
		c.eq( cm.count( k ), size_t( in ), "count" );
		c.check( ( m.find( k ) != m.end() ) == in, "find" );
		c.check( ( cm.find( k ) != cm.end() ) == in, "const find" );
		if ( in )
		{
			c.check( m.find( k )->first == k && m.find( k )->second == f->second, "find result" );
			c.check( cm.find( k )->second == f->second, "const find result" );
			c.check( m.at( k ) == f->second && cm.at( k ) == f->second && cm[ k ] == f->second, "at" );
		}
		else
		{
			c.must_throw( [&] { m.at( k ); }, "at() of absent key must throw" );
			c.must_throw( [&] { cm.at( k ); }, "const at() of absent key must throw" );
			c.must_throw( [&] { cm[ k ]; }, "const [] of absent key must throw" );
		}
		c.check( ( m.lower_bound( k ) - m.begin() ) == std::distance( r.begin(), r.lower_bound( k ) ), "lower_bound" );
		c.check( ( cm.lower_bound( k ) - cm.begin() ) == std::distance( r.begin(), r.lower_bound( k ) ), "const lower_bound" );
		c.check( ( m.upper_bound( k ) - m.begin() ) == std::distance( r.begin(), r.upper_bound( k ) ), "upper_bound" );
		c.check( ( cm.upper_bound( k ) - cm.begin() ) == std::distance( r.begin(), r.upper_bound( k ) ), "const upper_bound" );
	}
	c.eq( m.size(), r.size(), "size changed by queries" );
}

template< typename K, typename V >
void map_ops( mc::Ctx& c, int nk, int nv, int depth, bool dedup )
{
	using M = xo::flat_map<K, V>;
	M m; std::map<K, V> r;
	M snap; std::map<K, V> rsnap; // copies made along the way stay independent
	for ( int d = 0; d < depth; ++d )
	{
		compare_map( c, m, r, nk );
		compare_map( c, snap, rsnap, nk );
		auto cs = canon( r ) + "|" + canon( rsnap );
		if ( dedup ) { if ( c.seen( cs, depth - d ) ) return; } else c.state( cs );
		int o = c.choose( 13 );
		auto key = [&] { return mk<K>( c.choose( nk ) ); };
		auto val = [&] { return mk<V>( c.choose( nv ) ); };
		switch ( o )
		{
		case 0: return; // stop here
		case 1: { K k = key(); V v = val(); c.op( "insert(const&) %s=%s", mc::show( k ).c_str(), mc::show( v ).c_str() ); typename M::value_type p( k, v );
			auto ret = m.insert( p ); auto rr = r.insert( { k, v } ); c.eq( ret.second, rr.second, "insert result" ); c.check( ret.first->first == k && ret.first->second == rr.first->second, "insert iterator" );
			c.check( p.first == k && p.second == v, "insert modified its argument" ); break; }
		case 2: { K k = key(); V v = val(); c.op( "insert(&&) %s=%s", mc::show( k ).c_str(), mc::show( v ).c_str() );
			auto ret = m.insert( typename M::value_type( k, v ) ); auto rr = r.insert( { k, v } ); c.eq( ret.second, rr.second, "insert result" ); c.check( ret.first->first == k && ret.first->second == rr.first->second, "insert iterator" ); break; }
		case 3: { K k = key(); V v = val(); c.op( "[%s]=%s", mc::show( k ).c_str(), mc::show( v ).c_str() ); m[ k ] = v; r[ k ] = v; break; }
		case 4: { K k = key(); c.op( "[%s]", mc::show( k ).c_str() ); V a = m[ k ]; V b = r[ k ]; c.check( a == b, "[] value" ); break; }
		case 5: { K k = key(); c.op( "erase %s", mc::show( k ).c_str() ); auto n = m.erase( k ); c.eq( n, r.erase( k ), "erase count" ); break; }
		case 6: { if ( r.empty() ) return; int i = c.choose( (int)r.size() ); c.op( "erase it %d", i ); auto it = m.erase( m.begin() + i ); r.erase( std::next( r.begin(), i ) );
			c.check( it - m.begin() == i, "erase iterator" ); break; }
		case 7: c.op( "clear" ); m.clear(); r.clear(); break;
		case 8: c.op( "copy" ); { M m2( m ); snap = m2; rsnap = r; break; }
		case 9: { c.op( "move" ); M m2( std::move( m ) ); compare_map( c, m2, r, nk ); m = std::move( m2 ); break; }
		case 10: { K k = key(); if ( !r.count( k ) ) return; V v = val(); c.op( "at(%s)=%s", mc::show( k ).c_str(), mc::show( v ).c_str() ); m.at( k ) = v; r.at( k ) = v; break; }
		case 11: { c.op( "restore copy" ); m = snap; r = rsnap; break; }
		case 12: { K k = key(); auto it = r.find( k ); if ( it == r.end() ) return; V v = val(); c.op( "find(%s)->second=%s", mc::show( k ).c_str(), mc::show( v ).c_str() ); m.find( k )->second = v; it->second = v; break; }
		}
	}
	compare_map( c, m, r, nk );
	compare_map( c, snap, rsnap, nk );
}

MC_SUITE( "flat_map<int,int> histories" ) { map_ops<int, int>( c, 3, 2, c.thorough ? 5 : 4, false ); }
MC_SUITE( "flat_map<string,string> closure" ) { map_ops<string, string>( c, c.thorough ? 5 : 4, 2, c.thorough ? 9 : 7, true ); }
MC_SUITE( "flat_map<owning> closure" ) { map_ops<Own, Own>( c, 3, 2, c.thorough ? 8 : 6, true ); }

MC_SUITE( "flat_map initializer list" )
{
	int n = c.choose( c.thorough ? 7 : 6 );
	std::vector< std::pair<int, int> > l; std::map<int, int> r;
	for ( int i = 0; i < n; ++i ) { int k = c.choose( 4 ), v = i; l.push_back( { mk<int>( k ), v } ); r.insert( l.back() ); }
	c.op( "init %s", mc::show( l ).c_str() );
	using M = xo::flat_map<int, int>; using P = M::value_type;
	auto go = [&]( M m ) { compare_map( c, m, r, 5 ); };
	switch ( n )
	{
	case 0: go( M{} ); break;
	case 1: go( M( { l[ 0 ] } ) ); break;
	case 2: go( M( { l[ 0 ], l[ 1 ] } ) ); break;
	case 3: go( M( { l[ 0 ], l[ 1 ], l[ 2 ] } ) ); break;
	case 4: go( M( { l[ 0 ], l[ 1 ], l[ 2 ], l[ 3 ] } ) ); break;
	case 5: go( M( { l[ 0 ], l[ 1 ], l[ 2 ], l[ 3 ], l[ 4 ] } ) ); break;
	case 6: go( M( { l[ 0 ], l[ 1 ], l[ 2 ], l[ 3 ], l[ 4 ], l[ 5 ] } ) ); break;
	}
	c.state( mc::show( l ) );
}

/// permutation families for larger sizes: ascending, descending, zig-zag, and every stride coprime to n
static std::vector<int> family( int n, int f )
{
	std::vector<int> v;
	if ( f == 0 ) for ( int i = 0; i < n; ++i ) v.push_back( i );
	else if ( f == 1 ) for ( int i = n; i-- > 0; ) v.push_back( i );
	else if ( f == 2 ) for ( int i = 0; i < n; ++i ) v.push_back( i % 2 ? n - 1 - i / 2 : i / 2 );
	else { std::set<int> s; int step = f * 2 - 1; for ( int i = 0, x = 0; i < n; ++i ) { while ( s.count( x % n ) ) ++x; v.push_back( x % n ); s.insert( x % n ); x += step; } }
	return v;
}

MC_SUITE( "flat_map and flat_set, larger sizes" )
{
	int n = c.choose( c.thorough ? 140 : 70 ), f = c.choose( 8 ), g = c.choose( 4 ), how = c.choose( 2 );
	c.op( "n=%d insert order %d erase order %d", n, f, g );
	xo::flat_map<int, int> m; std::map<int, int> r; xo::flat_set<int> s;
	for ( int i : family( n, f ) ) { if ( how ) m[ i ] = i * 7; else m.insert( { i, i * 7 } ); r[ i ] = i * 7; c.check( s.insert( i ).second, "set insert" ); c.check( !s.insert( i ).second, "set re-insert" ); }
	auto cmp = [&] {
		c.eq( m.size(), r.size(), "map size" ); c.eq( s.size(), r.size(), "set size" );
		auto it = r.begin(); for ( auto& kv : m ) { c.check( it != r.end() && kv.first == it->first && kv.second == it->second, "map content" ); ++it; }
		it = r.begin(); for ( auto& k : s ) { c.check( it != r.end() && k == it->first, "set content" ); ++it; }
		for ( int i = -1; i <= n; ++i ) { c.check( m.contains( i ) == ( r.count( i ) > 0 ), "map contains" ); c.check( s.contains( i ) == ( r.count( i ) > 0 ), "set contains" ); if ( r.count( i ) ) c.check( m[ i ] == i * 7, "map value" ); } };
	cmp();
	int k = 0;
	for ( int i : family( n, g ) ) { c.eq( m.erase( i ), size_t( 1 ), "erase" ); c.eq( m.erase( i ), size_t( 0 ), "erase again" ); c.eq( s.erase( i ), size_t( 1 ), "set erase" ); r.erase( i ); if ( ++k % 8 == 0 || k == n ) cmp(); }
	c.state( mc::mix( n, f * 8 + g ) );
}

// ---- flat_set ------------------------------------------------------------------------------------------
template< typename K >
void compare_set( mc::Ctx& c, xo::flat_set<K>& m, const std::set<K>& r, int nk )
{
	if ( !c.fresh() ) return;
	const auto& cm = m;
	c.eq( m.size(), r.size(), "size" ); c.eq( m.empty(), r.empty(), "empty" );
	auto rit = r.begin(); for ( auto& k : m ) { c.check( rit != r.end() && k == *rit, "iteration" ); ++rit; } c.check( rit == r.end(), "iteration ends early" );
	rit = r.begin(); for ( auto& k : cm ) { c.check( rit != r.end() && k == *rit, "const iteration" ); ++rit; }
	rit = r.begin(); for ( auto& k : cm.container() ) { c.check( rit != r.end() && k == *rit, "container()" ); ++rit; }
	rit = r.begin(); for ( auto it = cm.cbegin(); it != cm.cend(); ++it ) { c.check( *it == *rit, "cbegin" ); ++rit; }
	auto rr = r.rbegin(); for ( auto it = m.rbegin(); it != m.rend(); ++it ) { c.check( *it == *rr, "rbegin" ); ++rr; }
	rr = r.rbegin(); for ( auto it = cm.crbegin(); it != cm.crend(); ++it ) { c.check( *it == *rr, "crbegin" ); ++rr; }
	if ( !r.empty() ) { c.check( m.front() == *r.begin() && cm.front() == *r.begin(), "front" ); c.check( m.back() == *r.rbegin() && cm.back() == *r.rbegin(), "back" ); }
	for ( int i = 0; i < nk; ++i )
	{
		K k = mk<K>( i ); bool in = r.count( k ) > 0;
		c.eq( cm.contains( k ), in, "contains" ); c.eq( cm.count( k ), size_t( in ), "count" );
		c.check( ( m.find( k ) != m.end() ) == in && ( cm.find( k ) != cm.end() ) == in, "find" );
		if ( in ) c.check( *m.find( k ) == k && *cm.find( k ) == k, "find result" );
		c.check( m.lower_bound( k ) - m.begin() == std::distance( r.begin(), r.lower_bound( k ) ), "lower_bound" );
		c.check( cm.lower_bound( k ) - cm.begin() == std::distance( r.begin(), r.lower_bound( k ) ), "const lower_bound" );
		c.check( m.upper_bound( k ) - m.begin() == std::distance( r.begin(), r.upper_bound( k ) ), "upper_bound" );
		c.check( cm.upper_bound( k ) - cm.begin() == std::distance( r.begin(), r.upper_bound( k ) ), "const upper_bound" );
	}
}
template< typename K > void set_ops( mc::Ctx& c, int nk, int depth, bool dedup )
{
	xo::flat_set<K> m; std::set<K> r;
	for ( int d = 0; d < depth; ++d )
	{
		compare_set( c, m, r, nk );
		string cs; for ( auto& k : r ) cs += mc::show( k ) + ",";
		if ( dedup ) { if ( c.seen( cs, depth - d ) ) return; } else c.state( cs );
		switch ( c.choose( 7 ) )
		{
		case 0: return;
		case 1: { K k = mk<K>( c.choose( nk ) ); c.op( "insert %s", mc::show( k ).c_str() ); auto a = m.insert( k ); auto b = r.insert( k ); c.eq( a.second, b.second, "insert" ); c.check( *a.first == k, "insert iterator" ); break; }
		case 2: { K k = mk<K>( c.choose( nk ) ); c.op( "insert && %s", mc::show( k ).c_str() ); auto a = m.insert( K( k ) ); auto b = r.insert( k ); c.eq( a.second, b.second, "insert" ); c.check( *a.first == k, "insert iterator" ); break; }
		case 3: { K k = mk<K>( c.choose( nk ) ); c.op( "erase %s", mc::show( k ).c_str() ); c.eq( m.erase( k ), r.erase( k ), "erase" ); break; }
		case 4: { if ( r.empty() ) return; int i = c.choose( (int)r.size() ); c.op( "erase it %d", i ); auto it = m.erase( m.begin() + i ); r.erase( std::next( r.begin(), i ) ); c.check( it - m.begin() == i, "erase it" ); break; }
		case 5: c.op( "clear" ); m.clear(); r.clear(); break;
		case 6: { c.op( "copy+move" ); auto m2 = m; auto m3 = std::move( m2 ); m.clear(); m.reserve( 3 ); m = m3; break; }
		}
	}
	compare_set( c, m, r, nk );
}
MC_SUITE( "flat_set<int> histories" ) { set_ops<int>( c, 4, c.thorough ? 6 : 5, false ); }
MC_SUITE( "flat_set<string> closure" ) { set_ops<string>( c, c.thorough ? 8 : 6, c.thorough ? 11 : 9, true ); }
MC_SUITE( "flat_set<owning> closure" ) { set_ops<Own>( c, 4, 8, true ); }
MC_SUITE( "flat_set initializer list" )
{
	int n = c.choose( 7 ); std::vector<int> l; for ( int i = 0; i < n; ++i ) l.push_back( mk<int>( c.choose( 4 ) ) );
	c.op( "init %s", mc::show( l ).c_str() ); c.state( mc::show( l ) );
	std::set<int> r( l.begin(), l.end() );
	using S = xo::flat_set<int>;
	auto go = [&]( S s ) { compare_set( c, s, r, 5 ); };
	switch ( n ) {
	case 0: go( S{} ); break; case 1: go( S( { l[ 0 ] } ) ); break; case 2: go( S( { l[ 0 ], l[ 1 ] } ) ); break; case 3: go( S( { l[ 0 ], l[ 1 ], l[ 2 ] } ) ); break;
	case 4: go( S( { l[ 0 ], l[ 1 ], l[ 2 ], l[ 3 ] } ) ); break; case 5: go( S( { l[ 0 ], l[ 1 ], l[ 2 ], l[ 3 ], l[ 4 ] } ) ); break;
	case 6: go( S( { l[ 0 ], l[ 1 ], l[ 2 ], l[ 3 ], l[ 4 ], l[ 5 ] } ) ); break; }
}

MC_SUITE( "long initializer lists" )
{
	int m = 1 + c.choose( 40 ), st = c.pick( { 1, 3, 7, 11, 39 } ); c.op( "40 elements, keys i * %d %% %d", st, m ); c.state( m * 50 + st );
	auto k = [&]( int i ) { return i * st % m; };
#define P( i ) { k( i ), i }
#define T( i ) P( i ), P( i + 1 ), P( i + 2 ), P( i + 3 ), P( i + 4 ), P( i + 5 ), P( i + 6 ), P( i + 7 ), P( i + 8 ), P( i + 9 )
#define K( i ) k( i ), k( i + 1 ), k( i + 2 ), k( i + 3 ), k( i + 4 ), k( i + 5 ), k( i + 6 ), k( i + 7 ), k( i + 8 ), k( i + 9 )
	xo::flat_map<int, int> f{ T( 0 ), T( 10 ), T( 20 ), T( 30 ) }; std::map<int, int> r{ T( 0 ), T( 10 ), T( 20 ), T( 30 ) };
	compare_map( c, f, r, m );
	xo::flat_set<int> s{ K( 0 ), K( 10 ), K( 20 ), K( 30 ) }; std::set<int> rs{ K( 0 ), K( 10 ), K( 20 ), K( 30 ) };
	compare_set( c, s, rs, m );
#undef P
#undef T
#undef K
}

// ---- indexed_map: insertion order --------------------------------------------------------------------
using IM = xo::indexed_map<string, string>;
using IR = std::vector< std::pair<string, string> >;
static int ifind( const IR& r, const string& k ) { for ( size_t i = 0; i < r.size(); ++i ) if ( r[ i ].first == k ) return (int)i; return -1; }
static void compare_im( mc::Ctx& c, IM& m, const IR& r )
{
	if ( !c.fresh() ) return;
	const IM& cm = m;
	c.eq( m.size(), r.size(), "size" ); c.eq( m.empty(), r.empty(), "empty" );
	size_t n = 0; for ( auto& kv : m ) { c.check( n < r.size() && kv.first == r[ n ].first && kv.second == r[ n ].second, "iteration" ); ++n; } c.eq( n, r.size(), "iteration length" );
	n = 0; for ( auto& kv : cm ) { c.check( kv.first == r[ n ].first && kv.second == r[ n ].second, "const iteration" ); ++n; }
	for ( size_t i = 0; i < r.size(); ++i ) c.check( m[ i ].first == r[ i ].first && cm[ i ].second == r[ i ].second, "index access" );
	if ( !r.empty() ) c.check( m.front().first == r.front().first && m.back().second == r.back().second, "front/back" );
	for ( int i = 0; i < 5; ++i )
	{
		string k = mk<string>( i ); int p = ifind( r, k ); size_t cnt = 0; for ( auto& kv : r ) cnt += kv.first == k;
		c.check( m.contains( k ) == ( p >= 0 ) && cm.contains( k ) == ( p >= 0 ), "contains" );
		c.eq( cm.count( k ), cnt, "count" );
		c.eq( int( m.find( k ) - m.begin() ), p >= 0 ? p : (int)r.size(), "find" ); c.eq( int( cm.find( k ) - cm.begin() ), p >= 0 ? p : (int)r.size(), "const find" );
		if ( p >= 0 )
		{
			c.check( cm[ k ] == r[ p ].second, "const [key]" );
			// continued search
			int q = -1; for ( size_t j = p + 1; j < r.size(); ++j ) if ( r[ j ].first == k ) { q = (int)j; break; }
			c.eq( int( m.find( k, m.begin() + p + 1 ) - m.begin() ), q >= 0 ? q : (int)r.size(), "find from" );
			c.eq( int( cm.find( k, cm.begin() + p + 1 ) - cm.begin() ), q >= 0 ? q : (int)r.size(), "const find from" );
		}
		else c.must_throw( [&] { cm[ k ]; }, "const [] of absent key must throw" );
	}
}
static void im_ops( mc::Ctx& c, int depth )
{
	IM m; IR r;
	for ( int d = 0; d < depth; ++d )
	{
		compare_im( c, m, r );
		if ( c.seen( mc::show( r ), depth - d ) ) return;
		auto key = [&] { return mk<string>( c.choose( 3 ) ); }; auto val = [&] { return mk<string>( 2 + c.choose( 2 ) ); };
		switch ( c.choose( 10 ) )
		{
		case 0: return;
		case 1: { auto k = key(), v = val(); c.op( "insert %s=%s", k.c_str(), v.c_str() ); auto ret = m.insert( { k, v } ); int p = ifind( r, k ); c.eq( ret.second, p < 0, "insert result" );
			if ( p < 0 ) { p = (int)r.size(); r.push_back( { k, v } ); } else r[ p ].second = v;
			c.check( ret.first - m.begin() == p && ret.first->second == v, "insert iterator" ); break; }
		case 2: { auto k = key(), v = val(); c.op( "[%s]=%s", k.c_str(), v.c_str() ); m[ k ] = v; int p = ifind( r, k ); if ( p < 0 ) r.push_back( { k, v } ); else r[ p ].second = v; break; }
		case 3: { auto k = key(); c.op( "[%s]", k.c_str() ); string a = m[ k ]; int p = ifind( r, k ); if ( p < 0 ) { r.push_back( { k, "" } ); c.eq( a, string(), "[] default" ); } else c.eq( a, r[ p ].second, "[] value" ); break; }
		case 4: { if ( r.empty() ) return; int i = c.choose( (int)r.size() ); c.op( "erase %d", i ); m.erase( m.begin() + i ); r.erase( r.begin() + i ); break; }
		case 5: { auto k = key(), v = val(); if ( ifind( r, k ) >= 0 ) return; c.op( "push_back %s=%s", k.c_str(), v.c_str() ); m.push_back( { k, v } ); r.push_back( { k, v } ); break; }
		case 6: c.op( "clear" ); m.clear(); r.clear(); break;
		case 7: { c.op( "copy" ); IM m2( m ); m.clear(); m = m2; break; }
		case 8: { if ( r.empty() ) return; int i = c.choose( (int)r.size() ); auto v = val(); c.op( "[#%d].second=%s", i, v.c_str() ); m[ size_t( i ) ].second = v; r[ i ].second = v; break; }
		case 9: { c.op( "init list" ); m = IM{ { "b", "1" }, { "a", "2" } }; r = { { "b", "1" }, { "a", "2" } }; break; }
		}
	}
	compare_im( c, m, r );
}
MC_SUITE( "indexed_map closure" ) { im_ops( c, c.thorough ? 8 : 6 ); }

// ---- indexed_set --------------------------------------------------------------------------------------
MC_SUITE( "indexed_set histories" )
{
	xo::indexed_set<string> s; std::vector<string> r;
	int depth = c.thorough ? 8 : 6;
	for ( int d = 0; d <= depth; ++d )
	{
		c.eq( s.size(), r.size(), "size" );
		for ( size_t i = 0; i < r.size(); ++i ) c.eq( s[ i ], r[ i ], "element at index" );
		for ( int i = 0; i < 6; ++i ) { auto k = mk<string>( i ); auto t = s.try_get( k ); auto f = std::find( r.begin(), r.end(), k ); c.eq( bool( t ), f != r.end(), "try_get found" ); if ( f != r.end() ) c.eq( *t, xo::index_t( f - r.begin() ), "try_get index" ); }
		if ( d == depth || c.seen( mc::show( r ), depth - d ) ) return;
		int o = c.choose( 6 );
		if ( o == 0 ) { c.op( "clear" ); s.clear(); r.clear(); }
		else { auto k = mk<string>( o - 1 ); c.op( "get_or_add %s", k.c_str() ); auto i = s.get_or_add( k ); auto f = std::find( r.begin(), r.end(), k ); c.eq( i, xo::index_t( f - r.begin() ), "get_or_add index" ); if ( f == r.end() ) r.push_back( k ); }
	}
}
MC_SUITE( "indexed_set index overflow" )
{
	// 8 bit index: every number of elements around the limit, then continued use
	int n = 250 + c.choose( 10 ), dup = c.choose( 3 ), f = c.choose( 4 );
	c.op( "add %d values, order %d, repeat %d", n, f, dup );
	c.state( mc::mix( n, dup * 4 + f ) );
	xo::indexed_set<int, uint8_t> s; std::vector<int> r;
	for ( int v : family( n, f ) )
	{
		if ( r.size() < 255 )
		{
			c.eq( int( s.get_or_add( v ) ), int( r.size() ), "index" );
			r.push_back( v );
		}
		else
		{
			c.must_throw( [&] { s.get_or_add( v ); }, "overflow must be reported" );
			c.eq( s.size(), r.size(), "failed addition must leave the set unchanged" );
			c.check( !s.try_get( v ), "failed addition must not be found" );
		}
		if ( dup && r.size() % ( dup * 31 ) == 0 ) c.eq( int( s.get_or_add( r[ r.size() / 2 ] ) ), int( r.size() / 2 ), "existing index" );
	}
	c.eq( s.size(), r.size(), "size" );
	for ( size_t i = 0; i < r.size(); ++i ) { c.eq( s[ uint8_t( i ) ], r[ i ], "value" ); c.eq( int( *s.try_get( r[ i ] ) ), int( i ), "index" ); }
}

// ---- sorted_vector ----------------------------------------------------------------------------------------
struct SV { int k; int id; bool operator<( const SV& o ) const { return k < o.k; } bool operator==( const SV& o ) const { return k == o.k; } };
MC_SUITE( "sorted_vector histories" )
{
	xo::sorted_vector<SV> s; std::vector<SV> r; int id = 0;
	int depth = c.thorough ? 7 : 5, nk = 4;
	for ( int d = 0; d <= depth; ++d )
	{
		const auto& cs = s;
		c.eq( s.size(), r.size(), "size" ); c.eq( s.empty(), r.empty(), "empty" );
		for ( size_t i = 0; i < r.size(); ++i ) c.check( s[ i ].k == r[ i ].k && s[ i ].id == r[ i ].id, "order or content" );
		string can; for ( auto& e : r ) can += char( 'a' + e.k );
		for ( int k = -1; k <= nk; ++k )
		{
			auto f = std::find_if( r.begin(), r.end(), [&]( auto& e ) { return e.k == k; } );
			c.eq( s.find( { k, 0 } ) - s.begin(), f - r.begin(), "find" ); c.eq( cs.find( { k, 0 } ) - cs.begin(), f - r.begin(), "const find" );
		}
		if ( !r.empty() ) { c.eq( s.front().k, r.front().k, "front" ); c.eq( s.back().id, r.back().id, "back" ); }
		c.state( can );
		if ( d == depth ) return;
		switch ( int o = c.choose( 4 ) )
		{
		case 0: { int k = c.choose( nk ); c.op( "insert %d", k ); SV e{ k, id++ }; auto it = s.insert( e ); auto p = std::upper_bound( r.begin(), r.end(), e ); c.eq( it - s.begin(), p - r.begin(), "insert position" ); c.eq( it->id, e.id, "inserted element" ); r.insert( p, e ); break; }
		case 1: { int k = c.choose( nk ); c.op( "remove %d", k ); auto it = s.remove( { k, 0 } ); auto lo = std::find_if( r.begin(), r.end(), [&]( auto& e ) { return e.k == k; } ); size_t want;
			if ( lo == r.end() ) want = r.size(); else { want = lo - r.begin(); r.erase( std::remove_if( r.begin(), r.end(), [&]( auto& e ) { return e.k == k; } ), r.end() ); }
			c.eq( size_t( it - s.begin() ), want, "remove result" ); break; }
		case 2: { if ( r.empty() ) return; int i = c.choose( (int)r.size() ); c.op( "erase #%d", i ); s.erase( s.begin() + i ); r.erase( r.begin() + i ); break; }
		case 3: c.op( "clear" ); s.clear(); r.clear(); break;
		}
	}
}
MC_SUITE( "sorted_vector initializer list" )
{
	int n = c.choose( 6 ); std::vector<int> l; for ( int i = 0; i < n; ++i ) l.push_back( c.choose( 4 ) );
	c.op( "init %s", mc::show( l ).c_str() ); c.state( mc::show( l ) );
	using S = xo::sorted_vector<int>; auto r = l; std::sort( r.begin(), r.end() );
	auto go = [&]( S s ) { c.eq( s.size(), r.size(), "size" ); for ( size_t i = 0; i < r.size(); ++i ) c.eq( s[ i ], r[ i ], "order" ); s.remove( 2 ); for ( auto& e : s ) c.check( e != 2, "remove all" ); };
	switch ( n ) { case 0: go( S{} ); break; case 1: go( S( { l[ 0 ] } ) ); break; case 2: go( S( { l[ 0 ], l[ 1 ] } ) ); break; case 3: go( S( { l[ 0 ], l[ 1 ], l[ 2 ] } ) ); break;
	case 4: go( S( { l[ 0 ], l[ 1 ], l[ 2 ], l[ 3 ] } ) ); break; case 5: go( S( { l[ 0 ], l[ 1 ], l[ 2 ], l[ 3 ], l[ 4 ] } ) ); break; }
}
MC_SUITE( "sorted_vector, indexed_map and indexed_set, larger sizes" )
{
	int n = c.choose( c.thorough ? 300 : 90 ) + 4, f = c.choose( 8 ), g = c.choose( 4 ), dup = 1 + c.choose( 4 ); c.op( "n=%d insert order %d erase order %d, %d of each", n, f, g, dup ); c.state( mc::mix( n, ( f * 4 + g ) * 8 + dup ) );
	auto name = [&]( int i ) { return "key" + std::to_string( i ); }; auto ord = family( n, f ), ers = family( n, g );
	xo::sorted_vector<SV> s; std::vector<SV> r; IM m; IR mr; xo::indexed_set<string> is;
	for ( int i : ord )
	{
		SV e{ i / dup, i }; auto it = s.insert( e ); auto p = std::upper_bound( r.begin(), r.end(), e ); c.eq( it - s.begin(), p - r.begin(), "insert position" ); r.insert( p, e );
		c.check( m.insert( { name( i ), name( i + 1 ) } ).second, "insert" ); mr.push_back( { name( i ), name( i + 1 ) } ); c.check( !m.insert( { name( i ), name( i ) } ).second, "insert again" ); mr.back().second = name( i ); m[ name( i ) ] = name( i + 2 ); mr.back().second = name( i + 2 );
		c.eq( size_t( is.get_or_add( name( i ) ) ), mr.size() - 1, "index" ); c.eq( size_t( is.get_or_add( mr[ mr.size() / 2 ].first ) ), mr.size() / 2, "existing index" );
	}
	auto cmp = [&]
	{
		c.eq( s.size(), r.size(), "size" ); for ( size_t i = 0; i < r.size(); ++i ) c.check( s[ i ].k == r[ i ].k && s[ i ].id == r[ i ].id, "order or content" );
		for ( int k = -1; k <= n / dup + 1; ++k ) { auto w = std::find_if( r.begin(), r.end(), [&]( auto& e ) { return e.k == k; } ); c.eq( s.find( { k, 0 } ) - s.begin(), w - r.begin(), "find" ); }
		c.eq( m.size(), mr.size(), "map size" ); for ( size_t i = 0; i < mr.size(); ++i ) { c.check( m[ i ].first == mr[ i ].first && m[ i ].second == mr[ i ].second, "map content" ); c.eq( size_t( m.find( mr[ i ].first ) - m.begin() ), i, "found" ); c.check( m.contains( mr[ i ].first ), "contained" ); }
	};
	cmp(); for ( size_t i = 0; i < ord.size(); ++i ) { c.eq( is[ i ], name( ord[ i ] ), "element at index" ); auto t = is.try_get( name( ord[ i ] ) ); c.check( t && *t == i, "index of element" ); } c.check( !is.try_get( name( n ) ), "index of absent element" );
	int step = 0; for ( int i : ers )
	{
		if ( i % 3 == 0 ) { size_t lo = 0; while ( lo < r.size() && r[ lo ].k != i / dup ) ++lo; size_t want = lo; auto it = s.remove( { i / dup, 0 } ); r.erase( std::remove_if( r.begin(), r.end(), [&]( auto& e ) { return e.k == i / dup; } ), r.end() ); c.eq( size_t( it - s.begin() ), want, "remove result" ); }
		else for ( size_t k = 0; k < r.size(); ++k ) if ( r[ k ].id == i ) { s.erase( s.begin() + k ); r.erase( r.begin() + k ); break; }
		int at = ifind( mr, name( i ) ); m.erase( m.begin() + at ); mr.erase( mr.begin() + at ); if ( ++step % 16 == 0 || step == n ) cmp();
	}
	c.check( s.empty() && m.empty(), "all erased" );
}
