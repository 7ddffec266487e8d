// C02: path queries on property trees.
#include "pnmodel.h"
#include "xo/container/prop_node_tools.h"
using namespace pn;
using xo::prop_node;

static int step( const T& t, const string& k )
{
	int p = t.find( k );
	if ( p >= 0 ) return p;
	if ( k.size() >= 2 && k[ 0 ] == '#' )
	{
		size_t n = 0; for ( size_t i = 1; i < k.size(); ++i ) { if ( !isdigit( (unsigned char)k[ i ] ) ) return -1; n = std::min<size_t>( n * 10 + ( k[ i ] - 48 ), 1000000 ); }
		if ( n >= 1 && n <= t.ch.size() ) return int( n - 1 );
	}
	return -1;
}
using Comp = std::vector<string>;
static bool resolve( const T& t, const Comp& q, std::vector<int>& path )
{
	const T* p = &t;
	for ( auto& k : q ) { int i = step( *p, k ); if ( i < 0 ) return false; path.push_back( i ); p = &p->ch[ i ].second; }
	return true;
}
static const prop_node* walk( const prop_node& n, const std::vector<int>& path ) { auto* p = &n; for ( int i : path ) p = &p->at( i ).second; return p; }
static T* walk( T& t, const std::vector<int>& path ) { auto* p = &t; for ( int i : path ) p = &p->ch[ i ].second; return p; }
static string join( const Comp& q, char d ) { string s; for ( size_t i = 0; i < q.size(); ++i ) { if ( i ) s += d; s += q[ i ]; } return s; }

static void queries( mc::Ctx& c, int nodes, int depth, const std::vector<string>& keys, const std::vector<string>& comps, int qlen, char delim = 0 )
{
	int b = nodes; T t = gen( c, b, keys, { "v" }, depth );
	// values make every node distinguishable
	int id = 0; std::function<void( T& )> num = [&]( T& x ) { x.v = "v" + std::to_string( id++ ); for ( auto& k : x.ch ) num( k.second ); }; num( t );
	c.state( canon( t ) );
	c.note( "%s", canon( t ).c_str() );
	int len = 1 + c.choose( qlen ); Comp q; for ( int i = 0; i < len; ++i ) q.push_back( c.pick( comps ) );
	char d = delim ? delim : c.choose( 2 ) ? '/' : '.';
	string qs = join( q, d );
	c.op( "query %s", mc::esc( qs ).c_str() );
	prop_node n = build( t ); const prop_node& cn = n;
	auto get = [&]( auto& x ) { return d == '.' ? x.try_get_query( qs ) : x.try_get_query( qs, d ); };
	std::vector<int> path; bool found = resolve( t, q, path );
	const prop_node* want = found ? walk( n, path ) : nullptr;
	auto* g = get( cn ); auto* g2 = get( n );
	c.check( g == g2, "mutable and const query differ" );
	if ( g != want ) c.fail( string( "query resolved to " ) + ( g ? mc::esc( g->peek_str() ) : "nothing" ) + ", expected " + ( want ? mc::esc( want->peek_str() ) : "nothing" ) );
	same( c, n, t, "tree changed by query" );
	{ // creating form
		prop_node m = build( t ); T r = t; T* x = &r; std::vector<int> p2;
		for ( auto& k : q ) { int i = step( *x, k ); if ( i < 0 ) { i = (int)x->ch.size(); x->add( k ); } p2.push_back( i ); x = &x->ch[ i ].second; }
		auto& a = d == '.' ? m.get_or_add_query( qs ) : m.get_or_add_query( qs, d );
		same( c, m, r, "get_or_add_query" );
		c.check( &a == walk( m, p2 ), "get_or_add_query returned another node" );
		a.set_value( "new" ); walk( r, p2 )->v = "new"; same( c, m, r, "set through get_or_add_query" );
		c.check( get( m ) == walk( m, p2 ) || !found, "created node is not found" );
		prop_node m2 = build( t ); if ( d == '.' ) m2.set_query( qs, string( "s" ) ); else m2.set_query( qs, string( "s" ), d );
		*walk( r, p2 ) = T( "s" ); same( c, m2, r, "set_query" );
	}
	{ // erasing form
		prop_node m = build( t ); T r = t;
		bool e = d == '.' ? m.erase_query( qs ) : m.erase_query( qs, d );
		c.eq( e, found, "erase_query result" );
		if ( found ) { auto pp = path; int last = pp.back(); pp.pop_back(); auto* x = walk( r, pp ); x->ch.erase( x->ch.begin() + last ); }
		same( c, m, r, "erase_query" );
	}
}
MC_SUITE( "trees x queries" ) { queries( c, c.thorough ? 6 : 5, 3, { "a", "b" }, { "a", "b", "#1", "#2", "" }, 3 ); }
MC_SUITE( "odd keys and indices" ) { queries( c, 3, 2, { "a", "", "#1" }, { "a", "", "#1", "#2", "#0", "#9", "#", "#x", "#18446744073709551617", "aa" }, c.thorough ? 3 : 2 ); }

MC_SUITE( "keys that contain other delimiters" )
{
	char d = c.pick( std::vector<char>{ '/', ':', '.' } ); string o = d == '.' ? "/" : ".";
	queries( c, c.thorough ? 5 : 4, 3, { "a", "b", "a" + o + "b" }, { "a", "b", "a" + o + "b", "a" + o + "#1", "#1" }, c.thorough ? 4 : 3, d );
}

// nodes to paths
static void all_nodes( const prop_node& n, std::vector<int>& path, std::vector< std::vector<int> >& out ) { out.push_back( path ); for ( size_t i = 0; i < n.size(); ++i ) { path.push_back( (int)i ); all_nodes( n.at( i ).second, path, out ); path.pop_back(); } }
MC_SUITE( "node to path and parent" )
{
	int b = c.thorough ? 6 : 5; T t = gen( c, b, { "a", "bb", "c" }, { "v" }, 4 );
	c.op( "%s", canon( t ).c_str() ); c.state( canon( t ) );
	prop_node n = build( t ); const prop_node& cn = n;
	std::vector< std::vector<int> > nodes; std::vector<int> tmp; all_nodes( n, tmp, nodes );
	prop_node outside( "x" );
	for ( auto& p : nodes )
	{
		const prop_node* x = walk( n, p );
		auto pr = cn.try_find_parent( *x ); auto pr2 = n.try_find_parent( *const_cast<prop_node*>( x ) );
		if ( p.empty() ) { c.check( pr.first == nullptr && pr2.first == nullptr, "root has no parent" ); }
		else { auto pp = p; pp.pop_back(); c.check( pr.first == walk( n, pp ) && (int)pr.second == p.back(), "try_find_parent" ); c.check( pr2.first == pr.first && pr2.second == pr.second, "mutable try_find_parent" ); }
		// unambiguous: every key on the way is the first of its kind
		bool unamb = true; Comp q; const T* y = &t;
		for ( int i : p ) { unamb &= y->find( y->ch[ i ].first ) == i; q.push_back( y->ch[ i ].first ); y = &y->ch[ i ].second; }
		for ( char d : { '.', '/' } )
		{
			auto r = d == '.' ? xo::find_query_to_node( &n, x ) : xo::find_query_to_node( &n, x, d );
			c.check( r.first, "find_query_to_node: existing node not found" );
			c.eq( r.second, join( q, d ), "find_query_to_node" );
			if ( unamb && !p.empty() ) c.check( cn.try_get_query( r.second, d ) == x, "path does not lead back to the node" );
		}
		auto mq = xo::make_prop_node_query( n, *x );
		c.eq( mq, join( q, '.' ), "make_prop_node_query" );
		if ( unamb && !p.empty() ) c.check( cn.try_get_query( mq ) == x, "query does not lead back to the node" );
		// relative to an inner node
		for ( auto& p0 : nodes )
		{
			auto* from = walk( n, p0 );
			bool inside = p0.size() <= p.size() && std::equal( p0.begin(), p0.end(), p.begin() );
			auto r = xo::find_query_to_node( from, x );
			c.eq( r.first, inside, "find_query_to_node from inner node" );
			if ( inside ) c.eq( r.second, join( Comp( q.begin() + p0.size(), q.end() ), '.' ), "relative path" );
			c.check( ( from->try_find_parent( *x ).first != nullptr ) == ( inside && p0.size() < p.size() ), "try_find_parent from inner node" );
		}
	}
	c.check( !xo::find_query_to_node( &n, &outside ).first, "foreign node found" );
	c.check( cn.try_find_parent( outside ).first == nullptr, "foreign node has a parent" );
	same( c, n, t, "tree changed" );
}
// wide and deep
MC_SUITE( "large trees" )
{
	int wi = c.choose( 36 ), w = wi < 30 ? 1 + wi : ( (const int[]){ 65, 99, 100, 101, 257, 1001 } )[ wi - 30 ], dep = 1 + c.choose( wi < 30 ? 6 : 2 ), at = wi < 30 ? c.choose( w ) : c.flip() ? w - 1 - c.choose( 3 ) : c.choose( 12 );
	c.op( "width %d depth %d at %d", w, dep, at ); c.state( mc::mix( w * 100 + dep, at ) );
	prop_node n; prop_node* p = &n; string q, qi; std::vector<int> path;
	for ( int d = 0; d < dep; ++d )
	{
		for ( int i = 0; i < w; ++i ) p->add_key_value( "key" + std::to_string( i ), d * 1000 + i );
		int i = ( at + d ) % w; path.push_back( i ); q += ( d ? "." : "" ) + ( "key" + std::to_string( i ) ); qi += ( d ? ".#" : "#" ) + std::to_string( i + 1 );
		p = &p->at( i ).second;
	}
	const auto& cn = n;
	c.check( cn.try_get_query( q ) == p, "key path" ); c.check( cn.try_get_query( qi ) == p, "index path" );
	c.check( &n.get_or_add_query( q ) == p && &n.get_or_add_query( qi ) == p, "creating form of an existing path" );
	c.check( cn.try_get_query( q + ".key0" ) == nullptr && cn.try_get_query( qi + ".#1" ) == nullptr, "path beyond a leaf" );
	c.eq( xo::make_prop_node_query( n, *p ), q, "make_prop_node_query" );
	c.eq( xo::find_query_to_node( &n, p ).second, q, "find_query_to_node" );
	size_t total = n.count_children();
	c.check( n.erase_query( at % 2 ? q : qi ), "erase_query" ); c.eq( n.count_children(), total - 1, "one node erased" ); c.check( cn.try_get_query( q ) == nullptr, "erased node still found" );
}
