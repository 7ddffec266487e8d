// C01: property tree operation histories against an ordered keyed tree model.
#include "pnmodel.h"
#include <optional>
using namespace pn;
using xo::prop_node;

static const std::vector<string> KEYS = { "a", "b", "" };
static const std::vector<string> PROBE = { "a", "b", "", "aa" };

static bool to_int( const string& s, int& v ) { if ( s.size() == 1 && isdigit( s[ 0 ] ) ) { v = s[ 0 ] - '0'; return true; } if ( s == "-7" ) { v = -7; return true; } return false; }

static const T* rfind( const T& t, const string& k )
{
	for ( auto& c : t.ch ) { if ( c.first == k ) return &c.second; if ( auto* r = rfind( c.second, k ) ) return r; }
	return nullptr;
}

static void compare( mc::Ctx& c, const prop_node& n, const T& t, bool deep = true )
{
	// whole content through the basic interface
	c.eq( n.size(), t.ch.size(), "size" );
	c.eq( n.peek_str(), t.v, "value" );
	c.eq( n.get_str(), t.v, "get_str" );
	c.eq( n.get<string>(), t.v, "get<string>" );
	c.eq( n.has_value(), !t.v.empty(), "has_value" );
	c.eq( n.empty(), t.v.empty() && t.ch.empty(), "empty" );
	c.eq( n.count_children(), t.count(), "count_children" );
	c.eq( n.count_layers(), t.layers(), "count_layers" );
	bool arr = true; for ( auto& k : t.ch ) arr &= k.first.empty();
	c.eq( n.is_array(), arr, "is_array" );
	int iv;
	if ( to_int( t.v, iv ) ) { c.eq( n.get<int>(), iv, "get<int>" ); c.check( bool( n.try_get<int>() ) && *n.try_get<int>() == iv, "try_get<int>" ); }
	else { c.must_throw( [&] { n.get<int>(); }, "get<int> of non-number must throw" ); c.check( !n.try_get<int>(), "try_get<int> of non-number" ); }
	// iteration
	size_t i = 0;
	for ( auto& kv : n ) { c.check( i < t.ch.size() && kv.first == t.ch[ i ].first && kv.second.peek_str() == t.ch[ i ].second.v, "iteration" ); ++i; }
	c.eq( i, t.ch.size(), "iteration length" );
	i = 0; for ( auto it = n.cbegin(); it != n.cend(); ++it, ++i ) c.check( it->first == t.ch[ i ].first, "cbegin" );
	i = t.ch.size(); for ( auto it = n.rbegin(); it != n.rend(); ++it ) { --i; c.check( it->first == t.ch[ i ].first && it->second.peek_str() == t.ch[ i ].second.v, "rbegin" ); }
	for ( i = 0; i < t.ch.size(); ++i )
	{
		c.check( n.at( i ).first == t.ch[ i ].first, "at" );
		c.check( n.get_key( i ) == t.ch[ i ].first, "get_key" );
		c.check( &n[ i ] == &n.at( i ).second && &n.get_child( i ) == &n.at( i ).second, "index access" );
		c.eq( n.get<string>( i ), t.ch[ i ].second.v, "get(index)" );
	}
	c.must_throw( [&] { n.get_child( t.ch.size() ); }, "get_child(size) must throw" );
	if ( deep )
	{
		c.must_throw( [&] { n.get_child( xo::no_index ); }, "get_child(no_index) must throw" );
		c.must_throw( [&] { n[ t.ch.size() ]; }, "[size] must throw" );
		c.must_throw( [&] { n.get_key( t.ch.size() ); }, "get_key(size) must throw" );
		c.must_throw( [&] { n.at( t.ch.size() ); }, "at(size) must throw" );
	}
	if ( !t.ch.empty() ) { c.check( n.front().first == t.ch.front().first && &n.front().second == &n[ xo::index_t( 0 ) ], "front" ); c.check( &n.back().second == &n[ t.ch.size() - 1 ], "back" ); }
	// look-up by key
	for ( auto& k : PROBE )
	{
		int p = t.find( k ); size_t cnt = 0; for ( auto& kv : t.ch ) cnt += kv.first == k;
		c.eq( n.has_key( k ), p >= 0, "has_key" );
		c.eq( n.count_key( k ), cnt, "count_key" );
		c.eq( n.has_value( k ), p >= 0 && !t.ch[ p ].second.v.empty(), "has_value(key)" );
		const prop_node* want = p >= 0 ? &n.at( p ).second : nullptr;
		c.check( n.try_get_child( k ) == want, "try_get_child" );
		auto* rf = rfind( t, k ); auto* rg = n.try_find_child_recursively( k );
		c.check( ( rf != nullptr ) == ( rg != nullptr ), "try_find_child_recursively" );
		if ( rf ) same( c, *rg, *rf, "try_find_child_recursively" );
		std::vector<string> all; for ( auto& kv : t.ch ) if ( kv.first == k ) all.push_back( kv.second.v );
		c.check( n.get_all<string>( k ) == all, "get_all" );
		size_t s = 0; for ( auto& kv : n.select( k ) ) { c.check( s < all.size() && kv.second.peek_str() == all[ s ], "select" ); ++s; } c.eq( s, all.size(), "select length" );
		const string def = "dflt";
		if ( p >= 0 )
		{
			auto& v = t.ch[ p ].second.v;
			c.check( &n.get_child( k ) == want && &n[ k ] == want, "get_child" );
			c.eq( n.get<string>( k ), v, "get(key)" ); c.eq( n.get<string>( k, def ), v, "get(key,default)" ); c.eq( n.get_str( k ), v, "get_str(key)" );
			c.check( bool( n.try_get<string>( k ) ) && *n.try_get<string>( k ) == v, "try_get(key)" );
			string o = "keep"; c.check( n.try_get( o, k ) && o == v, "try_get(value,key)" );
			int ci;
			if ( to_int( v, ci ) ) { c.eq( n.get<int>( k ), ci, "get<int>(key)" ); c.eq( n.get<int>( k, 42 ), ci, "get<int>(key,default)" ); }
			else { c.must_throw( [&] { n.get<int>( k ); }, "get<int>(key) of non-number must throw" ); c.must_throw( [&] { n.get<int>( k, 42 ); }, "get<int>(key,default) of non-number must throw" ); c.check( !n.try_get<int>( k ), "try_get<int>(key) of non-number" ); }
		}
		else
		{
			c.must_throw( [&] { n.get_child( k ); }, "get_child of absent key must throw" );
			c.must_throw( [&] { n[ k ]; }, "const [] of absent key must throw" );
			c.must_throw( [&] { n.get<string>( k ); }, "get of absent key must throw" );
			c.must_throw( [&] { n.get_str( k ); }, "get_str of absent key must throw" );
			c.eq( n.get<string>( k, def ), def, "default" ); c.eq( n.get<int>( k, 42 ), 42, "int default" );
			c.check( !n.try_get<string>( k ) && !n.try_get<int>( k ), "try_get of absent key" );
			string o = "keep"; c.check( !n.try_get( o, k ) && o == "keep", "try_get(value,key) of absent key" );
		}
	}
	// look-up by several keys
	if ( deep ) for ( auto& k1 : PROBE ) for ( auto& k2 : KEYS )
	{
		int p = t.find( k1 ); if ( p < 0 ) p = t.find( k2 );
		const prop_node* want = p >= 0 ? &n.at( p ).second : nullptr;
		c.eq( n.has_any_key( { k1, k2 } ), p >= 0, "has_any_key" );
		c.check( n.try_get_any_child( { k1, k2 } ) == want, "try_get_any_child" );
		c.eq( n.get_any<string>( { k1, k2 }, "d" ), p >= 0 ? t.ch[ p ].second.v : string( "d" ), "get_any default" );
		if ( p >= 0 ) { c.check( &n.get_any_child( { k1, k2 } ) == want, "get_any_child" ); c.eq( n.get_any<string>( { k1, k2 } ), t.ch[ p ].second.v, "get_any" ); c.check( *n.try_get_any<string>( { k1, k2 } ) == t.ch[ p ].second.v, "try_get_any" ); }
		else { c.must_throw( [&] { n.get_any_child( { k1, k2 } ); }, "get_any_child of absent keys must throw" ); c.must_throw( [&] { n.get_any<string>( { k1, k2 } ); }, "get_any of absent keys must throw" ); c.check( !n.try_get_any<string>( { k1, k2 } ), "try_get_any of absent keys" ); }
	}
	{ size_t s = 0, w = 0; for ( auto& kv : t.ch ) w += kv.first.size() == 1; for ( auto& kv : n.select_pattern( "?" ) ) { c.eq( kv.first.size(), size_t( 1 ), "select_pattern" ); ++s; } c.eq( s, w, "select_pattern length" ); }
	for ( i = 0; i < t.ch.size(); ++i ) compare( c, n[ i ], t.ch[ i ].second, false );
}

static void compare_all( mc::Ctx& c, prop_node& n, const T& t, const prop_node& sn, const T& st )
{
	same( c, sn, st, "copy changed" );
	compare( c, n, t );
	same( c, n, t, "content changed by reading" );
	// mutable look-ups agree with the const ones
	const auto& cn = n;
	for ( auto& k : PROBE ) { c.check( n.try_get_child( k ) == cn.try_get_child( k ), "mutable try_get_child" ); if ( cn.has_key( k ) ) c.check( &n.get_child( k ) == &cn.get_child( k ) && &n[ k ] == &cn.get_child( k ), "mutable get_child" ); else c.must_throw( [&] { n.get_child( k ); }, "mutable get_child of absent key must throw" ); }
	for ( size_t i = 0; i < t.ch.size(); ++i ) c.check( &n.get_child( i ) == &cn.get_child( i ) && &n[ i ] == &cn[ i ] && &n.at( i ) == &cn.at( i ), "mutable index access" );
	c.must_throw( [&] { n.get_child( t.ch.size() ); }, "mutable get_child(size) must throw" );
	// comparison
	prop_node fresh = build( t );
	c.check( n == fresh && fresh == n && !( n != fresh ), "tree differs from an equal tree" );
	c.eq( cn == sn, t == st, "operator==" ); c.eq( sn == cn, t == st, "operator== reversed" ); c.eq( cn != sn, t != st, "operator!=" );
	same( c, n, t, "content changed by reading" );
}

static void merge( T& t, const T& o, bool ow )
{
	if ( ow ) t.v = o.v;
	for ( auto& k : o.ch ) { int p = t.find( k.first ); if ( p >= 0 ) merge( t.ch[ p ].second, k.second, ow ); else t.ch.push_back( k ); }
}

static void histories( mc::Ctx& c, int depth, int nkeys, const std::vector<string>& vals, bool all )
{
	prop_node n, sn; T t, st;
	for ( int d = 0; ; ++d )
	{
		if ( c.fresh() )
		{
			// content after every transition; the complete read interface once per distinct state (or at every leaf)
			same( c, n, t, "content" ); same( c, sn, st, "copy changed" );
			if ( all && d == depth ) compare_all( c, n, t, sn, st );
			if ( c.seen( canon( t ) + "#" + canon( st ), all ? 1000 : depth - d ) ) { if ( !all ) return; }
			else compare_all( c, n, t, sn, st );
		}
		if ( d == depth ) return;
		// target node: the root, or a child
		int nt = 1 + std::min<int>( (int)t.ch.size(), 2 );
		int tg = c.choose( nt );
		prop_node* x = tg == 0 ? &n : &n[ xo::index_t( tg - 1 ) ];
		T* y = tg == 0 ? &t : &t.ch[ tg - 1 ].second;
		auto key = [&] { return KEYS[ c.choose( nkeys ) ]; };
		auto val = [&] { return vals[ c.choose( (int)vals.size() ) ]; };
		const char* tn = tg == 0 ? "root" : tg == 1 ? "child0" : "child1";
		switch ( c.choose( 30 ) )
		{
		case 0: { auto k = key(), v = val(); c.op( "%s.set(%s,%s)", tn, k.c_str(), v.c_str() ); auto& r = x->set( k, v ); int p = y->find( k ); if ( p < 0 ) { y->add( k ); p = (int)y->ch.size() - 1; } y->ch[ p ].second = T( v ); c.check( &r == &x->at( p ).second, "set returns the child" ); break; }
		case 1: { auto v = val(); c.op( "%s.set_value(%s)", tn, v.c_str() ); x->set_value( v ); y->v = v; break; }
		case 2: { auto k = key(), v = val(); c.op( "%s.add_key_value(%s,%s)", tn, k.c_str(), v.c_str() ); auto& r = x->add_key_value( k, v ); y->add( k, v ); c.check( &r == &x->back().second, "add_key_value result" ); break; }
		case 3: { auto k = key(); c.op( "%s.add_child(%s)", tn, k.c_str() ); auto& r = x->add_child( k ); y->add( k ); c.check( &r == &x->back().second, "add_child result" ); break; }
		case 4: { auto k = key(); c.op( "%s.add_child(%s,copy)", tn, k.c_str() ); x->add_child( k, sn ); y->ch.push_back( { k, st } ); break; }
		case 5: { auto k = key(); c.op( "%s.add_child(%s,move)", tn, k.c_str() ); prop_node tmp( sn ); x->add_child( k, std::move( tmp ) ); y->ch.push_back( { k, st } ); break; }
		case 6: { auto k = key(); c.op( "%s[%s]", tn, k.c_str() ); auto& r = ( *x )[ k ]; int p = y->find( k ); if ( p < 0 ) { y->add( k ); p = (int)y->ch.size() - 1; } c.check( &r == &x->at( p ).second, "[] result" ); break; }
		case 7: { auto k = key(); c.op( "%s.erase(%s)", tn, k.c_str() ); bool b = x->erase( k ); int p = y->find( k ); c.eq( b, p >= 0, "erase result" ); if ( p >= 0 ) y->ch.erase( y->ch.begin() + p ); break; }
		case 8: { if ( y->ch.empty() ) return; int i = c.choose( (int)y->ch.size() ); c.op( "%s.erase(#%d)", tn, i ); auto it = x->erase( x->cbegin() + i ); y->ch.erase( y->ch.begin() + i ); c.check( it - x->begin() == i, "erase iterator" ); break; }
		case 9: { if ( y->ch.empty() ) return; c.op( "%s.pop_back", tn ); x->pop_back(); y->ch.pop_back(); break; }
		case 10: { c.op( "%s.clear", tn ); x->clear(); *y = T(); break; }
		case 11: { c.op( "%s.append(copy)", tn ); x->append( sn ); for ( auto& k : st.ch ) y->ch.push_back( k ); break; }
		case 12: { c.op( "%s.append(move)", tn ); prop_node tmp( sn ); x->append( std::move( tmp ) ); for ( auto& k : st.ch ) y->ch.push_back( k ); break; }
		case 13: { c.op( "%s.merge(snapshot)", tn ); x->merge( sn ); merge( *y, st, false ); break; }
		case 14: { c.op( "%s.merge(snapshot,overwrite)", tn ); x->merge( sn, true ); merge( *y, st, true ); break; }
		case 15: { auto v = val(); c.op( "%s.add_value(%s)", tn, v.c_str() ); x->add_value( v ); y->add( "", v ); break; }
		case 16: { int i = c.choose( (int)y->ch.size() + 1 ); c.op( "%s.insert(#%d,snapshot)", tn, i ); auto it = x->insert( x->begin() + i, sn.cbegin(), sn.cend() ); y->ch.insert( y->ch.begin() + i, st.ch.begin(), st.ch.end() ); c.check( it - x->begin() == i, "insert iterator" ); break; }
		case 17: { c.op( "snapshot=%s", tn ); sn = *x; st = *y; break; }
		case 18: { c.op( "%s=snapshot", tn ); *x = sn; *y = st; break; }
		case 19: { c.op( "%s.set(snapshot)", tn ); x->set( sn ); *y = st; break; }
		case 20: { c.op( "move %s out and back", tn ); prop_node tmp( std::move( *x ) ); same( c, tmp, *y, "moved tree" ); *x = std::move( tmp ); break; }
		case 21: { auto k = key(), v = val(); int cnt = c.choose( 3 ); c.op( "%s.add_children(%d,%s,%s)", tn, cnt, k.c_str(), v.c_str() ); x->add_children( cnt, k, v ); for ( int i = 0; i < cnt; ++i ) y->add( k, v ); break; }
		case 22: { c.op( "%s.add_values", tn ); std::vector<string> vs = { "p", "q" }; x->add_values( vs.begin(), vs.end() ); y->add( "", "p" ); y->add( "", "q" ); break; }
		case 23: { c.op( "%s.add_child()", tn ); auto& r = x->add_child(); y->add( "" ); c.check( &r == &x->back().second, "add_child result" ); break; }
		case 24: { auto k = key(); c.op( "%s.get_or_add_child(%s)", tn, k.c_str() ); x->get_or_add_child( k ).set_value( "g" ); int p = y->find( k ); if ( p < 0 ) { y->add( k ); p = (int)y->ch.size() - 1; } y->ch[ p ].second.v = "g"; break; }
		case 25: { auto k = key(); c.op( "%s.set(%s,-7)", tn, k.c_str() ); x->set( k, -7 ); int p = y->find( k ); if ( p < 0 ) { y->add( k ); p = (int)y->ch.size() - 1; } y->ch[ p ].second = T( "-7" ); break; }
		case 26: { auto v = val(); c.op( "%s=%s", tn, v.c_str() ); *x = v; *y = T( v ); break; }
		case 27: { c.op( "%s={a=1 b=2 a=3}", tn ); *x = prop_node( { { "a", prop_node( "1" ) }, { "b", prop_node( "2" ) }, { "a", prop_node( "3" ) } } ); *y = T(); y->add( "a", "1" ); y->add( "b", "2" ); y->add( "a", "3" ); break; }
		case 28: { c.op( "%s.set_value(int 1); reserve", tn ); x->set_value( 1 ); x->reserve( 4 ); y->v = "1"; break; }
		case 29: { std::vector<string> vs = { "x", "", "1" }; c.op( "%s=vector", tn ); *x = vs; *y = T(); for ( auto& s : vs ) y->add( "", s ); break; }
		}
	}
}

MC_SUITE( "tree histories, all sequences" ) { histories( c, c.thorough ? 3 : 2, 3, { "1", "x", "" }, true ); }
MC_SUITE( "tree histories, states" ) { histories( c, c.thorough ? 4 : 3, 3, { "1", "" }, false ); }
MC_SUITE( "tree histories, deeper" ) { histories( c, c.thorough ? 5 : 4, 2, { "1" }, false ); }

// every pair of small trees: comparison and merge
MC_SUITE( "pairs of trees" )
{
	int b1 = 3, b2 = c.thorough ? 3 : 2;
	T a = gen( c, b1, { "a", "b" }, { "", "1" }, 2 ), b = gen( c, b2, { "a", "b" }, { "", "2" }, 2 );
	c.op( "%s vs %s", canon( a ).c_str(), canon( b ).c_str() );
	c.state( canon( a ) + canon( b ) );
	prop_node x = build( a ), y = build( b );
	c.eq( x == y, a == b, "operator==" ); c.eq( x != y, a != b, "operator!=" ); c.eq( y == x, a == b, "operator== reversed" );
	prop_node m = x; m.merge( y ); T r = a; merge( r, b, false ); same( c, m, r, "merge" );
	prop_node m2 = x; m2.merge( y, true ); r = a; merge( r, b, true ); same( c, m2, r, "merge with overwrite" );
	prop_node m3 = x; m3.append( y ); r = a; for ( auto& k : b.ch ) r.ch.push_back( k ); same( c, m3, r, "append" );
	same( c, x, a, "operand changed" ); same( c, y, b, "operand changed" );
	compare( c, m, read( m ) );
	prop_node copy( m ), mv( std::move( m ) ); c.check( copy == mv, "copy and move agree" );
	prop_node as; as = copy; as.add_child( "z" ); c.check( as != copy && copy == mv, "copy is independent" );
}

// wide nodes: many children, duplicate keys at every distance
MC_SUITE( "wide trees" )
{
	int n = c.choose( 40 ), m = 1 + c.choose( 12 ), er = c.choose( 3 );
	c.op( "%d children, %d distinct keys, erase %d", n, m, er ); c.state( mc::mix( n, m * 3 + er ) );
	prop_node x; T t;
	for ( int i = 0; i < n; ++i ) { string k = "key" + std::to_string( i % m ); x.add_key_value( k, i ); t.add( k, std::to_string( i ) ); }
	for ( int e = 0; e < er * m; ++e ) { string k = "key" + std::to_string( ( e * 5 ) % m ); int p = t.find( k ); c.eq( x.erase( k ), p >= 0, "erase" ); if ( p >= 0 ) t.ch.erase( t.ch.begin() + p ); }
	same( c, x, t, "wide tree" );
	for ( int i = 0; i <= m; ++i )
	{
		string k = "key" + std::to_string( i ); std::vector<int> all; for ( auto& kv : t.ch ) if ( kv.first == k ) all.push_back( std::stoi( kv.second.v ) );
		c.check( x.get_all<int>( k ) == all, "get_all" ); c.eq( x.count_key( k ), all.size(), "count_key" ); c.eq( x.get<int>( k, -1 ), all.empty() ? -1 : all[ 0 ], "get" );
		if ( !all.empty() ) { x.set( k, 1000 + i ); t.ch[ t.find( k ) ].second = T( std::to_string( 1000 + i ) ); }
	}
	same( c, x, t, "after set" );
}
MC_SUITE( "deep trees" )
{
	int n = 1 + c.choose( 60 ); c.op( "depth %d", n ); c.state( n );
	prop_node x; prop_node* p = &x; T t; T* q = &t;
	for ( int i = 0; i < n; ++i ) { p = &p->add_child( "k" + std::to_string( i ) ); p->set_value( i ); q = &q->add( "k" + std::to_string( i ), std::to_string( i ) ); }
	same( c, x, t, "deep tree" ); c.eq( x.count_layers(), size_t( n ), "layers" ); c.eq( x.count_children(), size_t( n ), "children" );
	for ( int i = 0; i <= n; ++i ) { auto* f = x.try_find_child_recursively( "k" + std::to_string( i ) ); c.eq( f != nullptr, i < n, "recursive find" ); if ( f ) c.eq( f->get<int>(), i, "recursive find value" ); }
	prop_node y = x; c.check( x == y, "copy" ); auto* f = const_cast<prop_node*>( y.try_find_child_recursively( "k" + std::to_string( n - 1 ) ) ); f->set_value( "changed" ); c.check( x != y, "copy is independent and compared to full depth" );
}

// ---- sources that are part of the tree they are written to, or contain it: the outcome is that of writing an independent copy
static void nodes( const T& t, std::vector< std::vector<int> >& out, std::vector<int> at = {} ) { out.push_back( at ); for ( size_t i = 0; i < t.ch.size(); ++i ) { auto a = at; a.push_back( (int)i ); nodes( t.ch[ i ].second, out, a ); } }
static prop_node& at_path( prop_node& n, const std::vector<int>& p ) { auto* r = &n; for ( int i : p ) r = &r->at( i ).second; return *r; }
static T& at_path( T& t, const std::vector<int>& p ) { auto* r = &t; for ( int i : p ) r = &r->ch[ i ].second; return *r; }
static string path_str( const std::vector<int>& p ) { string s = "root"; for ( int i : p ) s += "/" + std::to_string( i ); return s; }
MC_SUITE( "parts of the same tree" )
{
	int budget = c.thorough ? 4 : 3; T t = gen( c, budget, { "a", "b" }, { "1" }, 3 );
	if ( c.flip() ) { t.v = "a text longer than the text stored in place"; for ( auto& k : t.ch ) k.second.v = "another text longer than the text stored in place"; } // number the values, so that no two nodes are equal
	else { std::vector< std::vector<int> > ps; nodes( t, ps ); for ( size_t i = 0; i < ps.size(); ++i ) at_path( t, ps[ i ] ).v = std::to_string( i ); }
	std::vector< std::vector<int> > ps; nodes( t, ps );
	auto& dp = ps[ c.choose( (int)ps.size() ) ]; auto& sp = ps[ c.choose( (int)ps.size() ) ];
	bool spare = c.flip(); // room for another child, or not
	prop_node n = build( t ); prop_node& x = at_path( n, dp ); T& y = at_path( t, dp ); const T v = at_path( t, sp );
	if ( spare ) x.reserve( 16 );
	prop_node& src = at_path( n, sp );
	bool below = sp.size() > dp.size() && std::equal( dp.begin(), dp.end(), sp.begin() ), same_node = sp == dp, above = sp.size() < dp.size() && std::equal( sp.begin(), sp.end(), dp.begin() );
	int what = c.choose( 19 ); const char* names[] = { "assign", "set", "move assign", "set existing key", "set new key", "set_query", "append", "merge", "merge with overwrite", "add_child", "add_child moved", "set key to the text of", "set_query to the text of", "set_value to the text of", "assign the text of", "insert the children of", "add_key_value", "query by the text of", "use the text as key" };
	c.op( "%s: %s, %s of %s%s", canon( t ).c_str(), path_str( dp ).c_str(), names[ what ], path_str( sp ).c_str(), spare ? " (reserved)" : "" ); c.state( mc::hash( canon( t ) + path_str( dp ) + names[ what ] + path_str( sp ) ) * 2 + spare );
	auto key = [&]( T& o, const string& k ) -> T& { int p = o.find( k ); return p >= 0 ? o.ch[ p ].second : o.add( k ); };
	switch ( what )
	{
	case 0: x = src; y = v; break;
	case 1: x.set( src ); y = v; break;
	case 2: { if ( above ) throw mc::prune(); x = std::move( src ); bool apart = !below && !same_node; if ( apart ) { at_path( n, sp ).clear(); at_path( t, sp ) = T(); } at_path( t, dp ) = v; break; }
	case 3: x.set( "a", src ); key( y, "a" ) = v; break;
	case 4: x.set( "c", src ); key( y, "c" ) = v; break;
	case 5: x.set_query( "c.d", src ); key( key( y, "c" ), "d" ) = v; break;
	case 6: x.append( src ); y.ch.insert( y.ch.end(), v.ch.begin(), v.ch.end() ); break;
	case 7: x.merge( src ); merge( y, v, false ); break;
	case 8: x.merge( src, true ); merge( y, v, true ); break;
	case 9: x.add_child( "c", src ); y.ch.push_back( { "c", v } ); break;
	case 10: { if ( above || same_node ) throw mc::prune(); x.add_child( "c", std::move( src ) ); at_path( n, sp ).clear(); at_path( t, sp ) = T(); at_path( t, dp ).ch.push_back( { "c", v } ); break; }
	case 11: x.set( "c", src.get_str() ); key( y, "c" ) = T( v.v ); break;
	case 12: x.set_query( "c.d", src.get_str() ); key( key( y, "c" ), "d" ) = T( v.v ); break;
	case 13: x.set_value( src.get_str() ); y.v = v.v; break;
	case 14: x = src.get_str(); y = T( v.v ); break;
	case 15: { if ( same_node || above ) throw mc::prune(); x.insert( x.begin(), src.cbegin(), src.cend() ); y.ch.insert( y.ch.begin(), v.ch.begin(), v.ch.end() ); break; }
	case 16: x.add_key_value( src.get_str(), src.get_str() ); y.add( v.v, v.v ); break;
	case 17: { src.set_value( "c.d.e" ); at_path( t, sp ).v = "c.d.e"; x.get_or_add_query( src.get_str() ).set_value( "found" ); key( key( key( at_path( t, dp ), "c" ), "d" ), "e" ).v = "found"; break; }
	case 18: { auto text = [&]() -> const string& { return at_path( n, sp ).get_str(); }; auto into = [&]() -> prop_node& { return at_path( n, dp ); }; into()[ text() ].set_value( "found" ); key( y, v.v ).v = "found"; const string now = at_path( t, sp ).v; into().add_child( text() ); y.add( now ); into().add_children( 2, text(), text() ); y.add( now, now ); y.add( now, now ); break; }
	}
	same( c, n, t, "tree" );
}
