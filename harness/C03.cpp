// C03: access tracking of property trees.
#include "pnmodel.h"
#include "xo/container/prop_node_tools.h"
#include "xo/system/log_sink.h"
using namespace pn;
using xo::prop_node;

struct capture : xo::log::sink
{
	std::vector< std::pair<int, string> > msgs;
	capture() : sink( xo::log::level::trace, xo::log::format_flags() ) {}
	void hande_log_message( xo::log::level l, const string& m ) override { msgs.push_back( { (int)l, m } ); }
};

// the tree and its access marks
struct A { string v; bool acc = false; std::vector< std::pair<string, A> > ch;
	bool used() const { return acc || v.empty(); }
	size_t unused() const { size_t n = !used(); for ( auto& k : ch ) n += k.second.unused(); return n; }
	void mark( bool b ) { acc = b; for ( auto& k : ch ) k.second.mark( b ); }
	int find( const string& k ) const { for ( size_t i = 0; i < ch.size(); ++i ) if ( ch[ i ].first == k ) return (int)i; return -1; }
};
static A from( const T& t ) { A a; a.v = t.v; for ( auto& k : t.ch ) a.ch.push_back( { k.first, from( k.second ) } ); return a; }
static void list( const A& a, int depth, string& s, bool nl, std::vector<string>* lines = nullptr )
{
	for ( auto& k : a.ch )
	{
		if ( k.second.unused() > 0 )
		{
			string l = string( depth * 2, ' ' ) + k.first;
			if ( !k.second.used() ) l += " = " + k.second.v + " *";
			s += l + "\n"; if ( lines ) lines->push_back( l );
		}
		list( k.second, depth + 1, s, nl, lines );
	}
}
static string canonA( const A& a ) { string s = mc::esc( a.v ) + ( a.acc ? "!" : "?" ); for ( auto& k : a.ch ) s += "{" + k.first + ":" + canonA( k.second ) + "}"; return s; }
static void cmp_rec( mc::Ctx& c, const prop_node& n, const A& a )
{
	c.eq( n.is_accessed(), a.used(), "is_accessed" ); c.eq( n.count_unaccessed(), a.unused(), "count_unaccessed" );
	c.eq( n.size(), a.ch.size(), "size" ); c.eq( n.peek_str(), a.v, "value" );
	for ( size_t i = 0; i < a.ch.size(); ++i ) { c.eq( n.at( i ).first, a.ch[ i ].first, "key" ); cmp_rec( c, n.at( i ).second, a.ch[ i ].second ); }
}
static void compare( mc::Ctx& c, const prop_node& n, const A& a )
{
	cmp_rec( c, n, a );
	string s; std::vector<string> lines; list( a, 0, s, true, &lines );
	c.eq( xo::to_str_unaccessed( n ), s, "listing of unaccessed nodes" );
	cmp_rec( c, n, a ); // reporting changes nothing
	capture cap; cap.set_sink_mode( xo::log::sink_mode::current_thread );
	xo::log_unaccessed( n );
	c.eq( cap.msgs.size(), lines.size(), "number of logged unaccessed nodes" );
	for ( size_t i = 0; i < lines.size(); ++i ) { c.eq( cap.msgs[ i ].second, lines[ i ], "logged unaccessed node" ); c.eq( cap.msgs[ i ].first, (int)xo::log::level::warning, "log level" ); }
	cap.msgs.clear(); xo::log_unaccessed( n, xo::log::level::error, 2 ); c.eq( cap.msgs.size(), lines.size(), "number of unaccessed nodes logged below" );
	for ( size_t i = 0; i < lines.size(); ++i ) { c.eq( cap.msgs[ i ].second, "    " + lines[ i ], "unaccessed node logged below" ); c.eq( cap.msgs[ i ].first, (int)xo::log::level::error, "chosen log level" ); }
	cmp_rec( c, n, a );
	// reads that do not use a value
	bool b = n.has_key( "a" ) | n.has_value() | n.has_value( "a" ) | n.empty() | ( n.count_key( "a" ) > 0 ) | ( n.try_get_child( "a" ) != nullptr ) | ( n.try_get_query( "a.b" ) != nullptr )
		| ( n.count_layers() > 2 ) | n.has_any_key( { "a", "b" } ) | ( n == n ) | ( n.try_find_child_recursively( "b" ) != nullptr ) | ( n.try_get_any_child( { "b", "a" } ) != nullptr ); (void)b;
	n.get<int>( "absent", 3 ); n.try_get<int>( "absent" );
	cmp_rec( c, n, a );
}
static int iv( const string& s ) { return s == "1" ? 1 : s == "2" ? 2 : -1; }

static void histories( mc::Ctx& c, const T& t0, int depth )
{
	prop_node n = build( t0 ); A a = from( t0 );
	for ( int d = 0; ; ++d )
	{
		if ( c.fresh() ) { if ( c.seen( canonA( a ), depth - d ) ) return; compare( c, n, a ); }
		if ( d == depth ) return;
		// node addressed by path of child indices, up to depth 2
		prop_node* x = &n; A* y = &a; string where = "root";
		for ( int k = 0; k < 2; ++k )
		{
			int i = c.choose( (int)y->ch.size() + 1 ); if ( i == 0 ) break;
			x = &x->at( i - 1 ).second; y = &y->ch[ i - 1 ].second; where += "/" + std::to_string( i - 1 );
		}
		const prop_node& cx = *x; const char* w = where.c_str();
		auto kid = [&]( const string& k ) -> A* { int p = y->find( k ); return p < 0 ? nullptr : &y->ch[ p ].second; };
		switch ( c.choose( 19 ) )
		{
		case 0: c.op( "%s.get_str", w ); c.eq( cx.get_str(), y->v, "get_str" ); y->acc = true; break;
		case 1: c.op( "%s.get<string>", w ); c.eq( cx.get<string>(), y->v, "get" ); y->acc = true; break;
		case 2: { auto k = c.pick( { "a", "b" } ); A* q = kid( k ); if ( !q || iv( q->v ) < 0 ) return; c.op( "%s.get<int>(%s)", w, k ); c.eq( cx.get<int>( k ), iv( q->v ), "get(key)" ); q->acc = true; break; }
		case 3: { auto k = c.pick( { "a", "b" } ); A* q = kid( k ); if ( q && iv( q->v ) < 0 ) return; c.op( "%s.get<int>(%s,9)", w, k ); c.eq( cx.get<int>( k, 9 ), q ? iv( q->v ) : 9, "get(key,def)" ); if ( q ) q->acc = true; break; }
		case 4: { auto k = c.pick( { "a", "b" } ); A* q = kid( k ); c.op( "%s.try_get<int>(%s)", w, k ); auto o = cx.try_get<int>( k ); c.eq( bool( o ), q && iv( q->v ) >= 0, "try_get(key)" ); if ( q ) q->acc = true; break; }
		case 5: { auto k = c.pick( { "a", "b" } ); A* q = kid( k ); c.op( "%s.try_get(string,%s)", w, k ); string s; c.eq( cx.try_get( s, k ), q != nullptr, "try_get(v,key)" ); if ( q ) { q->acc = true; c.eq( s, q->v, "value" ); } break; }
		case 6: { A* q = kid( "b" ); if ( !q ) q = kid( "a" ); c.op( "%s.get_any<string>(b,a)", w ); auto s = cx.get_any<string>( { "b", "a" }, "d" ); c.eq( s, q ? q->v : string( "d" ), "get_any" ); if ( q ) q->acc = true; break; }
		case 7: { auto k = c.pick( { "a", "b" } ); c.op( "%s.get_all<string>(%s)", w, k ); cx.get_all<string>( k ); for ( auto& kv : y->ch ) if ( kv.first == k ) kv.second.acc = true; break; }
		case 8: { c.op( "%s iterate", w ); size_t cnt = 0; for ( auto& kv : cx ) cnt += kv.first.size(); y->acc = true; break; }
		case 9: { c.op( "%s.access()", w ); cx.access(); y->acc = true; break; }
		case 10: { c.op( "%s.access(false)", w ); cx.access( false ); y->acc = false; break; }
		case 11: { c.op( "%s.set_accessed_recursively(true)", w ); cx.set_accessed_recursively( true ); y->mark( true ); break; }
		case 12: { c.op( "%s.set_accessed_recursively(false)", w ); cx.set_accessed_recursively( false ); y->mark( false ); break; }
		case 13: { if ( y->ch.empty() ) return; c.op( "%s.get<string>(#0)", w ); c.eq( cx.get<string>( xo::index_t( 0 ) ), y->ch[ 0 ].second.v, "get(index)" ); y->ch[ 0 ].second.acc = true; break; }
		case 14: { auto k = c.pick( { "a", "b" } ); A* q = kid( k ); if ( !q ) return; c.op( "%s.get_str(%s)", w, k ); cx.get_str( k ); q->acc = true; break; }
		case 15: { c.op( "%s.get<vector<string>>", w ); auto v = cx.get< std::vector<string> >(); c.eq( v.size(), y->ch.size(), "vector size" ); for ( auto& kv : y->ch ) kv.second.acc = true; y->acc = true; break; }
		case 16: { c.op( "copy", 0 ); prop_node m( n ); n = m; break; } // marks travel with a copy
		case 17: { c.op( "%s.try_get_query(a.b)", w ); auto* q = cx.try_get_query( "a.b" ); A* p = kid( "a" ); if ( p ) { int i = p->find( "b" ); p = i < 0 ? nullptr : &p->ch[ i ].second; } c.eq( q != nullptr, p != nullptr, "try_get_query" ); if ( q ) { q->get<string>(); p->acc = true; } break; }
		case 18: { auto k = c.pick( { "a", "b" } ); A* q = kid( k ); c.op( "%s.set(%s,2)", w, k ); x->set( k, 2 ); if ( !q ) { y->ch.push_back( { k, A() } ); q = &y->ch.back().second; } *q = A(); q->v = "2"; break; }
		}
	}
}
MC_SUITE( "flat tree histories" ) { T t; t.add( "a", "1" ); t.add( "b", "x" ); t.add( "a", "2" ); histories( c, t, c.thorough ? 7 : 5 ); }
MC_SUITE( "nested tree histories" ) { T t( "r" ); auto& a = t.add( "a", "1" ); a.add( "b", "1" ); a.add( "a", "" ); t.add( "b", "" ).add( "a", "y" ); histories( c, t, c.thorough ? 5 : 4 ); }
MC_SUITE( "all small trees, short histories" ) { int b = 3; T t = gen( c, b, { "a", "b" }, { "", "1" }, 3 ); c.note( "%s", canon( t ).c_str() ); histories( c, t, 2 ); }
// every subset of nodes read, on larger trees
MC_SUITE( "every subset of nodes read" )
{
	int shape = c.choose( 3 ); T t;
	if ( shape == 0 ) for ( int i = 0; i < 9; ++i ) t.add( "k" + std::to_string( i ), std::to_string( i ) );
	else if ( shape == 1 ) { T* p = &t; for ( int i = 0; i < 9; ++i ) p = &p->add( "k" + std::to_string( i ), std::to_string( i ) ); }
	else for ( int i = 0; i < 3; ++i ) { auto& s = t.add( "g" + std::to_string( i ), i == 1 ? "" : "v" ); for ( int j = 0; j < 2; ++j ) s.add( "k" + std::to_string( j ), "w" ); }
	prop_node n = build( t ); A a = from( t );
	std::vector< std::pair<prop_node*, A*> > nodes; std::function<void( prop_node&, A& )> f = [&]( prop_node& x, A& y ) { nodes.push_back( { &x, &y } ); for ( size_t i = 0; i < y.ch.size(); ++i ) f( x.at( i ).second, y.ch[ i ].second ); }; f( n, a );
	string bits; for ( auto& p : nodes ) { bool r = c.flip(); bits += r ? '1' : '0'; if ( r ) { p.first->get<string>(); p.second->acc = true; } }
	c.op( "shape %d read %s", shape, bits.c_str() ); c.state( bits + char( 'a' + shape ) );
	compare( c, n, a );
}
MC_SUITE( "larger trees" )
{
	int shape = c.choose( 4 ), n = c.pick( { 8, 15, 16, 17, 33, 64, 65, 129 } ), which = c.choose( 9 ); T t; if ( shape == 1 && n > 70 ) return; // names grow with the depth
	if ( shape == 0 ) for ( int i = 0; i < n; ++i ) t.add( "k" + std::to_string( i ), std::to_string( i ) );
	else if ( shape == 1 ) { T* p = &t; for ( int i = 0; i < n; ++i ) p = &p->add( "k" + std::to_string( i ), i % 3 ? std::to_string( i ) : "" ); }
	else if ( shape == 2 ) for ( int i = 0; i < n / 4; ++i ) { auto& s = t.add( "g" + std::to_string( i ), i % 2 ? "" : "v" ); for ( int j = 0; j < 3; ++j ) s.add( "k" + std::to_string( j ), "w" ); }
	else for ( int i = 0; i < n; ++i ) t.add( "same", std::to_string( i ) );
	prop_node x = build( t ); A a = from( t ); std::vector< std::pair<prop_node*, A*> > nodes; std::function<void( prop_node&, A& )> f = [&]( prop_node& p, A& y ) { nodes.push_back( { &p, &y } ); for ( size_t i = 0; i < y.ch.size(); ++i ) f( p.at( i ).second, y.ch[ i ].second ); }; f( x, a );
	size_t z = nodes.size(); auto in = [&]( size_t i ) { switch ( which ) { case 0: return false; case 1: return true; case 2: return i == 1; case 3: return i + 1 == z; case 4: return i + 1 != z; case 5: return i % 2 == 0; case 6: return i % 3 == 2; case 7: return i * 2 < z; default: return i == z / 2; } };
	c.op( "shape %d of %d, read %d", shape, n, which ); c.state( ( shape * 1000 + n ) * 10 + which );
	for ( size_t i = 0; i < z; ++i ) if ( in( i ) ) { nodes[ i ].first->get<string>(); nodes[ i ].second->acc = true; }
	compare( c, x, a );
}
