// C08: include directives of the default format and include nodes of loaded trees, over every small inclusion graph.
#include "zmlref.h"
#include <fcntl.h>
#include <unistd.h>
#include <sys/stat.h>
#include <climits>
#include <cstdlib>
#include <sstream>
#include "xo/serialization/serialize.h"
#include "xo/serialization/prop_node_serializer_zml.h"
#include "xo/system/error_code.h"
using namespace pn;

static void put( const string& f, const string& s ) { int fd = open( f.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644 ); if ( write( fd, s.data(), s.size() ) < 0 ) {} close( fd ); }
static string real( const string& f ) { char b[ PATH_MAX ]; return realpath( f.c_str(), b ) ? string( b ) : "no file " + f; }

// files in different folders; relative names depend on the file that contains them
static const std::vector< string > files = { "p/r.zml", "p/a.zml", "p/s/b.zml", "c.zml" };
static string relative( int from, int to )
{
	static const char* up[] = { "../", "../", "../../", "" };
	static const char* from_p[] = { "r.zml", "a.zml", "s/b.zml", "../c.zml" };
	static const char* from_s[] = { "../r.zml", "../a.zml", "b.zml", "../../c.zml" };
	return from <= 1 ? from_p[ to ] : from == 2 ? from_s[ to ] : string( up[ 3 ] ) + files[ to ];
}
static string tree( const string& dir ) { mkdir( dir.c_str(), 0755 ); mkdir( ( dir + "/p" ).c_str(), 0755 ); mkdir( ( dir + "/p/s" ).c_str(), 0755 ); return dir; }

struct Failed {};
struct Disk
{
	mutable bool cycle = false;
	std::vector< string > text; string dir;
	/// expected tree of a file, with the files that are included on the way
	bool load( int f, T& t, std::vector< int >& inc, int depth ) const
	{
		if ( depth > (int)files.size() ) { cycle = true; return false; } // some file includes itself
		zml::Error e;
		int r = zml::parse( text[ f ], t, e, [&]( const string& name, T& sub ) { int g = target( f, name ); if ( g < 0 || !load( g, sub, inc, depth + 1 ) ) return false; inc.push_back( g ); return true; } );
		if ( r == 2 ) throw mc::prune(); // the format does not say
		return r == 0;
	}
	int target( int f, const string& name ) const
	{
		for ( int g = 0; g < (int)files.size(); ++g ) if ( name == relative( f, g ) || name == dir + "/" + files[ g ] ) return g;
		return -1;
	}
};

static void zml_graphs( mc::Ctx& c, int total, int per_file, bool few )
{
	c.clean_scratch(); Disk d; d.dir = tree( c.scratch() + "/t" ); d.text.assign( files.size(), "" );
	// contents are chosen for the files that can be reached
	std::vector< int > todo = { 0 }; std::vector< bool > known( files.size(), false ); known[ 0 ] = true;
	for ( size_t q = 0; q < todo.size(); ++q )
	{
		int f = todo[ q ]; string t;
		for ( int n = 0; n < per_file && total > 0; ++n )
		{
			int k = c.choose( few ? 4 : 10 );
			if ( k == 0 ) break;
			--total;
			auto inc = [&]
			{
				int g = c.choose( (int)files.size() + ( few ? 0 : 2 ) );
				if ( g < (int)files.size() ) { if ( !known[ g ] ) { known[ g ] = true; todo.push_back( g ); } return "<< " + relative( f, g ) + " >>"; }
				if ( g > (int)files.size() ) { if ( !known[ 1 ] ) { known[ 1 ] = true; todo.push_back( 1 ); } return "<<\"" + d.dir + "/" + files[ 1 ] + "\">>"; }
				return string( "<< none.zml >>" );
			};
			string id = std::to_string( f ) + std::to_string( n );
			switch ( k )
			{
			case 1: t += inc() + "\n"; break;
			case 2: t += "k = " + id + "\n"; break;
			case 3: t += "g { x = " + id + " " + inc() + " y = " + id + " }\n"; break;
			case 4: t += "l [ " + id + " " + inc() + " z ]\n"; break;
			case 5: t += "$m = m" + id + "\n"; break;
			case 6: t += "v = \"<${m}>\" w = $m\n"; break;
			case 7: t += "r = @k\n"; break;
			case 8: t += "{ e = " + id + " }\n"; break;
			case 9: t += "bad }\n"; break;
			}
		}
		d.text[ f ] = t;
	}
	string all; for ( int f : todo ) { put( d.dir + "/" + files[ f ], d.text[ f ] ); all += files[ f ] + ": " + d.text[ f ] + "; "; }
	c.op( "%s", all.c_str() );
	T want; std::vector< int > inc; bool ok = d.load( 0, want, inc, 0 );
	std::vector< string > inc_names; for ( int g : inc ) inc_names.push_back( real( d.dir + "/" + files[ g ] ) );
	xo::path root( d.dir + "/" + files[ 0 ] );
	auto verify = [&]( const xo::prop_node& pn, const xo::error_code& ec, const std::vector< xo::path >* list, const char* what )
	{
		++c.checks;
		if ( !ok ) { if ( ec.good() ) c.fail( string( what ) + ": an error is not reported, got " + pn::text( pn ) ); c.check( !ec.message().empty(), "error without message" ); return; }
		if ( ec.bad() ) c.fail( string( what ) + ": " + ec.message() + ", expected " + canon( want ) );
		same( c, pn, want, what );
		if ( list ) { std::vector< string > n; for ( auto& p : *list ) n.push_back( real( p.str() ) ); c.eq( n.size(), inc_names.size(), "number of included files" ); std::sort( n.begin(), n.end() ); auto m = inc_names; std::sort( m.begin(), m.end() ); c.check( n == m, "list of included files" ); }
	};
	{ xo::error_code ec; std::vector< xo::path > l; auto pn = xo::load_zml( root, &ec, xo::path(), &l ); verify( pn, ec, &l, "load_zml" ); }
	if ( d.cycle ) { c.state( "cycle" ); return; } // slow
	{ xo::error_code ec; auto pn = xo::load_file( root, &ec ); verify( pn, ec, nullptr, "load_file" ); }
	{ xo::error_code ec; xo::prop_node pn; xo::prop_node_serializer_zml s( pn, &ec, xo::path( d.dir + "/p" ) ); std::istringstream str( d.text[ 0 ] ); s.read_stream( str ); verify( pn, ec, &s.included_files_, "reading a stream" ); }
	{ if ( chdir( ( d.dir + "/p" ).c_str() ) ) {} xo::error_code ec; std::vector< xo::path > l; auto pn = xo::load_zml( xo::path( "r.zml" ), &ec, xo::path(), &l ); verify( pn, ec, &l, "relative file name" ); if ( chdir( "/" ) ) {} }
	if ( !ok ) c.must_throw( [&] { xo::load_zml( root ); }, "load_zml without error object" );
	c.state( ok ? canon( want ) : "error" );
}
MC_SUITE( "zml: inclusion graphs" ) { zml_graphs( c, c.thorough ? 5 : 4, 3, true ); }
MC_SUITE( "zml: scopes, arrays, macros and references" ) { zml_graphs( c, c.thorough ? 4 : 3, 3, false ); }
MC_SUITE( "zml: depth" )
{
	// chains as deep as allowed are resolved
	c.clean_scratch(); int n = 1 + c.choose( 98 ); string dir = c.scratch(); c.op( "chain of %d files", n );
	for ( int i = 0; i < n; ++i ) { string sub = dir; for ( int k = 0; k < i % 3; ++k ) { sub += "/s"; mkdir( sub.c_str(), 0755 ); } }
	auto name = [&]( int i ) { return string( i % 3 == 0 ? "" : i % 3 == 1 ? "s/" : "s/s/" ) + "f" + std::to_string( i ) + ".zml"; };
	T want; 
	for ( int i = 0; i < n; ++i )
	{
		string up = i % 3 == 0 ? "" : i % 3 == 1 ? "../" : "../../";
		put( dir + "/" + name( i ), "b" + std::to_string( i ) + " = 1\n" + ( i + 1 < n ? "<< " + up + name( i + 1 ) + " >>\n" : "" ) + "e" + std::to_string( i ) + " = 2\n" );
		want.add( "b" + std::to_string( i ), "1" );
	}
	for ( int i = n; i-- > 0; ) want.add( "e" + std::to_string( i ), "2" );
	same( c, xo::load_zml( xo::path( dir + "/f0.zml" ) ), want, "chain" );
	c.state( n );
}

//
// include nodes
//
static void emit_zml( const T& t, string& s ) { for ( auto& e : t.ch ) { s += e.first; if ( e.second.ch.empty() ) s += " = \"" + e.second.v + "\""; else { s += " {\n"; emit_zml( e.second, s ); s += "}"; } s += "\n"; } }
static void emit_xml( const T& t, string& s ) { for ( auto& e : t.ch ) { s += "<" + e.first + ">"; s += e.second.v; emit_xml( e.second, s ); s += "</" + e.first + ">"; } }
static string yaml( const T& t ) { string s; emit_zml( t, s ); return s; }
static void merge( T& a, const T& b ) { for ( auto& o : b.ch ) { int i = a.find( o.first ); if ( i >= 0 ) merge( a.ch[ i ].second, o.second ); else a.ch.push_back( o ); } }

struct Nodes
{
	string directive, dir; std::vector< string > names; std::vector< T > content; std::vector< bool > exists;
	void resolve( T& t, int f, int depth ) const
	{
		for ( size_t i = 0; i < t.ch.size(); )
		{
			if ( t.ch[ i ].first != directive ) { resolve( t.ch[ i ].second, f, depth ); ++i; continue; }
			T inc = t.ch[ i ].second; int k = inc.find( "file" ), g = -1; if ( k < 0 ) throw Failed();
			for ( int j = 0; j < (int)names.size(); ++j ) if ( inc.ch[ k ].second.v == rel( f, j ) || inc.ch[ k ].second.v == dir + "/" + names[ j ] ) g = j;
			if ( g < 0 ) throw Failed();
			T sub = load( g, depth + 1 ); if ( sub.ch.size() != 1 ) throw Failed();
			int m = inc.find( "merge_children" );
			if ( m >= 0 && inc.ch[ m ].second.v == "1" ) { t.ch.erase( t.ch.begin() + i ); merge( t, sub.ch[ 0 ].second ); }
			else { t.ch[ i ] = sub.ch[ 0 ]; ++i; }
		}
	}
	T load( int f, int depth ) const { if ( depth > (int)names.size() ) throw Failed(); T t = content[ f ]; resolve( t, f, depth ); return t; }
	string rel( int f, int g ) const { string s = relative( f, g ); return s.substr( 0, s.size() - 3 ) + names[ g ].substr( names[ g ].size() - 3 ); }
};
static void node_graphs( mc::Ctx& c, int total, int per_node, const char* directive )
{
	c.clean_scratch(); Nodes d; d.dir = tree( c.scratch() + "/t" );
	d.directive = directive; d.names = { "p/r.zml", "p/a.zml", "p/s/b.xml", "c.zml" };
	d.content.resize( d.names.size() ); d.exists.assign( d.names.size(), true );
	std::vector< int > todo = { 0 }; std::vector< bool > known( d.names.size(), false ); known[ 0 ] = true;
	for ( size_t q = 0; q < todo.size(); ++q )
	{
		int f = todo[ q ], id = 0;
		std::function< void( T&, int, int ) > items = [&]( T& t, int level, int limit )
		{
			for ( int n = 0; n < limit && total > 0; ++n )
			{
				int k = c.choose( level < 2 ? 5 : 3 );
				if ( k == 0 ) break;
				--total;
				string v = std::to_string( f ) + std::to_string( id++ );
				if ( k == 1 )
				{
					int g = c.choose( (int)d.names.size() + 2 );
					T& i = t.add( d.directive );
					if ( g < (int)d.names.size() )
					{
						if ( !known[ g ] ) { known[ g ] = true; todo.push_back( g ); }
						i.add( "file", d.rel( f, g ) );
						int m = c.choose( 3 ); if ( m ) i.add( "merge_children", m == 1 ? "1" : "0" );
					}
					else if ( g == (int)d.names.size() ) i.add( "file", "none.zml" );
					else i.add( "other", "1" );
				}
				else if ( k == 2 ) t.add( "k", v );
				else { T& s = t.add( k == 3 ? "g" : "k" ); items( s, level + 1, 2 ); if ( s.ch.empty() ) s.v = "e"; }
			}
		};
		if ( f == 0 && c.flip() ) items( d.content[ 0 ], 0, per_node );
		else
		{
			int roots = f == 2 ? 1 : c.choose( 3 ); // none, one, or too many roots
			roots = roots == 0 ? 1 : roots == 1 ? 0 : 2;
			for ( int r = 0; r < roots; ++r ) { T& s = d.content[ f ].add( r ? "more" : "root" + std::to_string( f % 2 ) ); if ( r == 0 ) items( s, 0, per_node ); if ( s.ch.empty() ) s.v = "v"; }
		}
	}
	string all;
	for ( int f : todo )
	{
		string s; if ( f == 2 ) emit_xml( d.content[ f ], s ); else emit_zml( d.content[ f ], s );
		put( d.dir + "/" + d.names[ f ], s ); all += d.names[ f ] + ": " + s + "; ";
	}
	c.op( "%s", all.c_str() );
	bool ok = true; T want; try { want = d.load( 0, 0 ); } catch ( Failed& ) { ok = false; }
	xo::path root( d.dir + "/" + d.names[ 0 ] );
	auto load = [&] { return d.directive == "INCLUDE" ? xo::load_file_with_include( root ) : xo::load_file_with_include( root, d.directive ); };
	++c.checks; c.state( ok ? canon( want ) : "error" );
	if ( !ok ) { c.must_throw( [&] { load(); }, "load_file_with_include of files that can not be resolved" ); return; }
	same( c, load(), want, "tree with includes" );
}
MC_SUITE( "include nodes: graphs" ) { node_graphs( c, c.thorough ? 4 : 3, 3, "INCLUDE" ); }
MC_SUITE( "include nodes: other directive" ) { node_graphs( c, c.thorough ? 3 : 2, 2, "USE" ); }
MC_SUITE( "zml: cycles of every length" )
{
	c.clean_scratch(); int n = 1 + c.choose( 12 ), tail = c.choose( 3 ), how = c.choose( 3 ); string dir = c.scratch(); c.op( "cycle of %d files after %d files", n, tail );
	for ( int i = 0; i < n + tail; ++i )
	{
		string inc = "<< f" + std::to_string( i + 1 < n + tail ? i + 1 : tail ) + ".zml >>";
		put( dir + "/f" + std::to_string( i ) + ".zml", "a = 1\n" + ( i % 2 ? "g { " + inc + " }" : "l [ " + inc + " ]" ) );
	}
	xo::path f( dir + "/f0.zml" ); xo::error_code ec; c.state( n * 3 + tail );
	if ( how == 0 ) { xo::load_file( f, &ec ); c.check( ec.bad(), "a cycle is not reported by load_file" ); }
	else if ( how == 1 ) { xo::prop_node pn; xo::prop_node_serializer_zml s( pn, &ec, xo::path( dir ) ); std::istringstream str( "<< f0.zml >>" ); s.read_stream( str ); c.check( ec.bad(), "a cycle is not reported" ); }
	else c.must_throw( [&] { xo::load_zml( f ); }, "load_zml without error object" );
}

// macros and references are limited to their file and group, however deep the file is included
MC_SUITE( "zml: macros along a chain" )
{
	c.clean_scratch(); int n = 1 + c.choose( c.thorough ? 8 : 6 ), def = c.choose( n ), use = c.choose( n ), where = c.choose( 3 ), how = c.choose( 5 ), inc = c.choose( 3 ); string dir = c.scratch(); std::vector< string > text( n );
	for ( int i = 0; i < n; ++i )
	{
		string& t = text[ i ], I = i + 1 < n ? "<< f" + std::to_string( i + 1 ) + ".zml >>\n" : ""; string D = def == i ? "$m = one\nr { k = ref }\n" : "", U; if ( use == i ) U = how == 0 ? "u = $m\n" : how == 1 ? "u = \"x${m}y\"\n" : how == 2 ? "u = @r.k\n" : how == 3 ? "u { $m = two v = $m }\nw = $m\n" : "g2 { $m = three }\nw = \"${m}\"\n";
		switch ( where ) { case 0: t = D + "a = 1\n"; break; case 1: t = "g {\n" + D + ( def == i ? "d = $m\n" : "" ) + "}\n"; break; case 2: t = ""; break; } // defined before, in a group before, or after the include
		t += inc == 0 ? I : inc == 1 && !I.empty() ? "g {\n" + I + ( where == 2 ? D : "" ) + "}\n" : I.empty() ? "e = 1\n" : U + I; if ( where == 2 && inc != 1 ) t += D; t += U; put( dir + "/f" + std::to_string( i ) + ".zml", t );
	}
	c.op( "%d files, defined in %d (%d), used in %d (%d), include %d", n, def, where, use, how, inc ); c.state( ( ( n * 10 + def ) * 10 + use ) * 1000 + where * 100 + how * 10 + inc );
	std::function< int( int, T& ) > load = [&]( int i, T& t ) { zml::Error e; int r = zml::parse( text[ i ], t, e, [&]( const string& f, T& sub ) { int q = load( std::stoi( f.substr( 1 ) ), sub ); if ( q == 2 ) throw mc::prune(); return q == 0; } ); if ( r == 2 ) throw mc::prune(); return r; };
	T want; int r = load( 0, want ); xo::error_code ec; auto pn = xo::load_zml( xo::path( dir + "/f0.zml" ), &ec ); if ( r == 1 ) { c.check( ec.bad(), "an undefined macro or reference is accepted" ); return; } if ( ec.bad() ) c.fail( "macros along a chain: " + ec.message() ); same( c, pn, want, "macros along a chain" );
}
MC_SUITE( "zml: many included files" )
{
	c.clean_scratch(); int n = c.pick( { 5, 16, 17, 33, 64, 65, 98, 100, 129, 257 } ), how = c.choose( 4 ); bool distinct = c.flip(); string dir = c.scratch(); c.op( "%d files, %s, %d", n, distinct ? "distinct" : "one of them many times", how ); c.state( n * 10 + how * 2 + distinct );
	string s; T want;
	for ( int i = 0; i < n; ++i )
	{
		int f = distinct ? i : 0; string inc = "<< f" + std::to_string( f ) + ".zml >>", key = "k" + std::to_string( f );
		if ( distinct || i == 0 ) put( dir + "/f" + std::to_string( f ) + ".zml", key + " = v" + std::to_string( f ) + "\n" );
		switch ( how )
		{
		case 0: s += inc + "\n"; want.add( key, "v" + std::to_string( f ) ); break;
		case 1: s += "g { " + inc + " e = 1 }\n"; { T& g = want.add( "g" ); g.add( key, "v" + std::to_string( f ) ); g.add( "e", "1" ); } break;
		case 2: s += "a = 1 " + inc + " "; want.add( "a", "1" ); want.add( key, "v" + std::to_string( f ) ); break;
		case 3: if ( i == 0 ) { s += "h {\n"; want.add( "h" ); } s += inc + "\n"; want.ch[ 0 ].second.add( key, "v" + std::to_string( f ) ); if ( i + 1 == n ) { s += "}\nend = 1\n"; want.add( "end", "1" ); } break;
		}
	}
	put( dir + "/r.zml", s ); xo::error_code ec; std::vector< xo::path > l; auto pn = xo::load_zml( xo::path( dir + "/r.zml" ), &ec, xo::path(), &l );
	if ( ec.bad() ) c.fail( "many included files: " + ec.message() ); same( c, pn, want, "many included files" ); c.eq( l.size(), size_t( n ), "number of included files" );
	std::vector< string > a, b; for ( auto& p : l ) a.push_back( real( p.str() ) ); for ( int i = 0; i < n; ++i ) b.push_back( real( dir + "/f" + std::to_string( distinct ? i : 0 ) + ".zml" ) ); std::sort( a.begin(), a.end() ); std::sort( b.begin(), b.end() ); c.check( a == b, "list of included files" );
}
MC_SUITE( "include nodes: many" )
{
	c.clean_scratch(); int n = c.pick( { 5, 16, 17, 33, 64, 65, 98, 100, 129 } ), how = c.choose( 3 ), mode = c.choose( 3 ); bool distinct = c.flip(); string dir = c.scratch(); c.op( "%d nodes, %s, %d, merge_children %d", n, distinct ? "distinct" : "one file many times", how, mode ); c.state( n * 100 + how * 10 + mode * 2 + distinct );
	T in, want, merged; in.add( "root" ); want.add( "root" ); T* pi = &in.ch[ 0 ].second; T* pw = &want.ch[ 0 ].second;
	for ( int i = 0; i < n; ++i )
	{
		int f = distinct ? i : 0; string id = std::to_string( f );
		if ( distinct || i == 0 ) { T file; T& r = file.add( "r" + id ); r.add( "a" + id, "1" ); r.add( "b" + id, "2" ); string s; emit_zml( file, s ); put( dir + "/f" + id + ".zml", s ); }
		T *ti = pi, *tw = pw; if ( how == 1 ) { ti = &pi->add( "g" ); tw = &pw->add( "g" ); ti->add( "x", "1" ); tw->add( "x", "1" ); } else if ( how == 2 ) { ti->add( "y", id ); tw->add( "y", id ); }
		T& node = ti->add( "INCLUDE" ); node.add( "file", "f" + id + ".zml" ); if ( mode ) node.add( "merge_children", mode == 1 ? "1" : "0" );
		T r; r.add( "a" + id, "1" ); r.add( "b" + id, "2" ); // merged children come last
		if ( mode == 1 ) merge( how == 1 ? *tw : merged, r ); else tw->add( "r" + id ).ch = r.ch;
	}
	merge( *pw, merged );
	string s; emit_zml( in, s ); put( dir + "/r.zml", s ); same( c, xo::load_file_with_include( xo::path( dir + "/r.zml" ) ), want, "many include nodes" );
}
