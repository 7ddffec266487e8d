// C06: INI and XML property files: round trip, error reports, choice of format.
#include "pnmodel.h"
#include "xo/serialization/prop_node_serializer_ini.h"
#include "xo/serialization/prop_node_serializer_xml.h"
#include "xo/serialization/serialize.h"
#include "xo/filesystem/filesystem.h"
#include "xo/system/error_code.h"
#include <sstream>
using namespace pn;
using xo::prop_node; using std::vector;
enum kind { OK, BAD, UNSPEC };
struct stop_parse { kind k; };

template< typename S > string write( const prop_node& n ) { std::ostringstream o; S( n ).write_stream( o ); return o.str(); }
template< typename S > bool read( const string& s, prop_node& n, string* msg = nullptr )
{
	xo::error_code ec; std::istringstream i( s ); S( n, &ec ).read_stream( i ); if ( msg ) *msg = ec.message(); return ec.good();
}
/// compares what the reader does with a text, through both error interfaces
template< typename S > void verdict( mc::Ctx& c, const string& s, kind k, const T& t )
{
	prop_node n; bool good = read<S>( s, n ); // must not throw
	if ( k == OK ) { if ( !good ) c.fail( "valid text rejected: " + mc::esc( s ) ); same( c, n, t, "tree read" ); }
	if ( k == BAD && good ) c.fail( "malformed text accepted: " + mc::esc( s ) + " as " + text( n ) );
	++c.checks;
	prop_node m; bool threw = false;
	try { std::istringstream i( s ); S( m ).read_stream( i ); } catch ( std::exception& ) { threw = true; }
	c.eq( threw, !good, "exception without error object" );
	if ( !threw ) c.check( read( m ) == read( n ), "trees with and without error object differ" );
}

// ---- INI -------------------------------------------------------------------------------------------------------
static const string WS = " \t\r\n\v\f";
static string trim( const string& s ) { auto b = s.find_first_not_of( WS ); return b == string::npos ? "" : s.substr( b, s.find_last_not_of( WS ) - b + 1 ); }
static kind ini_ref( const string& s, T& t )
{
	size_t group = string::npos; size_t p = 0;
	while ( p < s.size() )
	{
		auto e = s.find( '\n', p ); string l = s.substr( p, e == string::npos ? e : e - p ); p = e == string::npos ? s.size() : e + 1;
		if ( l.size() > 1000 || l.find( '\0' ) != string::npos ) return UNSPEC;
		if ( l.empty() || l[ 0 ] == ';' ) continue;
		if ( trim( l ) != l ) { if ( l.find( '=' ) == string::npos || trim( l ).empty() || trim( l )[ 0 ] == ';' || trim( l )[ 0 ] == '[' ) return UNSPEC; }
		if ( l.size() > 2 && l[ 0 ] == '[' && l.back() == ']' ) { t.add( l.substr( 1, l.size() - 2 ) ); group = t.ch.size() - 1; continue; }
		auto q = l.find( '=' ); if ( q == string::npos ) return BAD;
		string k = trim( l.substr( 0, q ) ), v = trim( l.substr( q + 1 ) ); if ( k.empty() ) return UNSPEC;
		T& g = group == string::npos ? t : t.ch[ group ].second;
		int i = g.find( k ); if ( i >= 0 ) g.ch[ i ].second = T( v ); else g.add( k, v );
	}
	return OK;
}
static bool ini_text_ok( const string& s ) { return s == trim( s ) && s.find_first_of( string( "\n\0", 2 ) ) == string::npos; }
static bool ini_key_ok( const string& s ) { return ini_text_ok( s ) && !s.empty() && s.find( '=' ) == string::npos && s[ 0 ] != ';' && s[ 0 ] != '['; }
static bool ini_leaves_ok( const T& t, bool skip_groups )
{
	std::set<string> seen;
	for ( auto& k : t.ch ) { if ( skip_groups && !k.second.ch.empty() ) continue; if ( !k.second.ch.empty() || !ini_key_ok( k.first ) || !ini_text_ok( k.second.v ) || !seen.insert( k.first ).second ) return false; }
	return true;
}
static bool ini_rep( const T& t )
{
	if ( !t.v.empty() || !ini_leaves_ok( t, true ) ) return false;
	for ( auto& k : t.ch ) if ( !k.second.ch.empty() && ( k.first.empty() || !ini_text_ok( k.first ) || !k.second.v.empty() || !ini_leaves_ok( k.second, false ) ) ) return false;
	return true;
}
static void ini_trip( mc::Ctx& c, const T& t )
{
	prop_node n = build( t ), m; string s = write<xo::prop_node_serializer_ini>( n ), msg; c.note( "%s", mc::esc( s ).c_str() );
	T want; for ( auto& k : t.ch ) if ( k.second.ch.empty() ) want.ch.push_back( k ); for ( auto& k : t.ch ) if ( !k.second.ch.empty() ) want.ch.push_back( k );
	if ( !read<xo::prop_node_serializer_ini>( s, m, &msg ) ) c.fail( "written ini text rejected: " + msg );
	T got = read( m ); if ( got != want && got != t ) c.fail( "ini round trip: got " + canon( got ) + ", expected " + canon( want ) ); ++c.checks; // root values may move before the groups
	c.eq( write<xo::prop_node_serializer_ini>( m ), write<xo::prop_node_serializer_ini>( build( got ) ), "second text" );
	if ( c.fresh() ) c.state( canon( t ) );
}
MC_SUITE( "ini trees" )
{
	int budget = c.thorough ? 6 : 5; T t = gen( c, budget, { "a", "b", "g h" }, { "", "x y" }, 2 ); if ( !ini_rep( t ) ) return; c.ops( canon( t ) ); ini_trip( c, t );
}
MC_SUITE( "ini values" )
{
	string v = c.str( "a =;[]#\"\\\t:", c.thorough ? 5 : 4 ), k = c.pick<string>( { "k", "]", "a;", "#", "\"", "k 2", ":" } ); T t; t.add( k, v ); t.add( "z", "1" ); t.add( "g" ).add( k, v ); if ( !ini_rep( t ) ) return; c.ops( canon( t ) ); ini_trip( c, t );
}
MC_SUITE( "ini keys" )
{
	string k = c.str( "a ;[]#\"\\:", c.thorough ? 6 : 5, 1 ); T t; t.add( "x", "y" ); t.add( k, "v" ); t.add( k ).add( "q", k ); if ( !ini_rep( t ) ) return; c.ops( canon( t ) ); ini_trip( c, t );
}
MC_SUITE( "ini bytes and lengths" )
{
	if ( c.flip() ) { int b = 1 + c.choose( 255 ), at = c.choose( 3 ); string v = "ab"; v.insert( at, 1, char( b ) ); T t; t.add( "k", v ); t.add( v ).add( "k", v ); if ( !ini_rep( t ) ) return; c.ops( canon( t ) ); ini_trip( c, t ); return; }
	int len = c.pick( { 0, 900, 1000, 1017, 1018, 1019, 1020, 1021, 1022, 1023, 1024, 1025, 1026, 2040, 2045, 2046, 2047, 2048, 2049, 3072, 10000 } ); bool nl = c.flip(); c.op( "line of %d, %s newline", len, nl ? "with" : "no" ); c.state( len * 2 + nl );
	string s = "k=" + string( len, 'x' ) + ( nl ? "\nz=1\n" : "" ); prop_node n; if ( read<xo::prop_node_serializer_ini>( s, n ) ) { T t; t.add( "k", string( len, 'x' ) ); if ( nl ) t.add( "z", "1" ); same( c, n, t, "long line" ); } else c.check( len > 900, "short line rejected" );
}
MC_SUITE( "ini texts" )
{
	string s = c.flip() ? c.toks( { "a=1", "b = 2", "[g]", "[h]", "\n", ";c", "x", "=", " ", "[", "]" }, c.thorough ? 7 : 5 ) : c.toks( { "a=1\n", "a=2\n", "b=\n", "[g]\n", "[g h]\n", ";a=3\n", "\n", "no\n", "[]\n", "[g\n" }, c.thorough ? 7 : 5 );
	c.ops( s ); c.state( s ); T t; kind k = ini_ref( s, t ); verdict<xo::prop_node_serializer_ini>( c, s, k, t );
}

// ---- XML -------------------------------------------------------------------------------------------------------
struct Xml
{
	const string& s; size_t p = 0;
	[[noreturn]] void bad() { throw stop_parse{ BAD }; }
	[[noreturn]] void odd() { throw stop_parse{ UNSPEC }; }
	bool end() { return p >= s.size(); }
	bool at( const char* x ) { return s.compare( p, strlen( x ), x ) == 0; }
	static bool ws( char ch ) { return ch == ' ' || ch == '\n' || ch == '\r' || ch == '\t'; }
	bool skip() { size_t q = p; while ( !end() && ws( s[ p ] ) ) ++p; return p > q; }
	string until( const char* x ) { auto e = s.find( x, p ); if ( e == string::npos ) bad(); string r = s.substr( p, e - p ); p = e + strlen( x ); return r; }
	string name( const char* stop )
	{
		size_t q = p; while ( !end() && ( isalnum( (unsigned char)s[ p ] ) || strchr( "_-.", s[ p ] ) ) ) ++p;
		if ( end() ) bad();
		if ( p == q ) { if ( ws( s[ p ] ) || strchr( ">/", s[ p ] ) ) bad(); odd(); }
		if ( !isalpha( (unsigned char)s[ q ] ) && s[ q ] != '_' ) odd();
		if ( !ws( s[ p ] ) && !strchr( stop, s[ p ] ) ) odd();
		return s.substr( q, p - q );
	}
	string decode( const string& r )
	{
		string o; for ( size_t i = 0; i < r.size(); ++i )
		{
			if ( r[ i ] != '&' ) { o += r[ i ]; continue; }
			auto e = r.find( ';', i ); if ( e == string::npos ) odd(); string n = r.substr( i + 1, e - i - 1 ); i = e;
			if ( n == "lt" ) o += '<'; else if ( n == "gt" ) o += '>'; else if ( n == "amp" ) o += '&'; else if ( n == "quot" ) o += '"'; else if ( n == "apos" ) o += '\''; else if ( n == "#65" || n == "#x41" ) o += 'A'; else odd();
		}
		return o;
	}
	void element( string& nm, T& t )
	{
		// after '<'
		if ( end() ) bad();
		nm = name( ">/" );
		while ( true )
		{
			bool sp = skip(); if ( end() ) bad();
			if ( at( "/>" ) ) { p += 2; return; }
			if ( s[ p ] == '>' ) { ++p; break; }
			if ( !sp ) bad();
			if ( strchr( "</=", s[ p ] ) ) bad();
			string a = name( ">/=" ); skip(); if ( end() || s[ p ] != '=' ) bad(); ++p; skip(); if ( end() || ( s[ p ] != '"' && s[ p ] != '\'' ) ) bad();
			string q( 1, s[ p++ ] ); string v = until( q.c_str() ); if ( v.find( '<' ) != string::npos ) odd(); if ( !end() && !ws( s[ p ] ) && s[ p ] != '>' && s[ p ] != '/' ) odd();
			t.add( a, decode( v ) );
		}
		while ( true )
		{
			auto e = s.find( '<', p ); if ( e == string::npos ) bad();
			string run = s.substr( p, e - p ); p = e + 1; if ( run.find( "]]>" ) != string::npos ) odd();
			if ( run.find_first_not_of( " \n\r\t" ) != string::npos ) t.v += decode( run );
			if ( end() ) bad();
			if ( s[ p ] == '/' ) { ++p; size_t q = p; while ( !end() && !ws( s[ p ] ) && s[ p ] != '>' && s[ p ] != '<' ) ++p; if ( s.substr( q, p - q ) != nm ) bad(); skip(); if ( end() || s[ p ] != '>' ) bad(); ++p; return; }
			if ( at( "!--" ) ) { p += 3; if ( until( "-->" ).find( "--" ) != string::npos ) odd(); }
			else if ( at( "![CDATA[" ) ) { p += 8; t.v += until( "]]>" ); }
			else if ( s[ p ] == '?' ) { odd(); }
			else if ( s[ p ] == '!' ) odd();
			else { string n; T k; size_t i = t.ch.size(); t.ch.emplace_back(); element( n, k ); t.ch[ i ] = { n, k }; }
		}
	}
	void document( T& t )
	{
		if ( s.find( '\0' ) != string::npos ) odd();
		int roots = 0; bool start = true;
		while ( true )
		{
			skip(); if ( end() ) break;
			if ( s[ p ] != '<' ) bad();
			++p; if ( end() ) bad();
			if ( at( "!--" ) ) { p += 3; if ( until( "-->" ).find( "--" ) != string::npos ) odd(); }
			else if ( at( "?xml " ) && start ) { p += 5; until( "?>" ); }
			else if ( s[ p ] == '?' || s[ p ] == '!' ) odd();
			else if ( s[ p ] == '/' ) bad();
			else { string n; T k; element( n, k ); t.ch.emplace_back( n, k ); ++roots; }
			start = false;
		}
		if ( roots > 1 ) odd();
	}
};
static kind xml_ref( const string& s, T& t ) { Xml x{ s }; try { x.document( t ); } catch ( stop_parse& e ) { return e.k; } return OK; }
static bool xml_rep( const T& t, bool root = true )
{
	if ( root ? !t.v.empty() : ( !t.v.empty() && ( !t.ch.empty() || t.v.find_first_not_of( " \n\r\t" ) == string::npos || t.v.find( '\0' ) != string::npos ) ) ) return false;
	for ( auto& k : t.ch ) if ( k.first.empty() || !xml_rep( k.second, false ) ) return false;
	return true;
}
static void xml_trip( mc::Ctx& c, const T& t )
{
	prop_node n = build( t ), m; string s = write<xo::prop_node_serializer_xml>( n ), msg; c.note( "%s", mc::esc( s ).c_str() );
	same( c, n, t, "tree changed by writing" );
	if ( !read<xo::prop_node_serializer_xml>( s, m, &msg ) ) c.fail( "written xml text rejected: " + msg );
	same( c, m, t, "xml round trip" ); c.eq( write<xo::prop_node_serializer_xml>( m ), s, "second text" );
	if ( t.ch.size() == 1 ) { T r; kind k = xml_ref( s, r ); if ( k == BAD || ( k == OK && r != t ) ) c.fail( "written text is not xml for the tree: " + mc::esc( s ) ); ++c.checks; }
	if ( c.fresh() ) c.state( canon( t ) );
}
MC_SUITE( "xml trees" )
{
	int budget = c.thorough ? 6 : 5; T t = gen( c, budget, { "a", "b-1", "_x.y" }, { "", "v w" }, 4 ); if ( !xml_rep( t ) ) return; c.ops( canon( t ) ); xml_trip( c, t );
}
MC_SUITE( "xml values" )
{
	string v = c.str( "a <>&\"';]\n\t", c.thorough ? 5 : 4 ); T t; auto& r = t.add( "r" ); r.add( "k", v ); r.add( "z" ).add( "y", v ); if ( !xml_rep( t ) ) return; c.ops( canon( t ) ); xml_trip( c, t );
	T q; q.add( "r", v ); if ( xml_rep( q ) ) xml_trip( c, q );
}
MC_SUITE( "xml entities in values" )
{
	string v = c.toks( { "&amp;", "&lt;", "&#65;", "]]>", "<![CDATA[", "<!--", "-->", "<a>", "</a>", "x", " " }, c.thorough ? 5 : 4 ); T t; t.add( "r" ).add( "k", v ); if ( !xml_rep( t ) ) return; c.ops( canon( t ) ); xml_trip( c, t );
}
MC_SUITE( "xml bytes" )
{
	int b = 1 + c.choose( 255 ), at = c.choose( 3 ), b2 = c.choose( 8 ); string v = "ab"; v.insert( at, 1, char( b ) ); v += string( "\t\x7f\x80\xff\xc3\xa9&\r" )[ b2 ]; T t; t.add( "r" ).add( "k", v ); c.ops( canon( t ) ); xml_trip( c, t );
}
MC_SUITE( "xml texts" )
{
	string s; switch ( c.choose( 3 ) )
	{
	case 0: s = c.toks( { "<a>", "</a>", "<b>", "</b>", "<b/>", "x", " ", "<!--c-->", "<![CDATA[d]]>" }, c.thorough ? 7 : 6 ); break;
	case 1: s = "<a" + c.toks( { " ", "k", "=", "\"v\"", "'w'", "/", ">", "</a>", "<", "\"", "x" }, c.thorough ? 7 : 5 ); break;
	case 2: s = c.pick<string>( { "", "<a>", "<?xml version=\"1.0\"?><a>" } ) + c.toks( { "&lt;", "&", ";", "amp", "<", ">", "!--", "--", "![CDATA[", "]]", "</a>", "?", "b/" }, c.thorough ? 6 : 5 ); break;
	}
	c.ops( s ); c.state( s ); T t; kind k = xml_ref( s, t ); verdict<xo::prop_node_serializer_xml>( c, s, k, t );
}
MC_SUITE( "xml damaged by one or two edits" )
{
	string s = c.pick<string>( { "<a>\n\t<b>x &amp; y</b>\n\t<c k=\"1\" l='2'/>\n\t<d><e/></d>\n</a>\n", "<?xml version=\"1.0\"?>\n<a><!-- c --><b><![CDATA[<x>]]></b>t</a>", "<aa><ab>1</ab><aa>2</aa></aa>" } );
	int edits = c.thorough ? 2 : 1; if ( s.size() < 40 ) edits = 2;
	for ( int e = 0; e < edits; ++e )
	{
		int k = c.choose( 4 ); if ( k == 0 ) continue; int i = c.choose( (int)s.size() );
		if ( k == 1 ) s.erase( i, 1 ); else if ( k == 2 ) s.insert( i, 1, s[ i ] ); else s.resize( i );
		if ( s.empty() ) break;
	}
	c.ops( s ); c.state( s ); T t; kind k = xml_ref( s, t ); verdict<xo::prop_node_serializer_xml>( c, s, k, t );
}

// ---- files -----------------------------------------------------------------------------------------------------
MC_SUITE( "format from extension" )
{
	c.clean_scratch(); static const vector<string> EXT = { "xml", "ini", "zml", "txt", "", "XML", "zml2" };
	string e1 = c.pick( EXT ), type = c.pick<string>( { "-", "xml", "ini", "zml", "txt", "" } ); bool with_ec = c.flip(), good = c.flip();
	c.op( "file.%s as %s, %s", e1.c_str(), type.c_str(), with_ec ? "with error object" : "exceptions" ); c.state( e1 + "|" + type + ( with_ec ? "1" : "0" ) + ( good ? "1" : "0" ) );
	string fmt = type == "-" ? e1 : type; bool known = fmt == "xml" || fmt == "ini" || fmt == "zml"; 
	string file = c.scratch() + "/d.zml/f" + ( e1.empty() ? "" : "." + e1 ); xo::create_directories( xo::path( c.scratch() + "/d.zml" ) );
	T t; auto& g = t.add( "g" ); g.add( "a", "1 2" ); g.add( "b", "x" ); prop_node n = build( t ); xo::error_code ec, ec2; bool threw = false, r = false;
	try { r = type == "-" ? xo::save_file( n, xo::path( file ), with_ec ? &ec : nullptr ) : xo::save_file( n, xo::path( file ), type, with_ec ? &ec : nullptr ); } catch ( std::exception& ) { threw = true; }
	c.eq( threw, !with_ec && !known, "save exception" ); c.eq( ec.bad(), with_ec && !known, "save error" ); if ( !threw ) c.eq( r, known, "save result" );
	c.eq( xo::exists( xo::path( file ) ), known, "file written" ); if ( !known ) { xo::save_string( xo::path( file ), "a=1\n" ); }
	else
	{
		string s = xo::load_string( xo::path( file ) ); string want = fmt == "xml" ? write<xo::prop_node_serializer_xml>( n ) : fmt == "ini" ? write<xo::prop_node_serializer_ini>( n ) : ""; if ( fmt != "zml" ) c.eq( s, want, "format of file" ); else c.check( s.find( '{' ) != string::npos && s[ 0 ] == 'g', "format of file" );
		if ( !good ) xo::save_string( xo::path( file ), fmt == "xml" ? "<g><a>1</a>" : fmt == "ini" ? "[g]\na=1\nb\n" : "g { a = 1 " );
	}
	prop_node m; threw = false;
	try { m = type == "-" ? xo::load_file( xo::path( file ), with_ec ? &ec2 : nullptr ) : xo::load_file( xo::path( file ), type, with_ec ? &ec2 : nullptr ); } catch ( std::exception& ) { threw = true; }
	bool ok = known && good; c.eq( threw, !with_ec && !ok, "load exception" ); c.eq( ec2.bad(), with_ec && !ok, "load error" ); if ( ok ) same( c, m, t, "loaded tree" ); 
}
MC_SUITE( "missing files" )
{
	c.clean_scratch(); string f = c.scratch() + "/" + c.pick<string>( { "no.xml", "no.ini", "no.zml", "dir/no.zml", "no" } ); bool with_ec = c.flip(); c.ops( f.substr( c.scratch().size() ) ); c.state( f );
	xo::error_code ec; bool threw = false; prop_node m; try { m = xo::load_file( xo::path( f ), with_ec ? &ec : nullptr ); } catch ( std::exception& ) { threw = true; }
	c.eq( threw, !with_ec, "exception" ); c.eq( ec.bad(), with_ec, "error" ); c.eq( text( m ), text( prop_node() ), "nothing loaded" );
}
MC_SUITE( "larger trees" )
{
	static const vector<int> N = { 0, 1, 7, 16, 17, 64, 65, 100, 257 }; int a = c.pick( N ), b = c.pick( N ), keys = c.choose( 3 ), what = c.choose( 3 ); if ( a * b > 5000 ) return; c.op( "%d by %d, keys %d, %s", a, b, keys, what == 0 ? "ini" : what == 1 ? "xml" : "deep xml" ); c.state( ( ( a * 1000 + b ) * 3 + keys ) * 3 + what );
	auto key = [&]( int i ) { return keys == 0 ? "k" + std::to_string( i ) : keys == 1 ? string( 40, 'x' ) + std::to_string( i ) : string( i + 1, 'k' ); };
	if ( what == 0 ) { T t; for ( int i = 0; i < b; ++i ) t.add( key( i ), "v " + std::to_string( i ) ); for ( int g = 0; g < a; ++g ) { auto& s = t.add( "group " + key( g ) ); for ( int i = 0; i < b; ++i ) s.add( key( i ), std::to_string( g * 1000 + i ) ); } if ( ini_rep( t ) ) ini_trip( c, t ); }
	else if ( what == 1 ) { T t; auto& r = t.add( "root" ); for ( int g = 0; g < a; ++g ) { auto& s = r.add( key( g ) ); for ( int i = 0; i < b; ++i ) s.add( key( i ), std::to_string( g * 1000 + i ) + " <&>" ); } xml_trip( c, t ); }
	else if ( a < 100 ) { T t; T* p = &t.add( "root" ); for ( int g = 0; g < a; ++g ) { if ( g % 3 == 0 ) p->add( "leaf", std::to_string( g ) ); p = &p->add( key( g ) ); } for ( int i = 0; i < b; ++i ) p->add( key( i ), "x" ); xml_trip( c, t ); }
}
MC_SUITE( "long values" )
{
	bool xml = c.flip(); string v = c.longer( xml ? "a <>&\"';]\n\t" : "a =;[]#\"\\\t:", xml ? 4097 : 512 ); if ( v.front() <= ' ' || v.back() <= ' ' ) return; c.ops( mc::esc( v ) ); c.state( ( xml ? "x" : "i" ) + v );
	if ( xml ) { T t; auto& r = t.add( "r" ); r.add( "k", v ); r.add( "z" ).add( "y", v ); if ( xml_rep( t ) ) xml_trip( c, t ); } else { T t; t.add( "k", v ); t.add( "z", "1" ); t.add( "g" ).add( "k", v ); if ( ini_rep( t ) ) ini_trip( c, t ); }
}
