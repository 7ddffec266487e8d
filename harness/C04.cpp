// C04: writing a property tree in the default text format and reading it back.
#include "pnmodel.h"
#include "xo/serialization/prop_node_serializer_zml.h"
#include "xo/serialization/serialize.h"
#include "xo/filesystem/filesystem.h"
#include "xo/system/error_code.h"
#include <sstream>
using namespace pn;
using xo::prop_node;

static bool rep_value( const string& v )
{
	if ( v.empty() ) return true;
	if ( v[ 0 ] == '@' || v.find( "${" ) != string::npos ) return false; // reference, inline macro
	return !( v[ 0 ] == '$' && v.size() >= 2 ); // macro
}
static bool rep_label( const string& k ) { return !k.empty() && k[ 0 ] > 32 && k[ 0 ] < 127 && k[ 0 ] != '$'; }
static bool rep_node( const T& t, bool in_array )
{
	if ( !rep_value( t.v ) || ( in_array && !t.v.empty() && !t.ch.empty() ) ) return false;
	bool array = true; for ( auto& k : t.ch ) array &= k.first.empty();
	for ( auto& k : t.ch ) if ( ( !array && !rep_label( k.first ) ) || !rep_node( k.second, array ) ) return false;
	return true;
}
/// the trees that can be represented: labels everywhere but in arrays, no value at the root
static bool representable( const T& t )
{
	if ( !t.v.empty() ) return false;
	for ( auto& k : t.ch ) if ( k.first.empty() ) return false;
	return rep_node( t, false );
}
static string write( const prop_node& n, bool concise )
{
	std::ostringstream o;
	if ( concise ) xo::prop_node_serializer_zml_concise( n ).write_stream( o ); else xo::prop_node_serializer_zml( n ).write_stream( o );
	return o.str();
}
static void round_trip( mc::Ctx& c, const T& t )
{
	prop_node n = build( t );
	for ( bool concise : { false, true } )
	{
		const char* st = concise ? "concise" : "layout";
		string s = write( n, concise );
		c.note( "%s: %s", st, mc::esc( s ).c_str() );
		same( c, n, t, "tree changed by writing" );
		prop_node m = prop_node( "old" ); m.add_child( "old" );
		xo::error_code ec;
		std::istringstream i( s );
		xo::prop_node_serializer_zml( m, &ec ).read_stream( i );
		if ( !ec.good() ) c.fail( string( st ) + " text cannot be read: " + ec.message() );
		same( c, m, t, st );
		c.check( m == n, "operator== of written and read tree" );
		c.eq( write( m, concise ), s, "second text differs" );
		// in-memory string
		if ( s.find( '\0' ) == string::npos ) { xo::error_code ec2; same( c, xo::parse_zml( s.c_str(), &ec2 ), t, "parse_zml" ); c.check( ec2.good(), "parse_zml error" ); }
	}
	if ( c.fresh() ) { c.state( canon( t ) ); }
}
MC_SUITE( "tree shapes" )
{
	int b = c.thorough ? 6 : 5;
	T t = gen( c, b, { "a", "b c", "" }, { "", "v", "{ " }, 4 );
	if ( !representable( t ) ) return;
	c.op( "%s", canon( t ).c_str() );
	round_trip( c, t );
}
// one special text in every position
static void put( mc::Ctx& c, T& r, int where, const string& s )
{
	switch ( where )
	{
	case 0: r.add( "k", s ); break;
	case 1: r.add( "k", s ); r.add( "l", "w" ); break;
	case 2: r.add( "k", s ).add( "c", "w" ); r.add( "l", "w" ); break;
	case 3: { auto& g = r.add( "g" ); g.add( "k", s ); } r.add( "l", "" ); break;
	case 4: { auto& g = r.add( "g" ); g.add( "", s ); } break;
	case 5: { auto& g = r.add( "g" ); g.add( "", s ); g.add( "", s ); g.add( "", "x" ); } r.add( "l", s ); break;
	case 6: r.add( "k", s ).add( "", s ); break;
	case 7: r.add( s, "v" ); r.add( "l", "w" ); break;
	case 8: { auto& g = r.add( s ); g.add( s, s ); auto& h = g.add( s, s ); h.add( s ).add( s, "" ); } break;
	case 9: { auto& g = r.add( "g" ); auto& h = g.add( "" ); h.add( "k", s ); g.add( "", s ); auto& i = g.add( "" ); i.add( "", s ); i.add( "", s ); } break;
	}
}
static const string SP = string( "{}[]#<>\\/=:'\"$@ \n\ta*01,-\x01\x7f\xc3\v\r.\0", 32 );
MC_SUITE( "special characters in every position" )
{
	int w = c.choose( 10 ); string s = c.str( SP, c.thorough ? 4 : 3 );
	T t; put( c, t, w, s );
	if ( !representable( t ) ) return;
	c.op( "position %d %s", w, mc::esc( s ).c_str() );
	round_trip( c, t );
}
MC_SUITE( "operator-like words" )
{
	int w = c.choose( 10 ); string s = c.toks( { "{", "}", "<<", ">>", "//", "/*", "*/", ": ", "=", "#", "a", "\"", "\\n", "\\", "'", " ", "$", "@b", "[", "]" }, c.thorough ? 4 : 3, 1 );
	T t; put( c, t, w, s );
	if ( !representable( t ) ) return;
	c.op( "position %d %s", w, mc::esc( s ).c_str() );
	round_trip( c, t );
}
MC_SUITE( "all byte pairs" )
{
	int a = c.choose( 256 ), b = c.choose( 256 ), w = c.pick( { 1, 5, 7 } );
	string s{ char( a ), char( b ) };
	T t; put( c, t, w, s );
	if ( !representable( t ) ) return;
	c.op( "position %d %s", w, mc::esc( s ).c_str() );
	round_trip( c, t );
}
// layout decisions depend on the number of children, the depth and the line length
MC_SUITE( "line breaking" )
{
	int n = 1 + c.choose( 7 ), len = c.choose( 30 ), depth = c.choose( 5 ); int kind = c.choose( 4 );
	T r; T* p = &r.add( "label" );
	for ( int i = 0; i < depth; ++i ) p = &p->add( i % 2 ? "inner" : "x" );
	for ( int i = 0; i < n; ++i )
	{
		string v = string( len, 'v' );
		switch ( kind )
		{
		case 0: p->add( "", v + std::to_string( i ) ); break;
		case 1: p->add( "k" + std::to_string( i ), v ); break;
		case 2: { auto& e = p->add( "" ); e.add( "a", v ); e.add( "b", " " ); } break;
		case 3: { auto& e = p->add( "k" ); e.v = v; e.add( "", "1" ); e.add( "", v ); } break;
		}
	}
	r.add( "last", "1" );
	c.op( "n=%d len=%d depth=%d kind=%d", n, len, depth, kind );
	round_trip( c, r );
}
MC_SUITE( "deep and wide" )
{
	int depth = c.choose( 60 ), width = c.pick( { 1, 2, 3, 50 } ); bool arr = c.flip();
	T r; T* p = &r.add( "top" );
	for ( int d = 0; d < depth; ++d ) { for ( int i = 1; i < width; ++i ) p->add( arr ? "" : "k" + std::to_string( i ), std::to_string( i ) ); p = &p->add( arr ? "" : "sub" ); }
	p->v = "end";
	c.op( "depth=%d width=%d array=%d", depth, width, arr );
	round_trip( c, r );
}
// through files
// labels and values of every length up to several buffers, with a special character at every position
MC_SUITE( "long labels and values" )
{
	int len = c.thorough && c.flip() ? 65537 : c.pick( { 1, 7, 8, 15, 16, 17, 31, 32, 33, 40, 41, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1023, 1024, 1025, 4095, 4096, 4097 } ), w = c.choose( 10 ), where = c.choose( 5 ); string x = c.pick< string >( { "", "{", "}", "[", " ", "#", "\"", "\\", "\n", "\t", "=", "//", "/*", "<<", ":", "'", "\x01", "\xc3\xa9" } ); int pos = where == 0 ? 0 : where == 1 ? len / 2 : where == 2 ? len : where == 3 ? std::min( len, 1 ) : std::max( len - 1, 0 ); if ( x.empty() && where ) throw mc::prune();
	string s( len, 'v' ); s.insert( pos, x ); T t; put( c, t, w, s ); if ( !representable( t ) ) return;
	c.op( "position %d, %d characters with %s at %d", w, len, mc::esc( x ).c_str(), pos ); round_trip( c, t );
}
MC_SUITE( "files" )
{
	string s = c.str( "a \n\"\\{\xc3\r", 2 ); int w = c.choose( 10 ); int how = c.choose( 4 ); bool crlf_name = c.flip();
	T t; put( c, t, w, s );
	if ( !representable( t ) ) return;
	c.clean_scratch();
	prop_node n = build( t );
	xo::path f( c.scratch() + ( crlf_name ? "/sub dir/f" : "/f" ) );
	if ( crlf_name ) xo::create_directories( f.parent_path() );
	c.op( "save/load %d %s", how, canon( t ).c_str() );
	xo::error_code ec; prop_node m;
	auto zml = xo::path( f.str() + ".zml" ), txt = xo::path( f.str() + ".txt" );
	switch ( how )
	{
	case 0: xo::save_zml( n, zml, &ec ); c.check( ec.good(), "save_zml error" ); m = xo::load_zml( zml, &ec ); break;
	case 1: c.check( xo::save_file( n, zml, &ec ), "save_file result" ); m = xo::load_file( zml, &ec ); break;
	case 2: c.check( xo::save_file( n, txt, "zml", &ec ), "save_file result" ); m = xo::load_file( txt, "zml", &ec ); break;
	case 3: c.check( xo::save_file( n, zml ), "save_file result" ); m = xo::load_file_with_include( zml ); break;
	}
	c.check( ec.good(), "save/load error" );
	same( c, m, t, "loaded tree" );
	string text = xo::load_string( how == 2 ? txt : zml );
	c.eq( text, write( n, false ), "file content" );
	c.state( mc::mix( mc::hash( text ), how ) );
}
