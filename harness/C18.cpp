// C18: path algebra.
#include "mc.h"
#include "xo/filesystem/path.h"
#include <vector>
using std::string; using xo::path;
static const size_t NP = string::npos;
static bool sep( char ch ) { return ch == '/' || ch == '\\'; }
struct R // reference decomposition
{
	string dir, name, stem, ext; bool has_sep = false;
	explicit R( const string& s )
	{
		size_t n = NP; for ( size_t i = 0; i < s.size(); ++i ) if ( sep( s[ i ] ) ) n = i;
		has_sep = n != NP;
		if ( has_sep ) { bool root = n == 0 || s[ n - 1 ] == ':'; dir = s.substr( 0, root ? n + 1 : n ); name = s.substr( n + 1 ); } else name = s;
		size_t d = NP; for ( size_t i = 0; i < name.size(); ++i ) if ( name[ i ] == '.' ) d = i;
		stem = name.substr( 0, d ); if ( d != NP ) ext = name.substr( d );
	}
};
static string norm( const string& s ) { string r; for ( char ch : s ) { if ( sep( ch ) ) { if ( r.empty() || r[ r.size() - 1 ] != '/' ) r += '/'; } else r += ch; } return r; }
static string join( const string& a, const string& b )
{
	if ( a.empty() || a[ a.size() - 1 ] == ':' ) return a + b;
	string t = b; while ( !t.empty() && sep( t[ 0 ] ) ) t.erase( 0, 1 );
	return sep( a[ a.size() - 1 ] ) ? a + t : a + '/' + t;
}
static void one( mc::Ctx& c, const string& s )
{
	c.ops( mc::esc( s ) ); c.state( s );
	const path p( s ); R r( s );
	c.eq( p.str(), s, "text" ); c.eq( string( p.c_str() ), s, "c_str" );
	c.eq( p.parent_path().str(), r.dir, "parent_path" ); c.eq( p.filename().str(), r.name, "filename" ); c.eq( p.stem().str(), r.stem, "stem" );
	c.eq( p.extension().str(), r.ext, "extension" ); c.eq( p.extension_no_dot().str(), r.ext.empty() ? "" : r.ext.substr( 1 ), "extension_no_dot" );
	c.eq( ( p.stem() + p.extension() ).str(), p.filename().str(), "stem + extension" );
	if ( r.dir.empty() || r.dir[ r.dir.size() - 1 ] != ':' ) c.eq( norm( ( p.parent_path() / p.filename() ).str() ), norm( s ), "parent / filename" );
	c.eq( p.empty(), s.empty(), "empty" ); c.eq( p.has_parent_path(), r.has_sep, "has_parent_path" );
	bool colon = !s.empty() && s[ s.size() - 1 ] == ':';
	if ( !colon ) c.eq( p.has_filename(), !r.name.empty(), "has_filename" );
	bool abs = !s.empty() && ( s[ 0 ] == '/' || s[ 0 ] == '~' ); for ( char ch : s ) abs |= ch == ':';
	if ( s.empty() || s[ 0 ] != '\\' ) { c.eq( p.is_absolute(), abs, "is_absolute" ); }
	c.check( p.is_relative() != p.is_absolute(), "is_relative" );
	{ path q = p; q.make_preferred(); string w = s; for ( char& ch : w ) if ( ch == '\\' ) ch = '/'; c.eq( q.str(), w, "make_preferred" ); }
	auto with_name = [&]( const string& n ) { return join( r.dir, n ); };
	{ path q = p; auto& ret = q.remove_filename(); c.eq( q.str(), r.dir, "remove_filename" ); c.check( &ret == &q, "remove_filename result" ); }
	for ( string e : { "", "x", ".x", ".", "a.b", "." } )
	{
		string base = s.substr( 0, s.size() - r.ext.size() ); string w = e.empty() ? base : base + ( e[ 0 ] == '.' ? e : "." + e );
		path q = p; q.replace_extension( e ); c.eq( q.str(), w, "replace_extension" );
	}
	{ path q = p; q.replace_extension(); c.eq( q.str(), s.substr( 0, s.size() - r.ext.size() ), "remove extension" ); }
	for ( string n : { "n", "n.m", "", "d/n" } )
	{
		{ path q = p; q.replace_filename( n ); c.eq( norm( q.str() ), norm( with_name( n ) ), "replace_filename" ); if ( n == "n.m" && !colon && norm( s ).size() == s.size() ) { c.eq( q.filename().str(), n, "filename after replacement" ); c.eq( norm( q.parent_path().str() ), norm( r.dir ), "parent after replacement" ); } }
		if ( n == "n" || n.empty() ) { path q = p; q.replace_stem( n ); c.eq( norm( q.str() ), norm( with_name( n + r.ext ) ), "replace_stem" ); }
		if ( n == "n" || n.empty() ) { path q = p; q.concat_stem( n ); c.eq( norm( q.str() ), norm( with_name( r.stem + n + r.ext ) ), "concat_stem" ); }
	}
}
MC_SUITE( "decomposition" ) { one( c, c.str( "/.ab\\:", c.thorough ? 9 : 8 ) ); }
MC_SUITE( "decomposition, more characters" ) { one( c, c.str( "/.~ a-\xc3", c.thorough ? 8 : 7 ) ); }
MC_SUITE( "joining" )
{
	string a = c.str( "/.a\\:", c.thorough ? 4 : 3 ), b = c.str( "/.a\\:", 3 ), d = c.str( "/a:\\", 2 );
	c.op( "%s / %s / %s", mc::esc( a ).c_str(), mc::esc( b ).c_str(), mc::esc( d ).c_str() ); c.state( a + "|" + b + "|" + d );
	path p( a ), q( b ), r( d );
	c.eq( ( p / q ).str(), join( a, b ), "join" );
	path s = p; s /= q; c.eq( s.str(), join( a, b ), "operator/= path" ); s = p; auto& ret = s /= b; c.eq( s.str(), join( a, b ), "operator/= string" ); c.check( &ret == &s, "operator/= result" );
	c.eq( ( ( p / q ) / r ).str(), ( p / ( q / r ) ).str(), "associativity" );
	c.eq( ( path() / p ).str(), a, "empty path on the left" );
	c.eq( norm( ( p / path() ).str() + "/" ), norm( a.empty() ? "/" : a + "/" ), "empty path on the right" );
	c.eq( ( p + q ).str(), a + b, "operator+" ); s = p; s += q; c.eq( s.str(), a + b, "operator+= path" ); s = p; s += b; c.eq( s.str(), a + b, "operator+= string" );
	c.eq( p == q, a == b, "==" ); c.eq( p != q, a != b, "!=" ); c.eq( p < q, a < b, "<" );
	path z; z = a.c_str(); c.check( z == p, "assign const char*" ); z = b; c.check( z == q, "assign string" ); z = string( a ); c.check( z == p && path( a.c_str() ) == p && path( string( a ) ) == p, "construct" );
	// a relative name put in a folder comes back
	if ( !b.empty() && b.find_first_of( "/\\:" ) == NP && !a.empty() && a[ a.size() - 1 ] != ':' ) { c.eq( ( p / q ).filename().str(), b, "filename of join" ); if ( !sep( a[ a.size() - 1 ] ) ) c.eq( ( p / q ).parent_path().str(), a, "parent of join" ); }
}
MC_SUITE( "long paths" ) { one( c, c.flip() ? c.longer( "a/.b\\:~ ", 4097 ) : c.longer( "ab/", 257 ) + c.pick<string>( { "", "/", ".", ".x", "/a.b.c", ":/x" } ) ); }
