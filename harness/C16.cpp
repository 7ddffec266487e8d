// C16: wildcard patterns against a dynamic programming reference.
#include "mc.h"
#include "xo/string/string_tools.h"
#include "xo/string/pattern_matcher.h"
#include "xo/container/prop_node.h"
#include "xo/container/container_tools.h"
using std::string; using std::vector;

static bool ref( const string& s, const string& p )
{
	vector< vector<char> > m( s.size() + 1, vector<char>( p.size() + 1, 0 ) ); m[ 0 ][ 0 ] = 1;
	for ( size_t i = 0; i <= s.size(); ++i ) for ( size_t j = 1; j <= p.size(); ++j )
		m[ i ][ j ] = p[ j - 1 ] == '*' ? ( m[ i ][ j - 1 ] || ( i && m[ i - 1 ][ j ] ) ) : ( i && m[ i - 1 ][ j - 1 ] && ( p[ j - 1 ] == '?' || p[ j - 1 ] == s[ i - 1 ] ) );
	return m[ s.size() ][ p.size() ];
}
static void pair( mc::Ctx& c, const string& s, const string& p )
{
	c.op( "%s ~ %s", mc::esc( s ).c_str(), mc::esc( p ).c_str() ); c.state( s + "|" + p );
	c.eq( xo::pattern_match( s, p ), ref( s, p ), "pattern_match" );
	if ( p.find( ';' ) == string::npos && !p.empty() ) { c.eq( xo::pattern_matcher( p ).match( s ), ref( s, p ), "pattern_matcher" ); c.eq( xo::pattern_matcher( p.c_str() )( s ), ref( s, p ), "pattern_matcher()" ); }
	c.eq( xo::is_pattern( p ), p.find( '*' ) != string::npos || p.find( '?' ) != string::npos, "is_pattern" );
}
MC_SUITE( "pairs" ) { auto p = c.str( "ab*?", c.thorough ? 7 : 6 ); auto s = c.str( "ab", c.thorough ? 8 : 7 ); pair( c, s, p ); }
MC_SUITE( "many stars" ) { auto p = c.toks( { "*", "a", "*b", "?" }, c.thorough ? 9 : 8, 1 ); auto s = c.pick<string>( { "", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaab", "abababababababab", "aaaa", "bbbb", "aabbaabb", "ba" } ); pair( c, s, p ); }
MC_SUITE( "names and special characters" ) { auto p = c.str( "/.*?\\a", c.thorough ? 6 : 5 ); auto s = c.str( "/.\\a", c.thorough ? 6 : 5 ); pair( c, s, p ); }
MC_SUITE( "all bytes" ) { int x = 1 + c.choose( 255 ), y = 1 + c.choose( 255 ); if ( x == '[' || y == '[' ) return; string s( 1, char( x ) ), p( 1, char( y ) ); pair( c, s, p ); pair( c, s + s, "?" + p ); pair( c, "x" + s, "*" + p ); pair( c, s, "??" ); }
MC_SUITE( "pattern lists" )
{
	vector<string> alt; int n = c.choose( 4 ); string list; char d = c.choose( 2 ) ? ',' : ';';
	static const vector<string> ps = { "a", "*", "a*", "?b", "*.x", "" };
	for ( int i = 0; i < n; ++i ) { alt.push_back( c.pick( ps ) ); list += ( i ? string( 1, d ) : "" ) + alt.back(); }
	string s = c.str( "ab.x", c.thorough ? 5 : 4 );
	c.op( "%s ~ %s", s.c_str(), list.c_str() ); c.state( s + "|" + list );
	bool w = false; vector<string> parts; for ( auto& a : alt ) if ( !a.empty() ) { parts.push_back( a ); w |= ref( s, a ); }
	const char dl[] = { d, 0 };
	xo::pattern_matcher m( list, dl ), m2( list.c_str(), dl );
	c.eq( m.match( s ), w, "match" ); c.eq( m2( s ), w, "operator()" ); c.eq( m.empty(), parts.empty(), "empty" ); c.eq( vector<string>( m.patterns() ), parts, "patterns" );
	string j; for ( size_t i = 0; i < parts.size(); ++i ) j += ( i ? ";" : "" ) + parts[ i ];
	c.eq( m.str(), j, "str" ); c.eq( xo::to_str( m ), j, "to_str" ); c.eq( xo::pattern_matcher( m.str() ).match( s ), w, "rebuilt from text" );
	xo::prop_node pn; pn.set_value( m.str() ); c.eq( xo::pattern_matcher( pn ).match( s ), w, "from prop_node" ); c.eq( pn.get<xo::pattern_matcher>().match( s ), w, "get from prop_node" );
	xo::pattern_matcher copy = m; c.eq( copy.match( s ), w, "copy" ); c.check( !xo::pattern_matcher().match( s ) && xo::pattern_matcher().empty(), "default matcher" );
}
MC_SUITE( "long texts" ) { auto p = c.choose( 3 ); auto s = c.longer( "ab", c.thorough ? 257 : 65 ); string q = p == 0 ? c.str( "ab*?", c.thorough ? 5 : 3 ) : c.longer( "a?*b", p == 1 ? int( s.size() ) + 3 : 33 ); c.ops( "long" ); pair( c, s, q ); }
