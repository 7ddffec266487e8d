// C05: the reader of the default text format against a reference parser.
#include "zmlref.h"
#include "xo/serialization/prop_node_serializer_zml.h"
#include "xo/system/error_code.h"
#include <sstream>
using namespace pn;
using xo::prop_node;

struct Buf { char* p; Buf( const string& s ) : p( new char[ s.size() + 1 ] ) { memcpy( p, s.c_str(), s.size() + 1 ); } ~Buf() { delete[] p; } };

/// returns true if the text is wrong in a way that no continuation can repair
static bool verify( mc::Ctx& c, const string& text, bool full = true )
{
	T want; zml::Error err; int r = zml::parse( text, want, err );
	c.ops( mc::esc( text ) );
	xo::error_code ec; prop_node got;
	bool nul = text.find( '\0' ) != string::npos;
	if ( nul ) { std::istringstream i( text ); xo::prop_node_serializer_zml( got, &ec ).read_stream( i ); }
	else { Buf b( text ); got = xo::parse_zml( b.p, &ec ); }
	if ( r == 2 || nul ) return false; // the format does not say; the reader has to end without harm
	++c.checks;
	if ( r == 1 )
	{
		if ( ec.good() ) c.fail( string( "malformed text accepted (" ) + err.what + ") as " + pn::text( got ) );
		string ln = "line " + std::to_string( err.line ) + ":";
		if ( ec.message().find( ln ) == string::npos ) c.fail( "error \"" + ec.message() + "\" does not name " + ln );
		if ( full && !nul ) { bool t = false; try { xo::parse_zml( text.c_str() ); } catch ( std::exception& e ) { t = true; c.check( string( e.what() ).find( ln ) != string::npos, "exception does not name the line" ); } c.check( t, "malformed text accepted without error object" ); }
		return !err.at_end;
	}
	if ( ec.bad() ) c.fail( "valid text rejected: " + ec.message() + ", expected " + canon( want ) );
	same( c, got, want, "tree" );
	c.state( canon( want ) );
	if ( full && !nul )
	{
		same( c, xo::parse_zml( text.c_str() ), want, "tree without error object" );
		prop_node m; m.add_child( "old" ); std::istringstream i( text ); xo::prop_node_serializer_zml( m ).read_stream( i ); same( c, m, want, "tree from stream" );
	}
	return false;
}
/// token sequences; a prefix that can not be repaired is not extended
static void tokens( mc::Ctx& c, const std::vector<string>& tok, int maxlen, const char* sep = " " )
{
	string text;
	for ( int i = 0; i < maxlen; ++i )
	{
		int k = c.choose( (int)tok.size() + 1 );
		if ( k == 0 ) { verify( c, text ); return; }
		text += ( i ? sep : "" ) + tok[ k - 1 ];
		zml::Error err; T t;
		if ( c.fresh() && zml::parse( text, t, err ) == 1 && !err.at_end ) { verify( c, text, false ); return; }
	}
	verify( c, text );
}
MC_SUITE( "groups and arrays" ) { tokens( c, { "a", "=", "v", "{", "}", "[", "]", "\"\"" }, c.thorough ? 10 : 8 ); }
MC_SUITE( "macros" ) { tokens( c, { "$m", "=", "a", "{", "}", "${m}", "x${m}", "$n" }, c.thorough ? 10 : 9 ); }
// a macro of a group is known after its definition up to the end of the group, at every depth
MC_SUITE( "macros of nested groups" )
{
	int depth = 1 + c.choose( c.thorough ? 12 : 9 ), def = c.choose( depth + 1 ), def2 = c.choose( depth + 1 ), use = c.choose( depth + 1 ); bool after = c.flip(), array = c.flip(), twice = c.flip(); int name2 = c.choose( 2 ); string s;
	auto at = [&]( int d ) { if ( def == d ) s += "$m = one\n"; if ( def2 == d && twice ) s += string( name2 ? "$m" : "$n" ) + " = two\n"; };
	for ( int d = 0; d < depth; ++d ) { at( d ); if ( !after && use == d ) s += "u = $m\n"; s += array && d + 1 == depth ? "a [" : "a {\n"; }
	if ( array ) s += " $m ]\n"; else { at( depth ); if ( use == depth ) s += "u = $m\n"; s += "}\n"; }
	for ( int d = depth; d-- > 0; ) { if ( after && use == d ) s += "u = \"x${m}\"\n"; if ( d ) s += "}\n"; }
	verify( c, s );
}
MC_SUITE( "references" ) { tokens( c, { "a =", "b {", "}", "@a", "@b.a", "1", "[", "]", "@b", "@b.#1" }, c.thorough ? 8 : 7 ); }
MC_SUITE( "comments" ) { tokens( c, { "a", "= 1", "#", "\n", "/*", "*/", "//", "{", "}", "\"/*\"" }, c.thorough ? 8 : 6 ); }
MC_SUITE( "operators, quotes and labels" ) { tokens( c, { "a", "=", ": ", "\"=\"", "'{'", "\"}\"", "{", "}", "]", "[", "*/", ">>", "\" x\"", "\xc3\xa9" }, c.thorough ? 7 : 6 ); }
MC_SUITE( "includes without file" ) { tokens( c, { "a =", "1", "<<", ">>", "nofile", "\"no file\"", "{", "}", "[", "]" }, c.thorough ? 7 : 6 ); }
MC_SUITE( "unseparated tokens" ) { tokens( c, { "a", "=", "{", "}", "[", "\"", "'", " ", "\n", "//", "/*", "*/", ":", "#" }, c.thorough ? 7 : 5, "" ); }
MC_SUITE( "characters" ) { verify( c, c.str( "a={}[]\"$\n #/*:@'\\<>", c.thorough ? 5 : 4 ), true ); }
MC_SUITE( "characters after a label" ) { verify( c, "a=" + c.str( string( "a={}[]\"$\n /*\\'0\0", 17 ), c.thorough ? 6 : 5 ), false ); }
MC_SUITE( "white space and line numbers" ) { tokens( c, { "a", "=", "{", "}", "\n", "\r\n", "\r", "\v", "\f", "\t", "# x\n", "/* \n */", "\"q\v\"" }, c.thorough ? 6 : 5, "" ); }
// every single fault in larger texts
static const std::vector< std::vector<string> >& docs()
{
	static const std::vector< std::vector<string> > v = {
		{ "$", "m", " ", "=", " ", "1", "\n", "a", " ", "=", " ", "$m", "\n", "b", " ", "{", " ", "$m", " ", "=", " ", "2", "\n", "c", "=", "\"x ${m} y\"", " ", "d", ": ", "$m", " ", "}", "\n", "e", "=", "@b.c", "\n", "f", " ", "[", " ", "$m", " ", "@a", " ", "\"]\"", " ", "]" },
		{ "# head", "\n", "g", " ", "{", "\r\n", "\t", "h", " ", "[", " ", "{", " ", "x", "=", "1", " ", "y", "=", "2", " ", "}", " ", "[", " ", "3", " ", "\"\"", " ", "]", " ", "]", " ", "// tail", "\n", "i", "=", "'a b'", "{", "j", "=", "\"\\001\\n\"", "}", "\n", "}", "/* c */", "k", "=", "-1.5e3", "\n" },
		{ "$", "t", " ", "{", " ", "$", "u", "=", "5", " ", "p", "=", "$u", " ", "q", "=", "w${u}z", " ", "}", "\n", "r", " ", "=", " ", "$t", "\n", "s", " ", "=", " ", "$t", " ", "{", " ", "p", "=", "9", " ", "}", "\n", "n", "=", "@s.p", "\n", "/* ", "a", " */" } };
	return v;
}
MC_SUITE( "every truncation and single fault of larger texts" )
{
	auto d = docs()[ c.choose( (int)docs().size() ) ]; int kind = c.choose( 6 );
	size_t i = c.choose( (int)d.size() ); string s;
	auto join = [&] { string r; for ( auto& x : d ) r += x; return r; };
	static const std::vector<string> extra = { "{", "}", "[", "]", "=", "\"", "'", "/*", "*/", "#", "//", "<<", ">>", "$m", "@a", "${", "\n", " ", "x", "$", ": ", "\\" };
	switch ( kind )
	{
	case 0: d.erase( d.begin() + i ); s = join(); break;
	case 1: d.insert( d.begin() + i, d[ i ] ); s = join(); break;
	case 2: d[ i ] = c.pick( extra ); s = join(); break;
	case 3: d.insert( d.begin() + i, c.pick( extra ) ); s = join(); break;
	case 4: { size_t j = c.choose( (int)d.size() ); std::swap( d[ i ], d[ j ] ); s = join(); break; }
	case 5: { s = join(); size_t n = c.choose( (int)s.size() + 1 ); if ( i ) return; s.resize( n ); break; }
	}
	verify( c, s );
}
MC_SUITE( "two faults of larger texts" )
{
	auto d = docs()[ c.choose( (int)docs().size() ) ];
	size_t i = c.choose( (int)d.size() ), j = c.choose( (int)d.size() ); int k = c.choose( 4 );
	static const std::vector<string> extra = { "{", "}", "]", "=", "\"", "$m", "\n" };
	if ( j <= i && k < 2 ) return;
	if ( k & 1 ) d[ i ] = c.pick( extra ); 
	if ( k & 2 ) { auto& x = c.pick( extra ); d[ j ] = x; } else d.erase( d.begin() + j );
	if ( !( k & 1 ) && d.size() > i ) d.erase( d.begin() + i );
	string s; for ( auto& x : d ) s += x;
	verify( c, s, false );
}
MC_SUITE( "nesting" )
{
	int n = c.pick( { 0, 1, 2, 3, 10, 100, 1000 } ), open = c.choose( 4 ), missing = c.choose( 3 ), term = c.choose( 2 );
	string s; const char* o[] = { "a{", "a=1{", "a[", "$m{" }; const char* cl[] = { "}", "}", "]", "}" };
	for ( int i = 0; i < n; ++i ) s += open == 2 && i ? string( "[" ) : string( o[ open ] );
	if ( term && open != 2 ) s += "b=2";
	for ( int i = 0; i < n - missing; ++i ) { s += '\n'; s += cl[ open ]; }
	if ( term ) s += "\n";
	verify( c, s );
}
