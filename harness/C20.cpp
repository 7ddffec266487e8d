// C20: character streams.
#include "mc.h"
#include "xo/serialization/char_stream.h"
#include "xo/string/string_tools.h"
#include <algorithm>
using std::string; using std::vector;

struct Cfg { string delim, quote; vector<string> ops; };
static const vector<Cfg>& cfgs()
{
	static const vector<Cfg> v = {
		{ " \n", "\"", {} },
		{ " \n\r\t\v", "\"'", { "=", ": ", "{", "}", "#", "<<", ">>", "//", "/*", "*/" } },
		{ " ,", "", { "<", "<=", "<<", "=", "a=" } },
		{ "", "'", { "\n", "=" } } };
	return v;
}
/// index based reference of the stream
struct Ref
{
	string t; Cfg g; size_t p = 0; bool eof = false, fail = false, quoted = false;
	bool end() { if ( p >= t.size() ) { eof = true; return true; } return false; }
	bool good() const { return !eof && !fail; }
	bool in( const string& s, size_t i ) const { return s.find( t[ i ] ) != string::npos; }
	void skip() { while ( !end() && in( g.delim, p ) ) ++p; }
	size_t op_len( size_t i ) const { size_t l = 0; for ( auto& o : g.ops ) if ( t.compare( i, o.size(), o ) == 0 ) l = std::max( l, o.size() ); return l; }
	string token()
	{
		skip(); string s; quoted = false;
		if ( !good() ) return s;
		while ( p < t.size() && !in( g.delim, p ) )
		{
			if ( in( g.quote, p ) )
			{
				char q = t[ p++ ]; quoted = true; bool closed = false;
				while ( p < t.size() )
				{
					char ch = t[ p ];
					if ( ch == q ) { ++p; closed = true; break; }
					if ( ch != '\\' ) { s += ch; ++p; continue; }
					// escape
					if ( p + 1 >= t.size() ) { s += ch; ++p; continue; }
					char e = t[ p + 1 ];
					if ( e == 'n' || e == 'r' || e == 't' || e == '\\' || e == '"' ) { s += e == 'n' ? '\n' : e == 'r' ? '\r' : e == 't' ? '\t' : e; p += 2; continue; }
					int d = 0, v = 0; while ( d < 3 && p + 1 + d < t.size() && t[ p + 1 + d ] >= '0' && t[ p + 1 + d ] <= '7' ) { v = v * 8 + ( t[ p + 1 + d ] - '0' ); ++d; }
					s += d > 0 && v < 32 ? char( v ) : '?'; p += 1 + d;
				}
				if ( !closed ) { eof = true; fail = true; return s; }
			}
			else if ( size_t l = op_len( p ) )
			{
				if ( s.empty() && !quoted ) { s = t.substr( p, l ); p += l; }
				break;
			}
			else s += t[ p++ ];
		}
		end();
		return s;
	}
	string line() { if ( end() ) return ""; size_t e = t.find_first_of( "\r\n", p ); if ( e == string::npos ) e = t.size(); string s = t.substr( p, e - p ); p = e; return s; }
	char get() { return end() ? '\0' : t[ p++ ]; }
	char peek() { return end() ? '\0' : t[ p ]; }
	bool seek( const string& s ) { if ( good() ) { size_t i = t.find( s, p ); if ( i != string::npos ) { p = i; return true; } } fail = true; return false; }
	bool seek_past( const string& s ) { if ( !seek( s ) ) return false; p += s.size(); end(); return true; }
	bool try_get( const string& s ) { if ( t.compare( p, s.size(), s ) != 0 ) return false; p += s.size(); return true; }
	bool try_get( char ch ) { if ( end() || t[ p ] != ch ) return false; ++p; return true; }
	template< typename T > T num( T( *f )( const char*, char** ) )
	{
		skip(); string rest = t.substr( p ); char* e; T v = f( rest.c_str(), &e );
		if ( e == rest.c_str() ) fail = true; else p += e - rest.c_str();
		return v;
	}
	size_t lineno() const { return 1 + std::count( t.begin(), t.begin() + p, '\n' ); }
};
static void state( mc::Ctx& c, xo::char_stream& s, Ref& r )
{
	c.eq( s.eof(), r.eof, "eof" ); c.eq( s.fail(), r.fail, "fail" ); c.eq( s.good(), r.good(), "good" );
	c.eq( s.line_number(), r.lineno(), "line number" );
}
// a heap copy of exactly the text, so that the address sanitizer sees every read outside
struct Buf { char* p; Buf( const string& s ) : p( new char[ s.size() + 1 ] ) { memcpy( p, s.c_str(), s.size() + 1 ); } ~Buf() { delete[] p; } };

static void drain( mc::Ctx& c, const string& text, const Cfg& g )
{
	c.ops( "tokens of " + mc::esc( text ) ); c.state( mc::mix( mc::hash( text ), &g - cfgs().data() ) );
	Buf b( text );
	xo::char_stream s( b.p, g.delim, g.quote, g.ops ); Ref r{ text, g };
	state( c, s, r );
	for ( size_t i = 0; i <= text.size() + 2; ++i )
	{
		string got = s.get_token(), want = r.token();
		c.eq( got, want, "token" );
		c.eq( s.token_is_quoted(), r.quoted, "token_is_quoted" );
		state( c, s, r );
	}
	c.check( s.eof(), "end of text not reached" );
	// the owning form, set up step by step
	xo::char_stream o( string( text ), "x" ); o.set_operators( g.ops ); o.set_delimiter_chars( g.delim ); o.set_quotation_chars( g.quote ); Ref q{ text, g };
	while ( q.good() ) { string got; o >> got; c.eq( got, q.token(), "token of owned text" ); }
	state( c, o, q );
}
MC_SUITE( "tokens" ) { auto& g = cfgs()[ c.choose( 4 ) ]; drain( c, c.str( "a \n\"\\='n1", c.thorough ? 7 : 6 ), g ); }
MC_SUITE( "operators" ) { auto& g = cfgs()[ c.choose( 4 ) ]; drain( c, c.toks( { "<", "=", "a", " ", ":", "/", "*", "\"", "#" }, c.thorough ? 7 : 6 ), g ); }
MC_SUITE( "escapes" ) { auto& g = cfgs()[ c.choose( 2 ) ]; drain( c, "\"" + c.str( "\\\"0178nrt'\n", c.thorough ? 6 : 5 ) + ( c.flip() ? "\" b" : "" ), g ); }
MC_SUITE( "quoted text of every byte" )
{
	int a = c.choose( 256 ), b = c.choose( 256 ); auto& g = cfgs()[ c.choose( 2 ) ];
	string t{ char( a ), char( b ) }; c.ops( mc::esc( t ) ); c.state( mc::hash( t ) );
	xo::char_stream s( xo::quoted( t ) + " " + xo::quoted( t ) + "x", g.delim, g.quote, g.ops );
	c.eq( s.get_token(), t, "quoted text" ); c.eq( s.get_token(), t + "x", "quoted text" ); c.check( s.eof() && !s.fail(), "end" );
}
MC_SUITE( "any bytes" )
{
	string t = c.str( string( "a \"\\=\0\x80\n", 8 ), c.thorough ? 6 : 5 ); auto& g = cfgs()[ c.choose( 4 ) ];
	c.ops( mc::esc( t ) ); c.state( mc::hash( t ) );
	xo::char_stream s( string( t ), g.delim, g.quote, g.ops );
	size_t n = 0; while ( s.good() ) { s.get_token(); c.check( ++n <= t.size() + 1, "more tokens than characters" ); }
}
static void apply( mc::Ctx& c, xo::char_stream& s, Ref& r, int op )
{
	switch ( op )
	{
	case 0: { c.op( "get_token" ); auto g = s.get_token(); c.eq( g, r.token(), "get_token" ); break; }
	case 1: { c.op( "get_line" ); auto g = s.get_line(); c.eq( g, r.line(), "get_line" ); break; }
	case 2: { c.op( "getc" ); char g = s.getc(); c.eq( (int)g, (int)r.get(), "getc" ); break; }
	case 3: { c.op( "peekc" ); char g = s.peekc(); c.eq( (int)g, (int)r.peek(), "peekc" ); break; }
	case 4: { c.op( "int" ); int v = 7; s >> v; c.eq( v, (int)r.num<long>( []( const char* p, char** e ) { return strtol( p, e, 10 ); } ), "int" ); break; }
	case 5: { c.op( "double" ); double v = 7; s >> v; c.eq( v, r.num<double>( strtod ), "double" ); break; }
	case 6: { c.op( "unsigned long long" ); unsigned long long v = 7; s >> v; c.eq( v, r.num<unsigned long long>( []( const char* p, char** e ) { return strtoull( p, e, 10 ); } ), "unsigned long long" ); break; }
	case 7: { c.op( "seek a" ); bool g = s.seek( "a" ); c.eq( g, r.seek( "a" ), "seek" ); break; }
	case 8: { c.op( "seek_past =" ); bool g = s.seek_past( "=" ); c.eq( g, r.seek_past( "=" ), "seek_past" ); break; }
	case 9: { c.op( "try_get 1a" ); bool g = s.try_get( string( "1a" ) ); c.eq( g, r.try_get( string( "1a" ) ), "try_get string" ); break; }
	case 10: { c.op( "try_get a" ); bool g = s.try_get( 'a' ); c.eq( g, r.try_get( 'a' ), "try_get char" ); break; }
	case 11: { c.op( "try_get NUL" ); bool g = s.try_get( '\0' ); c.eq( g, r.try_get( '\0' ), "try_get NUL" ); break; }
	case 12: { c.op( "short" ); short v = 7; s >> v; c.eq( v, (short)r.num<long>( []( const char* p, char** e ) { return strtol( p, e, 10 ); } ), "short" ); break; }
	case 13: { c.op( "float" ); float v = 7; s >> v; c.eq( v, r.num<float>( strtof ), "float" ); break; }
	case 14: { c.op( "optional<long>" ); xo::optional<long> v( 3 ); bool was = s.fail(); s >> v; long w = r.num<long>( []( const char* p, char** e ) { return strtol( p, e, 10 ); } );
		if ( w != xo::constants<long>::sentinel() ) c.eq( bool( v ), !r.fail, "optional engaged" ); if ( v ) c.eq( *v, w, "optional value" ); (void)was; break; }
	case 15: { c.op( "seek_past 1\\n" ); bool g = s.seek_past( "1\n" ); c.eq( g, r.seek_past( "1\n" ), "seek_past" ); break; }
	case 16: { c.op( "unsigned" ); unsigned v = 7; s >> v; c.eq( v, (unsigned)r.num<unsigned long>( []( const char* p, char** e ) { return strtoul( p, e, 10 ); } ), "unsigned" ); break; }
	case 17: { c.op( "long long" ); long long v = 7; s >> v; c.eq( v, r.num<long long>( []( const char* p, char** e ) { return strtoll( p, e, 10 ); } ), "long long" ); break; }
	case 18: { c.op( "unsigned short" ); unsigned short v = 7; s >> v; c.eq( v, (unsigned short)r.num<unsigned long>( []( const char* p, char** e ) { return strtoul( p, e, 10 ); } ), "unsigned short" ); break; }
	case 19: { c.op( "unsigned long" ); unsigned long v = 7; s >> v; c.eq( v, r.num<unsigned long>( []( const char* p, char** e ) { return strtoul( p, e, 10 ); } ), "unsigned long" ); break; }
	}
	state( c, s, r );
}
static void history( mc::Ctx& c, const string& text, int nops, int depth )
{
	auto& g = cfgs()[ c.choose( 2 ) ];
	c.note( "%s", mc::esc( text ).c_str() );
	Buf b( text ); xo::char_stream s( b.p, g.delim, g.quote, g.ops ); Ref r{ text, g };
	for ( int i = 0; i < depth; ++i )
	{
		apply( c, s, r, c.choose( nops ) );
		string k = text + "|" + std::to_string( &g - cfgs().data() ) + "|" + std::to_string( r.p ) + ( r.eof ? "e" : "" ) + ( r.fail ? "f" : "" );
		c.state( k );
		if ( c.seen( k, depth - i ) ) throw mc::prune();
	}
}
MC_SUITE( "read histories" ) { history( c, c.str( "a1 \n=\"-", 4 ), 20, c.thorough ? 4 : 3 ); }
MC_SUITE( "long read histories" ) { history( c, c.pick<string>( { "a1 \"b c\" 12.5e1x\n-3 = 1a\n\n# 1\n\"\\n\"=a", "1 2 3\n4 5\n6a=7\n1\n1\n", "   \n\n", "\"abc", "99999999999999999999 -1 0x1f 1e400 inf" } ), 20, c.thorough ? 14 : 10 ); }
MC_SUITE( "long texts" ) { auto& g = cfgs()[ c.choose( 4 ) ]; drain( c, c.flip() ? c.longer( "a \"\\='n\n#<", c.thorough ? 1025 : 257 ) : "\"" + c.longer( "a \\\"", c.thorough ? 1025 : 257 ) + c.pick<string>( { "", "\"", "\" b", "\"\nb" } ), g ); }
MC_SUITE( "read histories of long texts" ) { history( c, c.longer( "a1 \n=\"-", c.thorough ? 1025 : 65 ), 20, c.thorough ? 3 : 2 ); }
