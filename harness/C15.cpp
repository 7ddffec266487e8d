// C15: string utilities against their definitions.
#include "mc.h"
#include "xo/string/string_tools.h"
#include "xo/string/stack_string.h"
#include "xo/system/system_tools.h"
#include <algorithm>
#include <climits>
using std::string; using std::vector;
static const size_t NP = string::npos;

MC_SUITE( "left, mid, right" )
{
	string s = c.text( "ab", 5, 0, 257 ); int sz = (int)s.size();
	std::vector<int> ns; for ( int i = -sz - 2; i <= sz + 2; ++i ) ns.push_back( i ); for ( int x : { INT_MAX, INT_MIN, INT_MIN + 1, 1000000, -1000000 } ) ns.push_back( x );
	int n = c.pick( ns );
	c.op( "%s %d", s.c_str(), n ); c.state( mc::mix( mc::hash( s ), n ) );
	long long k = n >= 0 ? std::min<long long>( n, sz ) : std::max<long long>( 0, (long long)sz + n );
	if ( n != INT_MIN && n != INT_MIN + 1 ) c.eq( xo::left_str( s, n ), s.substr( 0, k ), "left_str" );
	long long r = n >= 0 ? std::min<long long>( n, sz ) : std::max<long long>( 0, (long long)sz + n );
	c.eq( xo::right_str( s, n ), s.substr( sz - r ), "right_str" );
	if ( n > -1000000 && n < 0 ) c.eq( xo::left_str( s, n ) + xo::right_str( s, std::min( -n, sz ) ), s, "left + right" );
	if ( n >= 0 )
	{
		for ( int m = 0; m <= sz + 1; ++m )
		{
			if ( n <= sz ) { string w; for ( int i = n; i < sz && i < n + m; ++i ) w += s[ i ]; c.eq( xo::mid_str( s, n, m ), w, "mid_str" ); }
		}
		if ( n <= sz ) c.eq( xo::left_str( s, n ) + xo::mid_str( s, n ), s, "left + mid" ); else c.must_throw( [&] { xo::mid_str( s, n ); }, "mid_str beyond the end" );
	}
}
MC_SUITE( "search" )
{
	string s = c.text( "ab", c.thorough ? 9 : 8, 0, c.thorough ? 513 : 65 ), f = c.text( "ab", 3, 0, c.thorough ? 33 : 17 );
	c.op( "%s in %s", f.c_str(), s.c_str() ); c.state( s + "|" + f );
	vector<size_t> occ; for ( size_t i = 0; i + f.size() <= s.size(); ++i ) if ( std::equal( f.begin(), f.end(), s.begin() + i ) ) occ.push_back( i );
	auto nth = [&]( size_t p ) { for ( auto o : occ ) if ( o >= p ) return o; return NP; };
	for ( size_t p = 0; p <= s.size(); ++p ) c.eq( (size_t)xo::in_str( s, f, p ), nth( p ), "in_str" );
	if ( !f.empty() ) for ( size_t n = 1; n <= s.size() + 2; ++n ) c.eq( (size_t)xo::find_nth_str( s, f, n ), n <= occ.size() ? occ[ n - 1 ] : NP, "find_nth_str" );
	bool b = !occ.empty() && occ[ 0 ] == 0, e = !occ.empty() && occ.back() + f.size() == s.size();
	c.eq( xo::str_begins_with( s, f ), b, "str_begins_with" ); c.eq( xo::str_ends_with( s, f ), e, "str_ends_with" );
	c.eq( xo::str_contains( s, f ), !occ.empty(), "str_contains" );
	for ( size_t p = 0; p < s.size(); ++p ) c.eq( xo::str_begins_with( s, f, p ), std::find( occ.begin(), occ.end(), p ) != occ.end(), "str_begins_with at position" );
	for ( size_t p : { s.size() + 1, s.size() + 7, NP } ) if ( !f.empty() ) c.check( !xo::str_begins_with( s, f, p ), "str_begins_with beyond the end" );
	for ( char ch : { 'a', 'b', 'c' } )
	{
		c.eq( xo::str_begins_with( s, ch ), !s.empty() && s[ 0 ] == ch, "begins with char" ); c.eq( xo::str_ends_with( s, ch ), !s.empty() && s[ s.size() - 1 ] == ch, "ends with char" );
		c.eq( xo::str_contains( s, ch ), std::count( s.begin(), s.end(), ch ) > 0, "contains char" );
	}
	c.eq( xo::str_equals_any_of( s, { "a", "", "bab" } ), s == "a" || s == "" || s == "bab", "str_equals_any_of" );
	c.check( !xo::str_equals_any_of( s, {} ), "str_equals_any_of nothing" );
}
MC_SUITE( "replace" )
{
	string s = c.text( "ab", c.thorough ? 9 : 8, 0, c.thorough ? 1025 : 129 ), f = c.str( "ab", 2, 1 ), r = s.size() > 10 && c.flip() ? c.longer( "ac", 17 ) : c.str( "abc", 3 );
	c.op( "%s: %s -> %s", s.c_str(), f.c_str(), r.c_str() ); c.state( s + "|" + f + "|" + r );
	string w; for ( size_t i = 0; i < s.size(); ) if ( s.compare( i, f.size(), f ) == 0 ) { w += r; i += f.size(); } else w += s[ i++ ];
	string t = s; xo::replace_str( t, f, r ); c.eq( t, w, "replace_str in place" );
	const string cs = s; c.eq( xo::replace_str( cs, f, r ), w, "replace_str const" ); c.eq( xo::replace_str( string( s ), f, r ), w, "replace_str rvalue" ); c.eq( cs, s, "source changed" );
	if ( f.size() == 1 && r.size() == 1 )
	{
		string v; for ( char x : s ) v += x == f[ 0 ] ? r[ 0 ] : x;
		string t2 = s; xo::replace_char( t2, f[ 0 ], r[ 0 ] ); c.eq( t2, v, "replace_char" ); c.eq( xo::replace_char( string( s ), f[ 0 ], r[ 0 ] ), v, "replace_char rvalue" );
	}
}
static bool in( char ch, const string& set ) { for ( char x : set ) if ( x == ch ) return true; return false; }
MC_SUITE( "trim" )
{
	string s = c.text( " a\t\n.", c.thorough ? 8 : 7 ), set = c.pick<string>( { " ", " \t\r\n\f\v", ".", "a.", "", "a \n\t." } ); bool def = set.size() == 6;
	c.ops( mc::esc( s ) + " without " + mc::esc( set ) ); c.state( s + "|" + set );
	size_t b = 0, e = s.size(); while ( b < e && in( s[ b ], set ) ) ++b; while ( e > b && in( s[ e - 1 ], set ) ) --e;
	string l = s.substr( b ); size_t e2 = s.size(); while ( e2 > 0 && in( s[ e2 - 1 ], set ) ) --e2; string r = s.substr( 0, e2 );
	c.eq( xo::trim_str( s, set.c_str() ), s.substr( b, e - b ), "trim_str" ); c.eq( xo::trim_left_str( s, set.c_str() ), l, "trim_left_str" ); c.eq( xo::trim_right_str( s, set.c_str() ), r, "trim_right_str" );
	if ( def ) { c.eq( xo::trim_str( s ), s.substr( b, e - b ), "trim_str default" ); c.eq( xo::trim_left_str( s ), l, "trim_left_str default" ); c.eq( xo::trim_right_str( s ), r, "trim_right_str default" ); }
}
MC_SUITE( "split and join" )
{
	string s = c.text( "a,b;", c.thorough ? 9 : 8 ), sep = c.pick<string>( { ",", ",;", ";a", "" } );
	c.op( "%s by %s", s.c_str(), sep.c_str() ); c.state( s + "|" + sep );
	vector<string> w; string cur; for ( char ch : s + ( sep.empty() ? "" : sep.substr( 0, 1 ) ) ) if ( in( ch, sep ) ) { if ( !cur.empty() ) w.push_back( cur ); cur.clear(); } else cur += ch; if ( !cur.empty() ) w.push_back( cur );
	c.eq( vector<string>( xo::split_str( s, sep ) ), w, "split_str" );
	vector<string> v; for ( auto p : xo::split_str( std::string_view( s ), sep ) ) { c.check( p.data() >= s.data() && p.data() + p.size() <= s.data() + s.size(), "string_view part lies outside" ); v.push_back( string( p ) ); }
	c.eq( v, w, "split_str view" );
	string joined; for ( size_t i = 0; i < w.size(); ++i ) joined += ( i ? "+-" : "" ) + w[ i ];
	c.eq( xo::concat_str( w, "+-" ), joined, "concat_str of parts" );
	size_t f = NP, l = NP; for ( size_t i = 0; i < s.size(); ++i ) if ( in( s[ i ], sep ) ) { if ( f == NP ) f = i; l = i; }
	auto a = xo::split_str_at_first( s, sep ), b = xo::split_str_at_last( s, sep );
	if ( f == NP ) { c.eq( a, std::make_pair( s, string() ), "split_str_at_first" ); c.eq( b, std::make_pair( s, string() ), "split_str_at_last" ); }
	else { c.eq( a, std::make_pair( s.substr( 0, f ), s.substr( f + 1 ) ), "split_str_at_first" ); c.eq( b, std::make_pair( s.substr( 0, l ), s.substr( l + 1 ) ), "split_str_at_last" ); }
}
MC_SUITE( "key value pairs" )
{
	string s = c.text( "a =:\n", c.thorough ? 8 : 7 ), sep = c.pick<string>( { "=", ":", "=:" } );
	c.ops( mc::esc( s ) + " " + sep ); c.state( s + "|" + sep );
	auto r = xo::make_key_value_str( s, sep ); size_t p = s.find_first_of( sep );
	auto trim = []( const string& x ) { size_t b = x.find_first_not_of( " \t\r\n\f\v" ); if ( b == NP ) return string(); return x.substr( b, x.find_last_not_of( " \t\r\n\f\v" ) - b + 1 ); };
	if ( p == NP ) { c.check( r.first == s || r.first == trim( s ), "key without separator" ); c.eq( r.second, string(), "value without separator" ); }
	else { c.eq( r.first, trim( s.substr( 0, p ) ), "key" ); c.eq( r.second, trim( s.substr( p + 1 ) ), "value" ); }
	if ( sep == "=" ) c.check( xo::make_key_value_str( s ) == r, "default separator" );
}
MC_SUITE( "concatenation" )
{
	string a = c.str( "ab", 2 ), b = c.str( "ab", 2 ), d = c.str( "b ", 2 ), e = c.str( "ab", 1 );
	c.op( "%s|%s|%s|%s", a.c_str(), b.c_str(), e.c_str(), d.c_str() ); c.state( a + "|" + b + "|" + d + "|" + e );
	auto join = [&]( vector<string> v, const string& dl ) { string r; bool first = true; for ( auto& x : v ) if ( !x.empty() ) { if ( !first ) r += dl; first = false; r += x; } return r; };
	c.eq( xo::concat_str( { a, b, e }, d ), join( { a, b, e }, d ), "concat_str list" ); c.eq( xo::concat_str( vector<string>{ a, b, e }, d ), join( { a, b, e }, d ), "concat_str container" );
	c.eq( xo::concat_str( a, b, '.' ), join( { a, b }, "." ), "concat_str two" ); c.eq( xo::concat_str( a, b, 'x' ), join( { a, b }, "x" ), "concat_str two" );
	c.eq( xo::concat_str( vector<string>{}, d ), string(), "concat_str nothing" );
	string t = a; xo::append_str( t, b, d ); string w = a; bool ends = a.size() >= d.size() && a.substr( a.size() - d.size() ) == d; if ( !a.empty() && !ends ) w += d; w += b;
	c.eq( t, w, "append_str" );
}
MC_SUITE( "case and copies" )
{
	string s = c.text( "aZ1[`{@", 4, 0, 257 ); c.ops( mc::esc( s ) ); c.state( s );
	string lo, up; for ( char ch : s ) { lo += ch >= 'A' && ch <= 'Z' ? char( ch + 32 ) : ch; up += ch >= 'a' && ch <= 'z' ? char( ch - 32 ) : ch; }
	c.eq( xo::to_lower( s ), lo, "to_lower" ); c.eq( xo::to_upper( s ), up, "to_upper" );
	for ( size_t n = 0; n <= s.size() + 2; ++n )
	{
		char* buf = new char[ n + 1 ]; memset( buf, '#', n + 1 ); size_t k = xo::copy_str( s, buf, n ); size_t w = n ? std::min( n - 1, s.size() ) : 0;
		c.eq( k, w, "copy_str result" ); if ( n ) { c.check( memcmp( buf, s.data(), w ) == 0 && buf[ w ] == 0, "copy_str content" ); } c.check( buf[ n ] == '#', "copy_str wrote beyond the buffer" ); if ( !n ) c.check( buf[ 0 ] == '#', "copy_str wrote" ); delete[] buf;
	}
}
MC_SUITE( "all bytes" )
{
	int x = c.choose( 256 ); c.op( "%d", x ); c.state( x ); string s( 1, char( x ) ); int len = -1;
	c.eq( xo::to_lower( s ), string( 1, x >= 'A' && x <= 'Z' ? x + 32 : x ), "to_lower" ); c.eq( xo::to_upper( s ), string( 1, x >= 'a' && x <= 'z' ? x - 32 : x ), "to_upper" );
	string e = xo::encode_char( char( x ) );
	c.eq( (int)(unsigned char)xo::decode_char( e.c_str(), e.size(), &len ), x, "decode_char of encode_char" ); c.eq( len, (int)e.size(), "decode_char length" );
	for ( char ch : e ) c.check( (unsigned char)ch >= 32, "encoded char is not printable" );
}
static void quoting( mc::Ctx& c, const string& s )
{
	c.ops( mc::esc( s ) ); c.state( s );
	string q = xo::quoted( s );
	c.check( q.size() >= 2 && q[ 0 ] == '"' && q[ q.size() - 1 ] == '"', "quoted text is not between quotes" );
	for ( size_t i = 1; i + 1 < q.size(); ++i ) { c.check( (unsigned char)q[ i ] >= 32, "control character in quoted text" ); if ( q[ i ] == '"' ) { size_t n = 0; while ( q[ i - 1 - n ] == '\\' ) ++n; c.check( n % 2 == 1, "bare quote in quoted text" ); } }
	c.eq( xo::try_unquoted( q ), s, "unquoted(quoted)" );
	c.eq( xo::try_unquoted( xo::try_quoted( s ) ), s, "unquoted(try_quoted)" ); c.eq( xo::try_unquoted( xo::try_quoted( s, "{=" ) ), s, "unquoted(try_quoted) with special characters" );
	bool need = s.empty(), need2 = need; for ( char ch : s ) { need |= ( ch >= 0 && ch < 33 ) || ch == '"'; need2 |= ch == '{' || ch == '='; }
	c.eq( xo::needs_quotes( s ), need, "needs_quotes" ); c.eq( xo::needs_quotes( s, "{=" ), need || need2, "needs_quotes with special characters" );
	c.eq( xo::try_quoted( s ), need ? q : s, "try_quoted" ); c.eq( xo::try_quoted( s, "{=" ), need || need2 ? q : s, "try_quoted with special characters" );
}
MC_SUITE( "quoting" ) { quoting( c, c.text( string( "a\"\\ \n\0{=0\xe9r", 11 ), c.thorough ? 7 : 6, 0, 4097 ) ); }
MC_SUITE( "quoting of byte pairs" ) { int a = c.choose( 256 ), b = c.choose( 256 ); quoting( c, string{ char( a ), char( b ) } ); }
// any text, quoted or not, well formed or not
MC_SUITE( "unquoting arbitrary text" )
{
	string s = c.text( "\"\\an01", c.thorough ? 9 : 8, 0, 513 ); c.ops( mc::esc( s ) ); c.state( s );
	char* heap = new char[ s.size() ]; memcpy( heap, s.data(), s.size() );
	for ( size_t i = 0; i < s.size(); ++i ) { int len = 0; xo::decode_char( heap + i, s.size() - i, &len ); c.check( len >= 1 && len <= int( s.size() - i ), "decode_char length" ); if ( heap[ i ] != '\\' ) c.eq( len, 1, "decode_char of a plain character" ); }
	delete[] heap;
	string u = xo::try_unquoted( string( s ) );
	if ( s.size() < 2 || s[ 0 ] != '"' || s[ s.size() - 1 ] != '"' ) c.eq( u, s, "text without quotes changed" ); else c.check( u.size() <= s.size() - 1, "unquoted text is longer" );
}
MC_SUITE( "stringf" )
{
	int n = c.choose( 1200 ); c.op( "%d characters", n ); c.state( n );
	string s( n, 'x' ); c.eq( xo::stringf( "%s", s.c_str() ), s, "stringf" ); c.eq( xo::stringf( "<%s>%d", s.c_str(), n ), "<" + s + ">" + std::to_string( n ), "stringf" );
}
MC_SUITE( "identifiers" )
{
	string s = c.text( "a_.:b", c.thorough ? 9 : 8 ); c.op( "%s", s.c_str() ); c.state( s );
	size_t p = s.find_last_of( ".:" ); string w = p == NP ? s : s.substr( p + 1 ); while ( !w.empty() && w[ 0 ] == '_' ) w.erase( 0, 1 ); while ( !w.empty() && w[ w.size() - 1 ] == '_' ) w.erase( w.size() - 1 );
	c.eq( xo::tidy_identifier( s ), w, "tidy_identifier" );
}
MC_SUITE( "stacked strings" )
{
	xo::stack_string s; vector<string> st; int depth = c.thorough ? 9 : 8;
	for ( int i = 0; i < depth; ++i )
	{
		int k = c.choose( 5 );
		if ( k < 3 ) { string x = k == 0 ? "" : k == 1 ? "a" : "bc"; c.op( "push %s", x.c_str() ); s.push_back( x ); st.push_back( x ); }
		else if ( k == 3 ) { if ( st.empty() ) throw mc::prune(); c.op( "pop" ); s.pop_back(); st.pop_back(); }
		else { string x = c.flip() ? "q" : ""; c.op( "set %s", x.c_str() ); s.set( x ); st.clear(); if ( !x.empty() ) st.push_back( x ); }
		string w; for ( auto& x : st ) w += x; c.eq( s.str(), w, "stack_string" ); c.state( mc::show( st ) );
	}
}
