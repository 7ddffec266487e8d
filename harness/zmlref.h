// Independent reference parser of the default text format (index based, no code shared with the library).
#pragma once
#include "pnmodel.h"
#include <algorithm>
#include <functional>
namespace zml
{
	using std::string; using pn::T;
	struct Error { size_t line; bool at_end; string what; };
	struct Unspecified {};
	struct Tok { string s; bool quoted = false; bool end = false; bool is( const char* o ) const { return !quoted && !end && s == o; } };

	struct Parser
	{
		string t; size_t p = 0;
		std::vector< std::pair< string, T > > macros;
		T root;
		/// yields the included tree, or nothing in case of an error
		std::function< bool( const string&, T& ) > include;

		explicit Parser( string text ) : t( std::move( text ) ) {}
		static const std::vector<string>& ops() { static const std::vector<string> v = { "<<", ">>", "//", "/*", "*/", ": ", "=", "{", "}", "[", "]", "#" }; return v; }
		size_t line() const { return 1 + std::count( t.begin(), t.begin() + p, '\n' ); }
		[[noreturn]] void error( const char* w, bool at_end = false ) { throw Error{ line(), at_end || p >= t.size(), w }; }
		size_t op_at( size_t i ) const { for ( auto& o : ops() ) if ( t.compare( i, o.size(), o ) == 0 ) return o.size(); return 0; }
		static bool blank( char c ) { return c == ' ' || c == '\n' || c == '\r' || c == '\t' || c == '\v' || c == 0; }
		bool op( const Tok& k ) const { if ( k.quoted || k.end ) return false; return std::find( ops().begin(), ops().end(), k.s ) != ops().end(); }

		Tok raw()
		{
			while ( p < t.size() && blank( t[ p ] ) ) ++p;
			Tok k; if ( p >= t.size() ) { k.end = true; return k; }
			while ( p < t.size() && !blank( t[ p ] ) )
			{
				if ( t[ p ] == '"' || t[ p ] == '\'' )
				{
					char q = t[ p++ ]; k.quoted = true;
					for ( ;; ++p )
					{
						if ( p >= t.size() ) error( "open quote", true );
						if ( t[ p ] == q ) { ++p; break; }
						if ( t[ p ] != '\\' || p + 1 >= t.size() ) { k.s += t[ p ]; continue; }
						char e = t[ p + 1 ];
						if ( e && strchr( "nrt\\\"", e ) ) { k.s += e == 'n' ? '\n' : e == 'r' ? '\r' : e == 't' ? '\t' : e; ++p; continue; }
						int d = 0, v = 0; while ( d < 3 && p + 1 + d < t.size() && t[ p + 1 + d ] >= '0' && t[ p + 1 + d ] < '8' ) v = v * 8 + t[ p + 1 + d++ ] - '0';
						k.s += d && v < 32 ? char( v ) : '?'; p += d;
					}
				}
				else if ( size_t l = op_at( p ) ) { if ( k.s.empty() && !k.quoted ) { k.s = t.substr( p, l ); p += l; } break; }
				else k.s += t[ p++ ];
			}
			return k;
		}
		Tok next()
		{
			while ( true )
			{
				Tok k = raw();
				if ( k.is( "#" ) || k.is( "//" ) ) { while ( p < t.size() && t[ p ] != '\n' && t[ p ] != '\r' ) ++p; }
				else if ( k.is( "/*" ) ) { size_t e = t.find( "*/", p ); if ( e == string::npos ) error( "open comment", true ); p = e + 2; }
				else return k;
			}
		}
		T* macro( const string& name ) { for ( size_t i = macros.size(); i-- > 0; ) if ( macros[ i ].first == name ) return &macros[ i ].second; return nullptr; }
		static const T* query( const T& t, const string& q )
		{
			size_t d = q.find( '.' ); string k = q.substr( 0, d ); int i = t.find( k );
			if ( i < 0 && k.size() > 1 && k[ 0 ] == '#' && k.find_first_not_of( "0123456789", 1 ) == string::npos ) { size_t n = atoi( k.c_str() + 1 ); if ( n >= 1 && n <= t.ch.size() ) i = int( n ) - 1; }
			if ( i < 0 ) return nullptr;
			return d == string::npos ? &t.ch[ i ].second : query( t.ch[ i ].second, q.substr( d + 1 ) );
		}
		void value( Tok k, T& n, const std::vector<T*>& open )
		{
			if ( k.end ) error( "missing value", true );
			if ( k.is( "{" ) || k.is( "[" ) ) { auto o = open; o.push_back( &n ); layer( n, k.s == "{" ? "}" : "]", o ); return; }
			if ( op( k ) ) error( "operator as value" );
			if ( !k.s.empty() && k.s[ 0 ] == '@' )
			{
				auto* r = query( root, k.s.substr( 1 ) );
				if ( !r ) error( "unknown reference" );
				if ( r == &n || std::find( open.begin(), open.end(), r ) != open.end() ) throw Unspecified(); // part of itself
				T copy = *r; n = copy; return;
			}
			if ( k.s.size() >= 2 && k.s[ 0 ] == '$' && k.s[ 1 ] != '{' ) { auto* m = macro( k.s ); if ( !m ) error( "undefined macro" ); T copy = *m; n = copy; return; }
			string out; size_t i = 0;
			for ( size_t b; ( b = k.s.find( "${", i ) ) != string::npos; )
			{
				out += k.s.substr( i, b - i ); size_t e = k.s.find( '}', b );
				if ( e == string::npos ) error( "open macro" );
				auto* m = macro( "$" + k.s.substr( b + 2, e - b - 2 ) ); if ( !m ) error( "undefined macro" );
				out += m->v; i = e + 1;
			}
			n.v = out + k.s.substr( i );
		}
		void layer( T& n, const char* close, const std::vector<T*>& open )
		{
			size_t scope = macros.size(); bool array = close[ 0 ] == ']'; bool last_is_macro = false;
			while ( true )
			{
				Tok k = next();
				if ( k.end ) { if ( *close ) error( "open group", true ); break; }
				if ( *close && k.is( close ) ) break;
				if ( k.is( "<<" ) )
				{
					Tok f = next(); if ( f.end || op( f ) ) error( "include without name" );
					Tok e = next(); if ( !e.is( ">>" ) ) error( "open include" );
					T inc; if ( !include || !include( f.s, inc ) ) error( "include failed" );
					for ( auto& ch : inc.ch ) n.ch.push_back( ch );
					last_is_macro = false;
				}
				else if ( array ) { n.ch.emplace_back( "", T() ); value( k, n.ch.back().second, open ); }
				else if ( k.is( "{" ) || k.is( "[" ) )
				{
					if ( last_is_macro ) throw Unspecified();
					if ( n.ch.empty() ) error( "group without label" );
					value( k, n.ch.back().second, open );
				}
				else
				{
					if ( op( k ) || k.s.empty() || (unsigned char)k.s[ 0 ] <= 32 || (unsigned char)k.s[ 0 ] >= 127 ) error( "invalid label" );
					Tok e = next();
					if ( e.is( "=" ) || e.is( ": " ) ) { Tok v = next(); item( k, v, n, open ); }
					else if ( e.is( "{" ) || e.is( "[" ) ) item( k, e, n, open );
					else error( "expected =", e.end );
					last_is_macro = k.s[ 0 ] == '$';
				}
			}
			macros.resize( scope );
		}
		void item( const Tok& k, const Tok& v, T& n, const std::vector<T*>& open )
		{
			if ( k.s[ 0 ] == '$' ) { T m; value( v, m, open ); macros.emplace_back( k.s, m ); }
			else { n.ch.emplace_back( k.s, T() ); value( v, n.ch.back().second, open ); }
		}
		T parse() { layer( root, "", { &root } ); return root; }
	};
	/// 0 = tree, 1 = error, 2 = the format does not say
	inline int parse( const string& text, T& tree, Error& err, std::function< bool( const string&, T& ) > inc = nullptr )
	{
		Parser p( text ); p.include = inc;
		try { tree = p.parse(); return 0; }
		catch ( Error& e ) { err = e; return 1; }
		catch ( Unspecified& ) { return 2; }
	}
}
