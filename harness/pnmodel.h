// Reference model of a property tree, shared by several harnesses.
#pragma once
#include "mc.h"
#include "xo/container/prop_node.h"
#include <vector>
#include <string>
namespace pn
{
	using std::string;
	struct T
	{
		string v;
		std::vector< std::pair< string, T > > ch;
		T() = default;
		explicit T( string v_ ) : v( std::move( v_ ) ) {}
		bool operator==( const T& o ) const { return v == o.v && ch == o.ch; }
		bool operator!=( const T& o ) const { return !( *this == o ); }
		int find( const string& k ) const { for ( size_t i = 0; i < ch.size(); ++i ) if ( ch[ i ].first == k ) return (int)i; return -1; }
		T& add( const string& k, const string& v_ = "" ) { ch.emplace_back( k, T( v_ ) ); return ch.back().second; }
		size_t count() const { size_t n = ch.size(); for ( auto& c : ch ) n += c.second.count(); return n; }
		size_t layers() const { size_t n = 0; for ( auto& c : ch ) n = std::max( n, c.second.layers() + 1 ); return n; }
	};
	inline void canon( const T& t, string& s )
	{
		s += mc::esc( t.v );
		if ( t.ch.empty() ) return;
		s += '{';
		for ( auto& c : t.ch ) { s += mc::esc( c.first ); s += '='; canon( c.second, s ); s += ' '; }
		s += '}';
	}
	inline string canon( const T& t ) { string s; canon( t, s ); return s; }
	/// build with the most basic interface only
	inline void build( xo::prop_node& n, const T& t )
	{
		n.set_value( string( t.v ) );
		for ( auto& c : t.ch ) build( n.add_child( c.first ), c.second );
	}
	inline xo::prop_node build( const T& t ) { xo::prop_node n; build( n, t ); return n; }
	/// read with the most basic interface only
	inline T read( const xo::prop_node& n )
	{
		T t( n.peek_str() );
		for ( size_t i = 0; i < n.size(); ++i ) t.ch.emplace_back( n.at( i ).first, read( n.at( i ).second ) );
		return t;
	}
	inline string text( const xo::prop_node& n ) { return canon( read( n ) ); }
	inline void same( mc::Ctx& c, const xo::prop_node& n, const T& t, const char* what )
	{
		T r = read( n );
		++c.checks;
		if ( r != t ) c.fail( string( what ) + ": got " + canon( r ) + ", expected " + canon( t ) );
	}
	/// every tree with at most n nodes below the root, keys and values from the given lists
	inline T gen( mc::Ctx& c, int& budget, const std::vector<string>& keys, const std::vector<string>& vals, int depth )
	{
		T t( c.pick( vals ) );
		while ( budget > 0 && depth > 0 )
		{
			int k = c.choose( (int)keys.size() + 1 );
			if ( k == 0 ) break;
			--budget;
			T sub = gen( c, budget, keys, vals, depth - 1 );
			t.ch.emplace_back( keys[ k - 1 ], std::move( sub ) );
		}
		return t;
	}
}
