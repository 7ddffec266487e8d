// Settings: histories of set, reset, save, load and outside edits of the file, for every kind of setting.
#include "mc.h"
#include <cmath>
#include <fcntl.h>
#include <unistd.h>
#include <sys/stat.h>
#include <memory>
#include "xo/system/settings.h"
#include "xo/serialization/serialize.h"
#include "xo/utility/color.h"
#include "xo/geometry/vec3.h"

using std::string;

enum kind { INT, FLOAT, BOOL, STRING, COLOR, VEC3, ANY };
struct val { string text; string result; }; // result: "-" rejected, "=" back to the default, else what get() yields
struct setting { string id; kind k; string type, def, range; std::vector< string > allowed; std::vector< val > values; };
static const std::vector< setting > all = {
	{ "i", INT, "int", "3", "", {}, { { "7", "7" }, { "-2147483647", "-2147483647" }, { "2147483647", "2147483647" }, { "2147483648", "-" }, { "abc", "-" }, { "", "=" }, { "3", "=" }, { "-", "-" } } },
	{ "r", INT, "int", "5", "0..10", {}, { { "0", "0" }, { "10", "10" }, { "11", "10" }, { "-1", "0" }, { "99999999999", "-" }, { "x", "-" }, { "5", "=" } } },
	{ "big", INT, "int", "1", "0..10000000", {}, { { "1234567", "1234567" }, { "9999999", "9999999" }, { "10000001", "10000000" }, { "2147483647", "10000000" } } },
	{ "half", INT, "int", "2", "0.5..3.5", {}, { { "1", "1" }, { "3", "3" }, { "0", "1" }, { "4", "3" }, { "-9", "1" } } },
	{ "f", FLOAT, "float", "0.5", "-1..1", {}, { { "0.25", "0.25" }, { "1", "1" }, { "-1", "-1" }, { "1.5", "1" }, { "-7", "-1" }, { "nan", "-" }, { "inf", "1" }, { "-inf", "-1" }, { "x", "-" }, { "0.123456789", "0.123456789" } } },
	{ "g", FLOAT, "float", "2", "", {}, { { "2.5", "2.5" }, { "1e30", "1e30" }, { "-0.125", "-0.125" }, { "x", "-" } } },
	{ "n", FLOAT, "", "0.5", "0..1", {}, { { "0.25", "0.25" }, { "2", "1" }, { "abc", "-" }, { "nan", "-" } } },
	{ "b", BOOL, "bool", "true", "", {}, { { "false", "0" }, { "0", "0" }, { "1", "1" }, { "maybe", "-" }, { "2", "-" } } },
	{ "s", STRING, "string", "x", "", {}, { { "y", "y" }, { "a b", "a b" }, { "q\"uo#te { } = [ ] $", "q\"uo#te { } = [ ] $" }, { "x", "=" }, { "", "=" }, { "12", "12" } } },
	{ "e", STRING, "string", "a", "", { "a", "b", "c d" }, { { "b", "b" }, { "c d", "c d" }, { "zzz", "-" }, { "B", "-" }, { "a", "=" } } },
	{ "ei", INT, "int", "1", "", { "1", "2", "4" }, { { "2", "2" }, { "4", "4" }, { "3", "-" }, { "x", "-" } } },
	{ "c", COLOR, "color", "ff0000", "", {}, { { "00ff00", "0 1 0 1" }, { "0x0000ff", "0 0 1 1" }, { "ff00ff00", "1 0 1 0" }, { "rgb(0,255,255)", "0 1 1 1" }, { "x", "-" }, { "rgb(1,2)", "-" } } },
	{ "v", VEC3, "vec3", "1 2 3", "", {}, { { "0 -1 2.5", "0 -1 2.5" }, { "x y z", "-" } } },
	{ "u", ANY, "", "d", "", {}, { { "anything", "anything" }, { "1 2 3", "1 2 3" } } },
	{ "grp.n", INT, "int", "4", "", {}, { { "6", "6" }, { "z", "-" }, { "4", "=" } } },
	{ "grp.sub.s", STRING, "string", "deep", "", {}, { { "deeper", "deeper" } } },
};
static xo::prop_node schema( const std::vector< int >& which )
{
	xo::prop_node pn;
	for ( int i : which )
	{
		auto& s = all[ i ];
		xo::prop_node* n = &pn;
		for ( size_t p = 0; p <= s.id.size(); ) { size_t q = std::min( s.id.find( '.', p ), s.id.size() ); auto k = s.id.substr( p, q - p ); n = n->try_get_child( k ) ? n->try_get_child( k ) : &n->add_child( k ); p = q + 1; }
		if ( !s.type.empty() ) n->set( "type", s.type );
		n->set( "default", s.def );
		if ( !s.range.empty() ) n->set( "range", s.range );
		if ( s.allowed.size() ) { auto& a = n->add_child( "allowed" ); for ( auto& x : s.allowed ) a.add_value( x ); }
	}
	return pn;
}
static bool close_to( double a, double b ) { return a == b || std::abs( a - b ) <= 2e-6 * std::abs( b ); }
static string color_text( const xo::color& k ) { char b[ 100 ]; snprintf( b, 100, "%g %g %g %g", k.r, k.g, k.b, k.a ); return b; }
static void same( mc::Ctx& c, const xo::settings& s, const setting& d, const string& want, const char* where )
{
	string w = string( where ) + ": " + d.id;
	switch ( d.k )
	{
	case INT: c.eq( s.get< int >( d.id ), (int)atoll( want.c_str() ), w.c_str() ); break;
	case FLOAT: { double v = s.get< double >( d.id ); if ( !close_to( v, atof( want.c_str() ) ) ) c.fail( w + ": got " + mc::show( v ) + ", expected " + want ); break; }
	case BOOL: c.eq( s.get< bool >( d.id ), want == "1" || want == "true", w.c_str() ); break;
	case COLOR: c.eq( color_text( s.get< xo::color >( d.id ) ), want == "ff0000" ? string( "1 0 0 1" ) : want, w.c_str() ); break;
	case VEC3: { auto v = s.get< xo::vec3d >( d.id ); char b[ 100 ]; snprintf( b, 100, "%g %g %g", v.x, v.y, v.z ); c.eq( string( b ), want, w.c_str() ); break; }
	default: c.eq( s.get< string >( d.id ), want, w.c_str() );
	}
}
static void raw_write( const string& f, const string& s ) { int fd = open( f.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644 ); if ( write( fd, s.data(), s.size() ) < 0 ) {} close( fd ); }

/// text a reader of the default format understands as this value
static string quoted( const string& s ) { string r = "\""; for ( char ch : s ) { if ( ch == '"' || ch == '\\' ) r += '\\'; r += ch; } return r + "\""; }

MC_SUITE( "one setting" )
{
	int idx = c.choose( (int)all.size() ); auto& d = all[ idx ];
	c.note( "setting %s", d.id.c_str() );
	c.clean_scratch(); string f = c.scratch() + "/cfg/s.zml";
	xo::settings s( schema( { idx } ), xo::path( f ) );
	string cur = d.def, filed = d.def;
	same( c, s, d, d.def, "after creation" );
	int depth = c.thorough ? 4 : 3;
	for ( int k = 0; k < depth; ++k )
	{
		int nv = (int)d.values.size(), op = c.choose( 2 * nv + 4 );
		if ( op < 2 * nv )
		{
			auto& v = d.values[ op % nv ];
			bool ok = v.result != "-"; string res = v.result == "=" ? d.def : v.result;
			if ( op < nv )
			{
				c.op( "set '%s'", v.text.c_str() );
				bool r = d.k == INT && ok && !v.text.empty() ? s.set( d.id, atoi( v.text.c_str() ) ) : d.k == FLOAT && v.text != "x" && v.text != "abc" ? s.set( d.id, atof( v.text.c_str() ) ) : s.set( d.id, v.text );
				c.eq( r, ok, "set" );
				if ( ok ) cur = res;
			}
			else
			{
				// the same value found in the file
				c.op( "file with '%s'", v.text.c_str() );
				string t, tail; size_t p = 0; for ( size_t q; ( q = d.id.find( '.', p ) ) != string::npos; p = q + 1 ) { t += d.id.substr( p, q - p ) + " { "; tail += " }"; }
				raw_write( f, t + d.id.substr( p ) + " = " + quoted( v.text ) + tail + "\n" );
				s.load();
				filed = cur = ok ? res : d.def;
			}
		}
		else switch ( op - 2 * nv )
		{
		case 0: c.op( "reset" ); s.reset(); cur = d.def; break;
		case 1: c.op( "save" ); s.save(); filed = cur; break;
		case 2: c.op( "load" ); s.load(); cur = filed; break;
		case 3: c.op( "remove file, load" ); unlink( f.c_str() ); s.load(); cur = filed = d.def; break;
		}
		same( c, s, d, cur, "after the operation" );
		xo::settings t( schema( { idx } ), xo::path( f ) );
		same( c, t, d, filed, "read from the file" );
		c.state( d.id + "/" + cur + "/" + filed );
		if ( c.seen( d.id + "/" + cur + "/" + filed, depth - k ) ) throw mc::prune();
	}
}

MC_SUITE( "several settings and files" )
{
	const std::vector< int > which = { 0, 1, 8, 14, 15 };
	c.clean_scratch(); string f[ 2 ] = { c.scratch() + "/a.zml", c.scratch() + "/new/b.zml" };
	using M = std::map< int, string >; // explicitly set
	xo::version v1( 1, 2, 3 );
	bool versioned = c.flip(); if ( versioned ) c.note( "versioned" );
	auto make = [&]( const string& file ) { return versioned ? std::make_unique< xo::settings >( schema( which ), xo::path( file ), v1 ) : std::make_unique< xo::settings >( schema( which ), xo::path( file ) ); };
	auto s = make( f[ 0 ] );
	M cur; std::map< int, M > disk; disk[ 0 ] = M(); int at = 0;
	int depth = c.thorough ? 6 : 5;
	auto all_same = [&]( const xo::settings& x, const M& m, const char* where ) { for ( int i : which ) { auto it = m.find( i ); same( c, x, all[ i ], it == m.end() ? all[ i ].def : it->second, where ); } };
	bool dver[ 2 ] = { versioned, versioned }, has_version = false, known = false; // which files, and which loaded settings have a version
	auto loaded = [&] { known = disk.count( at ); if ( known ) has_version = dver[ at ]; else { disk[ at ] = M(); dver[ at ] = versioned; } };
	for ( int d = 0; d < depth; ++d )
	{
		int op = c.choose( 11 );
		switch ( op )
		{
		case 0: { int i = c.pick( which ); auto& v = all[ i ].values[ 0 ]; c.op( "set %s", all[ i ].id.c_str() ); c.check( all[ i ].k == INT ? s->set( all[ i ].id, atoi( v.text.c_str() ) ) : s->set( all[ i ].id, v.text ), "set" ); cur[ i ] = v.result; break; }
		case 1: { int i = c.pick( which ); c.op( "set %s to its default", all[ i ].id.c_str() ); c.check( s->set( all[ i ].id, all[ i ].def ), "set to default" ); cur.erase( i ); break; }
		case 2: c.op( "set out of range" ); c.check( s->set( "r", 1000 ), "set out of range" ); cur[ 1 ] = "10"; break;
		case 3: c.op( "invalid" ); c.check( !s->set< string >( "i", "bad" ) && !s->set( "none", 1 ) && !s->set( "grp", 1 ) && !s->set( "grp.sub.none", 1 ) && !s->set( "", 1 ), "an invalid assignment is accepted" ); break;
		case 4: c.op( "reset" ); s->reset(); cur.clear(); break;
		case 5: c.op( "save" ); s->save(); disk[ at ] = cur; dver[ at ] = versioned; break;
		case 6: c.op( "load" ); s->load(); loaded(); cur = disk[ at ]; break;
		case 7: at = 1 - at; c.op( "save as %d", at ); s->save( xo::path( f[ at ] ) ); disk[ at ] = cur; dver[ at ] = versioned; break;
		case 8: at = 1 - at; c.op( "load %d", at ); s->load( xo::path( f[ at ] ) ); loaded(); cur = disk[ at ]; break;
		case 9: c.op( "remove file" ); if ( !disk.count( at ) ) throw mc::prune(); unlink( f[ at ].c_str() ); disk.erase( at ); break;
		case 10: { int k = c.choose( 3 ); c.op( "edit file %d", k ); if ( !disk.count( at ) ) throw mc::prune();
			static const char* texts[] = { "i = 7\nr = 11\nunknown = 4\ngrp { n = 6 other = 1 sub { s = deeper } }\n", "i = bad\ns = y\ngrp = 3\nmore { i = 7 }\n", "" };
			raw_write( f[ at ], texts[ k ] ); dver[ at ] = false;
			disk[ at ] = k == 0 ? M{ { 0, "7" }, { 1, "10" }, { 14, "6" }, { 15, "deeper" } } : k == 1 ? M{ { 8, "y" } } : M(); break; }
		}
		c.eq( s->data_file().str(), f[ at ], "data file" );
		all_same( *s, cur, "after the operation" );
		if ( known ) c.check( s->data_version() == ( has_version ? v1 : xo::version() ), "version of the loaded settings" );
		c.must_throw( [&] { s->get< int >( "none" ); }, "getting an undefined setting" );
		c.must_throw( [&] { s->get< int >( "grp.none" ); }, "getting an undefined setting" );
		for ( int k = 0; k < 2; ++k )
		{
			struct stat b; c.eq( ::stat( f[ k ].c_str(), &b ) == 0, disk.count( k ) != 0, "file exists" );
			if ( disk.count( k ) ) { auto t = make( f[ k ] ); all_same( *t, disk[ k ], "read from the file" ); if ( op == 5 && k == at && versioned ) c.check( t->data_version() == v1, "version in the file" ); }
		}
		string st = std::to_string( at ) + std::to_string( versioned ); auto add = [&]( const M& m ) { for ( auto& e : m ) st += std::to_string( e.first ) + "=" + e.second + ","; st += "/"; };
		st += std::to_string( known ) + std::to_string( has_version ); add( cur ); for ( auto& e : disk ) { st += std::to_string( dver[ e.first ] ); st += std::to_string( e.first ); add( e.second ); }
		c.state( st );
		if ( c.seen( st, depth - d ) ) throw mc::prune();
	}
}
MC_SUITE( "no file name" )
{
	c.op( "lookups" ); c.state( 1 ); c.clean_scratch();
	xo::settings s( schema( { 0, 14 } ), xo::path( c.scratch() + "/x.zml" ) );
	c.check( s.try_find_setting( "i" ) && s.try_find_setting( "grp.n" ), "defined settings are found" );
	c.check( !s.try_find_setting( "grp" ) && !s.try_find_setting( "none" ) && !s.try_find_setting( "grp.none" ), "undefined settings are found" );
}
MC_SUITE( "many settings" )
{
	int n = c.pick( { 1, 8, 9, 16, 17, 33, 64, 100 } ), groups = c.pick( { 0, 1, 5, 40 } ), which = c.choose( 6 ), then = c.choose( 4 ); c.op( "%d settings in %d groups, set %d, then %d", n, groups, which, then ); c.state( ( ( n * 50 + groups ) * 6 + which ) * 4 + then );
	c.clean_scratch(); xo::prop_node pn; auto id = [&]( int i ) { return ( groups ? "g" + std::to_string( i % groups ) + "." : string() ) + "s" + std::to_string( i ); };
	for ( int i = 0; i < n; ++i ) { auto& p = groups ? pn.get_or_add_child( "g" + std::to_string( i % groups ) ).add_child( "s" + std::to_string( i ) ) : pn.add_child( "s" + std::to_string( i ) ); p.set( "type", i % 3 ? "int" : "string" ); p.set( "default", std::to_string( i ) ); if ( i % 3 == 1 ) p.set( "range", "0..100000" ); }
	auto in = [&]( int i ) { switch ( which ) { case 0: return false; case 1: return true; case 2: return i == 0; case 3: return i == n - 1; case 4: return i % 2 == 0; default: return i % 7 == 3; } };
	auto file = xo::path( c.scratch() + "/m.zml" ); auto check = [&]( const xo::settings& s, std::function< int( int ) > want, const char* what ) { for ( int i = 0; i < n; ++i ) if ( i % 3 ) c.eq( s.get< int >( id( i ) ), want( i ), what ); else c.eq( s.get< string >( id( i ) ), std::to_string( want( i ) ), what ); };
	xo::settings s( pn, file ); check( s, []( int i ) { return i; }, "default" ); auto value = [&]( int i ) { return in( i ) ? 1000 + i : i; };
	for ( int i = 0; i < n; ++i ) if ( in( i ) ) { c.check( i % 2 ? s.set( id( i ), std::to_string( 1000 + i ) ) : s.set( id( i ), 1000 + i ), "set" ); } check( s, value, "after setting" ); s.save();
	{ xo::settings r( pn, file ); r.load(); check( r, value, "after loading" ); }
	if ( then == 1 ) { for ( int i = 0; i < n; ++i ) if ( i % 2 ) s.set( id( i ), i ); s.save(); xo::settings r( pn, file ); r.load(); check( r, [&]( int i ) { return i % 2 ? i : value( i ); }, "after setting back" ); }
	if ( then == 2 ) { s.reset(); check( s, []( int i ) { return i; }, "after reset" ); s.load(); check( s, value, "loaded again" ); }
	if ( then == 3 ) { xo::settings r( pn, file ); r.load(); r.set( id( n - 1 ), 77 ); r.save(); s.load(); check( s, [&]( int i ) { return i == n - 1 ? 77 : value( i ); }, "saved by another" ); }
}
