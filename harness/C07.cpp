// C07: saving and loading files under every single and double failure of an operating-system call.
// MC: link=-ldl
#include "pnmodel.h"
#include "xo/serialization/prop_node_serializer_zml.h"
#include "xo/serialization/serialize.h"
#include "xo/serialization/container_io.h"
#include "xo/filesystem/filesystem.h"
#include "xo/system/error_code.h"
#include "xo/system/settings.h"
#include "xo/system/debug_storage.h"
#include "xo/container/table.h"
#include <dlfcn.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <sstream>
using namespace pn; using std::vector; using xo::prop_node;

// ---- fault injector: the calls below replace those of the C library for the code under test ------------------------
enum effect { NONE, FAIL, SHORT, INTERRUPT };
static thread_local bool armed = false; static int ncalls = 0, nfaults = 0; static std::map<int, int> plan; static string call_log;
static int fault( const char* what )
{
	if ( !armed ) return NONE;
	armed = false; // our own bookkeeping is not part of the experiment
	int n = ncalls++; auto it = plan.find( n ); int r = it == plan.end() ? (int)NONE : it->second; if ( r ) ++nfaults;
	call_log += what; call_log += r == FAIL ? "!" : r == SHORT ? "~" : r == INTERRUPT ? "^" : ""; call_log += ' ';
	armed = true; return r;
}
template< typename F > F next( const char* n ) { static std::map<string, void*> cache; bool a = armed; armed = false; void*& p = cache[ n ]; if ( !p ) p = dlsym( RTLD_NEXT, n ); armed = a; return (F)p; }
static bool wr( const char* mode ) { return mode && ( strchr( mode, 'w' ) || strchr( mode, 'a' ) || strchr( mode, '+' ) ); }
extern "C" {
FILE* fopen( const char* p, const char* m ) { if ( fault( wr( m ) ? "create" : "open" ) ) { errno = wr( m ) ? ENOSPC : EMFILE; return nullptr; } return next<FILE * (*)( const char*, const char* )>( "fopen" )( p, m ); }
FILE* fopen64( const char* p, const char* m ) { if ( fault( wr( m ) ? "create" : "open" ) ) { errno = wr( m ) ? ENOSPC : EMFILE; return nullptr; } return next<FILE * (*)( const char*, const char* )>( "fopen64" )( p, m ); }
int fclose( FILE* f ) { int r = fault( "close" ); int q = next<int ( * )( FILE* )>( "fclose" )( f ); if ( r ) { errno = EIO; return EOF; } return q; }
ssize_t write( int fd, const void* b, size_t n )
{
	auto real = next<ssize_t ( * )( int, const void*, size_t )>( "write" );
	switch ( fault( "write" ) ) { case FAIL: errno = ENOSPC; return -1; case INTERRUPT: errno = EINTR; return -1; case SHORT: return real( fd, b, n > 1 ? n / 2 : n ); } return real( fd, b, n );
}
ssize_t writev( int fd, const struct iovec* v, int k )
{
	auto real = next<ssize_t ( * )( int, const struct iovec*, int )>( "writev" );
	switch ( fault( "writev" ) ) { case FAIL: errno = ENOSPC; return -1; case INTERRUPT: errno = EINTR; return -1; case SHORT: { struct iovec w = v[ 0 ]; int i = 0; while ( i < k - 1 && !v[ i ].iov_len ) ++i; w = v[ i ]; if ( w.iov_len > 1 ) w.iov_len /= 2; return real( fd, &w, 1 ); } } return real( fd, v, k );
}
ssize_t read( int fd, void* b, size_t n )
{
	auto real = next<ssize_t ( * )( int, void*, size_t )>( "read" );
	switch ( fault( "read" ) ) { case FAIL: errno = EIO; return -1; case INTERRUPT: errno = EINTR; return -1; case SHORT: return real( fd, b, n > 1 ? n / 2 : n ); } return real( fd, b, n );
}
int mkdir( const char* p, mode_t m ) { if ( fault( "mkdir" ) ) { errno = EACCES; return -1; } return next<int ( * )( const char*, mode_t )>( "mkdir" )( p, m ); }
}
// ---- plain access to the disk, independent of the code under test ------------------------------------------------------
static bool disk( const string& f, string& s ) { s.clear(); int fd = open( f.c_str(), O_RDONLY ); if ( fd < 0 ) return false; char b[ 65536 ]; ssize_t n; while ( ( n = read( fd, b, sizeof b ) ) > 0 ) s.append( b, n ); close( fd ); return n == 0; }
static void put( const string& f, const string& s ) { int fd = open( f.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0666 ); if ( fd < 0 || write( fd, s.data(), s.size() ) != (ssize_t)s.size() ) { fprintf( stderr, "cannot prepare %s\n", f.c_str() ); _exit( 77 ); } close( fd ); }
struct outcome { bool reported = false; string error; };
/// runs an operation under the current plan
template< typename F > outcome run( mc::Ctx& c, bool with_ec, F&& f )
{
	outcome o; xo::error_code ec; ncalls = nfaults = 0; call_log.clear(); armed = true;
	try { f( with_ec ? &ec : nullptr ); armed = false; }
	catch ( std::exception& e ) { armed = false; o.reported = true; o.error = e.what(); if ( with_ec ) c.fail( string( "exception although an error object was passed: " ) + e.what() ); }
	if ( ec.bad() ) { o.reported = true; o.error = ec.message(); }
	return o;
}
static vector<effect> effects( const string& call ) { return call == "write" || call == "writev" || call == "read" ? vector<effect>{ FAIL, SHORT, INTERRUPT } : vector<effect>{ FAIL }; }
/// chooses no fault, or up to max faults at the calls that a fault-free run makes (later calls: any position up to two further)
static bool choose_plan( mc::Ctx& c, int max )
{
	plan.clear(); int n = ncalls; vector<string> names; { std::istringstream i( call_log ); string w; while ( i >> w ) names.push_back( w ); }
	int from = 0; for ( int k = 0; k < max; ++k )
	{
		int at = c.choose( n + 2 * k - from + 1 ); if ( at == 0 ) break; at += from - 1; from = at + 1;
		plan[ at ] = k == 0 ? c.pick( effects( names[ at ] ) ) : c.pick( { FAIL, SHORT, INTERRUPT } );
		if ( from >= n + 2 * ( k + 1 ) ) break;
	}
	return !plan.empty();
}
static string plan_text() { string s; for ( auto& p : plan ) s += " call " + std::to_string( p.first ) + ( p.second == FAIL ? " fails" : p.second == SHORT ? " is partial" : " is interrupted" ); return s.empty() ? " no fault" : s; }

static string content( int size ) { string s; for ( int i = 0; (int)s.size() < size; ++i ) s += "line " + std::to_string( i ) + "\n"; s.resize( size ); return s; }
static T tree( int n ) { T t; auto& g = t.add( "g" ); for ( int i = 0; i < n; ++i ) g.add( "key" + std::to_string( i ), "value " + std::to_string( i ) ); g.add( "last", "x" ); return t; }
static const vector<int> SIZES = { 0, 1, 100, 8190, 8191, 8192, 20000 };

MC_SUITE( "save and append text" )
{
	int what = c.choose( 2 ), size = c.pick( SIZES ), where = c.choose( 4 ); bool with_ec = c.flip(); int old = c.pick( { -1, 0, 30, 30000 } ); if ( where == 1 && old >= 0 ) return; if ( where == 3 ) old = -1;
	string f, prev = old > 0 ? string( old, 'o' ) : ""; string s = content( size ), want = what == 1 && where != 3 ? prev + s : s;
	auto prepare = [&] { c.clean_scratch(); f = c.scratch() + ( where == 1 ? "/new/dir/f.txt" : where == 3 ? "/f.txt/sub/f.txt" : "/f.txt" ); if ( where == 3 ) put( c.scratch() + "/f.txt", "x" ); if ( where == 2 ) mkdir( f.c_str(), 0777 ); else if ( old >= 0 ) put( f, prev ); };
	auto op = [&]( xo::error_code* ec ) { if ( what == 0 ) xo::save_string( xo::path( f ), s, ec ); else xo::append_string( xo::path( f ), s, ec ); };
	if ( where == 2 && old >= 0 ) return;
	prepare(); plan.clear(); auto dry = run( c, with_ec, op ); bool faults = choose_plan( c, c.thorough ? 3 : 2 );
	c.op( "%s %d bytes to %s over %d,%s", what ? "append" : "save", size, where == 0 ? "file" : where == 1 ? "file in new folder" : where == 2 ? "a folder" : "below a file", old, plan_text().c_str() );
	prepare(); auto o = run( c, with_ec, op ); c.note( "calls: %s error: %s", call_log.c_str(), o.error.c_str() ); c.state( mc::mix( mc::hash( call_log ), mc::hash( o.error ) ) );
	string got; bool there = disk( f, got );
	if ( !o.reported && ( !there || got != want ) ) c.fail( "failure was not reported: file holds " + std::to_string( got.size() ) + " bytes instead of " + std::to_string( want.size() ) );
	if ( !faults || nfaults == 0 ) c.eq( o.reported, where >= 2, "error reported without a failing call" );
	c.eq( dry.reported, where >= 2, "error reported in the fault-free run" );
}
MC_SUITE( "save trees" )
{
	static const vector<string> EXT = { "zml", "xml", "ini" }; string ext = c.pick( EXT ); int api = c.choose( 4 ), n = c.pick( { 0, 1, 5, 150 } ); bool with_ec = c.flip(); if ( api == 2 && ext != "zml" ) return;
	if ( n == 150 && !c.thorough && ext == "ini" && with_ec ) return;
	T t = tree( n ); prop_node p = build( t ); string f; auto prepare = [&] { c.clean_scratch(); f = c.scratch() + "/f." + ext; put( f, string( 50000, 'o' ) ); };
	auto op = [&]( xo::error_code* ec ) { switch ( api ) { case 0: { bool r = xo::save_file( p, xo::path( f ), ec ); if ( ec && r == ec->bad() ) { armed = false; c.fail( "result and error object disagree" ); } break; } case 1: xo::save_file( p, xo::path( f ), ext, ec ); break; case 2: xo::save_zml( p, xo::path( f ), ec ); break; case 3: xo::make_serializer( ext, p, ec )->save_file( p, xo::path( f ), ec ); break; } };
	prepare(); plan.clear(); auto dry = run( c, with_ec, op ); string want, got; c.check( disk( f, want ) && !dry.reported, "fault-free save" ); { xo::error_code ec; same( c, xo::load_file( xo::path( f ), &ec ), t, "saved tree" ); }
	bool faults; if ( ncalls > 40 ) { plan.clear(); int at = c.choose( ncalls ); plan[ at ] = c.pick( { FAIL, SHORT, INTERRUPT } ); faults = true; } else faults = choose_plan( c, 2 );
	c.op( "save tree of %d as %s, interface %d,%s", n, ext.c_str(), api, plan_text().c_str() ); prepare(); auto o = run( c, with_ec, op ); c.note( "calls: %s error: %s", ncalls < 50 ? call_log.c_str() : "", o.error.c_str() ); c.state( mc::mix( mc::hash( call_log ), mc::hash( ext + o.error ) ) );
	disk( f, got ); if ( !o.reported && got != want ) c.fail( "failure was not reported: file holds " + std::to_string( got.size() ) + " bytes instead of " + std::to_string( want.size() ) ); 
	if ( !faults || !nfaults ) c.check( !o.reported, "error reported without a failing call" );
}
MC_SUITE( "load text and trees" )
{
	int what = c.choose( 6 ), state = c.choose( 4 ), size = c.pick( { 0, 1, 100, 4095, 4096, 4097, 8191, 8192, 20000 } ); bool with_ec = c.flip(); static const vector<string> EXT = { "txt", "zml", "xml", "ini", "zml", "zml" }; string ext = EXT[ what ];
	if ( state && size != 100 ) return; if ( what && size > 0 && size < 100 ) return; if ( what == 5 ) with_ec = false;
	c.clean_scratch(); string f = c.scratch() + "/f." + ext, inc = c.scratch() + "/i.zml"; T t = tree( what ? size / 20 : 0 ); string s = content( size );
	if ( state == 1 ) {} else if ( state == 2 ) mkdir( f.c_str(), 0777 ); else if ( state == 3 ) f += "/below"; else if ( what == 0 ) put( f, s ); else if ( what == 4 ) { put( f, "<< i.zml >>\n" ); xo::save_file( build( t ), xo::path( inc ) ); } else if ( what == 5 ) { put( f, "INCLUDE { file = i.zml }\n" ); xo::save_file( build( t ), xo::path( inc ) ); } else xo::save_file( build( t ), xo::path( f ) );
	string got; prop_node p; auto op = [&]( xo::error_code* ec ) { got = "?"; p = prop_node(); if ( what == 0 ) got = xo::load_string( xo::path( f ), ec ); else if ( what == 5 ) p = xo::load_file_with_include( xo::path( f ) ); else if ( what == 4 ) p = xo::load_zml( xo::path( f ), ec ); else p = xo::load_file( xo::path( f ), ec ); };
	plan.clear(); auto dry = run( c, with_ec, op ); bool faults = choose_plan( c, 2 ); c.op( "load %s of size %d, %s,%s", ext.c_str(), size, state == 0 ? "present" : state == 1 ? "missing" : state == 2 ? "a folder" : "below a file", plan_text().c_str() );
	auto o = run( c, with_ec, op ); c.note( "calls: %s error: %s", call_log.c_str(), o.error.c_str() ); c.state( mc::mix( mc::hash( call_log ), mc::hash( ext + o.error + std::to_string( size ) ) ) );
	if ( state ) { c.check( o.reported && dry.reported, "unreadable file loaded without error" ); return; }
	if ( !o.reported ) { if ( what == 0 ) c.check( got == s, "partial text returned as success" ); else same( c, p, t, "partial tree returned as success" ); }
	if ( !faults || !nfaults ) c.check( !o.reported, "error reported without a failing call" );
}
MC_SUITE( "settings files" )
{
	int what = c.choose( 3 ); c.clean_scratch(); string f = c.scratch() + "/cfg/settings.zml"; prop_node schema; auto& a = schema.add_child( "a" ); a.set( "type", "int" ); a.set( "default", 1 ); auto& b = schema.add_child( "b" ); b.set( "type", "string" ); b.set( "default", "x" );
	const string stored = "a = 5\nb = yy\n"; bool existing = what > 0; std::unique_ptr<xo::settings> s; string got;
	auto prepare = [&] { c.clean_scratch(); if ( existing ) { mkdir( ( c.scratch() + "/cfg" ).c_str(), 0777 ); put( f, stored ); } if ( what == 2 ) { s = std::make_unique<xo::settings>( schema, xo::path( f ) ); s->set( "a", 7 ); } };
	auto op = [&]( xo::error_code* ) { if ( what == 2 ) s->save(); else s = std::make_unique<xo::settings>( schema, xo::path( f ) ); };
	prepare(); plan.clear(); auto dry = run( c, false, op ); c.check( !dry.reported, "fault-free run" ); bool faults = choose_plan( c, 2 ); c.op( "%s,%s", what == 0 ? "create settings" : what == 1 ? "load settings" : "save settings", plan_text().c_str() );
	s.reset(); prepare(); auto o = run( c, false, op ); c.note( "calls: %s error: %s", call_log.c_str(), o.error.c_str() ); c.state( call_log + o.error ); disk( f, got );
	if ( what == 1 ) { c.check( got == stored, "loading changed the settings file" ); if ( !o.reported ) c.check( s->get<int>( "a" ) == 5 && s->get<string>( "b" ) == "yy", "settings not loaded, but no error" ); }
	if ( what == 0 && !o.reported ) c.check( xo::exists( xo::path( f ) ) && s->get<int>( "a" ) == 1, "default settings" );
	if ( what == 2 && !o.reported ) { xo::settings r( schema, xo::path( f ) ); c.check( r.get<int>( "a" ) == 7 && r.get<string>( "b" ) == "yy", "settings not saved, but no error" ); }
	if ( !faults || !nfaults ) c.check( !o.reported, "error reported without a failing call" );
}
MC_SUITE( "numeric files and tables" )
{
	int what = c.choose( 4 ); c.clean_scratch(); string f = c.scratch() + "/n.txt"; plan.clear();
	if ( what == 3 )
	{
		auto op = [&]( xo::error_code* ) { xo::write_function<double>( xo::path( f ), 0.0, 1.0, []( double x ) { return x * x; }, 0.25 ); };
		auto dry = run( c, false, op ); string want, got; c.check( disk( f, want ) && !dry.reported && std::count( want.begin(), want.end(), '\n' ) == 5, "write_function" ); choose_plan( c, 2 ); c.op( "write function,%s", plan_text().c_str() ); put( f, "old" );
		auto o = run( c, false, op ); c.note( "calls: %s", call_log.c_str() ); c.state( call_log ); disk( f, got ); if ( !o.reported ) c.check( got == want, "failure was not reported" ); else c.check( nfaults > 0, "error reported without a failing call" ); return;
	}
	vector<string> tok; int n = what == 2 ? 0 : c.choose( c.thorough ? 5 : 4 ); static const vector<string> V = { "1", "-2", "3.5", "x", "7y" }, SEP = { " ", "\n", "\t", "" };
	string s; for ( int i = 0; i < n; ++i ) { tok.push_back( c.pick( V ) ); s += tok.back(); if ( i + 1 < n ) s += c.pick( { ' ', '\n' } ); } if ( what < 2 ) s += c.pick<string>( { "", " ", "\n" } );
	int big = what < 2 && n == 2 && tok[ 0 ] == "-2" && c.flip() ? 3000 : 0; if ( big ) { string r; vector<string> t2; for ( int i = 0; i < big; ++i ) { r += s + " "; t2.insert( t2.end(), tok.begin(), tok.end() ); } s = r; tok = t2; }
	bool valid = true; vector<double> want; for ( auto& w : tok ) { char* e; double d = strtod( w.c_str(), &e ); valid &= *e == 0 && e > w.c_str(); want.push_back( d ); }
	bool with_ec = what < 2 && c.flip(); vector<double> v; vector<std::pair<double, double>> pv; xo::table<double> t; int rows = 0;
	if ( what == 2 )
	{
		// header and rows of two columns
		int r = c.choose( 3 ); s = "Row a b\n"; for ( int i = 0; i < r; ++i ) s += "r" + std::to_string( i ) + " " + std::to_string( i ) + " " + std::to_string( i * 10 ) + "\n"; bool cut = c.flip(); int del = 0; if ( cut && r ) { s.pop_back(); del = c.choose( 5 ); }
		if ( del == 1 ) s.erase( s.rfind( ' ' ) ); if ( del == 2 ) s[ s.rfind( ' ' ) + 1 ] = 'q'; if ( del == 3 ) s += "\nlast"; if ( del == 4 ) s += "\nlast 1"; valid = del == 0; rows = r;
	}
	put( f, s ); auto op = [&]( xo::error_code* ec ) { v.clear(); pv.clear(); if ( what == 0 ) v = xo::read_data<vector<double>>( xo::path( f ), ec ); else if ( what == 1 ) pv = xo::read_data<vector<std::pair<double, double>>>( xo::path( f ), ec ); else t = xo::load_table<double>( xo::path( f ) ); };
	auto dry = run( c, with_ec, op ); choose_plan( c, what == 2 || ( n == 2 && ( !big || c.thorough ) ) ? 2 : 1 ); c.op( "read %s from %s,%s", what == 0 ? "numbers" : what == 1 ? "pairs" : "table", mc::esc( s.substr( 0, 40 ) ).c_str(), plan_text().c_str() ); auto o = run( c, with_ec, op ); c.note( "calls: %s error: %s", call_log.c_str(), o.error.c_str() ); c.state( call_log + s.substr( 0, 80 ) );
	bool must_fail = !valid || ( what < 2 && want.empty() ) || ( what == 1 && want.size() % 2 ); c.eq( dry.reported, must_fail, "error without failing call" ); if ( must_fail ) c.check( o.reported, "malformed data accepted" );
	if ( !o.reported ) { if ( what == 0 ) c.check( v == want, "numbers" ); else if ( what == 1 ) { c.eq( pv.size(), want.size() / 2, "pairs" ); for ( size_t i = 0; i < pv.size(); ++i ) c.check( pv[ i ].first == want[ 2 * i ] && pv[ i ].second == want[ 2 * i + 1 ], "pair" ); } else { c.eq( (int)t.row_size(), rows, "rows" ); for ( int i = 0; i < rows; ++i ) c.check( t( i, 0 ) == i && t( i, 1 ) == i * 10, "cell" ); } }
	else c.check( must_fail || nfaults > 0, "error reported without a failing call" );
}
MC_SUITE( "missing numeric files" )
{
	string f = c.scratch() + "/" + c.pick<string>( { "none.txt", "none/none.txt" } ); c.clean_scratch(); plan.clear(); int what = c.choose( 2 ); bool with_ec = what == 0 && c.flip(); c.op( "%d %d", what, with_ec ); c.state( what * 2 + with_ec );
	auto o = run( c, with_ec, [&]( xo::error_code* ec ) { if ( what == 0 ) xo::read_data<vector<double>>( xo::path( f ), ec ); else xo::load_table<double>( xo::path( f ) ); } ); c.check( o.reported, "missing file not reported" );
}
