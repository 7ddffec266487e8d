// MC: mode=sched
// File system helpers on real directory trees in a scratch folder: all small trees, operation histories, and all
// schedules of concurrent creation of unique folders.
#include "mc.h"
#include "mcsched.h"
#include <map>
#include <set>
#include <algorithm>
#include <fcntl.h>
#include <unistd.h>
#include <dirent.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/socket.h>
#include <sys/un.h>
#include "xo/filesystem/filesystem.h"
#include "xo/system/error_code.h"

using std::string;
using xo::path;

// system calls of the code under test: scheduling points, and confined to the scratch folder
static string g_root;
static bool inside( const char* p )
{
	if ( g_root.empty() || p[ 0 ] != '/' ) return true;
	return string( p ).compare( 0, g_root.size(), g_root ) == 0 && !strstr( p, ".." );
}
extern "C" int mkdir( const char* p, mode_t m ) __THROW
{
	if ( sched::tid() ) sched::yield();
	if ( !inside( p ) ) { errno = EACCES; return -1; }
	return (int)syscall( SYS_mkdirat, AT_FDCWD, p, m );
}
extern "C" int stat( const char* __restrict p, struct stat* __restrict b ) __THROW
{
	if ( sched::tid() ) sched::yield();
	return (int)syscall( SYS_newfstatat, AT_FDCWD, p, b, 0 );
}
extern "C" int remove( const char* p ) __THROW
{
	if ( !inside( p ) ) { errno = EACCES; return -1; }
	int r = (int)syscall( SYS_unlinkat, AT_FDCWD, p, 0 );
	if ( r != 0 && errno == EISDIR ) r = (int)syscall( SYS_unlinkat, AT_FDCWD, p, AT_REMOVEDIR );
	return r;
}

// what is on disk: relative name -> "D", or "F" and the content
using Tree = std::map< string, string >;
static void put( const string& f, const string& s ) { int fd = open( f.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644 ); if ( write( fd, s.data(), s.size() ) < 0 ) {} close( fd ); }
static string get( const string& f ) { char b[ 4096 ]; string s; int fd = open( f.c_str(), O_RDONLY ); int n; while ( ( n = read( fd, b, sizeof b ) ) > 0 ) s.append( b, n ); close( fd ); return s; }
static void walk( const string& dir, const string& rel, Tree& t )
{
	DIR* d = opendir( dir.c_str() );
	if ( !d ) return;
	while ( auto e = readdir( d ) )
	{
		string n = e->d_name;
		if ( n == "." || n == ".." ) continue;
		string r = rel.empty() ? n : rel + "/" + n;
		struct stat st; lstat( ( dir + "/" + n ).c_str(), &st );
		if ( S_ISDIR( st.st_mode ) ) { t[ r ] = "D"; walk( dir + "/" + n, r, t ); }
		else if ( S_ISREG( st.st_mode ) ) t[ r ] = "F" + get( dir + "/" + n );
		else t[ r ] = "?";
	}
	closedir( d );
}
static Tree disk( const string& dir ) { Tree t; walk( dir, "", t ); return t; }
static string text( const Tree& t ) { string s; for ( auto& e : t ) s += e.first + "=" + e.second + " "; return s; }
static string parent( const string& s ) { auto p = s.rfind( '/' ); return p == string::npos ? "" : s.substr( 0, p ); }
static string leaf( const string& s ) { auto p = s.rfind( '/' ); return p == string::npos ? s : s.substr( p + 1 ); }
static void build( const string& root, const Tree& t ) { for ( auto& e : t ) if ( e.second == "D" ) syscall( SYS_mkdirat, AT_FDCWD, ( root + "/" + e.first ).c_str(), 0777 ); else put( root + "/" + e.first, e.second.substr( 1 ) ); }
/// all subsets of the candidates that are closed under parents
static Tree tree( mc::Ctx& c, const std::vector< std::pair< string, string > >& cand )
{
	Tree t;
	for ( auto& k : cand )
		if ( string p = parent( k.first ); p.empty() || t.count( p ) )
			if ( c.flip() ) t[ k.first ] = k.second;
	c.op( "tree: %s", text( t ).c_str() );
	return t;
}

// ---- listing ------------------------------------------------------------------------------------------------------

static bool glob( const char* p, const char* s )
{
	if ( !*p ) return !*s;
	if ( *p == '*' ) return glob( p + 1, s ) || ( *s && glob( p, s + 1 ) );
	return *s && ( *p == '?' || *p == *s ) && glob( p + 1, s + 1 );
}
static bool globs( const string& pats, const string& s )
{
	for ( size_t i = 0; i <= pats.size(); )
	{
		size_t j = std::min( pats.find( ';', i ), pats.size() );
		if ( j > i && glob( pats.substr( i, j - i ).c_str(), s.c_str() ) ) return true;
		i = j + 1;
	}
	return false;
}
MC_SUITE( "listing files" )
{
	c.clean_scratch(); g_root = c.scratch();
	const string dir = c.scratch() + "/top";
	syscall( SYS_mkdirat, AT_FDCWD, dir.c_str(), 0777 );
	auto t = tree( c, { { "a.txt", "Fx" }, { ".h", "F" }, { "b", "D" }, { "b/a.txt", "F" }, { "b/c", "D" }, { "b/c/ab.txt", "F" }, { "b/c/d", "D" }, { "b/c/d/a", "F" }, { "x.txt", "D" }, { "x.txt/a.txt", "F" } } );
	build( dir, t );
	const std::vector< string > pats = { "*", "*.txt", "a*;b", "?", "a.txt" };
	const std::vector< string > excl = { "a*", "*", "?;ab*", "" };
	struct depth { bool rec; int levels; int max; }; // max: deepest level listed
	const std::vector< depth > depths = { { false, -1, 0 }, { false, 2, 0 }, { true, -1, 99 }, { true, 0, 0 }, { true, 1, 1 }, { true, 2, 2 }, { true, 3, 3 } };
	for ( auto& inc : pats ) for ( int x = -1; x < (int)excl.size(); ++x ) for ( auto& d : depths )
	{
		auto got = x < 0 ? xo::find_files( path( dir ), xo::pattern_matcher( inc ), d.rec, d.levels ) : xo::find_files( path( dir ), xo::pattern_matcher( inc ), xo::pattern_matcher( excl[ x ] ), d.rec, d.levels );
		std::vector< string > g;
		for ( auto& p : got ) g.push_back( p.str() );
		std::sort( g.begin(), g.end() );
		std::vector< string > must, may; // folders are listed or not
		for ( auto& e : t )
			if ( std::count( e.first.begin(), e.first.end(), '/' ) <= d.max && globs( inc, leaf( e.first ) ) && !( x >= 0 && globs( excl[ x ], leaf( e.first ) ) ) )
				( e.second == "D" ? may : must ).push_back( dir + "/" + e.first );
		std::set< string > gs( g.begin(), g.end() );
		string what = "include " + inc + ( x >= 0 ? " exclude " + excl[ x ] : "" ) + ( d.rec ? " levels " + std::to_string( d.levels ) : " not recursive" ) + ": ";
		c.check( gs.size() == g.size(), what + "listed twice" );
		for ( auto& m : must ) c.check( gs.count( m ), what + m + " is missing" );
		for ( auto& m : g ) c.check( std::count( must.begin(), must.end(), m ) || std::count( may.begin(), may.end(), m ), what + m + " is listed" );
	}
	c.must_throw( [&] { xo::find_files( path( dir + "/none" ), xo::pattern_matcher( "*" ) ); }, "listing a missing folder is no error" );
	c.check( disk( dir ) == t, "listing changes the disk" );
	c.state( text( t ) );
}

MC_SUITE( "listing many files" )
{
	c.clean_scratch(); g_root = c.scratch(); const string dir = c.scratch() + "/top"; syscall( SYS_mkdirat, AT_FDCWD, dir.c_str(), 0777 );
	int n = c.pick( { 5, 16, 33, 64, 65, 129, 257, 1025 } ), kind = c.choose( 4 ); c.op( "%d files, kind %d", n, kind ); c.state( n * 4 + kind );
	std::set< string > txt, dat; string sub = dir; // in one folder, in two, in many, and in a chain of folders
	for ( int i = 0; i < n; ++i )
	{
		string d = dir;
		if ( kind == 1 ) d += i % 2 ? "/odd" : "/even"; else if ( kind == 2 ) d += "/d" + std::to_string( i ); else if ( kind == 3 && i < 60 ) { sub += "/s"; d = sub; } else if ( kind == 3 ) d = sub;
		syscall( SYS_mkdirat, AT_FDCWD, d.c_str(), 0777 ); string f = d + "/file" + std::to_string( i ) + ( i % 3 ? ".txt" : ".dat" ); put( f, "" ); ( i % 3 ? txt : dat ).insert( f );
	}
	std::set< string > all = txt; all.insert( dat.begin(), dat.end() );
	auto list = [&]( const char* what, std::vector< path > got, const std::set< string >& want ) { std::set< string > g; for ( auto& p : got ) { c.check( g.insert( p.str() ).second, string( what ) + ": listed twice" ); } c.eq( g.size(), want.size(), what ); c.check( g == want, string( what ) + ": files" ); };
	list( "*.txt", xo::find_files( path( dir ), xo::pattern_matcher( "*.txt" ), true ), txt ); list( "*.dat;*.txt", xo::find_files( path( dir ), xo::pattern_matcher( "*.dat;*.txt" ), true ), all ); list( "without *.txt", xo::find_files( path( dir ), xo::pattern_matcher( "file*" ), xo::pattern_matcher( "*.txt" ), true ), dat );
	list( "top folder", xo::find_files( path( dir ), xo::pattern_matcher( "file*" ), false ), kind == 0 ? all : std::set< string >() );
}
MC_SUITE( "many numbered folders" )
{
	c.clean_scratch(); g_root = c.scratch(); const string r = c.scratch() + "/"; int n = c.pick( { 5, 9, 10, 11, 16, 33, 99, 100, 101, 129 } ), gap = c.choose( 3 ); c.op( "%d folders, gap %d", n, gap ); c.state( n * 3 + gap );
	auto name = [&]( int i ) { return r + "u" + ( i ? " (" + std::to_string( i ) + ")" : "" ); };
	for ( int i = 0; i < n; ++i ) c.eq( xo::create_unique_directory( path( r + "u" ) ).str(), name( i ), "unique folder" );
	int free = n; if ( gap ) { free = gap == 1 ? n / 2 : n - 1; rmdir( name( free ).c_str() ); }
	c.eq( xo::find_unique_directory( path( r + "u" ) ).str(), name( free ), "first free folder" ); c.must_throw( [&] { xo::find_unique_directory( path( r + "u" ), free ); }, "too few attempts to find a folder" ); c.must_throw( [&] { xo::create_unique_directory( path( r + "u" ), free ); }, "too few attempts to create a folder" );
	c.eq( xo::create_unique_directory( path( r + "u" ), free + 1 ).str(), name( free ), "first free folder" ); c.eq( (int)disk( c.scratch() ).size(), gap ? n : n + 1, "folders" );
}
// ---- existence, type and search order ---------------------------------------------------------------------------------

MC_SUITE( "existence and type" )
{
	c.clean_scratch(); g_root = c.scratch();
	const string r = c.scratch() + "/", f = r + "e";
	int kind = c.choose( 9 ); bool is_file = false, is_dir = false, any = true;
	static const char* names[] = { "nothing", "file", "empty file", "folder", "folder with file", "socket", "link to file", "link to folder", "dangling link" };
	c.op( "%s", names[ kind ] );
	put( r + "f", "x" ); syscall( SYS_mkdirat, AT_FDCWD, ( r + "d" ).c_str(), 0777 ); put( r + "d/x", "y" );
	switch ( kind )
	{
	case 0: any = false; break;
	case 1: put( f, "abc" ); is_file = true; break;
	case 2: put( f, "" ); is_file = true; break;
	case 3: syscall( SYS_mkdirat, AT_FDCWD, f.c_str(), 0777 ); is_dir = true; break;
	case 4: syscall( SYS_mkdirat, AT_FDCWD, f.c_str(), 0777 ); put( f + "/x", "" ); is_dir = true; break;
	case 5: { sockaddr_un a{}; a.sun_family = AF_UNIX; if ( f.size() >= sizeof( a.sun_path ) ) throw mc::prune(); strcpy( a.sun_path, f.c_str() ); int s = socket( AF_UNIX, SOCK_STREAM, 0 ); if ( bind( s, (sockaddr*)&a, sizeof a ) != 0 ) { close( s ); throw mc::prune(); } close( s ); break; }
	case 6: if ( symlink( ( r + "f" ).c_str(), f.c_str() ) ) {} is_file = true; break;
	case 7: if ( symlink( ( r + "d" ).c_str(), f.c_str() ) ) {} is_dir = true; break;
	case 8: if ( symlink( ( r + "none" ).c_str(), f.c_str() ) ) {} any = false; break;
	}
	c.eq( xo::exists( path( f ) ), any, "exists" );
	if ( kind != 5 ) c.eq( xo::file_exists( path( f ) ), is_file, "file_exists" );
	c.eq( xo::directory_exists( path( f ) ), is_dir, "directory_exists" );
	// below it
	c.eq( xo::exists( path( f + "/x" ) ), is_dir && kind != 3, "exists below" );
	c.eq( xo::file_exists( path( f + "/x" ) ), is_dir && kind != 3, "file_exists below" );
	c.eq( xo::directory_exists( path( f + "/x" ) ), false, "directory_exists below" );
	for ( auto p : { path(), path( r + "none/none" ) } ) c.check( !xo::exists( p ) && !xo::file_exists( p ) && !xo::directory_exists( p ), "an empty or missing path exists" );
	if ( any ) { for ( long m : { 0L, 1L, 1234567890L, 4102444800L } ) { timespec ts[ 2 ] = { { m, 0 }, { m, 0 } }; utimensat( AT_FDCWD, f.c_str(), ts, 0 ); c.eq( (long)xo::last_write_time( path( f ) ), m, "last_write_time" ); } }
	else c.must_throw( [&] { xo::last_write_time( path( f ) ); }, "last_write_time of nothing" );
	c.state( kind );
}

static string found( const xo::optional< path >& p ) { return p ? p->str() : "-"; }
MC_SUITE( "finding files" )
{
	c.clean_scratch(); g_root = c.scratch();
	const string r = c.scratch();
	auto t = tree( c, { { "f", "Fr" }, { "g", "D" }, { "p", "D" }, { "p/f", "F" }, { "p/g", "F" }, { "q", "D" }, { "q/f", "D" }, { "q/g", "F" }, { "q/s", "D" }, { "q/s/f", "F" } } );
	build( r, t );
	auto is_file = [&]( const string& s ) { auto it = t.find( s ); return it != t.end() && it->second[ 0 ] == 'F'; };
	// names relative to r; absolute ones are marked with /
	const std::vector< string > names = { "f", "g", "s/f", "/f", "/p/f", "/q/f", "/none/g", "none", "" };
	const std::vector< std::vector< string > > searches = { {}, { "p" }, { "q" }, { "p", "q" }, { "q", "p" }, { "none", "q" }, { "" }, { "q/s", "", "p" } };
	auto full = [&]( const string& s ) { return s.empty() ? r : s[ 0 ] == '/' ? r + s : r + "/" + s; };
	for ( auto& n : names ) for ( auto& s : searches )
	{
		string want = "-";
		bool abs = !n.empty() && n[ 0 ] == '/';
		if ( abs && is_file( n.substr( 1 ) ) ) want = r + n;
		else for ( auto& d : s )
		{
			string k = ( d.empty() ? "" : d + "/" ) + ( abs ? leaf( n ) : n );
			if ( is_file( k ) ) { want = r + "/" + k; break; }
		}
		std::vector< path > dirs; for ( auto& d : s ) dirs.push_back( path( full( d ) ) );
		c.eq( found( xo::try_find_file( path( abs ? r + n : n ), dirs ) ), want, ( "file " + n + " in search folders" ).c_str() );
	}
	// the first of several that exists, relative to the current search folder
	for ( auto& folder : { "p", "q", "none" } )
	{
		xo::current_find_file_path( path( r + "/" + folder ) );
		c.eq( xo::current_find_file_path().str(), r + "/" + folder, "current_find_file_path" );
		for ( auto& a : names ) for ( auto& b : names )
		{
			string want = "-";
			for ( auto& n : { a, b } )
			{
				if ( want != "-" ) break;
				if ( !n.empty() && n[ 0 ] == '/' ) { if ( is_file( n.substr( 1 ) ) ) want = r + n; }
				else if ( is_file( folder + string( "/" ) + n ) ) want = r + "/" + folder + "/" + n;
			}
			path pa( a.empty() || a[ 0 ] != '/' ? a : r + a ), pb( b.empty() || b[ 0 ] != '/' ? b : r + b );
			c.eq( found( xo::try_find_file( { pa, pb } ) ), want, "first file found" );
			string got = "-";
			try { got = xo::find_file( { pa, pb } ).str(); } catch ( std::exception& ) {}
			c.eq( got, want, "first file found or error" );
		}
	}
	xo::current_find_file_path( path() );
	c.check( disk( r ) == t, "searching changes the disk" );
	c.state( text( t ) );
}

// ---- operation histories --------------------------------------------------------------------------------------------

static bool mk( Tree& t, const string& n ) // creates the parents as far as possible; true when n itself was created
{
	string p = parent( n );
	if ( !p.empty() && !( t.count( p ) && t[ p ] == "D" ) ) mk( t, p );
	if ( t.count( n ) || ( !p.empty() && !( t.count( p ) && t[ p ] == "D" ) ) ) return false;
	t[ n ] = "D"; return true;
}
MC_SUITE( "operation histories" )
{
	c.clean_scratch(); g_root = c.scratch();
	const string r = c.scratch() + "/";
	Tree t;
	const std::vector< string > names = { "a", "a/b", "c", "a (1)" };
	int depth = c.thorough ? 5 : 4, content = 0;
	for ( int d = 0; d < depth; ++d )
	{
		int op = c.choose( 7 ); string n = op == 6 ? "" : c.pick( names );
		auto pdir = [&]( const string& s ) { string p = parent( s ); return p.empty() || ( t.count( p ) && t[ p ] == "D" ); };
		if ( op == 0 )
		{
			c.op( "create_directories %s", n.c_str() );
			Tree u = t; bool made = mk( u, n );
			c.eq( xo::create_directories( path( r + n ) ), made, "create_directories" );
			t = u;
		}
		else if ( op == 1 )
		{
			string s = string( 1, char( '0' + ++content ) ) + string( d == 0 ? 70000 : 0, '.' ); c.op( "save %s", n.c_str() );
			bool ok = !( t.count( n ) && t[ n ] == "D" ); { string p = parent( n ); if ( !p.empty() && t.count( p ) && t[ p ] != "D" ) ok = false; }
			xo::error_code ec; xo::save_string( path( r + n ), s, &ec );
			c.eq( ec.good(), ok, "saving" );
			if ( ok ) { if ( auto p = parent( n ); !p.empty() ) mk( t, p ); t[ n ] = "F" + s; }
		}
		else if ( op == 2 )
		{
			c.op( "remove %s", n.c_str() );
			bool ok = t.count( n ) != 0; for ( auto& e : t ) if ( parent( e.first ) == n ) ok = false;
			c.eq( xo::remove( path( r + n ) ), ok, "remove" );
			if ( ok ) t.erase( n );
		}
		else if ( op == 3 )
		{
			string to = c.pick( names ); bool over = c.flip(), with_ec = c.flip();
			c.op( "copy %s to %s%s", n.c_str(), to.c_str(), over ? " overwriting" : "" );
			bool ok = t.count( n ) && t[ n ] != "D" && pdir( to ) && n != to && ( !t.count( to ) || ( over && t[ to ] != "D" ) );
			bool good = false;
			if ( with_ec ) { xo::error_code ec; good = xo::copy_file( path( r + n ), path( r + to ), over, &ec ); c.eq( ec.good(), good, "error object" ); }
			else { try { good = xo::copy_file( path( r + n ), path( r + to ), over ); c.check( good, "a failed copy without error object does not throw" ); } catch ( std::exception& ) {} }
			c.eq( good, ok, "copy_file" );
			if ( ok ) t[ to ] = t[ n ];
		}
		else if ( op == 4 || op == 5 )
		{
			int max = c.pick( { 9999, 2, 1 } ); c.op( "%s unique directory %s, %d attempts", op == 4 ? "create" : "find", n.c_str(), max );
			string want = "-";
			bool possible = true; { string p = parent( n ); if ( !p.empty() && t.count( p ) && t[ p ] != "D" ) possible = false; }
			if ( possible || op == 5 ) for ( int i = 0; i < std::min( max, depth + 2 ) && want == "-"; ++i ) { string k = n + ( i ? " (" + std::to_string( i ) + ")" : "" ); if ( !t.count( k ) ) want = k; }
			if ( !possible && max > 2 ) throw mc::prune(); // thousands of failing attempts
			string got = "-";
			try { got = ( op == 4 ? xo::create_unique_directory( path( r + n ), max ) : xo::find_unique_directory( path( r + n ), max ) ).str(); c.check( got.compare( 0, r.size(), r ) == 0, "folder outside the requested place" ); got = got.substr( r.size() ); } catch ( std::exception& ) {}
			c.eq( got, want, "unique directory" );
			if ( op == 4 && want != "-" ) mk( t, want );
		}
		else { c.op( "cwd" ); string f = c.pick( { string( "a" ), string( "c" ), string( "none" ) } ); auto old = xo::current_path(); bool ok = t.count( f ) && t[ f ] == "D"; c.eq( xo::current_path( path( r + f ) ), ok, "changing the current folder" ); c.eq( xo::current_path().str(), ok ? r + f : old.str(), "current folder" ); if ( chdir( old.c_str() ) ) {} }
		auto now = disk( c.scratch() );
		if ( now != t ) c.fail( "on disk: " + text( now ).substr( 0, 300 ) + ", expected: " + text( t ).substr( 0, 300 ) );
		for ( auto& k : names )
		{
			bool has = t.count( k ), dir = has && t[ k ] == "D";
			c.eq( xo::exists( path( r + k ) ), has, "exists" ); c.eq( xo::directory_exists( path( r + k ) ), dir, "directory_exists" ); c.eq( xo::file_exists( path( r + k ) ), has && !dir, "file_exists" );
			if ( has && !dir ) c.check( "F" + xo::load_string( path( r + k ) ) == t[ k ], "loaded content" );
		}
		string st; std::map< string, int > ids; for ( auto& e : t ) { if ( !ids.count( e.second ) ) ids.emplace( e.second, (int)ids.size() ); st += e.first + ( e.second == "D" ? "/" : "=" + std::to_string( ids[ e.second ] ) ) + ";"; }
		c.state( st );
		if ( c.seen( st, depth - d ) ) throw mc::prune();
	}
}
MC_SUITE( "environment folders" )
{
	string v = c.pick( { string( "/x" ), string( "/x/y" ), string( "rel" ) } ); c.op( "%s", v.c_str() );
	auto save = []( const char* n ) { auto p = getenv( n ); return p ? std::pair< bool, string >( true, p ) : std::pair< bool, string >( false, "" ); };
	auto tmp = save( "TMP" ), home = save( "HOME" );
	setenv( "TMP", v.c_str(), 1 ); setenv( "HOME", v.c_str(), 1 );
	c.eq( xo::temp_directory_path().str(), v, "temporary folder" );
	c.eq( xo::get_documents_dir().str(), v, "documents folder" );
	c.eq( xo::get_config_dir().str(), v + "/.config", "configuration folder" );
	unsetenv( "TMP" );
	c.check( xo::directory_exists( xo::temp_directory_path() ), "default temporary folder" );
	if ( tmp.first ) setenv( "TMP", tmp.second.c_str(), 1 );
	if ( home.first ) setenv( "HOME", home.second.c_str(), 1 ); else unsetenv( "HOME" );
	char b[ 4096 ]; auto n = readlink( "/proc/self/exe", b, sizeof b ); c.eq( xo::get_application_dir().str(), parent( string( b, n ) ), "application folder" );
}

// ---- concurrent creation ----------------------------------------------------------------------------------------------

MC_SUITE( "schedules of concurrent unique folders" )
{
	c.clean_scratch(); g_root = c.scratch();
	const string r = c.scratch() + "/";
	int n = 2 + c.choose( 2 ), where = c.choose( 3 ), mix = c.choose( 2 );
	string base = where == 1 ? "p/u" : "u";
	if ( where == 2 ) put( r + "u", "file" );
	c.note( "%d threads, %s%s%s", n, base.c_str(), where == 2 ? " is a file" : "", mix ? ", one creates the plain folder" : "" );
	std::vector< string > got( n ); bool plain = false;
	std::vector< std::function< void() > > f;
	for ( int i = 0; i < n; ++i )
		if ( mix && i == 0 ) f.push_back( [&] { plain = xo::create_directories( path( r + base ) ); } );
		else f.push_back( [&, i] { got[ i ] = xo::create_unique_directory( path( r + base ) ).str(); } );
	sched::run( c, f, n == 2 ? ( c.thorough ? 8 : 4 ) : c.thorough ? 3 : 2 );
	std::set< string > all; auto t = disk( c.scratch() );
	for ( int i = mix; i < n; ++i )
	{
		c.check( got[ i ].compare( 0, r.size() + base.size(), r + base ) == 0, "name of the folder" );
		c.check( all.insert( got[ i ] ).second, "two callers got the same folder" );
		c.check( t.count( got[ i ].substr( r.size() ) ) && t[ got[ i ].substr( r.size() ) ] == "D", "the folder is not there" );
	}
	if ( plain ) c.check( all.insert( r + base ).second, "a folder made by someone else was returned" );
	size_t dirs = 0; for ( auto& e : t ) dirs += e.second == "D" && e.first != "p";
	c.eq( dirs, all.size(), "folders made" );
	if ( where == 2 ) c.eq( t[ "u" ], string( "Ffile" ), "the file that was there" );
	string s; for ( auto& g : got ) s += g.substr( std::min( g.size(), r.size() ) ) + "|"; c.state( s );
}
