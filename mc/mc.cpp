// The exploration engine behind mc.h; see there.
#include "mc.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <fcntl.h>
#include <unistd.h>
#include <signal.h>
#include <time.h>
#include <dirent.h>
#include <errno.h>
#include <cxxabi.h>

namespace mc
{
	constexpr uint64_t TABLE_SIZE = 1ull << 25;
	constexpr int64_t CLAIM_SIZE = 1 << 24;
	constexpr int MAXW = 64;

	struct Shared
	{
		std::atomic<uint64_t> states, transitions, executions, checks, pruned, violations, known_hits, table_full, truncated;
		std::atomic<int> stop;
		std::atomic<uint64_t> suite_exec[ 256 ];
		std::atomic<uint64_t> suite_states[ 256 ];
		std::atomic<uint64_t> suite_trans[ 256 ];
		std::atomic<int> max_depth;
		Slot slots[ MAXW ];
	};

	static Shared* sh;
	static std::atomic<uint64_t>* table;
	static std::atomic<uint8_t>* claims;
	static std::string out_dir = ".";
	static bool g_thorough = false;
	static bool g_replay = false;
	static uint64_t g_seed = 1;
	static int g_suite = 0;
	static uint64_t local_trans = 0, local_states = 0, local_pruned = 0;
	static std::set< std::string > known;
	static Ctx* g_ctx = nullptr;
	static double g_hang_cpu = 20, g_hang_wall = 150;

	Ctx* current() { return g_ctx; }
	bool is_thorough() { return g_thorough; }
	std::vector< Suite >& suites() { static std::vector< Suite > s; return s; }

	std::string esc( const std::string& s )
	{
		std::string r = "\"";
		for ( unsigned char ch : s )
		{
			if ( ch == '\n' ) r += "\\n";
			else if ( ch == '\r' ) r += "\\r";
			else if ( ch == '\t' ) r += "\\t";
			else if ( ch == '"' || ch == '\\' ) { r += '\\'; r += (char)ch; }
			else if ( ch < 32 || ch >= 127 ) { char b[ 8 ]; snprintf( b, 8, "\\x%02x", ch ); r += b; }
			else r += (char)ch;
		}
		return r + "\"";
	}

	uint64_t hash( const void* p, size_t n, uint64_t h )
	{
		auto* c = (const unsigned char*)p;
		for ( size_t i = 0; i < n; ++i ) { h ^= c[ i ]; h *= 1099511628211ull; }
		return mix( h, n );
	}
	uint64_t hash( const std::string& s ) { return hash( s.data(), s.size() ); }

	static bool insert( uint64_t h )
	{
		h = mix( h, g_suite + 1 );
		if ( h == 0 ) h = 1;
		uint64_t i = h & ( TABLE_SIZE - 1 );
		for ( int probe = 0; probe < 256; ++probe, i = ( i + 1 ) & ( TABLE_SIZE - 1 ) )
		{
			uint64_t cur = table[ i ].load( std::memory_order_relaxed );
			if ( cur == h ) return false;
			if ( cur == 0 )
			{
				if ( table[ i ].compare_exchange_strong( cur, h ) ) return true;
				if ( cur == h ) return false;
			}
		}
		sh->table_full++;
		return true;
	}

	void Ctx::append( const char* s, size_t n )
	{
		if ( slot->trace_len + (int)n >= TRACESZ - 8 )
			n = slot->trace_len < TRACESZ - 8 ? TRACESZ - 8 - slot->trace_len : 0;
		memcpy( slot->trace + slot->trace_len, s, n );
		slot->trace_len += (int)n;
		slot->trace[ slot->trace_len ] = 0;
	}
	void Ctx::op( const char* fmt, ... )
	{
		++local_trans;
		char b[ 2048 ];
		va_list a; va_start( a, fmt );
		int n = vsnprintf( b, sizeof( b ), fmt, a );
		va_end( a );
		if ( n >= (int)sizeof( b ) ) n = sizeof( b ) - 1;
		if ( slot->trace_len ) append( "; ", 2 );
		for ( int i = 0; i < n; ++i ) if ( b[ i ] == '\n' || b[ i ] == '\t' || b[ i ] == '\r' ) b[ i ] = '~';
		append( b, n );
	}
	void Ctx::note( const char* fmt, ... )
	{
		char b[ 2048 ];
		va_list a; va_start( a, fmt );
		int n = vsnprintf( b, sizeof( b ), fmt, a );
		va_end( a );
		if ( n >= (int)sizeof( b ) ) n = sizeof( b ) - 1;
		if ( slot->trace_len ) append( " ", 1 );
		for ( int i = 0; i < n; ++i ) if ( b[ i ] == '\n' || b[ i ] == '\t' || b[ i ] == '\r' ) b[ i ] = '~';
		append( b, n );
	}
	void Ctx::ops( const std::string& s )
	{
		++local_trans;
		if ( slot->trace_len ) append( "; ", 2 );
		auto e = esc( s );
		append( e.data(), e.size() );
	}

	void Ctx::state( uint64_t h ) { if ( insert( h ) ) ++local_states; }
	void Ctx::state( const std::string& s ) { state( hash( s ) ); }
	bool Ctx::seen( uint64_t h )
	{
		if ( g_replay || pos <= diverge ) return false;
		if ( !split_done ) { state( h ); return false; } // all workers walk the shared prefixes in the same order
		if ( insert( h ) ) { ++local_states; return false; }
		++local_pruned;
		return true;
	}
	bool Ctx::seen( const std::string& s, int remaining ) { return seen( mix( hash( s ), remaining + 1 ) ); }

	bool Ctx::fresh() const { return g_replay || pos > diverge; }

	void Ctx::fail( const std::string& what ) { throw violation{ what }; }

	void Ctx::claim()
	{
		split_done = true;
		if ( g_replay ) return;
		if ( pos > diverge )
		{
			// new prefix
			int64_t o = ++slot->ordinal;
			bool mine = o >= CLAIM_SIZE ? ( worker == 0 ) : claims[ o ].exchange( 1 ) == 0;
			slot->owned = mine;
			if ( !mine ) { skip_count = true; throw prune(); }
		}
		else if ( !slot->owned ) { skip_count = true; throw prune(); }
	}

	int Ctx::choose( int n )
	{
		if ( n <= 1 )
		{
			if ( n < 1 ) { fprintf( stderr, "mc: choose(%d)\n", n ); _exit( 77 ); }
			return 0;
		}
		if ( pos >= MAXC ) { fprintf( stderr, "mc: too many choices\n" ); _exit( 77 ); }
		int r;
		if ( pos < slot->nchoices )
		{
			r = slot->choices[ pos ];
			if ( slot->arity[ pos ] == 0 ) slot->arity[ pos ] = n;
			if ( slot->arity[ pos ] != n || r >= n )
			{
				if ( g_replay ) { if ( r >= n ) r = n - 1; slot->arity[ pos ] = n; }
				else fail( "the code under test behaved differently on identical inputs and schedule (nondeterministic execution)" );
			}
		}
		else
		{
			r = 0;
			slot->choices[ pos ] = 0;
			slot->arity[ pos ] = n;
			slot->nchoices = pos + 1;
		}
		++pos;
		if ( !split_done )
		{
			arity_product *= n;
			if ( arity_product >= 256 ) claim();
		}
		return r;
	}

	std::string Ctx::str( const std::string& alphabet, int maxlen, int minlen )
	{
		std::string s;
		while ( (int)s.size() < maxlen )
		{
			if ( (int)s.size() >= minlen )
			{
				int i = choose( (int)alphabet.size() + 1 );
				if ( i == 0 ) return s;
				s += alphabet[ i - 1 ];
			}
			else s += alphabet[ choose( (int)alphabet.size() ) ];
		}
		return s;
	}
	std::string Ctx::longer( const std::string& abc, int maxlen )
	{
		static const int sizes[] = { 13, 14, 15, 16, 17, 22, 23, 24, 31, 32, 33, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 65537 };
		int n = 0; while ( n < int( std::size( sizes ) ) && sizes[ n ] <= maxlen ) ++n;
		int len = sizes[ choose( n ) ]; std::string s( len, abc[ choose( std::min( 3, int( abc.size() ) ) ) ] ); char x = abc[ choose( int( abc.size() ) ) ];
		if ( x == s[ 0 ] ) return s;
		switch ( choose( 9 ) )
		{
		case 0: s[ 0 ] = x; break;
		case 1: s[ 1 ] = x; break;
		case 2: s[ len / 2 ] = x; break;
		case 3: s[ len - 2 ] = x; break;
		case 4: s[ len - 1 ] = x; break;
		case 5: s[ 0 ] = s[ len - 1 ] = x; break;
		case 6: for ( int i = 0; i < len; i += 2 ) s[ i ] = x; break;
		case 7: for ( int i = 1; i < len; i += 3 ) s[ i ] = x; break;
		case 8: for ( int i = 6; i < len; i += 7 ) s[ i ] = x; break;
		}
		return s;
	}
	std::string Ctx::toks( const std::vector< std::string >& t, int maxlen, int minlen )
	{
		std::string s;
		for ( int k = 0; k < maxlen; ++k )
		{
			if ( k >= minlen )
			{
				int i = choose( (int)t.size() + 1 );
				if ( i == 0 ) return s;
				s += t[ i - 1 ];
			}
			else s += t[ choose( (int)t.size() ) ];
		}
		return s;
	}

	static void rm_content( const std::string& d )
	{
		DIR* dir = opendir( d.c_str() );
		if ( !dir ) return;
		while ( auto* e = readdir( dir ) )
		{
			std::string n = e->d_name;
			if ( n == "." || n == ".." ) continue;
			std::string p = d + "/" + n;
			struct stat st;
			if ( lstat( p.c_str(), &st ) == 0 && S_ISDIR( st.st_mode ) ) { chmod( p.c_str(), 0700 ); rm_content( p ); rmdir( p.c_str() ); }
			else unlink( p.c_str() );
		}
		closedir( dir );
	}
	const std::string& Ctx::scratch()
	{
		if ( scratch_.empty() )
		{
			const char* base = getenv( "MC_SCRATCH" );
			if ( !base ) { fprintf( stderr, "mc: MC_SCRATCH not set\n" ); _exit( 77 ); }
			scratch_ = std::string( base ) + "/w" + std::to_string( worker );
			mkdir( scratch_.c_str(), 0700 );
		}
		return scratch_;
	}
	void Ctx::clean_scratch() { rm_content( scratch() ); }

	static std::string key_of( int suite, const Slot& s, const std::string& msg )
	{
		std::string m = msg;
		for ( auto& ch : m ) if ( ch == '\n' || ch == '\t' ) ch = ' ';
		return suites()[ suite ].name + " :: " + std::string( s.trace, s.trace_len ) + " :: " + m;
	}

	static std::string json( const std::string& s )
	{
		std::string r = "\"";
		for ( unsigned char ch : s )
		{
			if ( ch == '"' || ch == '\\' ) { r += '\\'; r += (char)ch; }
			else if ( ch < 32 || ch >= 127 ) { char b[ 8 ]; snprintf( b, 8, "\\u%04x", ch ); r += b; }
			else r += (char)ch;
		}
		return r + "\"";
	}

	/// returns true if known
	static bool record( int suite, const Slot& s, const std::string& msg, int worker )
	{
		auto key = key_of( suite, s, msg );
		bool is_known = known.count( key ) != 0;
		std::string rec = "{\"suite\":" + json( suites()[ suite ].name ) + ",\"known\":" + ( is_known ? "true" : "false" )
			+ ",\"tier\":" + ( g_thorough ? "\"thorough\"" : "\"quick\"" )
			+ ",\"key\":" + json( key ) + ",\"message\":" + json( msg ) + ",\"trace\":" + json( std::string( s.trace, s.trace_len ) ) + ",\"choices\":[";
		for ( int i = 0; i < s.nchoices; ++i ) rec += ( i ? "," : "" ) + std::to_string( s.choices[ i ] );
		rec += "]}\n";
		int fd = open( ( out_dir + "/records.jsonl" ).c_str(), O_WRONLY | O_CREAT | O_APPEND, 0644 );
		if ( fd >= 0 ) { if ( write( fd, rec.data(), rec.size() ) < 0 ) {} close( fd ); }
		if ( is_known ) sh->known_hits++;
		else if ( ++sh->violations >= ( getenv( "MC_ALL" ) ? 100000u : 12u ) ) sh->stop = 1;
		return is_known;
	}

	static double now() { timespec t; clock_gettime( CLOCK_MONOTONIC, &t ); return t.tv_sec + t.tv_nsec * 1e-9; }

	static void sample( int suite, const Slot& s )
	{
		int fd = open( ( out_dir + "/samples.jsonl" ).c_str(), O_WRONLY | O_CREAT | O_APPEND, 0644 );
		std::string tr( s.trace, std::min( s.trace_len, 700 ) );
		std::string rec = "{\"suite\":" + json( suites()[ suite ].name ) + ",\"trace\":" + json( tr ) + "}\n";
		if ( fd >= 0 ) { if ( write( fd, rec.data(), rec.size() ) < 0 ) {} close( fd ); }
	}

	static void run_one( Ctx& c, const Suite& s, std::string& msg )
	{
		msg.clear();
		c.pos = 0; c.arity_product = 1; c.split_done = false; c.skip_count = false;
		c.slot->trace_len = 0; c.slot->trace[ 0 ] = 0;
		c.slot->exec_id++;
		c.slot->state = 1;
		try { s.body( c ); }
		catch ( violation& v ) { msg = v.what.empty() ? "violation" : v.what; }
		catch ( prune& ) {}
		catch ( std::exception& e )
		{
			int st = 0; char* d = abi::__cxa_demangle( typeid( e ).name(), 0, 0, &st );
			msg = std::string( "uncaught exception " ) + ( d ? d : typeid( e ).name() ) + ": " + e.what();
			free( d );
		}
		catch ( ... ) { msg = "uncaught exception of unknown type"; }
		c.slot->state = 0;
	}

	static void flush_counts( int suite, uint64_t execs, Ctx& c )
	{
		sh->executions += execs; sh->suite_exec[ suite ] += execs;
		sh->transitions += local_trans; sh->suite_trans[ suite ] += local_trans; local_trans = 0;
		sh->states += local_states; sh->suite_states[ suite ] += local_states; local_states = 0;
		sh->pruned += local_pruned; local_pruned = 0;
		sh->checks += c.checks; c.checks = 0;
	}

	/// advance to next choice vector; false when exhausted
	static bool advance( Slot& s, int& diverge )
	{
		while ( s.nchoices > 0 )
		{
			int i = s.nchoices - 1;
			if ( s.choices[ i ] + 1 < s.arity[ i ] ) { s.choices[ i ]++; diverge = i; return true; }
			s.nchoices--;
		}
		return false;
	}

	static void worker_main( int suite, int w, bool resume )
	{
		g_suite = suite;
		Ctx c; g_ctx = &c;
		c.thorough = g_thorough; c.seed = g_seed; c.worker = w; c.slot = &sh->slots[ w ];
		auto& s = suites()[ suite ];
		Slot& slot = *c.slot;
		uint64_t execs = 0, nviol = 0;
		uint64_t next_sample = 0;
		std::string msg;
		if ( resume )
		{
			if ( !advance( slot, c.diverge ) ) { slot.state = 2; flush_counts( suite, execs, c ); _exit( 0 ); }
		}
		else { slot.nchoices = 0; slot.ordinal = -1; slot.owned = 0; c.diverge = -1; }
		uint64_t n = 0;
		for ( ;; )
		{
			uint64_t tr0 = local_trans;
			run_one( c, s, msg );
			if ( slot.nchoices > c.pos ) slot.nchoices = c.pos;
			if ( !c.split_done )
			{
				// a complete execution shorter than the split depth: count it in one worker only
				try { c.claim(); } catch ( prune& ) {}
			}
			if ( c.skip_count ) { local_trans = tr0; }
			else
			{
				++execs; ++n;
				if ( !msg.empty() ) { record( suite, slot, msg, w ); if ( ++nviol > 20000 ) sh->stop = 1; }
				if ( n > next_sample && w < 2 ) { sample( suite, slot ); next_sample = next_sample * 40 + 2; }
				int md = sh->max_depth.load(); if ( c.pos > md ) sh->max_depth = c.pos;
			}
			if ( ( n & 1023 ) == 0 ) { flush_counts( suite, execs, c ); execs = 0; }
			if ( sh->stop ) break;
			if ( !advance( slot, c.diverge ) ) break;
		}
		flush_counts( suite, execs, c );
		slot.state = 2;
		fflush( nullptr );
		_exit( 0 );
	}

	static std::string read_file( const std::string& f )
	{
		std::string r; FILE* fp = fopen( f.c_str(), "rb" );
		if ( !fp ) return r;
		char b[ 4096 ]; size_t n;
		while ( ( n = fread( b, 1, sizeof( b ), fp ) ) > 0 && r.size() < 200000 ) r.append( b, n );
		fclose( fp );
		return r;
	}

	static std::string crash_message( const std::string& errfile, int status )
	{
		auto t = read_file( errfile );
		size_t p;
		auto line = [&]( size_t b ) { auto e = t.find( '\n', b ); return t.substr( b, ( e == t.npos ? t.size() : e ) - b ); };
		if ( ( p = t.find( "ERROR: AddressSanitizer: " ) ) != t.npos )
		{
			auto l = line( p + 7 ); auto q = l.find( ' ', 18 ); return "crash: " + l.substr( 0, q );
		}
		if ( ( p = t.find( "runtime error: " ) ) != t.npos )
		{
			auto l = line( p ); // strip addresses
			auto q = l.find( "0x" ); return "crash: undefined behaviour, " + l.substr( 0, q );
		}
		if ( ( p = t.find( "mc-fatal: " ) ) != t.npos ) return line( p + 10 );
		if ( ( p = t.find( "Assertion '" ) ) != t.npos ) return "crash: " + line( p );
		if ( ( p = t.find( "terminate called" ) ) != t.npos ) return "crash: " + line( p );
		char b[ 100 ];
		if ( WIFSIGNALED( status ) ) snprintf( b, 100, "crash: signal %d", WTERMSIG( status ) );
		else snprintf( b, 100, "crash: process exited with code %d", WEXITSTATUS( status ) );
		return b;
	}

	static pid_t spawn( int suite, int w, bool resume, const std::string& err )
	{
		pid_t p = fork();
		if ( p == 0 )
		{
			int fd = open( err.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644 );
			dup2( fd, 2 ); dup2( fd, 1 ); close( fd );
			worker_main( suite, w, resume );
			_exit( 0 );
		}
		return p;
	}

	static bool is_infra( int st ) { return WIFEXITED( st ) && WEXITSTATUS( st ) == 77; }

	static int explore( int suite, int nw )
	{
		memset( (void*)claims, 0, CLAIM_SIZE );
		struct W { pid_t pid = 0; uint64_t last = ~0ull; double cpu = 0, wall = 0; bool alive = false; };
		std::vector< W > ws( nw );
		auto errf = [&]( int w ) { return out_dir + "/err_" + std::to_string( w ) + ".txt"; };
		for ( int w = 0; w < nw; ++w ) { sh->slots[ w ].state = 0; ws[ w ].pid = spawn( suite, w, false, errf( w ) ); ws[ w ].alive = true; ws[ w ].wall = now(); }
		int alive = nw;
		auto cpu_of = []( pid_t p ) { clockid_t id; timespec t; if ( clock_getcpuclockid( p, &id ) || clock_gettime( id, &t ) ) return -1.0; return t.tv_sec + t.tv_nsec * 1e-9; };
		double t_check = now();
		int infra = 0;
		while ( alive )
		{
			int st; pid_t p = waitpid( -1, &st, WNOHANG );
			if ( p > 0 )
			{
				for ( int w = 0; w < nw; ++w ) if ( ws[ w ].pid == p && ws[ w ].alive )
				{
					auto& slot = sh->slots[ w ];
					if ( WIFEXITED( st ) && WEXITSTATUS( st ) == 0 && slot.state == 2 ) { ws[ w ].alive = false; --alive; break; }
					if ( is_infra( st ) ) { fprintf( stderr, "%s\n", read_file( errf( w ) ).c_str() ); infra = 1; sh->stop = 1; ws[ w ].alive = false; --alive; break; }
					auto m = crash_message( errf( w ), st );
					if ( !record( suite, slot, m, w ) )
					{
						auto t = read_file( errf( w ) );
						FILE* f = fopen( ( out_dir + "/crash.txt" ).c_str(), "a" );
						if ( f ) { fprintf( f, "%s\n%s\n", key_of( suite, slot, m ).c_str(), t.substr( 0, 6000 ).c_str() ); fclose( f ); }
					}
					if ( sh->stop ) { ws[ w ].alive = false; --alive; }
					else { ws[ w ].pid = spawn( suite, w, true, errf( w ) ); ws[ w ].last = ~0ull; }
				}
				continue;
			}
			usleep( 2000 );
			if ( now() - t_check > 1 )
			{
				t_check = now();
				for ( int w = 0; w < nw; ++w ) if ( ws[ w ].alive )
				{
					auto& W_ = ws[ w ]; auto& slot = sh->slots[ w ];
					uint64_t id = slot.exec_id; double cpu = cpu_of( W_.pid );
					if ( id != W_.last || slot.state != 1 ) { W_.last = id; W_.cpu = cpu; W_.wall = now(); }
					else if ( cpu - W_.cpu > g_hang_cpu || now() - W_.wall > g_hang_wall || ( now() - W_.wall > 40 && cpu - W_.cpu < 0.02 ) )
					{
						kill( W_.pid, SIGKILL ); waitpid( W_.pid, &st, 0 );
						record( suite, slot, "hang: the call does not return", w );
						static int hangs = 0;
						if ( ++hangs >= 2 && !getenv( "MC_ALL" ) ) sh->stop = 1;
						if ( sh->stop ) { W_.alive = false; --alive; }
						else { W_.pid = spawn( suite, w, true, errf( w ) ); W_.last = ~0ull; }
					}
				}
			}
			double limit = getenv( "MC_TIME_LIMIT" ) ? atof( getenv( "MC_TIME_LIMIT" ) ) : 0;
			static double t_start = now();
			if ( limit > 0 && now() - t_start > limit && !sh->stop ) { sh->stop = 1; sh->truncated++; }
		}
		return infra;
	}

	static int replay( const std::string& suite, const std::string& choices )
	{
		for ( size_t i = 0; i < suites().size(); ++i ) if ( suites()[ i ].name == suite )
		{
			g_replay = true; g_suite = (int)i;
			Slot& slot = sh->slots[ 0 ];
			slot.nchoices = 0;
			std::istringstream is( choices ); int v;
			while ( is >> v ) { slot.choices[ slot.nchoices ] = v; slot.arity[ slot.nchoices ] = 0; slot.nchoices++; if ( is.peek() == ',' ) is.get(); }
			std::string err = out_dir + "/replay_err.txt";
			pid_t p = fork();
			if ( p == 0 )
			{
				int fd = open( err.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644 ); dup2( fd, 2 ); if ( !getenv( "MC_VERBOSE" ) ) dup2( fd, 1 ); close( fd );
				Ctx c; g_ctx = &c; c.slot = &slot; c.thorough = g_thorough; c.seed = g_seed; c.diverge = -1;
				std::string msg;
				run_one( c, suites()[ i ], msg );
				if ( !msg.empty() ) { record( (int)i, slot, msg, 0 ); fflush( nullptr ); _exit( 3 ); }
				fflush( nullptr ); _exit( 0 );
			}
			double t0 = now(); int st = 0;
			bool done = false;
			while ( !done ) {
				pid_t q = waitpid( p, &st, WNOHANG );
				if ( q == p ) done = true;
				else if ( now() - t0 > g_hang_cpu * 2 ) { kill( p, SIGKILL ); waitpid( p, &st, 0 ); record( (int)i, slot, "hang: the call does not return", 0 ); printf( "REPRODUCED hang\ntrace: %s\n", slot.trace ); return 1; }
				else usleep( 2000 );
			}
			if ( WIFEXITED( st ) && WEXITSTATUS( st ) == 0 ) { printf( "NOT REPRODUCED\ntrace: %s\n", slot.trace ); return 0; }
			if ( !( WIFEXITED( st ) && WEXITSTATUS( st ) == 3 ) ) record( (int)i, slot, crash_message( err, st ), 0 );
			printf( "REPRODUCED\ntrace: %s\n%s\n", slot.trace, read_file( err ).substr( 0, 8000 ).c_str() );
			return 1;
		}
		fprintf( stderr, "no suite %s\n", suite.c_str() );
		return 2;
	}

	static int main_( int argc, char** argv )
	{
		std::string only, rsuite, rchoices, knownf;
		int nw = 8;
		for ( int i = 1; i < argc; ++i )
		{
			std::string a = argv[ i ];
			if ( a == "--thorough" ) g_thorough = true;
			else if ( a == "--out" ) out_dir = argv[ ++i ];
			else if ( a == "--suite" ) only = argv[ ++i ];
			else if ( a == "--workers" ) nw = atoi( argv[ ++i ] );
			else if ( a == "--seed" ) g_seed = strtoull( argv[ ++i ], 0, 10 );
			else if ( a == "--known" ) knownf = argv[ ++i ];
			else if ( a == "--replay" ) { rsuite = argv[ ++i ]; rchoices = argv[ ++i ]; }
			else if ( a == "--list" ) { for ( auto& s : suites() ) printf( "%s\n", s.name.c_str() ); return 0; }
		}
		if ( nw > MAXW ) nw = MAXW;
		sh = (Shared*)mmap( 0, sizeof( Shared ), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0 );
		table = (std::atomic<uint64_t>*)mmap( 0, TABLE_SIZE * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0 );
		claims = (std::atomic<uint8_t>*)mmap( 0, CLAIM_SIZE, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0 );
		if ( sh == MAP_FAILED || table == MAP_FAILED || claims == MAP_FAILED ) { perror( "mmap" ); return 2; }
		if ( !knownf.empty() ) { std::istringstream is( [&] { std::string r; FILE* fp = fopen( knownf.c_str(), "rb" ); if ( fp ) { char b[ 4096 ]; size_t n; while ( ( n = fread( b, 1, sizeof( b ), fp ) ) > 0 ) r.append( b, n ); fclose( fp ); } return r; }() ); std::string l; while ( std::getline( is, l ) ) known.insert( l ); }
		if ( !rsuite.empty() ) return replay( rsuite, rchoices );

		double t0 = now();
		std::string per;
		int infra = 0;
		for ( size_t i = 0; i < suites().size() && !sh->stop; ++i )
		{
			auto& s = suites()[ i ];
			if ( !only.empty() && s.name != only ) continue;
			if ( s.tier == 1 && !g_thorough ) continue;
			double ts = now();
			fflush( nullptr );
			infra |= explore( (int)i, nw );
			char b[ 400 ];
			snprintf( b, 400, "%s{\"suite\":%s,\"executions\":%llu,\"states\":%llu,\"transitions\":%llu,\"wall_s\":%.2f}", per.empty() ? "" : ",",
				json( s.name ).c_str(), (unsigned long long)sh->suite_exec[ i ], (unsigned long long)sh->suite_states[ i ], (unsigned long long)sh->suite_trans[ i ], now() - ts );
			per += b;
		}
		FILE* f = fopen( ( out_dir + "/result.json" ).c_str(), "w" );
		fprintf( f, "{\"states\":%llu,\"transitions\":%llu,\"executions\":%llu,\"checks\":%llu,\"pruned\":%llu,\"violations\":%llu,\"known_hits\":%llu,\"table_full\":%llu,\"truncated\":%llu,\"max_choices\":%d,\"wall_s\":%.3f,\"infra\":%d,\"suites\":[%s]}\n",
			(unsigned long long)sh->states, (unsigned long long)sh->transitions, (unsigned long long)sh->executions, (unsigned long long)sh->checks, (unsigned long long)sh->pruned,
			(unsigned long long)sh->violations, (unsigned long long)sh->known_hits, (unsigned long long)sh->table_full, (unsigned long long)sh->truncated, (int)sh->max_depth, now() - t0, infra, per.c_str() );
		fclose( f );
		if ( infra ) return 2;
		return sh->violations ? 1 : 0;
	}
}

int main( int argc, char** argv ) { return mc::main_( argc, argv ); }
