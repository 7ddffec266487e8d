// See mcsched.h. Not instrumented itself.
#include "mcsched.h"
#include <pthread.h>
#include <dlfcn.h>
#include <errno.h>
#include <malloc.h>
#include <sched.h>
#include <semaphore.h>
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
#include <time.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <linux/futex.h>
#include <cxxabi.h>
#include <new>
#include <chrono>
#include <locale>

typedef unsigned char u8; typedef unsigned short u16; typedef unsigned int u32; typedef unsigned long long u64;
typedef uintptr_t uptr;

namespace sched
{
	constexpr int NT = 8; // thread 0 is the controller
	constexpr int STACK = 192;

	struct VC { u32 c[ NT ]; };
	static void join( VC& a, const VC& b ) { for ( int i = 0; i < NT; ++i ) if ( b.c[ i ] > a.c[ i ] ) a.c[ i ] = b.c[ i ]; }

	enum Status { UNUSED, READY, BLOCKED, FINISHED };
	struct Thread
	{
		int id = 0;
		std::atomic<int> sem{ 0 };
		Status st = UNUSED;
		std::function< bool() > can_run; // while BLOCKED
		const void* wait_obj = nullptr;
		bool signalled = false;
		VC vc;
		std::function< void() > fn;
		void* ( *start )( void* ) = nullptr; void* arg = nullptr; void* ret = nullptr; // created by the code under test
		pthread_t real = 0;
		bool pooled = true, detached = false, joined = false;
		void* stack[ STACK ]; int depth = 0;
		int ignore = 0;
		int nopoint = 0; // inside one-time initialisation, which only happens in the first execution of a process
	};
	static Thread th[ NT ];
	static thread_local Thread* self = nullptr;
	static thread_local int in_rt = 0;
	struct Rt { Rt() { ++in_rt; } ~Rt() { --in_rt; } };

	static bool active = false;   // a run is in progress
	static bool aborting = false; // finish without choices and checks
	static mc::Ctx* ctx = nullptr;
	static int nthreads = 0, budget = 0, nsteps = 0;
	static u32 gen = 0;
	static std::string* failure = nullptr;
	static bool pruned = false;
	static std::vector< void* >* quarantine = nullptr;
	long virtual_time = 0;

	int tid() { return self && active ? self->id : 0; }
	int steps() { return nsteps; }

	// ---- low level hand-over -----------------------------------------------------------------------
	static void sem_wait_( std::atomic<int>& s )
	{
		for ( ;; )
		{
			int v = s.load();
			if ( v > 0 ) { s.store( 0 ); return; }
			syscall( SYS_futex, (int*)&s, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0 );
		}
	}
	static void sem_post_( std::atomic<int>& s ) { s.store( 1 ); syscall( SYS_futex, (int*)&s, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0 ); }

	void fail( const std::string& what )
	{
		Rt rt;
		if ( !aborting && failure->empty() ) *failure = what.empty() ? "violation" : what;
		aborting = true;
	}

	static bool managed() { return active && self && !in_rt; }

	static void fatal( const std::string& m )
	{
		fprintf( stderr, "mc-fatal: %s\n", m.c_str() );
		fflush( stderr );
		_exit( 98 );
	}

	static bool enabled( Thread& t )
	{
		if ( t.st == READY ) return true;
		if ( t.st == BLOCKED ) return t.can_run();
		return false;
	}

	static const char* op_name = "";
	/// pick the next thread to run; -1 when all are finished
	static int pick( int cur, bool cur_enabled )
	{
		int cand[ NT ], n = 0;
		if ( cur_enabled ) cand[ n++ ] = cur;
		bool live = false;
		for ( int i = 1; i <= nthreads; ++i )
		{
			if ( th[ i ].st == READY || th[ i ].st == BLOCKED ) live = true;
			if ( i != cur && enabled( th[ i ] ) ) { if ( !cur_enabled || budget > 0 ) cand[ n++ ] = i; }
		}
		if ( n == 0 )
		{
			if ( !live ) return -1;
			if ( aborting ) { if ( !failure->empty() ) fatal( *failure ); }
			std::string m = "deadlock: ";
			for ( int i = 1; i <= nthreads; ++i ) if ( th[ i ].st == BLOCKED ) m += "thread " + std::to_string( i ) + " waits forever; ";
			fatal( m );
		}
		int k = 0;
		if ( !aborting && n > 1 )
		{
			try { k = ctx->choose( n ); }
			catch ( mc::prune& ) { pruned = true; aborting = true; }
			catch ( mc::violation& v ) { *failure = v.what; aborting = true; }
		}
		if ( cur_enabled && cand[ k ] != cur ) --budget;
		return cand[ k ];
	}

	static void switch_to( int next )
	{
		Thread* me = self;
		if ( next == me->id ) return;
		sem_post_( th[ next ].sem );
		sem_wait_( me->sem );
	}

	/// scheduling point before an operation
	static void point( const char* name, const void* obj = nullptr )
	{
		if ( self->nopoint ) return;
		Rt rt;
		++nsteps;
		if ( nsteps > 20000 ) fatal( "livelock: the threads do not finish within 20000 steps" );
		int live = 0;
		for ( int i = 1; i <= nthreads; ++i ) if ( th[ i ].st == READY || th[ i ].st == BLOCKED ) ++live;
		if ( live > 1 )
		{
			int next = pick( self->id, true );
			if ( !aborting ) ctx->op( "%d:%s", next, next == self->id ? name : "switch" );
			switch_to( next );
		}
	}

	static void block_until( std::function< bool() > cond, const char* name )
	{
		Rt rt;
		if ( cond() ) return;
		self->st = BLOCKED;
		self->can_run = std::move( cond );
		int next = pick( self->id, false ); // may be self only if enabled
		if ( !aborting ) ctx->op( "%d:wait(%s)", self->id, name );
		switch_to( next );
		self->st = READY;
	}

	void yield() { if ( managed() ) point( "yield" ); }

	// ---- shadow memory ----------------------------------------------------------------------------
	struct Byte { u32 w; u32 wpc; u32 r[ NT ]; };
	struct Cell { uptr key; u32 gen; u8 split, freed; Byte b[ 8 ]; uptr wpc; };
	constexpr u32 NCELL = 1 << 17;
	static Cell* cells = nullptr;
	struct Sync { uptr key; u32 gen; VC vc; VC rvc; int owner; int depth; int readers[ NT ]; int nreaders; int kind; u64 value; };
	constexpr u32 NSYNC = 1 << 12;
	static Sync* syncs = nullptr;
	static int ncells = 0, nsyncs = 0;

	static Cell* cell( uptr word )
	{
		u32 i = (u32)( ( word * 0x9e3779b97f4a7c15ull ) >> 40 ) & ( NCELL - 1 );
		for ( ;; i = ( i + 1 ) & ( NCELL - 1 ) )
		{
			Cell& c = cells[ i ];
			if ( c.gen != gen )
			{
				if ( ++ncells > (int)NCELL * 3 / 4 ) { fprintf( stderr, "mc: shadow memory exhausted\n" ); _exit( 77 ); }
				memset( &c, 0, sizeof( Cell ) ); c.key = word; c.gen = gen;
				return &c;
			}
			if ( c.key == word ) return &c;
		}
	}
	static Sync* sync( const void* p )
	{
		uptr k = (uptr)p;
		u32 i = (u32)( ( k * 0x9e3779b97f4a7c15ull ) >> 40 ) & ( NSYNC - 1 );
		for ( ;; i = ( i + 1 ) & ( NSYNC - 1 ) )
		{
			Sync& c = syncs[ i ];
			if ( c.gen != gen )
			{
				if ( ++nsyncs > (int)NSYNC * 3 / 4 ) { fprintf( stderr, "mc: too many synchronisation objects\n" ); _exit( 77 ); }
				memset( &c, 0, sizeof( Sync ) ); c.key = k; c.gen = gen;
				return &c;
			}
			if ( c.key == k ) return &c;
		}
	}

	static std::string where( uptr pc )
	{
		Dl_info di;
		if ( pc && getenv( "MC_VERBOSE" ) && dladdr( (void*)pc, &di ) ) { char b[ 64 ]; snprintf( b, 64, "[%lx]", (long)( pc - (uptr)di.dli_fbase ) ); return b; }
		if ( pc && dladdr( (void*)pc, &di ) && di.dli_sname )
		{
			int st = 0; char* d = abi::__cxa_demangle( di.dli_sname, nullptr, nullptr, &st );
			std::string s = d ? d : di.dli_sname; free( d );
			if ( s.size() > 160 ) s = s.substr( 0, 160 ) + "...";
			return s;
		}
		return "(unnamed function)";
	}

	static uptr race_addr = 0, facet = 0;
	static void race( const char* kind, uptr other_pc, int other )
	{
		Rt rt;
		std::string st;
		for ( int i = self->depth - 1, n = 0; i >= 0 && n < 3 && i < STACK; --i, ++n ) st += ( n ? " < " : "" ) + where( (uptr)self->stack[ i ] );
		if ( getenv( "MC_VERBOSE" ) ) st += " (other in " + where( other_pc ) + ", address " + std::to_string( race_addr ) + ", stack at " + std::to_string( (uptr)&st ) + ")";
		fail( std::string( kind ) + ", thread " + std::to_string( self->id ) + " in " + st );
	}

	static inline void access_byte( Byte& b, bool write, Cell& c )
	{
		int me = self->id;
		const VC& vc = self->vc;
		if ( b.w )
		{
			int t = b.w >> 24; u32 k = b.w & 0xffffff;
			if ( t != me && k > vc.c[ t ] ) { race( write ? "data race: unsynchronised writes" : "data race: read of data being written by another thread", c.wpc, t ); return; }
		}
		if ( write )
		{
			for ( int t = 0; t < NT; ++t )
				if ( t != me && b.r[ t ] > vc.c[ t ] ) { race( "data race: write of data being read by another thread", 0, t ); return; }
			b.w = ( (u32)me << 24 ) | vc.c[ me ];
		}
		else b.r[ me ] = vc.c[ me ];
	}

	static void access_word( uptr word, int off, int len, bool write )
	{
		Cell& c = *cell( word ); race_addr = word;
		if ( c.freed ) { race( "use of memory that was freed", 0, 0 ); return; }
		if ( !c.split )
		{
			if ( off == 0 && len == 8 ) { access_byte( c.b[ 0 ], write, c ); if ( write && self->depth > 0 ) c.wpc = (uptr)self->stack[ self->depth - 1 ]; return; }
			for ( int i = 1; i < 8; ++i ) c.b[ i ] = c.b[ 0 ];
			c.split = 1;
		}
		for ( int i = off; i < off + len && !aborting; ++i ) access_byte( c.b[ i ], write, c );
		if ( write && self->depth > 0 ) c.wpc = (uptr)self->stack[ self->depth - 1 ];
	}

	static void access( const void* p, uptr n, bool write )
	{
		if ( !active || !self || in_rt || aborting || n == 0 || self->ignore ) return;
		uptr a = (uptr)p;
		if ( a < 4096 ) return;
		// character classification caches itself inside the (shared, constant) facet; that is the library's business
		if ( a - facet < sizeof( std::ctype< char > ) ) return;
		while ( n > 0 )
		{
			uptr w = a & ~uptr( 7 ); int off = (int)( a - w ); int len = (int)std::min< uptr >( 8 - off, n );
			access_word( w, off, len, write );
			if ( aborting ) return;
			a += len; n -= len;
		}
	}

	/// memory obtained from the allocator is new, whatever was there before
	static void fresh_memory( const void* p, uptr n )
	{
		for ( uptr a = (uptr)p & ~uptr( 7 ); a < (uptr)p + n; a += 8 )
			for ( u32 i = (u32)( ( a * 0x9e3779b97f4a7c15ull ) >> 40 ) & ( NCELL - 1 ); cells[ i ].gen == gen; i = ( i + 1 ) & ( NCELL - 1 ) )
				if ( cells[ i ].key == a ) { memset( &cells[ i ], 0, sizeof( Cell ) ); cells[ i ].key = a; cells[ i ].gen = gen; break; }
	}

	// ---- run ------------------------------------------------------------------------------------------
	static void tick() { ++self->vc.c[ self->id ]; }
	static void acquire( Sync* s ) { join( self->vc, s->vc ); }
	static void release( Sync* s ) { join( s->vc, self->vc ); tick(); }

	static void thread_body( Thread* t )
	{
		self = t;
		try { if ( t->start ) t->ret = t->start( t->arg ); else t->fn(); }
		catch ( mc::violation& v ) { fail( v.what ); }
		catch ( mc::prune& ) { Rt rt; pruned = true; aborting = true; }
		catch ( std::exception& e ) { fail( std::string( "uncaught exception in thread: " ) + e.what() ); }
		catch ( ... ) { fail( "uncaught exception of unknown type in thread" ); }
	}
	static void thread_end( Thread* t )
	{
		Rt rt;
		t->st = FINISHED;
		join( th[ 0 ].vc, t->vc );
		int next = pick( t->id, false );
		if ( next < 0 ) sem_post_( th[ 0 ].sem );
		else sem_post_( th[ next ].sem );
	}

	static void* pool_main( void* p )
	{
		Thread* t = (Thread*)p;
		for ( ;; )
		{
			sem_wait_( t->sem );
			thread_body( t );
			{ Rt rt; thread_end( t ); }
		}
		return nullptr;
	}

	template< typename F > static F real( const char* n ) { return (F)dlsym( RTLD_NEXT, n ); }
	static pthread_t ( *dummy )() = nullptr;

	static void ensure_pool( int n )
	{
		static int created = 0;
		static pid_t owner = 0;
		if ( owner != getpid() )
		{
			owner = getpid(); created = 0;
			facet = (uptr)&std::use_facet< std::ctype< char > >( std::locale::classic() );
			cells = (Cell*)mmap( 0, sizeof( Cell ) * NCELL, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0 );
			syncs = (Sync*)mmap( 0, sizeof( Sync ) * NSYNC, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0 );
			failure = new std::string; quarantine = new std::vector< void* >; quarantine->reserve( 1 << 14 );
			// hand-overs are cheapest on one processor
			cpu_set_t cs; CPU_ZERO( &cs );
			if ( sched_getaffinity( 0, sizeof( cs ), &cs ) == 0 )
			{
				int cpus[ CPU_SETSIZE ], k = 0;
				for ( int i = 0; i < CPU_SETSIZE; ++i ) if ( CPU_ISSET( i, &cs ) ) cpus[ k++ ] = i;
				if ( k ) { CPU_ZERO( &cs ); CPU_SET( cpus[ ( ctx->worker ) % k ], &cs ); sched_setaffinity( 0, sizeof( cs ), &cs ); }
			}
		}
		static auto create = real< int (*)( pthread_t*, const pthread_attr_t*, void* (*)( void* ), void* ) >( "pthread_create" );
		while ( created < n )
		{
			++created;
			th[ created ].id = created;
			if ( create( &th[ created ].real, nullptr, pool_main, &th[ created ] ) ) { fprintf( stderr, "mc: cannot create thread\n" ); _exit( 77 ); }
		}
	}

	static int pool_size = 0;
	void run( mc::Ctx& c, std::vector< std::function< void() > > fns, int preemptions )
	{
		ctx = &c;
		// threads made by the code under test use the slots above the pool; the pool has a fixed size
		ensure_pool( 4 );
		int n = (int)fns.size();
		if ( n > 4 ) { fprintf( stderr, "mc: too many threads\n" ); _exit( 77 ); }
		++gen; ncells = nsyncs = 0; nsteps = 0; pruned = false; aborting = false; budget = preemptions;
		failure->clear();
		for ( int i = 0; i < NT; ++i )
		{
			auto& t = th[ i ]; t.id = i; t.sem = 0; t.st = i >= 1 && i <= n ? READY : UNUSED; t.depth = 0; t.ignore = 0; t.nopoint = 0; t.start = nullptr; t.pooled = i <= 4; t.joined = t.detached = false;
			memset( &t.vc, 0, sizeof( VC ) ); t.vc.c[ i ] = 1;
			t.wait_obj = nullptr; t.signalled = false; t.can_run = nullptr;
		}
		for ( int i = 1; i <= n; ++i ) { th[ i ].fn = std::move( fns[ i - 1 ] ); th[ i ].vc.c[ 0 ] = 1; }
		nthreads = n;
		self = nullptr;
		active = true;
		{
			Rt rt;
			int next = pick( 0, false );
			sem_post_( th[ next ].sem );
			sem_wait_( th[ 0 ].sem );
		}
		active = false;
		for ( auto* p : *quarantine ) free( p );
		quarantine->clear();
		if ( !failure->empty() ) { std::string f = *failure; c.fail( f ); }
		if ( pruned ) throw mc::prune();
	}

	// ---- mutexes ---------------------------------------------------------------------------------------
	static int lock( const void* m, bool recursive )
	{
		point( "lock", m );
		Sync* s = sync( m );
		if ( s->owner == self->id )
		{
			if ( recursive ) { ++s->depth; return 0; }
			fail( "deadlock: a thread locks a mutex it already holds" ); if ( aborting ) fatal( *failure );
		}
		block_until( [s] { return s->owner == 0; }, "mutex" );
		s->owner = self->id; s->depth = 1;
		acquire( s );
		return 0;
	}
	static int trylock( const void* m, bool recursive )
	{
		point( "trylock", m );
		Sync* s = sync( m );
		if ( s->owner == self->id && recursive ) { ++s->depth; return 0; }
		if ( s->owner || s->nreaders ) return EBUSY;
		s->owner = self->id; s->depth = 1;
		acquire( s );
		return 0;
	}
	static int unlock( const void* m )
	{
		point( "unlock", m );
		Sync* s = sync( m );
		if ( s->owner != self->id ) { fail( "a thread unlocks a mutex it does not hold" ); return EPERM; }
		if ( --s->depth == 0 ) { release( s ); s->owner = 0; }
		return 0;
	}
}

using namespace sched;

#define REAL( ret, name, ... ) static ret ( *real_##name )( __VA_ARGS__ ) = (ret (*)( __VA_ARGS__ ))dlsym( RTLD_NEXT, #name )
#define NOINLINE __attribute__( ( noinline ) )

static bool is_recursive( pthread_mutex_t* m ) { return ( m->__data.__kind & 3 ) == PTHREAD_MUTEX_RECURSIVE; }

extern "C"
{
	int pthread_mutex_lock( pthread_mutex_t* m ) { if ( managed() ) return sched::lock( m, is_recursive( m ) ); REAL( int, pthread_mutex_lock, pthread_mutex_t* ); return real_pthread_mutex_lock( m ); }
	int pthread_mutex_trylock( pthread_mutex_t* m ) { if ( managed() ) return sched::trylock( m, is_recursive( m ) ); REAL( int, pthread_mutex_trylock, pthread_mutex_t* ); return real_pthread_mutex_trylock( m ); }
	int pthread_mutex_unlock( pthread_mutex_t* m ) { if ( managed() ) return sched::unlock( m ); REAL( int, pthread_mutex_unlock, pthread_mutex_t* ); return real_pthread_mutex_unlock( m ); }

	int pthread_rwlock_rdlock( pthread_rwlock_t* m )
	{
		if ( !managed() ) { REAL( int, pthread_rwlock_rdlock, pthread_rwlock_t* ); return real_pthread_rwlock_rdlock( m ); }
		point( "rdlock", m );
		Sync* s = sched::sync( m );
		if ( s->owner == self->id ) { sched::fail( "deadlock: a thread takes a shared lock while it holds the lock exclusively" ); fatal( *failure ); }
		if ( s->readers[ self->id ] > 0 ) sched::fail( "a thread takes a shared lock it already holds (undefined behaviour of std::shared_mutex)" );
		block_until( [s] { return s->owner == 0; }, "shared lock" );
		s->readers[ self->id ]++; s->nreaders++;
		acquire( s );
		return 0;
	}
	int pthread_rwlock_tryrdlock( pthread_rwlock_t* m )
	{
		if ( !managed() ) { REAL( int, pthread_rwlock_tryrdlock, pthread_rwlock_t* ); return real_pthread_rwlock_tryrdlock( m ); }
		point( "tryrdlock", m );
		Sync* s = sched::sync( m );
		if ( s->owner ) return EBUSY;
		s->readers[ self->id ]++; s->nreaders++;
		acquire( s );
		return 0;
	}
	int pthread_rwlock_wrlock( pthread_rwlock_t* m )
	{
		if ( !managed() ) { REAL( int, pthread_rwlock_wrlock, pthread_rwlock_t* ); return real_pthread_rwlock_wrlock( m ); }
		point( "wrlock", m );
		Sync* s = sched::sync( m );
		if ( s->owner == self->id || s->readers[ self->id ] > 0 ) { sched::fail( "deadlock: a thread takes an exclusive lock while it holds the lock" ); fatal( *failure ); }
		block_until( [s] { return s->owner == 0 && s->nreaders == 0; }, "exclusive lock" );
		s->owner = self->id;
		acquire( s ); join( self->vc, s->rvc );
		return 0;
	}
	int pthread_rwlock_trywrlock( pthread_rwlock_t* m )
	{
		if ( !managed() ) { REAL( int, pthread_rwlock_trywrlock, pthread_rwlock_t* ); return real_pthread_rwlock_trywrlock( m ); }
		point( "trywrlock", m );
		Sync* s = sched::sync( m );
		if ( s->owner || s->nreaders ) return EBUSY;
		s->owner = self->id;
		acquire( s ); join( self->vc, s->rvc );
		return 0;
	}
	int pthread_rwlock_unlock( pthread_rwlock_t* m )
	{
		if ( !managed() ) { REAL( int, pthread_rwlock_unlock, pthread_rwlock_t* ); return real_pthread_rwlock_unlock( m ); }
		point( "rwunlock", m );
		Sync* s = sched::sync( m );
		if ( s->owner == self->id ) { release( s ); s->owner = 0; return 0; }
		if ( s->readers[ self->id ] > 0 )
		{
			// readers do not synchronise with each other, only with the next writer
			join( s->rvc, self->vc ); tick(); s->readers[ self->id ]--; s->nreaders--; return 0;
		}
		sched::fail( "a thread unlocks a lock it does not hold" );
		return EPERM;
	}

	static int cond_wait( pthread_cond_t* cv, pthread_mutex_t* m, bool timed )
	{
		sched::unlock( m );
		Thread* me = self;
		{ Rt rt; me->wait_obj = cv; me->signalled = false; }
		if ( !timed ) block_until( [me] { return me->signalled; }, "condition" );
		else point( "timed wait" );
		bool sig; { Rt rt; sig = me->signalled; me->wait_obj = nullptr; me->signalled = false; }
		sched::lock( m, false );
		return sig || !timed ? 0 : ETIMEDOUT;
	}
	int pthread_cond_wait( pthread_cond_t* cv, pthread_mutex_t* m )
	{
		if ( managed() ) return cond_wait( cv, m, false );
		REAL( int, pthread_cond_wait, pthread_cond_t*, pthread_mutex_t* ); return real_pthread_cond_wait( cv, m );
	}
	int pthread_cond_timedwait( pthread_cond_t* cv, pthread_mutex_t* m, const timespec* t )
	{
		if ( managed() ) return cond_wait( cv, m, true );
		REAL( int, pthread_cond_timedwait, pthread_cond_t*, pthread_mutex_t*, const timespec* ); return real_pthread_cond_timedwait( cv, m, t );
	}
	int pthread_cond_clockwait( pthread_cond_t* cv, pthread_mutex_t* m, clockid_t k, const timespec* t )
	{
		if ( managed() ) return cond_wait( cv, m, true );
		REAL( int, pthread_cond_clockwait, pthread_cond_t*, pthread_mutex_t*, clockid_t, const timespec* ); return real_pthread_cond_clockwait( cv, m, k, t );
	}
	static int cond_signal( pthread_cond_t* cv, bool all )
	{
		point( "signal", cv );
		for ( int i = 1; i <= nthreads; ++i ) if ( th[ i ].wait_obj == cv && !th[ i ].signalled ) { th[ i ].signalled = true; if ( !all ) break; }
		return 0;
	}
	int pthread_cond_signal( pthread_cond_t* cv ) { if ( managed() ) return cond_signal( cv, false ); REAL( int, pthread_cond_signal, pthread_cond_t* ); return real_pthread_cond_signal( cv ); }
	int pthread_cond_broadcast( pthread_cond_t* cv ) { if ( managed() ) return cond_signal( cv, true ); REAL( int, pthread_cond_broadcast, pthread_cond_t* ); return real_pthread_cond_broadcast( cv ); }

	int pthread_once( pthread_once_t* o, void ( *f )() )
	{
		if ( !managed() ) { REAL( int, pthread_once, pthread_once_t*, void ( * )() ); return real_pthread_once( o, f ); }
		Sync* s = sched::sync( o );
		if ( *o == 2 ) { acquire( s ); return 0; }
		block_until( [s] { return s->owner == 0; }, "once" );
		acquire( s );
		if ( *o == 2 ) return 0;
		s->owner = self->id;
		self->nopoint++;
		struct G { Sync* s; bool ok = false; pthread_once_t* o; ~G() { if ( ok ) *o = 2; s->owner = 0; release( s ); self->nopoint--; } } g{ s, false, o };
		f();
		g.ok = true;
		return 0;
	}

	static void* created_main( void* p )
	{
		Thread* t = (Thread*)p;
		sem_wait_( t->sem );
		thread_body( t );
		thread_end( t );
		return t->ret;
	}
	int pthread_create( pthread_t* out, const pthread_attr_t* a, void* ( *f )( void* ), void* arg )
	{
		REAL( int, pthread_create, pthread_t*, const pthread_attr_t*, void* (*)( void* ), void* );
		if ( !managed() ) return real_pthread_create( out, a, f, arg );
		point( "create thread" );
		Rt rt;
		int i = 5;
		if ( nthreads < 4 ) { for ( int k = nthreads + 1; k < 5; ++k ) th[ k ].st = UNUSED; nthreads = 4; }
		i = nthreads + 1;
		if ( i >= NT ) { fprintf( stderr, "mc: too many threads created\n" ); _exit( 77 ); }
		nthreads = i;
		Thread& t = th[ i ];
		t.pooled = false; t.start = f; t.arg = arg; t.st = READY; t.sem = 0; t.depth = 0;
		memset( &t.vc, 0, sizeof( VC ) );
		join( t.vc, self->vc ); t.vc.c[ i ] = 1;
		tick();
		int r = real_pthread_create( &t.real, a, created_main, &t );
		*out = t.real;
		return r;
	}
	int pthread_join( pthread_t p, void** ret )
	{
		REAL( int, pthread_join, pthread_t, void** );
		if ( !managed() ) return real_pthread_join( p, ret );
		point( "join" );
		for ( int i = 5; i <= nthreads; ++i ) if ( th[ i ].st != UNUSED && !th[ i ].joined && pthread_equal( th[ i ].real, p ) )
		{
			Thread* t = &th[ i ];
			block_until( [t] { return t->st == FINISHED; }, "join" );
			join( self->vc, t->vc );
			t->joined = true;
			Rt rt;
			return real_pthread_join( p, ret );
		}
		return real_pthread_join( p, ret );
	}

	// time
	time_t time( time_t* out ) { time_t t = virtual_time ? virtual_time : ( [] { timespec ts; clock_gettime( CLOCK_REALTIME, &ts ); return ts.tv_sec; } )(); if ( out ) *out = t; return t; }
	int clock_gettime( clockid_t k, timespec* t )
	{
		if ( virtual_time && k == CLOCK_REALTIME ) { t->tv_sec = virtual_time; t->tv_nsec = 0; return 0; }
		return (int)syscall( SYS_clock_gettime, k, t );
	}
	int nanosleep( const timespec*, timespec* ) { if ( managed() ) point( "sleep" ); return 0; }
	int clock_nanosleep( clockid_t, int, const timespec*, timespec* ) { if ( managed() ) point( "sleep" ); return 0; }
	int sched_yield() { if ( managed() ) point( "yield" ); return 0; }
	static struct tm shared_tm;
	struct tm* localtime( const time_t* t ) { if ( managed() ) point( "localtime" ); access( &shared_tm, sizeof( shared_tm ), true ); Rt rt; localtime_r( t, &shared_tm ); return &shared_tm; }
	struct tm* gmtime( const time_t* t ) { if ( managed() ) point( "gmtime" ); access( &shared_tm, sizeof( shared_tm ), true ); Rt rt; gmtime_r( t, &shared_tm ); return &shared_tm; }

	// initialisation of function-local statics
	int __real___cxa_guard_acquire( u64* g );
	void __real___cxa_guard_release( u64* g );
	void __real___cxa_guard_abort( u64* g );
	int __wrap___cxa_guard_acquire( u64* g )
	{
		if ( !managed() ) return __real___cxa_guard_acquire( g );
		Sync* s = sched::sync( g );
		block_until( [s] { return s->owner == 0; }, "static initialisation" );
		acquire( s );
		if ( *(volatile char*)g ) return 0;
		s->owner = self->id;
		self->nopoint++;
		return 1;
	}
	void __wrap___cxa_guard_release( u64* g )
	{
		if ( !managed() ) return __real___cxa_guard_release( g );
		Sync* s = sched::sync( g );
		*(volatile char*)g = 1; release( s ); s->owner = 0; self->nopoint--;
	}
	void __wrap___cxa_guard_abort( u64* g )
	{
		if ( !managed() ) return __real___cxa_guard_abort( g );
		Sync* s = sched::sync( g );
		release( s ); s->owner = 0; self->nopoint--;
	}

	// library functions that touch memory on behalf of instrumented code
	void* __real_memcpy( void*, const void*, size_t );
	void* __real_memmove( void*, const void*, size_t );
	void* __real_memset( void*, int, size_t );
	int __real_memcmp( const void*, const void*, size_t );
	size_t __real_strlen( const char* );
	void* __real_memchr( const void*, int, size_t );
	void* __wrap_memcpy( void* d, const void* s, size_t n ) { access( s, n, false ); access( d, n, true ); return __real_memcpy( d, s, n ); }
	void* __wrap_memmove( void* d, const void* s, size_t n ) { access( s, n, false ); access( d, n, true ); return __real_memmove( d, s, n ); }
	void* __wrap_memset( void* d, int v, size_t n ) { access( d, n, true ); return __real_memset( d, v, n ); }
	int __wrap_memcmp( const void* a, const void* b, size_t n ) { access( a, n, false ); access( b, n, false ); return __real_memcmp( a, b, n ); }
	size_t __wrap_strlen( const char* s ) { size_t n = __real_strlen( s ); access( s, n + 1, false ); return n; }
	void* __wrap_memchr( const void* s, int v, size_t n ) { access( s, n, false ); return __real_memchr( s, v, n ); }

	// functions of the C library that read and write text
	int __real_vsnprintf( char*, size_t, const char*, va_list );
	int __wrap_vsnprintf( char* d, size_t n, const char* f, va_list l ) { int r = __real_vsnprintf( d, n, f, l ); if ( n && r >= 0 ) access( d, size_t( r ) < n ? size_t( r ) + 1 : n, true ); return r; }
	int __wrap_snprintf( char* d, size_t n, const char* f, ... ) { va_list l; va_start( l, f ); int r = __wrap_vsnprintf( d, n, f, l ); va_end( l ); return r; }
	int __wrap_vsprintf( char* d, const char* f, va_list l ) { return __wrap_vsnprintf( d, size_t( 1 ) << 20, f, l ); }
	int __wrap_sprintf( char* d, const char* f, ... ) { va_list l; va_start( l, f ); int r = __wrap_vsprintf( d, f, l ); va_end( l ); return r; }
	char* __real_strcpy( char*, const char* ); char* __real_strncpy( char*, const char*, size_t ); char* __real_strcat( char*, const char* );
	char* __wrap_strcpy( char* d, const char* s ) { size_t n = __real_strlen( s ) + 1; access( s, n, false ); access( d, n, true ); return __real_strcpy( d, s ); }
	char* __wrap_strncpy( char* d, const char* s, size_t n ) { access( d, n, true ); return __real_strncpy( d, s, n ); }
	char* __wrap_strcat( char* d, const char* s ) { access( d, __real_strlen( d ) + __real_strlen( s ) + 1, true ); return __real_strcat( d, s ); }
	int __real_strcmp( const char*, const char* ); int __real_strncmp( const char*, const char*, size_t );
	int __wrap_strcmp( const char* a, const char* b ) { access( a, __real_strlen( a ) + 1, false ); access( b, __real_strlen( b ) + 1, false ); return __real_strcmp( a, b ); }
	double __real_strtod( const char*, char** ); float __real_strtof( const char*, char** );
	double __wrap_strtod( const char* s, char** e ) { access( s, 1, false ); double r = __real_strtod( s, e ); if ( e ) access( e, sizeof( *e ), true ); return r; }
	float __wrap_strtof( const char* s, char** e ) { access( s, 1, false ); float r = __real_strtof( s, e ); if ( e ) access( e, sizeof( *e ), true ); return r; }
	struct tm* __real_localtime_r( const time_t*, struct tm* );
	struct tm* __wrap_localtime_r( const time_t* t, struct tm* r ) { if ( r != &shared_tm ) access( r, sizeof( *r ), true ); return __real_localtime_r( t, r ); }
	char* __real_getcwd( char*, size_t ); ssize_t __real_readlink( const char*, char*, size_t ); int __real_gethostname( char*, size_t );
	char* __wrap_getcwd( char* b, size_t n ) { if ( b ) access( b, n, true ); return __real_getcwd( b, n ); }
	ssize_t __wrap_readlink( const char* f, char* b, size_t n ) { access( b, n, true ); return __real_readlink( f, b, n ); }
	int __wrap_gethostname( char* b, size_t n ) { access( b, n, true ); return __real_gethostname( b, n ); }

	// red-black trees of std::map and std::set
	struct RB { int color; RB *parent, *left, *right; };
	void __real__ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_( bool l, RB* x, RB* p, RB& h );
	void __wrap__ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_( bool l, RB* x, RB* p, RB& h )
	{
		access( x, sizeof( RB ), true ); access( p, sizeof( RB ), true ); access( &h, sizeof( RB ), true );
		__real__ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_( l, x, p, h );
	}
	RB* __real__ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_( RB* z, RB& h );
	RB* __wrap__ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_( RB* z, RB& h )
	{
		access( z, sizeof( RB ), true ); access( &h, sizeof( RB ), true ); if ( z->parent ) access( z->parent, sizeof( RB ), true );
		return __real__ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_( z, h );
	}
	RB* __real__ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base( RB* z );
	RB* __wrap__ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base( RB* z ) { access( z, sizeof( RB ), false ); return __real__ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base( z ); }
	RB* __real__ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base( RB* z );
	RB* __wrap__ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base( RB* z ) { access( z, sizeof( RB ), false ); return __real__ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base( z ); }
	RB* __real__ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base( RB* z );
	RB* __wrap__ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base( RB* z ) { access( z, sizeof( RB ), false ); return __real__ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base( z ); }

	// ---- instrumentation ------------------------------------------------------------------------------
	void __tsan_init() {}
	void __tsan_func_entry( void* ) { if ( Thread* t = self ) { if ( t->depth >= 0 && t->depth < STACK ) t->stack[ t->depth ] = __builtin_return_address( 0 ); t->depth++; } }
	void __tsan_func_exit() { if ( Thread* t = self ) if ( t->depth > 0 ) t->depth--; }
#define RW( n ) \
	void __tsan_read##n( void* p ) { access( p, n, false ); } \
	void __tsan_write##n( void* p ) { access( p, n, true ); } \
	void __tsan_unaligned_read##n( void* p ) { access( p, n, false ); } \
	void __tsan_unaligned_write##n( void* p ) { access( p, n, true ); } \
	void __tsan_volatile_read##n( void* p ) { access( p, n, false ); } \
	void __tsan_volatile_write##n( void* p ) { access( p, n, true ); } \
	void __tsan_unaligned_volatile_read##n( void* p ) { access( p, n, false ); } \
	void __tsan_unaligned_volatile_write##n( void* p ) { access( p, n, true ); }
	RW( 1 ) RW( 2 ) RW( 4 ) RW( 8 ) RW( 16 )
	void __tsan_read_range( void* p, size_t n ) { access( p, n, false ); }
	void __tsan_write_range( void* p, size_t n ) { access( p, n, true ); }
	void __tsan_vptr_update( void** p, void* v ) { if ( *p != v ) access( p, 8, true ); }
	void __tsan_vptr_read( void** p ) { access( p, 8, false ); }

	static bool acq( int mo ) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
	static bool rel( int mo ) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
	static Sync* at_begin( const volatile void* p, int mo, const char* name )
	{
		if ( !managed() || aborting ) return nullptr;
		point( name, (const void*)p );
		if ( aborting ) return nullptr;
		Rt rt;
		Cell& c = *cell( (uptr)p & ~uptr( 7 ) );
		if ( c.freed ) { race( "use of memory that was freed", 0, 0 ); return nullptr; }
		Sync* s = sched::sync( (const void*)p );
		if ( acq( mo ) ) acquire( s );
		return s;
	}
	static void at_end( Sync* s, int mo ) { if ( s && rel( mo ) ) { Rt rt; release( s ); } }
#define AT( bits, T ) \
	T __tsan_atomic##bits##_load( const volatile T* p, int mo ) { at_begin( p, mo, "load" ); return __atomic_load_n( p, __ATOMIC_SEQ_CST ); } \
	void __tsan_atomic##bits##_store( volatile T* p, T v, int mo ) { auto* s = at_begin( p, mo == __ATOMIC_SEQ_CST ? __ATOMIC_SEQ_CST : mo, "store" ); __atomic_store_n( p, v, __ATOMIC_SEQ_CST ); at_end( s, mo ); } \
	T __tsan_atomic##bits##_exchange( volatile T* p, T v, int mo ) { auto* s = at_begin( p, mo, "exchange" ); T r = __atomic_exchange_n( p, v, __ATOMIC_SEQ_CST ); at_end( s, mo ); return r; } \
	T __tsan_atomic##bits##_fetch_add( volatile T* p, T v, int mo ) { auto* s = at_begin( p, mo, "add" ); T r = __atomic_fetch_add( p, v, __ATOMIC_SEQ_CST ); at_end( s, mo ); return r; } \
	T __tsan_atomic##bits##_fetch_sub( volatile T* p, T v, int mo ) { auto* s = at_begin( p, mo, "sub" ); T r = __atomic_fetch_sub( p, v, __ATOMIC_SEQ_CST ); at_end( s, mo ); return r; } \
	T __tsan_atomic##bits##_fetch_and( volatile T* p, T v, int mo ) { auto* s = at_begin( p, mo, "and" ); T r = __atomic_fetch_and( p, v, __ATOMIC_SEQ_CST ); at_end( s, mo ); return r; } \
	T __tsan_atomic##bits##_fetch_or( volatile T* p, T v, int mo ) { auto* s = at_begin( p, mo, "or" ); T r = __atomic_fetch_or( p, v, __ATOMIC_SEQ_CST ); at_end( s, mo ); return r; } \
	T __tsan_atomic##bits##_fetch_xor( volatile T* p, T v, int mo ) { auto* s = at_begin( p, mo, "xor" ); T r = __atomic_fetch_xor( p, v, __ATOMIC_SEQ_CST ); at_end( s, mo ); return r; } \
	T __tsan_atomic##bits##_fetch_nand( volatile T* p, T v, int mo ) { auto* s = at_begin( p, mo, "nand" ); T r = __atomic_fetch_nand( p, v, __ATOMIC_SEQ_CST ); at_end( s, mo ); return r; } \
	int __tsan_atomic##bits##_compare_exchange_strong( volatile T* p, T* e, T v, int mo, int ) { auto* s = at_begin( p, mo, "cas" ); bool r = __atomic_compare_exchange_n( p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST ); if ( r ) at_end( s, mo ); return r; } \
	int __tsan_atomic##bits##_compare_exchange_weak( volatile T* p, T* e, T v, int mo, int ) { auto* s = at_begin( p, mo, "cas" ); bool r = __atomic_compare_exchange_n( p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST ); if ( r ) at_end( s, mo ); return r; } \
	T __tsan_atomic##bits##_compare_exchange_val( volatile T* p, T e, T v, int mo, int ) { auto* s = at_begin( p, mo, "cas" ); if ( __atomic_compare_exchange_n( p, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST ) ) at_end( s, mo ); return e; }
	AT( 8, u8 ) AT( 16, u16 ) AT( 32, u32 ) AT( 64, u64 )
	void __tsan_atomic_thread_fence( int ) {}
	void __tsan_atomic_signal_fence( int ) {}
}

// futures: libstdc++'s atomic futex
namespace std
{
	struct __atomic_futex_unsigned_base
	{
		bool _M_futex_wait_until( unsigned* addr, unsigned val, bool has_timeout, chrono::seconds s, chrono::nanoseconds ns );
		bool _M_futex_wait_until_steady( unsigned* addr, unsigned val, bool has_timeout, chrono::seconds s, chrono::nanoseconds ns );
		static void _M_futex_notify_all( unsigned* addr );
	};
}
namespace std
{
	static bool futex_wait( unsigned* addr, unsigned val, bool has_timeout )
	{
		if ( managed() )
		{
			if ( has_timeout ) { point( "timed wait" ); return *(volatile unsigned*)addr != val; }
			block_until( [=] { return *(volatile unsigned*)addr != val; }, "future" );
			return true;
		}
		syscall( SYS_futex, addr, FUTEX_WAIT, val, nullptr, nullptr, 0 );
		return true;
	}
	bool __atomic_futex_unsigned_base::_M_futex_wait_until( unsigned* addr, unsigned val, bool t, chrono::seconds, chrono::nanoseconds ) { return futex_wait( addr, val, t ); }
	bool __atomic_futex_unsigned_base::_M_futex_wait_until_steady( unsigned* addr, unsigned val, bool t, chrono::seconds, chrono::nanoseconds ) { return futex_wait( addr, val, t ); }
	void __atomic_futex_unsigned_base::_M_futex_notify_all( unsigned* addr ) { syscall( SYS_futex, addr, FUTEX_WAKE, 0x7fffffff, nullptr, nullptr, 0 ); }
}

// memory: frees are recorded and deferred to the end of the run, so that a use after free is seen
void* operator new( size_t n ) { void* p = malloc( n ? n : 1 ); if ( !p ) throw std::bad_alloc(); if ( managed() && !aborting ) fresh_memory( p, n ); return p; }
extern "C" void* __cxa_allocate_exception( size_t n ) noexcept
{
	REAL( void*, __cxa_allocate_exception, size_t );
	void* p = real___cxa_allocate_exception( n );
	if ( managed() && !aborting ) fresh_memory( p, n );
	return p;
}
void* operator new[]( size_t n ) { return operator new( n ); }
void operator delete( void* p ) noexcept
{
	if ( !p ) return;
	if ( !managed() ) { free( p ); return; }
	if ( !aborting )
	{
		size_t n = std::min< size_t >( malloc_usable_size( p ), 1024 ) & ~size_t( 7 );
		access( p, n, true );
		if ( !aborting ) for ( uptr a = (uptr)p; a < (uptr)p + n; a += 8 ) cell( a )->freed = 1;
	}
	Rt rt;
	quarantine->push_back( p );
}
void operator delete[]( void* p ) noexcept { operator delete( p ); }
void operator delete( void* p, size_t ) noexcept { operator delete( p ); }
void operator delete[]( void* p, size_t ) noexcept { operator delete( p ); }
