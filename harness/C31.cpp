// MC: mode=sched
// Stop sources and tokens, interruptible objects: histories of copies, moves and requests, and all schedules.
#include "mc.h"
#include "mcsched.h"
#include <optional>
#include "xo/thread/stop_token.h"
#include "xo/thread/interruptible.h"

#define SINGLE( ... ) sched::run( c, { [&] { __VA_ARGS__; } }, 0 )

MC_SUITE( "histories of sources and tokens" )
{
	SINGLE(
		// the reference: every object names a group (or none), and every group is requested or not
		constexpr int NS = 2; constexpr int NTOK = 3;
		std::optional< xo::stop_source > src[ NS ]; int sg[ NS ] = { -1, -1 };
		std::optional< xo::stop_token > tok[ NTOK ]; int tg[ NTOK ] = { -1, -1, -1 };
		std::vector< bool > req;
		src[ 0 ].emplace(); sg[ 0 ] = 0; req.push_back( false );
		int depth = c.thorough ? 7 : 6;
		for ( int d = 0; d < depth; ++d )
		{
			int op = c.choose( 11 );
			int s = op <= 4 || op == 5 ? c.choose( NS ) : 0; int t = op >= 5 ? c.choose( NTOK ) : 0;
			switch ( op )
			{
			case 0: c.op( "s%d=new", s ); src[ s ].emplace(); sg[ s ] = (int)req.size(); req.push_back( false ); break;
			case 1: if ( !src[ s ] ) throw mc::prune(); c.op( "s%d=copy s%d", 1 - s, s ); if ( src[ 1 - s ] ) *src[ 1 - s ] = *src[ s ]; else src[ 1 - s ].emplace( *src[ s ] ); sg[ 1 - s ] = sg[ s ]; break;
			case 2: if ( !src[ s ] ) throw mc::prune(); c.op( "s%d=move s%d", 1 - s, s ); if ( src[ 1 - s ] ) *src[ 1 - s ] = std::move( *src[ s ] ); else src[ 1 - s ].emplace( std::move( *src[ s ] ) ); sg[ 1 - s ] = sg[ s ]; sg[ s ] = -1; break;
			case 3: if ( !src[ s ] ) throw mc::prune(); c.op( "destroy s%d", s ); src[ s ].reset(); sg[ s ] = -1; break;
			case 4: if ( !src[ s ] ) throw mc::prune(); c.op( "request s%d", s ); { bool r = src[ s ]->request_stop(); if ( sg[ s ] >= 0 ) req[ sg[ s ] ] = true; else c.check( !r, "a request without stop state is reported as made" ); } break;
			case 5: if ( !src[ s ] ) throw mc::prune(); c.op( "t%d=token of s%d", t, s ); tok[ t ] = src[ s ]->get_token(); tg[ t ] = sg[ s ]; break;
			case 6: if ( !tok[ t ] ) throw mc::prune(); { int u = ( t + 1 ) % NTOK; c.op( "t%d=copy t%d", u, t ); tok[ u ] = tok[ t ]; tg[ u ] = tg[ t ]; } break;
			case 7: if ( !tok[ t ] ) throw mc::prune(); { int u = ( t + 1 ) % NTOK; c.op( "t%d=move t%d", u, t ); tok[ u ] = std::move( *tok[ t ] ); tg[ u ] = tg[ t ]; tg[ t ] = -1; } break;
			case 8: c.op( "t%d=none", t ); tok[ t ].emplace(); tg[ t ] = -1; break;
			case 9: if ( !tok[ t ] ) throw mc::prune(); c.op( "destroy t%d", t ); tok[ t ].reset(); tg[ t ] = -1; break;
			case 10: { int u = ( t + 2 ) % NTOK; if ( !tok[ t ] || !tok[ u ] ) throw mc::prune(); c.op( "swap t%d t%d", t, u ); std::swap( *tok[ t ], *tok[ u ] ); std::swap( tg[ t ], tg[ u ] ); } break;
			}
			std::string st;
			for ( int i = 0; i < NS; ++i ) if ( src[ i ] )
			{
				c.eq( src[ i ]->stop_requested(), sg[ i ] >= 0 && req[ sg[ i ] ], "source sees the request" );
				c.eq( src[ i ]->stop_possible(), sg[ i ] >= 0, "source has a stop state" );
				c.eq( src[ i ]->get_token().stop_requested(), sg[ i ] >= 0 && req[ sg[ i ] ], "fresh token sees the request" );
				st += 's' + std::to_string( sg[ i ] ) + ( sg[ i ] >= 0 && req[ sg[ i ] ] ? "!" : "" );
			}
			for ( int i = 0; i < NTOK; ++i ) if ( tok[ i ] )
			{
				c.eq( tok[ i ]->stop_requested(), tg[ i ] >= 0 && req[ tg[ i ] ], "token sees the request" );
				c.eq( tok[ i ]->stop_possible(), tg[ i ] >= 0, "token has a stop state" );
				st += 't' + std::to_string( tg[ i ] ) + ( tg[ i ] >= 0 && req[ tg[ i ] ] ? "!" : "" );
			}
			c.state( st );
			if ( c.seen( st + "/" + std::to_string( src[ 0 ].has_value() ) + std::to_string( src[ 1 ].has_value() ) + std::to_string( tok[ 0 ].has_value() ) + std::to_string( tok[ 1 ].has_value() ) + std::to_string( tok[ 2 ].has_value() ), depth - d ) ) throw mc::prune();
		}
	);
}

struct worker : xo::interruptible { int payload = 0; };
MC_SUITE( "histories of interruptible objects" )
{
	worker a, b; bool fa = false, fb = false;
	for ( int d = 0; d < 5; ++d )
	{
		int op = c.choose( 5 );
		if ( op == 0 ) { c.op( "a.interrupt" ); a.interrupt(); fa = true; }
		else if ( op == 1 ) { c.op( "b.interrupt" ); static_cast< const xo::interruptible& >( b ).interrupt(); fb = true; }
		else if ( op == 2 ) { c.op( "b=a" ); b = a; fb = fa; }
		else if ( op == 3 ) { c.op( "copy of a" ); worker x( a ); c.eq( x.test_interrupt_flag(), fa, "copied flag" ); x.interrupt(); }
		else { c.op( "fresh object" ); worker x; c.eq( x.test_interrupt_flag(), false, "initial flag" ); }
		c.eq( a.test_interrupt_flag(), fa, "flag of a" );
		c.eq( b.test_interrupt_flag(), fb, "flag of b" );
	}
}

/// preemption bound by number of threads; chosen such that every suite finishes
static int bound( mc::Ctx& c, int threads ) { return threads <= 2 ? ( c.thorough ? 7 : 5 ) : threads == 3 ? ( c.thorough ? 4 : 3 ) : 2; }
/// requesters and pollers; the order of a completed request and a later poll is recorded through an atomic
template< typename Req, typename Poll > static void concurrent( mc::Ctx& c, int nreq, int npoll, int polls, Req request, Poll poll, int pb )
{
	static std::atomic< int > done; done.store( 0 );
	int data[ 3 ] = {}; // written before the request, read by whoever has seen it
	std::vector< std::function< void() > > f;
	std::vector< int > seen( npoll );
	for ( int r = 0; r < nreq; ++r ) f.push_back( [&, r] { if ( nreq == 1 ) data[ r ] = 42; request( r ); done.store( 1 ); } );
	for ( int p = 0; p < npoll; ++p ) f.push_back( [&, p] {
		bool before = false;
		for ( int i = 0; i < polls; ++i )
		{
			bool completed = done.load() != 0;
			bool s = poll( p );
			sched::check( s || !completed, "a completed request is not seen" );
			sched::check( s || !before, "a request was withdrawn" );
			if ( s && nreq == 1 ) sched::check( data[ 0 ] == 42, "what was written before the request is not visible after it" );
			before = s; seen[ p ] += s;
		}
	} );
	sched::run( c, f, pb );
	for ( int p = 0; p < npoll; ++p ) c.check( poll( p ), "a request is lost" );
	c.state( mc::show( seen ) );
}

MC_SUITE( "schedules: request and poll" )
{
	int nreq = 1 + c.choose( 2 ), npoll = 1 + c.choose( 2 ), polls = 1 + c.choose( nreq + npoll <= 2 ? 3 : nreq + npoll <= 3 ? 2 : c.thorough ? 2 : 1 );
	int how = c.choose( 3 );
	c.note( "%d requesters, %d pollers, %d polls, form %d", nreq, npoll, polls, how );
	xo::stop_source src[ 2 ] = { xo::stop_source(), xo::stop_source() };
	src[ 1 ] = src[ 0 ];
	xo::stop_source other;
	xo::stop_token t[ 2 ] = { src[ 0 ].get_token(), src[ 1 ].get_token() };
	auto ot = other.get_token();
	concurrent( c, nreq, npoll, polls, [&]( int r ) {
		if ( how == 2 ) { xo::stop_source mine( src[ r ] ); mine.request_stop(); } // a copy that goes away
		else src[ r ].request_stop();
	}, [&]( int p ) {
		if ( ot.stop_requested() ) sched::fail( "a request is seen by a token of another source" );
		if ( how == 1 ) { auto copy = t[ p ]; auto moved = std::move( copy ); return moved.stop_requested(); }
		return t[ p ].stop_requested();
	}, bound( c, nreq + npoll ) );
}
MC_SUITE( "schedules: the source ends before the tokens" )
{
	int npoll = 1 + c.choose( 2 );
	auto src = std::make_unique< xo::stop_source >();
	xo::stop_token t[ 2 ] = { src->get_token(), src->get_token() };
	concurrent( c, 1, npoll, 2, [&]( int ) { src->request_stop(); src.reset(); }, [&]( int p ) { xo::stop_token copy = t[ p ]; return copy.stop_requested(); }, bound( c, 1 + npoll ) );
}
MC_SUITE( "schedules: tokens made from a shared source" )
{
	xo::stop_source src;
	concurrent( c, 1, 2, 2, [&]( int ) { src.request_stop(); }, [&]( int ) { return src.get_token().stop_requested(); }, bound( c, 3 ) );
}
MC_SUITE( "schedules: interruptible" )
{
	int nreq = 1 + c.choose( 2 ), npoll = 1 + c.choose( 2 ), polls = 1 + c.choose( nreq + npoll <= 2 ? 3 : nreq + npoll <= 3 ? 2 : c.thorough ? 2 : 1 );
	c.note( "%d requesters, %d pollers, %d polls", nreq, npoll, polls );
	worker w;
	concurrent( c, nreq, npoll, polls, [&]( int ) { w.interrupt(); }, [&]( int ) { return w.test_interrupt_flag(); }, bound( c, nreq + npoll ) );
}
MC_SUITE( "many sources and tokens" )
{
	int n = c.pick( { 1, 2, 7, 8, 16, 17, 33, 64, 65, 100, 257 } ), groups = c.pick( { 1, 2, 3, 8 } ), who = c.choose( 3 ), drop = c.choose( 4 ); c.op( "%d tokens of %d groups, request by %d, drop %d", n, groups, who, drop ); c.state( ( ( n * 10 + groups ) * 3 + who ) * 4 + drop );
	SINGLE(
		std::vector< xo::stop_source > src( groups ); std::vector< std::vector< xo::stop_source > > copies( groups ); std::vector< xo::stop_token > tok; std::vector< int > g;
		for ( int i = 0; i < n; ++i ) { int k = i % groups; if ( i % 3 == 2 ) copies[ k ].push_back( src[ k ] ); if ( i % 2 && i >= groups ) tok.push_back( tok[ i - groups ] ); else if ( copies[ k ].empty() ) tok.push_back( src[ k ].get_token() ); else tok.push_back( copies[ k ].back().get_token() ); g.push_back( k ); }
		for ( int k = 0; k < groups; ++k )
		{
			for ( int i = 0; i < n; ++i ) c.eq( tok[ i ].stop_requested(), g[ i ] < k, "before the request" );
			if ( drop == 1 ) tok.erase( tok.begin() ), g.erase( g.begin() ), tok.push_back( src[ 0 ].get_token() ), g.push_back( 0 ); if ( drop == 2 ) std::reverse( tok.begin(), tok.end() ), std::reverse( g.begin(), g.end() );
			if ( who == 0 || copies[ k ].empty() ) src[ k ].request_stop(); else if ( who == 1 ) copies[ k ].back().request_stop(); else { copies[ k ].front().request_stop(); copies[ k ].clear(); }
			if ( drop == 3 ) src[ k ] = xo::stop_source();
			for ( int i = 0; i < n; ++i ) c.eq( tok[ i ].stop_requested(), g[ i ] <= k, "after the request" ); for ( int j = 0; j < groups; ++j ) c.eq( src[ j ].stop_requested(), j <= k && drop != 3, "source" ); for ( auto& s : copies[ k ] ) c.check( s.stop_requested(), "copy of the source" );
		}
	);
}
