// C11: circular_deque against std::deque, circular_buffer against a list of written frames.
#include "mc.h"
#include "xo/container/circular_deque.h"
#include "xo/container/circular_buffer.h"
#include <deque>
#include <memory>
#include <cmath>
using std::string; using std::vector;

// element that owns memory: stale, doubly freed or out of range elements are seen by ASan
struct Own { std::unique_ptr<int> p; Own( int i = -99 ) : p( new int( i ) ) {} Own( const Own& o ) : p( new int( *o.p ) ) {} Own( Own&& o ) : p( std::move( o.p ) ) { o.p.reset( new int( -77 ) ); }
	Own& operator=( const Own& o ) { *p = *o.p; return *this; } Own& operator=( Own&& o ) { *p = *o.p; if ( &o != this ) *o.p = -77; return *this; } bool operator==( const Own& o ) const { return *p == *o.p; } };
namespace mc { inline string show( const Own& o ) { return std::to_string( *o.p ); } }
template< typename V > V mk( int i );
template<> int mk<int>( int i ) { return i; }
template<> string mk<string>( int i ) { return "a string too long for the small buffer " + std::to_string( i ); }
template<> Own mk<Own>( int i ) { return Own( i ); }

template< typename V > void compare( mc::Ctx& c, xo::circular_deque<V>& d, const std::deque<V>& r )
{
	if ( !c.fresh() ) return;
	const auto& cd = d;
	c.eq( d.size(), r.size(), "size" ); c.eq( d.empty(), r.empty(), "empty" ); c.eq( d.full(), d.size() == d.capacity(), "full" ); c.check( d.capacity() >= d.size(), "capacity below size" );
	for ( size_t i = 0; i < r.size(); ++i ) { c.check( d[ i ] == r[ i ], "element by index" ); c.check( cd[ i ] == r[ i ], "element by index (const)" ); }
	if ( r.size() ) { c.check( d.front() == r.front() && cd.front() == r.front(), "front" ); c.check( d.back() == r.back(), "back" ); c.check( cd.back() == r.back(), "back (const)" ); c.check( &d.back() == &d[ r.size() - 1 ] && &d.front() == &d[ 0 ], "ends are not the indexed elements" ); }
	size_t n = 0; for ( auto& v : d ) { c.check( n < r.size() && v == r[ n ], "iteration" ); ++n; } c.eq( n, r.size(), "iteration length" );
	n = 0; for ( auto it = cd.begin(); it != cd.end(); it++, ++n ) c.check( n < r.size() && *it.operator->() == r[ n ], "const iteration" ); c.eq( n, r.size(), "const iteration length" );
	c.eq( size_t( d.end() - d.begin() ), r.size(), "iterator distance" );
	for ( size_t i = 0; i < r.size(); ++i ) { auto it = d.begin() + int( i ); c.check( *it == r[ i ], "advanced iterator" ); auto old = it++; c.check( *old == r[ i ], "post increment" ); c.check( i + 1 == r.size() ? it == d.end() : *it == r[ i + 1 ], "incremented iterator" ); auto b = d.end() - int( r.size() - i ); c.check( *b == r[ i ] && b == old, "iterator counted from the end" ); }
	c.check( d.begin() == d.begin() && ( r.empty() == ( d.begin() == d.end() ) ), "iterator equality" );
}

template< typename V > struct World
{
	xo::circular_deque<V> d; std::deque<V> r; int next = 1; size_t cap_min;
	World( size_t cap ) : d( cap ), cap_min( cap ) {}
	V fresh() { return mk<V>( next++ ); }
	void step( mc::Ctx& c, int op )
	{
		switch ( op )
		{
		case 0: { V v = fresh(); c.op( "push_back" ); d.push_back( v ); r.push_back( v ); break; }
		case 1: { V v = fresh(); c.op( "push_front" ); d.push_front( v ); r.push_front( v ); break; }
		case 2: if ( r.empty() ) throw mc::prune(); c.op( "pop_back" ); d.pop_back(); r.pop_back(); break;
		case 3: if ( r.empty() ) throw mc::prune(); c.op( "pop_front" ); d.pop_front(); r.pop_front(); break;
		case 4: c.op( "clear" ); d.clear(); r.clear(); break;
		case 5: c.op( "reserve more" ); d.reserve( d.capacity() + 2 ); c.check( d.capacity() >= r.size() + 2, "reserved capacity" ); break;
		case 6: { int more = c.choose( 3 ); c.op( "reserve %d more than the capacity", more - 1 ); size_t want = d.capacity() + more; want -= want > 0; d.reserve( want ); c.check( d.capacity() >= want, "reserved capacity" ); break; }
		case 7: { if ( r.empty() ) throw mc::prune(); c.op( "push_back front" ); d.push_back( d.front() ); V v = r.front(); r.push_back( v ); break; }
		case 8: { if ( r.empty() ) throw mc::prune(); c.op( "push_front back" ); d.push_front( d.back() ); V v = r.back(); r.push_front( v ); break; }
		case 9: { if ( r.empty() ) throw mc::prune(); c.op( "copy, change copy, assign" ); auto e = d; e.push_back( fresh() ); e.front() = mk<V>( 500 ); compare( c, d, r ); auto r2 = r; r2.push_back( mk<V>( next - 1 ) ); r2.front() = mk<V>( 500 ); compare( c, e, r2 ); xo::circular_deque<V> f; f = d; d = std::move( e ); d = f; break; }
		case 10: { if ( r.empty() ) throw mc::prune(); c.op( "write last and first" ); V v = fresh(); d.back() = v; r.back() = v; V w = fresh(); d[ 0 ] = w; r[ 0 ] = w; break; }
		case 11: { if ( r.size() < 2 ) throw mc::prune(); c.op( "write second through iterator" ); V v = fresh(); auto it = d.begin(); ++it; *it = v; r[ 1 ] = v; break; }
		}
	}
};
template< typename V > void all_histories( mc::Ctx& c, int depth )
{
	World<V> w( c.choose( 4 ) ); compare( c, w.d, w.r );
	for ( int i = 0; i < depth; ++i ) { w.step( c, c.choose( 12 ) ); compare( c, w.d, w.r ); string s = std::to_string( w.d.capacity() ) + ":"; for ( auto& v : w.r ) s += mc::show( v ) + ","; c.state( s ); }
}
MC_SUITE( "deque histories" ) { all_histories<int>( c, c.thorough ? 8 : 6 ); }
MC_SUITE( "deque of owned memory" ) { all_histories<Own>( c, c.thorough ? 7 : 5 ); }
MC_SUITE( "deque of strings" ) { all_histories<string>( c, c.thorough ? 6 : 4 ); }
MC_SUITE( "every wrap position" )
{
	// capacity x wrap position x fill level, then every operation sequence
	int cap = 1 + c.choose( c.thorough ? 7 : 5 ), rot = c.choose( cap ), fill = c.choose( cap + 1 ); World<int> w( cap ); bool from_front = c.flip();
	c.op( "capacity %d rotated by %d filled with %d %s", cap, rot, fill, from_front ? "at the front" : "at the back" );
	for ( int i = 0; i < rot; ++i ) { w.d.push_back( -1 ); w.d.pop_front(); }
	for ( int i = 0; i < fill; ++i ) { int v = w.next++; if ( from_front ) { w.d.push_front( v ); w.r.push_front( v ); } else { w.d.push_back( v ); w.r.push_back( v ); } }
	c.eq( w.d.capacity(), size_t( cap ), "capacity" ); compare( c, w.d, w.r );
	for ( int i = 0; i < ( c.thorough ? 6 : 4 ); ++i ) { w.step( c, c.choose( 12 ) ); compare( c, w.d, w.r ); string s = std::to_string( cap ) + "/" + std::to_string( rot ) + ":"; for ( auto& v : w.r ) s += mc::show( v ) + ","; c.state( s ); }
}
MC_SUITE( "growth to large sizes" )
{
	// a queue that grows from every wrap position to 70 elements and is drained again
	int cap = c.choose( 9 ), rot = cap ? c.choose( cap ) : 0, period = 1 + c.choose( 6 ), kind = c.choose( 4 ); c.op( "capacity %d rotated %d pop every %d kind %d", cap, rot, period, kind ); World<int> w( cap );
	for ( int i = 0; i < rot; ++i ) { w.d.push_back( -1 ); w.d.pop_front(); }
	for ( int i = 0; i < 70; ++i ) { bool back = kind == 0 || ( kind == 2 && i % 2 ) || ( kind == 3 && i % 3 ); w.step( c, back ? 0 : 1 ); if ( i % period == period - 1 ) w.step( c, kind == 1 ? 2 : 3 ); compare( c, w.d, w.r ); }
	while ( w.r.size() ) { w.step( c, w.r.size() % 2 ? 2 : 3 ); compare( c, w.d, w.r ); } c.state( ( cap * 10 + rot ) * 100 + period * 10 + kind );
}

// frame buffer: the frame being written is the newest of at most `capacity` frames kept
MC_SUITE( "frame buffer histories" )
{
	int frames = 1 + c.choose( 4 ), channels = 1 + c.choose( 3 ); xo::circular_buffer<double> b( frames, channels ); std::deque<vector<double>> keep{ vector<double>( channels, 0 ) }; double next = 1; bool advanced = false; int depth = c.thorough ? 7 : 5;
	// what each physical frame holds when it is reused is unspecified until written, except after reset and clear_back
	auto unknown = std::nan( "" ); c.op( "%d frames of %d channels", frames, channels );
	auto compare = [&] { if ( !c.fresh() ) return; const auto& cb = b; c.eq( b.capacity(), size_t( frames ), "capacity" ); c.eq( b.empty(), keep.size() == 1, "empty" );
		for ( int i = 0; i < channels; ++i ) { if ( keep.front()[ i ] == keep.front()[ i ] ) { c.eq( b.get( i ), keep.front()[ i ], "oldest frame (get)" ); c.eq( b.front( i ), keep.front()[ i ], "oldest frame (front)" ); } if ( keep.back()[ i ] == keep.back()[ i ] ) { c.eq( b.back( i ), keep.back()[ i ], "newest frame" ); c.eq( cb.back( i ), keep.back()[ i ], "newest frame (const)" ); } } };
	compare();
	for ( int i = 0; i < depth; ++i )
	{
		switch ( c.choose( 7 ) )
		{
		case 0: { int ch = c.choose( channels ); c.op( "set %d", ch ); b.set( ch, next ); keep.back()[ ch ] = next++; break; }
		case 1: { c.op( "write all" ); for ( int ch = 0; ch < channels; ++ch ) { b.back( ch ) = next; keep.back()[ ch ] = next++; } break; }
		case 2: { c.op( "advance" ); b.advance(); advanced = frames > 1; keep.push_back( vector<double>( channels, unknown ) ); if ( (int)keep.size() > frames ) keep.pop_front(); break; }
		case 3: { c.op( "clear_back" ); double v = c.flip() ? 0 : 7; b.clear_back( v ); keep.back().assign( channels, v ); break; }
		case 4: { c.op( "reset" ); b.reset(); keep.assign( 1, vector<double>( channels, 0 ) ); advanced = false; break; }
		case 5: { c.op( "add_channel" ); if ( keep.size() > 1 ) { c.must_throw( [&] { b.add_channel(); }, "resizing after advance" ); break; } if ( channels > 3 ) throw mc::prune(); c.eq( (int)b.add_channel(), channels, "index of added channel" ); ++channels; keep.back().push_back( unknown ); break; }
		case 6: { c.op( "add_frame" ); if ( keep.size() > 1 ) { c.must_throw( [&] { b.add_frame(); }, "resizing after advance" ); break; } if ( frames > 4 ) throw mc::prune(); c.eq( (int)b.add_frame(), frames, "index of added frame" ); ++frames; break; }
		}
		compare(); string s = std::to_string( frames ) + ","; for ( auto& f : keep ) { for ( auto v : f ) s += std::to_string( v ) + " "; s += ";"; } c.state( s ); (void)advanced;
	}
}
MC_SUITE( "frame buffer without frames or channels" )
{
	int f = c.choose( 3 ), ch = c.choose( 3 ); if ( f && ch ) return; c.op( "%d x %d", f, ch ); c.state( f * 3 + ch ); if ( !f ) { xo::circular_buffer<float> e; c.eq( e.capacity(), size_t( 0 ), "capacity of a new buffer" ); c.eq( e.add_channel(), xo::index_t( 0 ), "first channel" ); c.eq( e.add_frame(), xo::index_t( 0 ), "first frame" ); c.eq( e.capacity(), size_t( 1 ), "capacity of one frame" ); e.set( 0, 2.5f ); c.eq( e.get( 0 ), 2.5f, "only value" ); } xo::circular_buffer<float> b( f, ch ); b.advance(); c.eq( b.capacity(), size_t( f ), "capacity" ); c.check( b.empty(), "empty" ); if ( f ) b.clear_back(); b.reset();
	b.resize( 2, 1 ); b.set( 0, 3 ); b.advance(); b.set( 0, 4 ); c.eq( b.get( 0 ), 3.0f, "first frame" ); c.eq( b.back( 0 ), 4.0f, "second frame" ); c.check( !b.empty(), "empty after a frame" ); c.must_throw( [&] { b.resize( 3, 1 ); }, "resizing after advance" ); c.eq( b.get( 0 ), 3.0f, "first frame after failed resize" ); b.reset(); c.eq( b.get( 0 ), 0.0f, "frame after reset" );
}
MC_SUITE( "delay line" )
{
	// the buffer used as delay: after n advances the oldest kept frame is the one written (capacity-1) advances ago
	int frames = 1 + c.choose( 7 ), channels = 1 + c.choose( 3 ); c.op( "%d frames %d channels", frames, channels ); c.state( frames * 10 + channels ); xo::circular_buffer<int> b( frames, channels );
	for ( int n = 0; n < 40; ++n ) { for ( int ch = 0; ch < channels; ++ch ) b.set( ch, n * 10 + ch ); int want = std::max( 0, n - ( frames - 1 ) ); for ( int ch = 0; ch < channels; ++ch ) { c.eq( b.get( ch ), want * 10 + ch, "delayed frame" ); c.eq( b.back( ch ), n * 10 + ch, "current frame" ); } b.advance(); }
}
