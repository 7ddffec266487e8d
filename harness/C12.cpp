// C12: storage, table and label_vector against a matrix of labelled cells.
#include "mc.h"
#include <fstream>
#include <sstream>
#include <cmath>
#include "xo/container/storage.h"
#include "xo/container/storage_tools.h"
#include "xo/container/table.h"
#include "xo/container/label_vector.h"
#include "xo/geometry/vec3.h"
#include "xo/geometry/quat.h"
using std::string; using std::vector;

struct Model
{
	vector<string> labels; vector<vector<double>> rows; // "" is a channel without label
	int find( const string& l ) const { for ( size_t i = 0; i < labels.size(); ++i ) if ( labels[ i ] == l ) return int( i ); return -1; }
	void widen( size_t n, double v ) { labels.resize( n ); for ( auto& r : rows ) r.resize( n, v ); }
	string canon() const { string s; for ( auto& l : labels ) s += l + "|"; for ( auto& r : rows ) { s += "\n"; for ( double v : r ) s += mc::show( v ) + " "; } return s; }
};
static const vector<string> LAB = { "a", "b", "c.x" };
using Sto = xo::storage<double>;

static void compare( mc::Ctx& c, Sto& s, const Model& m )
{
	if ( !c.fresh() ) return; const Sto& cs = s; size_t nc = m.labels.size(), nf = m.rows.size();
	c.eq( s.channel_size(), nc, "number of channels" ); c.eq( s.frame_size(), nf, "number of frames" ); c.eq( s.data().size(), nc * nf, "number of cells" ); c.eq( cs.empty(), nc * nf == 0, "empty" ); c.eq( s.labels().size(), nc, "number of labels" );
	for ( size_t i = 0; i < nc; ++i ) { c.eq( s.get_label( i ), m.labels[ i ], "label of channel" ); c.eq( s.labels()[ i ], m.labels[ i ], "label in label list" ); }
	size_t li = 0; for ( auto& l : s.labels() ) c.eq( l, m.labels[ li++ ], "iterated label" ); c.eq( li, nc, "iterated labels" );
	for ( auto& l : LAB ) { int i = m.find( l ); c.eq( s.try_find_channel( l ), i < 0 ? xo::no_index : size_t( i ), "channel of label" ); if ( i >= 0 ) c.eq( s.find_channel( l ), size_t( i ), "channel of existing label" ); else { c.must_throw( [&] { s.find_channel( l ); }, "finding an absent label" ); c.must_throw( [&] { s.get_channel( l ); }, "getting an absent channel" ); if ( nf ) c.must_throw( [&] { (void)cs[ 0 ][ l ]; }, "reading an absent channel of a frame" ); } }
	for ( size_t f = 0; f < nf; ++f ) for ( size_t i = 0; i < nc; ++i ) { double v = m.rows[ f ][ i ]; c.eq( s( f, i ), v, "cell" ); c.eq( cs( f, i ), v, "cell (const)" ); c.eq( s[ f ][ i ], v, "cell of frame" ); c.eq( cs[ f ][ i ], v, "cell of frame (const)" ); c.eq( s.data()[ f * nc + i ], v, "row-major data" ); if ( !m.labels[ i ].empty() ) { c.eq( cs[ f ][ m.labels[ i ] ], v, "cell by label (const)" ); c.eq( s[ f ][ m.labels[ i ] ], v, "cell by label" ); } }
	for ( size_t i = 0; i < nc; ++i ) { vector<double> col; for ( auto& r : m.rows ) col.push_back( r[ i ] ); c.check( s.get_channel( i ) == col, "channel" ); if ( !m.labels[ i ].empty() ) c.check( s.get_channel( m.labels[ i ] ) == col, "channel by label" ); if ( nf ) { c.eq( s.front()[ i ], col.front(), "first frame" ); c.eq( cs.front()[ i ], col.front(), "first frame (const)" ); c.eq( s.back()[ i ], col.back(), "last frame" ); c.eq( cs.back()[ i ], col.back(), "last frame (const)" ); } }
}
static void step( mc::Ctx& c, Sto& s, Model& m, double val, size_t maxf, size_t maxc )
{
	size_t nc = m.labels.size(), nf = m.rows.size(); auto full_c = [&] { if ( nc >= maxc ) throw mc::prune(); }; auto full_f = [&] { if ( nf >= maxf ) throw mc::prune(); };
	switch ( c.choose( 15 ) )
	{
	case 0: { string l = c.pick( LAB ); c.op( "add_channel %s", l.c_str() ); if ( m.find( l ) >= 0 ) { c.must_throw( [&] { s.add_channel( l, val ); }, "adding a duplicate channel" ); break; } full_c(); c.eq( s.add_channel( l, val ), nc, "index of added channel" ); m.widen( nc + 1, val ); m.labels[ nc ] = l; break; }
	case 1: { string l = c.pick( LAB ); int n = c.choose( 4 ); vector<double> d; for ( int i = 0; i < n; ++i ) d.push_back( val + i ); c.op( "add_channel %s with %d values", l.c_str(), n ); if ( m.find( l ) >= 0 ) { c.must_throw( [&] { s.add_channel( l, d ); }, "adding a duplicate channel" ); break; } full_c(); if ( d.size() > maxf ) throw mc::prune(); c.eq( s.add_channel( l, d ), nc, "index of added channel" ); while ( m.rows.size() < d.size() ) m.rows.push_back( vector<double>( nc ) ); m.widen( nc + 1, 0 ); m.labels[ nc ] = l; for ( int i = 0; i < n; ++i ) m.rows[ i ][ nc ] = d[ i ]; break; }
	case 2: { string l = c.pick( LAB ); c.op( "find_or_add_channel %s", l.c_str() ); int i = m.find( l ); if ( i < 0 ) full_c(); c.eq( s.find_or_add_channel( l, val ), i < 0 ? nc : size_t( i ), "index of found or added channel" ); if ( i < 0 ) { m.widen( nc + 1, val ); m.labels[ nc ] = l; } break; }
	case 3: { if ( !nc ) throw mc::prune(); size_t i = c.choose( int( nc ) ); string l = c.pick( LAB ); c.op( "set_label %d %s", int( i ), l.c_str() ); int j = m.find( l ); if ( j == int( i ) ) { try { s.set_label( i, l ); } catch ( std::exception& ) {} } else if ( j >= 0 ) c.must_throw( [&] { s.set_label( i, l ); }, "setting a duplicate label" ); else { s.set_label( i, l ); m.labels[ i ] = l; } break; }
	case 4: { full_f(); c.op( "add_frame" ); auto f = s.add_frame(); m.rows.push_back( vector<double>( nc, 0 ) ); if ( nc ) c.eq( f[ nc - 1 ], 0.0, "new frame" ); break; }
	case 5: { full_f(); c.op( "add_frame with value" ); auto f = s.add_frame( val ); m.rows.push_back( vector<double>( nc, val ) ); if ( nc ) { f[ 0 ] = val + 5; m.rows.back()[ 0 ] = val + 5; } break; }
	case 6: { full_f(); vector<double> d; for ( size_t i = 0; i < nc; ++i ) d.push_back( val + 10 * double( i ) ); c.op( "add_frame with values" ); s.add_frame( d ); m.rows.push_back( d ); d.push_back( 1 ); c.must_throw( [&] { s.add_frame( d ); }, "adding a frame of the wrong size" ); break; }
	case 7: { size_t f = c.choose( int( maxf ) + 1 ), k = c.choose( int( maxc ) + 1 ); c.op( "resize %d %d", int( f ), int( k ) ); if ( f < nf || k < nc ) { c.must_throw( [&] { s.resize( f, k, val ); }, "shrinking" ); break; } s.resize( f, k, val ); m.widen( k, val ); while ( m.rows.size() < f ) m.rows.push_back( vector<double>( k, val ) ); break; }
	case 8: { if ( !nc || !nf ) throw mc::prune(); size_t f = c.choose( int( nf ) ), i = c.choose( int( nc ) ); c.op( "write %d %d", int( f ), int( i ) ); s( f, i ) = val + 2; m.rows[ f ][ i ] = val + 2; break; }
	case 9: { if ( !nf ) throw mc::prune(); size_t f = c.choose( int( nf ) ); string l = c.pick( LAB ); c.op( "write frame %d %s", int( f ), l.c_str() ); int i = m.find( l ); if ( i < 0 ) { full_c(); m.widen( nc + 1, 0 ); i = int( nc ); m.labels[ i ] = l; } s[ f ][ l ] = val + 3; m.rows[ f ][ i ] = val + 3; break; }
	case 10: { if ( !nc || !nf ) throw mc::prune(); size_t f = c.choose( int( nf ) ), i = c.choose( int( nc ) ); c.op( "write frame %d position %d", int( f ), int( i ) ); auto fr = s[ f ]; fr[ i ] = val + 4; m.rows[ f ][ i ] = val + 4; break; }
	case 11: { c.op( "clear" ); s.clear(); m = Model(); break; }
	case 12: { c.op( "copy, change copy" ); Sto t = s; t.find_or_add_channel( "a", 9 ); t.add_frame( 9 ); t( 0, 0 ) = 99; compare( c, s, m ); Model n = m; int i = n.find( "a" ); if ( i < 0 ) { n.widen( nc + 1, 9 ); n.labels[ nc ] = "a"; } n.rows.push_back( vector<double>( n.labels.size(), 9 ) ); n.rows[ 0 ][ 0 ] = 99; compare( c, t, n ); Sto u; u = s; s = Sto(); s = u; break; }
	case 13: { if ( !nf ) throw mc::prune(); full_c(); string l = c.pick( LAB ); if ( m.find( l ) >= 0 ) throw mc::prune(); c.op( "frame kept while a channel is added" ); auto f = s[ nf - 1 ]; s.add_channel( l, val ); m.widen( nc + 1, val ); m.labels[ nc ] = l; f[ nc ] = val + 6; m.rows.back()[ nc ] = val + 6; break; }
	case 14: { int f = c.choose( 3 ), k = c.choose( 3 ); c.op( "construct %d %d", f, k ); s = Sto( f, k, val ); m = Model(); m.labels.resize( k ); m.rows.assign( f, vector<double>( k, val ) ); break; }
	}
}
static void histories( mc::Ctx& c, int depth, size_t maxf, size_t maxc )
{
	Sto s; Model m; compare( c, s, m );
	for ( int d = 0; d < depth; ++d ) { step( c, s, m, 1 + 20 * ( d % 2 ), maxf, maxc ); compare( c, s, m ); if ( d + 1 < depth && c.seen( m.canon() + ( d % 2 ? "'" : "" ), depth - d ) ) return; c.state( m.canon() ); }
}
MC_SUITE( "storage histories" ) { histories( c, c.thorough ? 5 : 4, 3, 3 ); }
MC_SUITE( "storage histories without dedupe" ) { Sto s; Model m; for ( int d = 0; d < ( c.thorough ? 4 : 3 ); ++d ) { step( c, s, m, 1 + 20 * d, 4, 4 ); compare( c, s, m ); c.state( m.canon() ); } }
MC_SUITE( "interpolated frames" )
{
	int nf = c.choose( 4 ), nc = 1 + c.choose( 3 ); Sto s( 0, nc ); for ( int f = 0; f < nf; ++f ) { vector<double> r; for ( int i = 0; i < nc; ++i ) r.push_back( c.pick( { 0, 1, 4 } ) ); s.add_frame( r ); }
	for ( int q = -8; q <= nf * 4 + 4; ++q ) { double x = q / 4.0; c.op( "at %g", x ); for ( int i = 0; i < nc; ++i ) { if ( x < 0 || std::floor( x ) + 1 >= nf ) { c.must_throw( [&] { s.get_interpolated_value( x, i ); }, "interpolation outside the frames" ); continue; } int f = int( x ); double w = x - f; c.eq( s.get_interpolated_value( x, i ), ( 1 - w ) * s( f, i ) + w * s( f + 1, i ), "interpolated value" ); } }
	for ( double x : { 1e9, 4294967296.0, 4294967297.5, 9.3e18, 1.8e19, 18446744073709551616.0, 1e20, 1e300, (double)INFINITY, -1e20, -(double)INFINITY } ) { c.op( "at %g", x ); for ( int i = 0; i < nc; ++i ) c.must_throw( [&] { s.get_interpolated_value( x, i ); }, "interpolation far outside the frames" ); }
	string k; for ( auto v : s.data() ) k += mc::show( v ); c.state( k + std::to_string( nc ) );
}
// text ---------------------------------------------------------------------------------------------------
template< typename T > static bool same_val( T a, T b ) { return a == b || ( a != a && b != b ); }
template< typename T > static void roundtrip( mc::Ctx& c, const vector<T>& vals, int maxf )
{
	static const vector<string> L = { "a", "time", "x.y", "\"q\"", "#1", "1", "\xc3\xa9", "a,b;", "//c" };
	int nc = 1 + c.choose( 3 ), nf = c.choose( maxf + 1 ); xo::storage<T> s; int first = c.choose( int( L.size() ) ); for ( int i = 0; i < nc; ++i ) s.add_channel( L[ ( first + i ) % L.size() ] );
	for ( int f = 0; f < nf; ++f ) { auto fr = s.add_frame(); for ( int i = 0; i < nc; ++i ) fr[ i ] = c.pick( vals ); }
	std::ostringstream o; o.precision( 17 ); o << s; string text = o.str(); int end = c.choose( 2 ); if ( end && text.size() ) text.pop_back(); c.op( "text %s", mc::esc( text ).c_str() ); c.state( text );
	xo::storage<T> r; std::istringstream i( text ); i >> r; c.eq( r.channel_size(), s.channel_size(), "channels read" ); c.eq( r.frame_size(), s.frame_size(), "frames read" );
	for ( int k = 0; k < nc; ++k ) { c.eq( r.get_label( k ), s.get_label( k ), "label read" ); c.eq( r.find_channel( s.get_label( k ) ), size_t( k ), "label found" ); for ( int f = 0; f < nf; ++f ) c.check( same_val( r( f, k ), s( f, k ) ), "value read" ); }
	std::ostringstream o2; o2.precision( 17 ); o2 << r; c.eq( o2.str(), o.str(), "text of what was read" );
	if ( !end ) { string n = c.scratch() + "/s.txt"; c.clean_scratch(); { xo::file_storage<T> fs( ( xo::path( n ) ) ); for ( int k = 0; k < nc; ++k ) fs.add_channel( s.get_label( k ) ); for ( int f = 0; f < nf; ++f ) { fs.add_frame(); for ( int k = 0; k < nc; ++k ) fs( f, k ) = s( f, k ); } } std::ifstream in( n ); c.eq( in.good(), nf > 0, "file storage written" ); std::ostringstream got, want; got << in.rdbuf(); want << s; if ( nf ) c.eq( got.str(), want.str(), "file storage content" ); }
}
MC_SUITE( "text of double storages" ) { roundtrip<double>( c, { 0, -1.5, 1e-5, 1e300, 0.1, 123456789 }, c.thorough ? 2 : 1 ); }
MC_SUITE( "text of special values" ) { roundtrip<double>( c, { -0.0, INFINITY, -INFINITY, NAN, 5e-324, 1.7976931348623157e308 }, 1 ); }
MC_SUITE( "text of float storages" ) { roundtrip<float>( c, { 0, -1.5f, 1e-5f, 3.4e38f, 0.1f }, 1 ); }
MC_SUITE( "text of int storages" ) { roundtrip<int>( c, { 0, -1, INT32_MAX, INT32_MIN }, 2 ); }
MC_SUITE( "text of tables" )
{
	static const vector<string> L = { "a", "x.y", "\"q\"", "1", "#" }; int nr = c.choose( 4 ), nc = c.choose( 3 ), fr = c.choose( 5 ), fc = c.choose( 5 ); xo::table<double> t; for ( int i = 0; i < nc; ++i ) t.add_column( L[ ( fc + i ) % 5 ] ); for ( int r = 0; r < nr; ++r ) { t.add_row( L[ ( fr + r ) % 5 ] ); for ( int i = 0; i < nc; ++i ) t( r, i ) = c.pick( { 0.0, -1.5, 1e-5 } ); }
	std::ostringstream o; o << t; c.op( "table %s", mc::esc( o.str() ).c_str() ); c.state( o.str() ); std::istringstream i( o.str() ); auto r = xo::read_table<double>( i ); c.eq( r.row_size(), size_t( nr ), "rows read" ); c.eq( r.column_size(), size_t( nc ), "columns read" );
	for ( int y = 0; y < nr; ++y ) { c.eq( r.find_row( L[ ( fr + y ) % 5 ] ), size_t( y ), "row label read" ); for ( int x = 0; x < nc; ++x ) { c.eq( r.find_column( L[ ( fc + x ) % 5 ] ), size_t( x ), "column label read" ); c.eq( r( y, x ), t( y, x ), "cell read" ); } } std::ostringstream o2; o2 << r; c.eq( o2.str(), o.str(), "text of table read" );
	// a header without cell for the row labels
	string s = o.str(); if ( nc ) { s.erase( 0, s.find( '\t' ) + 1 ); std::istringstream i2( s ); auto r2 = xo::read_table<double>( i2, false ); c.eq( r2.column_size(), size_t( nc ), "columns without row cell" ); c.eq( r2.row_size(), size_t( nr ), "rows without row cell" ); for ( int y = 0; y < nr; ++y ) for ( int x = 0; x < nc; ++x ) c.eq( r2( y, x ), t( y, x ), "cell without row cell" ); }
}
// time look-up ---------------------------------------------------------------------------------------------
MC_SUITE( "frame at a time" )
{
	int n = c.choose( c.thorough ? 7 : 6 ), ch = c.choose( 2 ); Sto s( 0, 2 ); vector<double> t; int last = 0; for ( int i = 0; i < n; ++i ) { last += c.choose( 4 ); t.push_back( last ); auto f = s.add_frame( -50 ); f[ ch ] = last; }
	string k; for ( auto v : t ) k += mc::show( v ) + " "; c.op( "times %s", k.c_str() ); c.state( k );
	for ( double x = -1; x <= last + 1; x += 0.25 ) { auto i = xo::find_frame_index( s, x, ch ); if ( !n ) { c.eq( i, xo::no_index, "frame of empty storage" ); continue; } c.check( i < size_t( n ), "frame index" ); double best = 1e9; for ( double v : t ) best = std::min( best, std::abs( v - x ) ); if ( std::abs( t[ i ] - x ) != best ) c.fail( "frame " + std::to_string( i ) + " at " + mc::show( x ) + " is not the nearest" ); }
}
MC_SUITE( "vectors in frames" )
{
	int f = c.choose( 3 ), pre = c.choose( 3 ); c.op( "%d %d", f, pre ); c.state( f * 3 + pre ); Sto s; if ( pre == 1 ) s.add_channel( "v.y", 8 ); if ( pre == 2 ) { s.add_channel( "q.z" ); s.add_channel( "v.x" ); } for ( int i = 0; i < 3; ++i ) s.add_frame( i );
	auto fr = s[ f ]; xo::write<double>( fr, "v", xo::vec3_<double>( 1.5, 2.5, 3.5 ) ); xo::write<double>( fr, "q", xo::quat_<double>( 4, 5, 6, 7 ) ); const Sto& cs = s; xo::vec3_<double> v; xo::quat_<double> q; auto cf = cs[ f ]; xo::read<double>( cf, "v", v ); xo::read<double>( cf, "q", q );
	c.check( v.x == 1.5 && v.y == 2.5 && v.z == 3.5, "vector read" ); c.check( q.w == 4 && q.x == 5 && q.y == 6 && q.z == 7, "quaternion read" ); c.eq( s.channel_size(), size_t( 7 ), "channels" ); c.eq( cs[ f ][ "v.x" ], 1.5, "x" ); c.eq( cs[ f ][ "v.y" ], 2.5, "y" ); c.eq( cs[ f ][ "v.z" ], 3.5, "z" ); c.eq( cs[ f ][ "q.w" ], 4.0, "w" ); c.eq( cs[ f ][ "q.x" ], 5.0, "qx" );
	for ( int i = 0; i < 3; ++i ) if ( i != f ) for ( size_t k = 0; k < 7; ++k ) { auto& l = s.get_label( k ); c.eq( s( i, k ), ( pre == 1 && l == "v.y" ) || ( pre == 2 && ( l == "q.z" || l == "v.x" ) ) ? double( i ) : 0.0, "other frame" ); }
}
// table -----------------------------------------------------------------------------------------------------
struct TModel { vector<string> rl, cl; vector<vector<double>> v; static int find( const vector<string>& l, const string& s ) { for ( size_t i = 0; i < l.size(); ++i ) if ( l[ i ] == s ) return int( i ); return -1; }
	void row( const string& l, double d ) { rl.push_back( l ); v.push_back( vector<double>( cl.size(), d ) ); } void col( const string& l, double d ) { cl.push_back( l ); for ( auto& r : v ) r.push_back( d ); }
	string canon() const { string s; for ( auto& l : rl ) s += l + "|"; s += "/"; for ( auto& l : cl ) s += l + "|"; for ( auto& r : v ) for ( auto d : r ) s += mc::show( d ) + " "; return s; } };
using Tab = xo::table<double>;
static void compare( mc::Ctx& c, Tab& t, const TModel& m )
{
	if ( !c.fresh() ) return; const Tab& ct = t; c.eq( t.row_size(), m.rl.size(), "rows" ); c.eq( t.column_size(), m.cl.size(), "columns" ); c.eq( t.empty(), m.rl.size() * m.cl.size() == 0, "empty" );
	for ( auto& l : LAB ) { int i = TModel::find( m.rl, l ), j = TModel::find( m.cl, l ); c.eq( t.find_row( l ), i < 0 ? xo::no_index : size_t( i ), "row of label" ); c.eq( t.find_column( l ), j < 0 ? xo::no_index : size_t( j ), "column of label" ); }
	for ( size_t y = 0; y < m.rl.size(); ++y ) for ( size_t x = 0; x < m.cl.size(); ++x ) { double v = m.v[ y ][ x ]; c.eq( t( y, x ), v, "cell" ); c.eq( ct( y, x ), v, "cell (const)" ); if ( !m.cl[ x ].empty() ) { c.eq( ct( y, m.cl[ x ] ), v, "cell by column label" ); if ( !m.rl[ y ].empty() ) { c.eq( ct( m.rl[ y ], m.cl[ x ] ), v, "cell by labels (const)" ); c.eq( t( m.rl[ y ], m.cl[ x ] ), v, "cell by labels" ); } } if ( y + 1 == m.rl.size() ) { c.eq( t.back_row( x ), v, "last row" ); c.eq( ct.back_row( x ), v, "last row (const)" ); } }
	for ( auto& l : LAB ) for ( auto& k : LAB ) if ( TModel::find( m.rl, l ) < 0 || TModel::find( m.cl, k ) < 0 ) c.must_throw( [&] { (void)ct( l, k ); }, "reading an absent cell" );
	c.must_throw( [&] { (void)ct( m.rl.size(), size_t( 0 ) ); }, "reading past the last row" ); if ( m.rl.size() ) c.must_throw( [&] { (void)ct( size_t( 0 ), m.cl.size() ); }, "reading past the last column" );
}
static void tstep( mc::Ctx& c, Tab& t, TModel& m, double val, size_t mx )
{
	size_t nr = m.rl.size(), nc = m.cl.size(); auto fr = [&] { if ( nr >= mx ) throw mc::prune(); }; auto fc = [&] { if ( nc >= mx ) throw mc::prune(); };
	switch ( c.choose( 9 ) )
	{
	case 0: { string l = c.pick( LAB ); c.op( "add_row %s", l.c_str() ); if ( TModel::find( m.rl, l ) >= 0 ) { c.must_throw( [&] { t.add_row( l, val ); }, "adding a duplicate row" ); break; } fr(); c.eq( t.add_row( l, val ), nr, "index of added row" ); m.row( l, val ); break; }
	case 1: { string l = c.pick( LAB ); c.op( "add_column %s", l.c_str() ); if ( TModel::find( m.cl, l ) >= 0 ) { c.must_throw( [&] { t.add_column( l, val ); }, "adding a duplicate column" ); break; } fc(); c.eq( t.add_column( l, val ), nc, "index of added column" ); m.col( l, val ); break; }
	case 2: { string l = c.pick( LAB ); c.op( "get_or_add_row %s", l.c_str() ); int i = TModel::find( m.rl, l ); if ( i < 0 ) fr(); c.eq( t.get_or_add_row( l, val ), i < 0 ? nr : size_t( i ), "row found or added" ); if ( i < 0 ) m.row( l, val ); break; }
	case 3: { string l = c.pick( LAB ); c.op( "get_or_add_column %s", l.c_str() ); int i = TModel::find( m.cl, l ); if ( i < 0 ) fc(); c.eq( t.get_or_add_column( l, val ), i < 0 ? nc : size_t( i ), "column found or added" ); if ( i < 0 ) m.col( l, val ); break; }
	case 4: { size_t r = c.choose( int( mx ) + 1 ), k = c.choose( int( mx ) + 1 ); c.op( "resize %d %d", int( r ), int( k ) ); if ( r < nr || k < nc ) { c.must_throw( [&] { t.resize( r, k, val ); }, "shrinking" ); break; } t.resize( r, k, val ); while ( m.cl.size() < k ) m.col( "", val ); while ( m.rl.size() < r ) m.row( "", val ); break; }
	case 5: { if ( !nr || !nc ) throw mc::prune(); size_t y = c.choose( int( nr ) ), x = c.choose( int( nc ) ); c.op( "write %d %d", int( y ), int( x ) ); t( y, x ) = val + 2; m.v[ y ][ x ] = val + 2; break; }
	case 6: { string l = c.pick( LAB ), k = c.pick( LAB ); c.op( "write %s %s", l.c_str(), k.c_str() ); int y = TModel::find( m.rl, l ), x = TModel::find( m.cl, k ); if ( y < 0 ) { fr(); m.row( l, 0 ); y = int( nr ); } if ( x < 0 ) { fc(); m.col( k, 0 ); x = int( nc ); } t( l, k ) = val + 3; m.v[ y ][ x ] = val + 3; break; }
	case 7: { int r = c.choose( 3 ), k = c.choose( 3 ); c.op( "construct %d %d", r, k ); t = Tab( r, k ); m = TModel(); for ( int i = 0; i < k; ++i ) m.col( "", 0 ); for ( int i = 0; i < r; ++i ) m.row( "", 0 ); break; }
	case 8: { if ( !nr || !nc ) throw mc::prune(); c.op( "copy, change copy" ); Tab u = t; u( "a", "a" ) = 77; compare( c, t, m ); u.back_row( 0 ) = 78; Tab w = t; t = Tab( 1, 1 ); t = w; break; }
	}
}
MC_SUITE( "table histories" ) { Tab t; TModel m; int depth = c.thorough ? 5 : 4; compare( c, t, m ); for ( int d = 0; d < depth; ++d ) { tstep( c, t, m, 1 + 20 * ( d % 2 ), 3 ); compare( c, t, m ); if ( d + 1 < depth && c.seen( m.canon() + ( d % 2 ? "'" : "" ), depth - d ) ) return; c.state( m.canon() ); } }
MC_SUITE( "table histories without dedupe" ) { Tab t; TModel m; for ( int d = 0; d < ( c.thorough ? 4 : 3 ); ++d ) { tstep( c, t, m, 1 + 20 * d, 4 ); compare( c, t, m ); c.state( m.canon() ); } }
// label list -------------------------------------------------------------------------------------------------
MC_SUITE( "label list histories" )
{
	using LV = xo::label_vector<string>; vector<string> m; LV v; int depth = c.thorough ? 6 : 5; int k = c.choose( 4 ); if ( k == 1 ) { v = LV( { "a", "b" } ); m = { "a", "b" }; } if ( k == 2 ) { m = { "c.x", "a" }; v = LV( m ); } if ( k == 3 ) { v = LV( size_t( 2 ) ); m.resize( 2 ); }
	auto find = [&]( const string& l ) { return TModel::find( m, l ); };
	auto compare = [&] { if ( !c.fresh() ) return; c.eq( v.size(), m.size(), "size" ); for ( size_t i = 0; i < m.size(); ++i ) c.eq( v[ i ], m[ i ], "label" ); size_t n = 0; for ( auto& l : v ) c.eq( l, m[ n++ ], "iterated label" ); c.eq( n, m.size(), "iteration" ); for ( auto& l : LAB ) { int i = find( l ); c.eq( v.find( l ), i < 0 ? xo::no_index : size_t( i ), "find" ); if ( i < 0 ) c.must_throw( [&] { v.find_or_throw( l ); }, "find_or_throw of an absent label" ); else c.eq( v.find_or_throw( l ), size_t( i ), "find_or_throw" ); } };
	compare();
	for ( int d = 0; d < depth; ++d )
	{
		string l = c.pick( LAB );
		switch ( c.choose( 5 ) )
		{
		case 0: c.op( "add %s", l.c_str() ); if ( find( l ) >= 0 ) c.must_throw( [&] { v.add( l ); }, "adding a duplicate" ); else { c.eq( v.add( l ), m.size(), "index of added label" ); m.push_back( l ); } break;
		case 1: { c.op( "find_or_add %s", l.c_str() ); int i = find( l ); c.eq( v.find_or_add( l ), i < 0 ? m.size() : size_t( i ), "index" ); if ( i < 0 ) m.push_back( l ); break; }
		case 2: { size_t i = c.choose( int( m.size() ) + 1 ); c.op( "set %d %s", int( i ), l.c_str() ); if ( i == m.size() ) c.must_throw( [&] { v.set( i, l ); }, "setting past the end" ); else if ( find( l ) == int( i ) ) { try { v.set( i, l ); } catch ( std::exception& ) {} } else if ( find( l ) >= 0 ) c.must_throw( [&] { v.set( i, l ); }, "setting a duplicate" ); else { c.eq( v.set( i, l ), i, "index" ); m[ i ] = l; } break; }
		case 3: if ( l != LAB[ 0 ] || m.size() > 4 ) throw mc::prune(); c.op( "resize" ); v.resize( m.size() + 1 ); m.push_back( "" ); v.reserve( m.size() + 3 ); if ( m.size() > 1 ) c.must_throw( [&] { v.resize( m.size() - 1 ); }, "shrinking" ); break;
		case 4: if ( l != LAB[ 0 ] ) throw mc::prune(); c.op( "clear" ); v.clear(); m.clear(); break;
		}
		compare(); string s; for ( auto& x : m ) s += x + "|"; if ( d + 1 < depth && c.seen( s, depth - d ) ) return; c.state( s );
	}
}
// larger sizes -----------------------------------------------------------------------------------------------
MC_SUITE( "larger storages" )
{
	int nc = c.pick( { 1, 2, 7, 15, 16, 17, 33, 64, 65 } ), nf = c.pick( { 1, 2, 7, 16, 17, 63, 64, 65, 129, 257 } ), order = c.choose( 5 ), stride = c.pick( { 1, 3, 5 } ); if ( nc * nf > 10000 ) return; c.op( "%d channels, %d frames, order %d, stride %d", nc, nf, order, stride ); c.state( ( ( nc * 1000 + nf ) * 10 + order ) * 10 + stride );
	auto lab = [&]( int i ) { return "ch" + std::to_string( i * stride % 1009 ); }; auto val = [&]( int f, int i ) { return f * 0.5 + i * 1000; };
	Sto s; Model m; auto addc = [&]( int i ) { size_t n = m.labels.size(); c.eq( i % 2 ? s.add_channel( lab( i ), -1 ) : s.find_or_add_channel( lab( i ), -1 ), n, "added channel" ); m.widen( n + 1, -1 ); m.labels[ n ] = lab( i ); };
	auto addf = [&]( int f ) { size_t n = m.labels.size(); vector<double> r; for ( size_t i = 0; i < n; ++i ) r.push_back( val( f, int( i ) ) ); if ( f % 2 ) s.add_frame( r ); else { auto fr = s.add_frame(); for ( size_t i = 0; i < n; ++i ) { if ( i % 2 ) fr[ i ] = r[ i ]; else fr[ m.labels[ i ] ] = r[ i ]; } } m.rows.push_back( r ); };
	switch ( order )
	{
	case 0: for ( int i = 0; i < nc; ++i ) addc( i ); for ( int f = 0; f < nf; ++f ) addf( f ); break;
	case 1: for ( int f = 0; f < nf; ++f ) addf( f ); for ( int i = 0; i < nc; ++i ) addc( i ); break;
	case 2: for ( int k = 0; k < std::max( nc, nf ); ++k ) { if ( k < nf ) addf( k ); if ( k < nc ) addc( k ); } break;
	case 3: s.resize( nf, nc, -1 ); m.rows.assign( nf, {} ); m.widen( nc, -1 ); for ( int i = nc; i-- > 0; ) { s.set_label( i, lab( i ) ); m.labels[ i ] = lab( i ); } break;
	case 4: for ( int i = 0; i < nc; ++i ) { vector<double> col; for ( int f = 0; f < nf; ++f ) col.push_back( val( f, i ) ); c.eq( s.add_channel( lab( i ), col ), size_t( i ), "added channel with data" ); m.widen( i + 1, 0 ); m.labels[ i ] = lab( i ); if ( !i ) m.rows.assign( nf, vector<double>( 1 ) ); for ( int f = 0; f < nf; ++f ) m.rows[ f ][ i ] = col[ f ]; } break;
	}
	compare( c, s, m ); for ( int i = 0; i < nc; ++i ) { c.eq( s.find_channel( lab( i ) ), size_t( i ), "channel of label" ); c.must_throw( [&] { s.add_channel( lab( i ) ); }, "adding a duplicate channel" ); }
	for ( int f = 0; f < nf; f += 5 ) for ( int i = 0; i < nc; ++i ) { s[ f ][ lab( i ) ] = -f - i; m.rows[ f ][ i ] = -f - i; } compare( c, s, m );
	std::ostringstream o; o.precision( 17 ); o << s; Sto r; std::istringstream in( o.str() ); in >> r; compare( c, r, m );
	Sto t; for ( int i = 0; i < nc; ++i ) t.add_channel( lab( i ) ); for ( int f = 0; f < nf; ++f ) { auto fr = t.add_frame(); fr[ nc - 1 ] = f * 0.5; }
	for ( int q = -2; q <= nf * 4 + 2; ++q ) { double x = q / 8.0 + 1e-3; auto w = std::min<long>( nf - 1, std::max<long>( 0, std::lround( x * 2 ) ) ); c.eq( xo::find_frame_index( t, x, nc - 1 ), size_t( w ), "frame at a time" ); }
	Sto cp = s; s.clear(); compare( c, s, Model() ); compare( c, cp, m ); s = cp; compare( c, s, m );
}
MC_SUITE( "growing larger storages" )
{
	int nc = c.pick( { 0, 1, 2, 7, 16, 17, 33, 64 } ), nf = c.pick( { 0, 1, 2, 3, 16, 17, 65, 128 } ), op = c.choose( 5 ), df = c.pick( { -3, -1, 0, 1, 2, 17, 100, 300 } ), dc = op >= 3 ? c.pick( { 0, 1, 2, 17, 64 } ) : 0; if ( nf + df < 0 ) throw mc::prune(); c.op( "%d channels, %d frames, operation %d, %d more frames, %d more channels", nc, nf, op, df, dc ); c.state( mc::mix( nc * 1000 + nf, ( op * 1000 + df + 10 ) * 100 + dc ) );
	Sto s; Model m; for ( int i = 0; i < nc; ++i ) { string l = "ch" + std::to_string( i * 3 % 1009 ); s.add_channel( l ); m.widen( i + 1, 0 ); m.labels[ i ] = l; }
	for ( int f = 0; f < nf; ++f ) { vector<double> d; for ( int i = 0; i < nc; ++i ) d.push_back( 1 + f * 0.5 + i * 1000 ); s.add_frame( d ); m.rows.push_back( d ); }
	auto channel = [&]( const string& l, int n ) { vector<double> d; for ( int f = 0; f < n; ++f ) d.push_back( -1 - f ); c.eq( s.add_channel( l, d ), m.labels.size(), "added channel with data" ); size_t i = m.labels.size(); while ( m.rows.size() < d.size() ) m.rows.push_back( vector<double>( i ) ); m.widen( i + 1, 0 ); m.labels[ i ] = l; for ( int f = 0; f < n; ++f ) m.rows[ f ][ i ] = d[ f ]; };
	switch ( op )
	{
	case 0: channel( "x", nf + df ); break;
	case 1: channel( "x", nf + df ); channel( "y", nf ); channel( "z", nf + 2 * std::max( df, 0 ) ); break;
	case 2: { if ( df < 0 ) throw mc::prune(); s.add_channel( "x", -5 ); m.widen( nc + 1, -5 ); m.labels[ nc ] = "x"; for ( int k = 0; k < df; ++k ) { s.add_frame( k ); m.rows.push_back( vector<double>( nc + 1, k ) ); } break; }
	case 3: if ( df < 0 ) c.must_throw( [&] { s.resize( nf + df, nc + dc, -7 ); }, "shrinking a storage" ); else { s.resize( nf + df, nc + dc, -7 ); m.widen( nc + dc, -7 ); while ( int( m.rows.size() ) < nf + df ) m.rows.push_back( vector<double>( nc + dc, -7 ) ); } break;
	case 4: if ( df < 0 ) throw mc::prune(); s.resize( nf + df, nc, -7 ); while ( int( m.rows.size() ) < nf + df ) m.rows.push_back( vector<double>( nc, -7 ) ); s.resize( nf + df, nc + dc, -8 ); m.widen( nc + dc, -8 ); break;
	}
	compare( c, s, m );
}
MC_SUITE( "larger tables" )
{
	int nc = c.pick( { 1, 2, 7, 15, 16, 17, 33, 65 } ), nr = c.pick( { 1, 2, 7, 16, 17, 64, 65, 129 } ), order = c.choose( 4 ); c.op( "%d rows, %d columns, order %d", nr, nc, order ); c.state( ( nr * 1000 + nc ) * 10 + order );
	auto rl = [&]( int i ) { return "r" + std::to_string( i * 7 % 1009 ); }; auto cl = [&]( int i ) { return "c" + std::to_string( i * 5 % 1009 ); }; Tab t; TModel m;
	auto addr = [&]( int i ) { c.eq( i % 2 ? t.add_row( rl( i ), i + 0.5 ) : t.get_or_add_row( rl( i ), i + 0.5 ), m.rl.size(), "added row" ); m.row( rl( i ), i + 0.5 ); }; auto addc = [&]( int i ) { c.eq( i % 2 ? t.add_column( cl( i ), i * 100 ) : t.get_or_add_column( cl( i ), i * 100 ), m.cl.size(), "added column" ); m.col( cl( i ), i * 100 ); };
	switch ( order )
	{
	case 0: for ( int i = 0; i < nc; ++i ) addc( i ); for ( int i = 0; i < nr; ++i ) addr( i ); break;
	case 1: for ( int i = 0; i < nr; ++i ) addr( i ); for ( int i = 0; i < nc; ++i ) addc( i ); break;
	case 2: for ( int i = 0; i < std::max( nc, nr ); ++i ) { if ( i < nc ) addc( i ); if ( i < nr ) addr( i ); } break;
	case 3: for ( int i = 0; i < nr; ++i ) m.row( rl( i ), 0 ); for ( int i = 0; i < nc; ++i ) m.col( cl( i ), 0 ); for ( int i = 0; i < nr; ++i ) t( rl( i ), cl( 0 ) ) = 0; for ( int i = 0; i < nc; ++i ) t( rl( 0 ), cl( i ) ) = 0; break;
	}
	compare( c, t, m ); for ( int i = 0; i < nr; ++i ) for ( int k = 0; k < nc; ++k ) { t( rl( i ), cl( k ) ) = i * 1000 + k; m.v[ i ][ k ] = i * 1000 + k; } compare( c, t, m );
	for ( int i = 0; i < nr; ++i ) c.eq( t.find_row( rl( i ) ), size_t( i ), "row of label" ); for ( int i = 0; i < nc; ++i ) c.eq( t.find_column( cl( i ) ), size_t( i ), "column of label" );
	std::ostringstream o; o << t; std::istringstream in( o.str() ); auto r = xo::read_table<double>( in ); compare( c, r, m );
	t.resize( nr + 3, nc + 2, 5 ); TModel n = m; n.col( "", 5 ); n.col( "", 5 ); for ( int i = 0; i < 3; ++i ) n.row( "", 5 ); compare( c, t, n );
}
// ---- values that are stored in the table or storage that they are written to
MC_SUITE( "values from the storage itself" )
{
	int nf = c.choose( 5 ), nc = 1 + c.choose( 4 ), op = c.choose( 6 ), cell = nf ? c.choose( nf * nc ) : 0; bool room = c.flip(); c.op( "%d frames, %d channels, operation %d, cell %d%s", nf, nc, op, cell, room ? ", reserved" : "" ); c.state( mc::mix( nf * 8 + nc, op * 100 + cell ) * 2 + room );
	Sto s; Model m; for ( int i = 0; i < nc; ++i ) { s.add_channel( string( 1, char( 'k' + i ) ) ); m.labels.push_back( string( 1, char( 'k' + i ) ) ); }
	for ( int f = 0; f < nf; ++f ) { vector<double> d; for ( int i = 0; i < nc; ++i ) d.push_back( 1 + f * nc + i ); s.add_frame( d ); m.rows.push_back( d ); }
	if ( room ) s.data().reserve( 200 );
	auto all = s.data(); auto widen = [&]( double v ) { m.widen( nc + 1, v ); m.labels[ nc ] = "a"; };
	switch ( op )
	{
	case 0: if ( !nf ) throw mc::prune(); { double v = all[ cell ]; s.add_channel( "a", s.data()[ cell ] ); widen( v ); } break;
	case 1: if ( !nf ) throw mc::prune(); { double v = all[ cell ]; s.find_or_add_channel( "a", s.data()[ cell ] ); widen( v ); } break;
	case 2: if ( !nf ) throw mc::prune(); { double v = all[ cell ]; s.add_frame( s.data()[ cell ] ); m.rows.push_back( vector<double>( nc, v ) ); } break;
	case 3: if ( nf != 1 ) throw mc::prune(); s.add_frame( s.data() ); m.rows.push_back( all ); break;
	case 4: { s.add_channel( "a", s.data() ); widen( 0 ); while ( m.rows.size() < all.size() ) m.rows.push_back( vector<double>( nc + 1, 0 ) ); for ( size_t i = 0; i < all.size(); ++i ) m.rows[ i ][ nc ] = all[ i ]; break; }
	case 5: if ( !nf ) throw mc::prune(); { double v = all[ cell ]; s.resize( nf + 1, nc + 1, s.data()[ cell ] ); m.widen( nc + 1, v ); m.rows.push_back( vector<double>( nc + 1, v ) ); } break;
	}
	compare( c, s, m );
}
MC_SUITE( "values from the table itself" )
{
	int nr = 1 + c.choose( 4 ), nc = 1 + c.choose( 4 ), op = c.choose( 5 ), y = c.choose( nr ), x = c.choose( nc ); c.op( "%d rows, %d columns, operation %d, cell %d %d", nr, nc, op, y, x ); c.state( mc::mix( nr * 8 + nc, op * 100 + y * 10 + x ) );
	Tab t; TModel m; for ( int i = 0; i < nc; ++i ) { string l( 1, char( 'k' + i ) ); t.add_column( l ); m.col( l, 0 ); } for ( int i = 0; i < nr; ++i ) { string l( 1, char( 'k' + i ) ); t.add_row( l ); m.row( l, 0 ); }
	for ( int i = 0; i < nr; ++i ) for ( int j = 0; j < nc; ++j ) t( i, j ) = m.v[ i ][ j ] = 1 + i * nc + j;
	double v = m.v[ y ][ x ]; const double& r = t( y, x );
	switch ( op )
	{
	case 0: t.add_row( "a", r ); m.row( "a", v ); break;
	case 1: t.get_or_add_row( "a", r ); m.row( "a", v ); break;
	case 2: t.add_column( "a", r ); m.col( "a", v ); break;
	case 3: t.get_or_add_column( "a", r ); m.col( "a", v ); break;
	case 4: t.resize( nr + 2, nc + 1, r ); m.col( "", v ); m.row( "", v ); m.row( "", v ); break;
	}
	compare( c, t, m );
}
