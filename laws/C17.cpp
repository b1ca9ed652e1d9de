#include "common.hpp"
#include "flut/storage.hpp"
#include "flut/math/vec3.hpp"
#include "flut/math/quat.hpp"
PROPERTY( "C17", "histories of up to 40 operations on a storage of double, int or string values (channels added with value or data, frames added with value or data, growth in either direction, access by label). Non-trivial: at least two channels and two frames with distinct values." )
using std::string; using std::vector; using flut::storage; using flut::index_t;
static const vector< string > pool = { "a", "b", "c", "pos.x", "time", "with space", "L", "long_channel_name_0123456789", "z1", "z2" };
static string label( Gen& g ) { if ( g.chance( 2, 5 ) ) return "n" + std::to_string( g.below( 60 ) ); if ( g.chance( 1, 4 ) ) { string s = g.str( 12, "abR .", true ); return s.empty() ? "e" : s; } return g.pick( pool ); }
struct Model { vector< string > labels; vector< vector< double > > frames; // frames[ f ][ c ]
	size_t find( const string& l ) const { for ( size_t i = 0; i < labels.size(); ++i ) if ( labels[ i ] == l ) return i; return flut::no_index; }
	void add_channel( const string& l, double v ) { labels.push_back( l ); for ( auto& f : frames ) f.push_back( v ); } };
template< typename T > static void same( const storage< T >& s, const Model& m ) {
	CHECK_EQ( s.channel_size(), m.labels.size() ); CHECK_EQ( s.frame_size(), m.frames.size() ); CHECK_EQ( s.empty(), m.labels.empty() || m.frames.empty() );
	CHECK_EQ( s.data().size(), m.labels.size() * m.frames.size() ); CHECK_EQ( s.labels().size(), m.labels.size() );
	for ( size_t c = 0; c < m.labels.size(); ++c ) { CHECK_EQ( s.get_label( c ), m.labels[ c ] ); if ( !m.labels[ c ].empty() ) CHECK_EQ( s.find_channel( m.labels[ c ] ), c ); }
	for ( auto& l : pool ) CHECK_EQ( s.find_channel( l ), m.find( l ) );
	for ( size_t f = 0; f < m.frames.size(); ++f ) for ( size_t c = 0; c < m.labels.size(); ++c ) { CHECK_EQ( (double)s.at( f, c ), m.frames[ f ][ c ] ); CHECK_EQ( (double)s( f, c ), m.frames[ f ][ c ] ); }
	auto& w = const_cast< storage< T >& >( s ); CHECK_THROWS( w.at( m.frames.size(), 0 ) ); CHECK_THROWS( w.at( 0, m.labels.size() ) ); CHECK_THROWS( w.at( m.frames.size() + 3, m.labels.size() ) ); CHECK_THROWS( s.at( m.frames.size(), 0 ) ); CHECK_THROWS( s.at( 0, m.labels.size() ) ); CHECK_THROWS( s.at( m.frames.size(), m.labels.size() ) );
	if ( !m.frames.empty() ) for ( size_t c = 0; c < m.labels.size(); ++c ) { CHECK_EQ( (double)s[ c ], m.frames.back()[ c ] ); if ( !m.labels[ c ].empty() ) CHECK_EQ( (double)s( m.labels[ c ] ), m.frames.back()[ c ] ); }
}
template< typename T > static void run( Gen& g ) {
	size_t f0 = g.chance( 1, 4 ) ? g.size( 4 ) : 0, c0 = g.chance( 1, 4 ) ? g.size( 3 ) : 0; double v0 = g.i( -99, 99 );
	storage< T > s( f0, c0, T( v0 ) ); Model m; m.labels.assign( c0, "" ); m.frames.assign( f0, vector< double >( c0, v0 ) );
	Seq q( g, 40 ); string log; double next = 100;
	while ( q.more() ) {
		string l = label( g ); bool has = m.find( l ) != flut::no_index; double v = g.coin() ? next++ : 0; size_t op = g.weighted( { 5, 3, 5, 4, 4, 3, 2, 2, 1, 1, 1, 1 } );
		if ( g.noting ) log += " " + std::to_string( op ) + ":" + l;
		switch ( op ) {
		case 0: if ( has ) break; CHECK_EQ( s.add_channel( l, T( v ) ), m.labels.size() ); m.add_channel( l, v ); break;
		case 1: { if ( has ) break; vector< T > d; size_t n = g.size( m.frames.size() + 3 ); for ( size_t i = 0; i < n; ++i ) d.push_back( T( next++ ) );
			CHECK_EQ( s.add_channel( l, d ), m.labels.size() ); m.add_channel( l, 0 ); while ( m.frames.size() < n ) m.frames.push_back( vector< double >( m.labels.size(), 0 ) ); for ( size_t i = 0; i < n; ++i ) m.frames[ i ].back() = d[ i ]; break; }
		case 11: if ( !has && !m.frames.empty() && !m.labels.empty() ) { size_t f = g.below( m.frames.size() ), c = g.below( m.labels.size() ); double w = m.frames[ f ][ c ]; switch ( g.below( 5 ) ) {
			case 3: if ( m.frames.size() == 1 ) { s.add_frame( s.data() ); auto f0 = m.frames[ 0 ]; m.frames.push_back( f0 ); } break; // its own data as a frame
			case 4: if ( m.frames.size() * m.labels.size() <= 40 ) { vector< double > d; for ( auto& fr : m.frames ) for ( double x : fr ) d.push_back( x ); s.add_channel( l, s.data() ); m.add_channel( l, 0 ); while ( m.frames.size() < d.size() ) m.frames.push_back( vector< double >( m.labels.size(), 0 ) ); for ( size_t i = 0; i < d.size(); ++i ) m.frames[ i ].back() = d[ i ]; } break; // and as a channel
			 case 0: s.add_channel( l, s( f, c ) ); m.add_channel( l, w ); break; case 1: s.add_frame( s( f, c ) ); m.frames.push_back( vector< double >( m.labels.size(), w ) ); break; default: s.find_or_add_channel( l, s( f, c ) ); m.add_channel( l, w ); } } break; // a stored value as fill value
		case 2: s.add_frame( T( v ) ); m.frames.push_back( vector< double >( m.labels.size(), v ) ); break;
		case 3: { vector< T > d; for ( size_t i = 0; i < m.labels.size(); ++i ) d.push_back( T( next++ ) ); s.add_frame( d ); m.frames.push_back( vector< double >( d.begin(), d.end() ) ); d.push_back( T( 1 ) ); CHECK_THROWS( s.add_frame( d ) ); break; }
		case 4: if ( !m.frames.empty() ) { size_t c = m.find( l ); if ( c == flut::no_index ) { c = m.labels.size(); m.add_channel( l, 0 ); } s[ l ] = T( next ); m.frames.back()[ c ] = next++; } if ( !m.frames.empty() && !m.labels.empty() && g.coin() ) { size_t c = g.below( m.labels.size() ); s[ c ] = T( next ); m.frames.back()[ c ] = next++; } break; // writing by label adds the channel
		case 5: if ( !m.frames.empty() && !m.labels.empty() ) { size_t f = g.below( m.frames.size() ), c = g.below( m.labels.size() ); ( g.coin() ? s( f, c ) : s.at( f, c ) ) = T( next ); m.frames[ f ][ c ] = next++; } break;
		case 6: CHECK_EQ( s.find_or_add_channel( l, T( v ) ), has ? m.find( l ) : m.labels.size() ); if ( !has ) m.add_channel( l, v ); break;
		case 7: { size_t nf = m.frames.size() + g.size( 3 ), nc = m.labels.size() + g.size( 2 ); s.resize( nf, nc, T( v ) ); m.labels.resize( nc ); for ( auto& f : m.frames ) f.resize( nc, v ); m.frames.resize( nf, vector< double >( nc, v ) ); break; }
		case 8: if ( !m.labels.empty() && !has ) { size_t c = g.below( m.labels.size() ); s.set_label( c, l ); m.labels[ c ] = l; } break;
		case 9: s.clear(); m = Model(); break;
		default: if ( has ) { if ( g.coin() ) CHECK_THROWS( s.add_channel( l ) ); else CHECK_THROWS( s.add_channel( l, vector< T >( m.frames.size() + g.size( 3 ), T( 1 ) ) ) ); same( s, m ); } // a refused channel leaves the storage as it was
		 else { if ( !m.frames.empty() ) CHECK_THROWS( s.resize( m.frames.size() - 1, m.labels.size() ) ); if ( !m.labels.empty() ) CHECK_THROWS( s.resize( m.frames.size(), m.labels.size() - 1 ) ); }
		}
		CHECK_EQ( s.frame_size(), m.frames.size() ); CHECK_EQ( s.channel_size(), m.labels.size() );
	}
	g.note( "ops", log ).note( "channels", m.labels ).note( "frames", m.frames.size() ); g.nontrivial( m.labels.size() > 1 && m.frames.size() > 1 );
	same( s, m ); storage< T > copy( s ); same( copy, m ); storage< T > moved( std::move( copy ) ); same( moved, m );
	std::ostringstream o, want; o << s; for ( size_t c = 0; c < m.labels.size(); ++c ) want << m.labels[ c ] << ( c + 1 < m.labels.size() ? "\t" : "\n" );
	for ( auto& f : m.frames ) for ( size_t c = 0; c < f.size(); ++c ) want << T( f[ c ] ) << ( c + 1 < f.size() ? "\t" : "\n" );
	CHECK_EQ( o.str(), want.str() );
}
LAW( history_double, 60000 ) { run< double >( g ); }
LAW( history_int, 40000 ) { run< int >( g ); }

LAW( interpolation, 150000 )
{
	size_t nc = 1 + g.size( 4 ), nf = g.size( 8 ); storage< double > s( nf, nc ); vector< vector< double > > v( nf, vector< double >( nc ) );
	for ( size_t f = 0; f < nf; ++f ) for ( size_t c = 0; c < nc; ++c ) s( f, c ) = v[ f ][ c ] = g.real( 100 );
	size_t c = g.below( nc ); double x = g.chance( 1, 6 ) ? -g.real( 0, 3 ) : g.chance( 1, 3 ) ? (double)g.below( nf + 2 ) : g.real( 0, nf + 1.5 ); g.note( "frames", nf ).note( "channel", c ).note( "x", x );
	bool in = x >= 0 && x < (double)nf - 1; g.nontrivial( in && x != std::floor( x ) ); g.label( in ? "inside" : "outside" );
	if ( in ) {
		size_t f = (size_t)x; double w = x - f, want = ( 1 - w ) * v[ f ][ c ] + w * v[ f + 1 ][ c ];
		CHECK_CLOSE( s.get_interpolated_value( x, c ), want, 1e-12, 1e-12 );
	}
	else if ( x != (double)nf - 1 ) CHECK_THROWS( s.get_interpolated_value( x, c ) ); // between frames only
}

LAW( composite_values, 80000 )
{
	storage< double > s; size_t nf = 1 + g.size( 4 ), k = g.size( 3 ); vector< flut::math::vec3d > vs; vector< flut::math::quatd > qs; for ( size_t i = 0; i < k; ++i ) s.add_channel( "c" + std::to_string( i ) );
	for ( size_t f = 0; f < nf; ++f ) {
		s.add_frame(); flut::math::vec3d v( g.real( 10 ), g.real( 10 ), g.real( 10 ) ); flut::math::quatd q( g.real( 1 ), g.real( 1 ), g.real( 1 ), g.real( 1 ) ); vs.push_back( v ); qs.push_back( q );
		if ( g.coin() ) { flut::write_storage( s, "pos", v ); flut::write_storage( s, "ori", q ); } else { flut::write_storage( s, "ori", q ); flut::write_storage( s, "pos", v ); }
	}
	g.note( "frames", nf ).note( "other channels", k ); g.nontrivial( nf > 1 ); CHECK_EQ( s.channel_size(), k + 7 );
	for ( size_t f = 0; f < nf; ++f ) {
		auto at = [&]( const char* n ) { return s.at( f, s.find_channel( n ) ); };
		CHECK( at( "pos.x" ) == vs[ f ].x && at( "pos.y" ) == vs[ f ].y && at( "pos.z" ) == vs[ f ].z );
		CHECK( at( "ori.w" ) == qs[ f ].w && at( "ori.x" ) == qs[ f ].x && at( "ori.y" ) == qs[ f ].y && at( "ori.z" ) == qs[ f ].z );
		for ( size_t i = 0; i < k; ++i ) CHECK_EQ( s( f, i ), 0.0 );
	}
}
