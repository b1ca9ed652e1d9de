#include "common.hpp"
#include "flut/circular_deque.hpp"
#include "flut/buffer/circular_frame_buffer.hpp"
#include <deque>
PROPERTY( "C19", "histories of up to 80 operations on a circular_deque (pushes and pops at both ends, reserve, clear, writes) and of up to 60 on a circular_frame_buffer with 1 to 7 frames; one in 25 starts with up to 700 elements or frames (of up to 40 channels, 301 of them held). Non-trivial: elements were removed at the front (the buffer wraps), or more frames were added than the buffer holds." )
using std::string; using std::vector;

// every way to move and read through an iterator
static size_t len( int v ) { return (size_t)v; }
static size_t len( const string& s ) { return s.size(); }
template< typename It > static auto arrow( It& it, const string& w, int ) -> decltype( it->size() ) { CHECK_EQ( *it.operator->(), w ); return it->size(); }
template< typename It > static size_t arrow( It& it, int w, long ) { CHECK_EQ( *it.operator->(), w ); return w; }
template< typename D, typename T, typename It > static void cursor( D&, const std::deque< T >& m, It b, It e ) {
	const int n = (int)m.size(); CHECK_EQ( b == e, n == 0 ); CHECK_EQ( b != e, n != 0 );
	It it = b; for ( int i = 0; i < n; ++i ) {
		CHECK( it == b + i ); CHECK( !( it != b + i ) ); CHECK( !( it == e ) ); CHECK( it != e ); CHECK_EQ( it - b, (std::ptrdiff_t)i ); CHECK_EQ( e - it, (std::ptrdiff_t)( n - i ) ); CHECK( ( e - ( n - i ) ) == it ); CHECK_EQ( *( e - ( n - i ) ), m[ i ] ); CHECK_EQ( arrow( it, m[ i ], 0 ), len( m[ i ] ) );
		if ( i % 2 ) { It old( it++ ); CHECK_EQ( *old, m[ i ] ); CHECK( old == b + i ); } else { It& r = ++it; CHECK( &r == &it ); }
	}
	CHECK( it == e );
}
template< typename T > static void same( flut::circular_deque< T >& d, const std::deque< T >& m ) {
	const auto& c = d; CHECK_EQ( c.size(), m.size() ); CHECK_EQ( c.empty(), m.empty() ); CHECK( c.capacity() >= m.size() ); CHECK_EQ( c.full(), c.capacity() == m.size() );
	for ( size_t i = 0; i < m.size(); ++i ) { CHECK_EQ( c[ i ], m[ i ] ); CHECK_EQ( d[ i ], m[ i ] ); }
	if ( m.empty() ) { CHECK_THROWS( d.front() ); CHECK_THROWS( c.front() ); CHECK_THROWS( d.back() ); CHECK_THROWS( c.back() ); CHECK_THROWS( d.pop_back() ); CHECK_THROWS( d.pop_front() ); }
	else { CHECK_EQ( c.front(), m.front() ); CHECK_EQ( c.back(), m.back() ); CHECK_EQ( d.front(), m.front() ); CHECK_EQ( d.back(), m.back() ); }
	vector< T > w( m.begin(), m.end() ), got, gc; for ( auto it = d.begin(); it != d.end(); ++it ) { got.push_back( *it ); if ( got.size() > w.size() ) break; } CHECK_EQ( got, w );
	for ( auto& x : c ) { gc.push_back( x ); if ( gc.size() > w.size() ) break; } CHECK_EQ( gc, w );
	CHECK_EQ( d.end() - d.begin(), (std::ptrdiff_t)m.size() ); for ( size_t i = 0; i < m.size(); ++i ) CHECK_EQ( *( d.begin() + (int)i ), m[ i ] );
	cursor( d, m, d.begin(), d.end() ); cursor( c, m, c.begin(), c.end() );
}
template< typename T, typename F > static void run( Gen& g, F make ) {
	size_t cap = g.size( g.chance( 1, 4 ) ? 40 : 8 ); flut::circular_deque< T > d( cap ); std::deque< T > m; string log; int next = 1; bool popped = false; CHECK_EQ( d.capacity(), cap );
	if ( g.chance( 1, 25 ) ) { size_t n = g.size( 700 ), k = 1 + g.below( 5 ); if ( g.noting ) log += " many(" + std::to_string( n ) + "," + std::to_string( k ) + ")"; for ( size_t i = 0; i < n; ++i ) { if ( i % k == 1 ) { d.push_front( make( next ) ); m.push_front( make( next++ ) ); } else { d.push_back( make( next ) ); m.push_back( make( next++ ) ); } if ( k > 3 && i % k == 3 ) { d.pop_front(); m.pop_front(); popped = true; } } }
	Seq s( g, g.chance( 1, 4 ) ? 200 : 80 );
	while ( s.more() ) {
		size_t op = g.weighted( { 8, 5, 4, 6, 2, 2, 1, 1, 1 } ), before = d.capacity(); if ( g.noting ) log += " " + std::to_string( op );
		switch ( op ) {
		case 8: if ( !m.empty() ) { size_t i = g.below( m.size() ); T v = m[ i ]; if ( g.coin() ) { d.push_back( d[ i ] ); m.push_back( v ); } else { d.push_front( d[ i ] ); m.push_front( v ); } } break; // one of its own elements again
		case 0: d.push_back( make( next ) ); m.push_back( make( next++ ) ); break;
		case 1: d.push_front( make( next ) ); m.push_front( make( next++ ) ); break;
		case 2: if ( m.empty() ) CHECK_THROWS( d.pop_back() ); else { d.pop_back(); m.pop_back(); } break;
		case 3: if ( m.empty() ) CHECK_THROWS( d.pop_front() ); else { d.pop_front(); m.pop_front(); popped = true; } break;
		case 4: { size_t n = g.size( 20 ); if ( g.noting ) log += "(" + std::to_string( n ) + ")"; d.reserve( n ); CHECK( d.capacity() >= n && d.capacity() >= m.size() ); break; } // also a smaller capacity loses nothing
		case 5: if ( !m.empty() ) { size_t i = g.below( m.size() ); if ( g.coin() ) d[ i ] = make( next ); else *( d.begin() + (int)i ) = make( next ); m[ i ] = make( next++ ); } break;
		case 6: d.clear(); m.clear(); break;
		default: { flut::circular_deque< T > c( d ); c.push_back( make( -1 ) ); c.push_front( make( -2 ) ); CHECK_EQ( d.size(), m.size() ); flut::circular_deque< T > e; e = d; d = e; }
		}
		if ( ( op < 2 || op == 8 ) && m.size() <= before ) CHECK_EQ( d.capacity(), before ); // no growth while there is room
		CHECK_EQ( d.size(), m.size() ); if ( !m.empty() ) { CHECK_EQ( d.front(), m.front() ); CHECK_EQ( d.back(), m.back() ); }
	}
	g.note( "capacity", cap ).note( "ops", log ).note( "size", m.size() ); g.nontrivial( popped && m.size() > 1 ); same( d, m );
}
LAW( deque_int, 300000 ) { run< int >( g, []( int i ) { return i; } ); }
LAW( deque_string, 80000 ) { run< string >( g, []( int i ) { return "string value number " + std::to_string( i ); } ); }

LAW( frame_buffer, 250000 )
{
	using buf = flut::circular_frame_buffer< double, string >;
	bool big = g.chance( 1, 25 ); size_t nc = g.size( big ? 40 : 3 ), nf = 1 + g.size( big ? 300 : g.chance( 1, 4 ) ? 30 : 6 ); bool plain = g.chance( 1, 4 ); buf b( plain ? 0 : nc, plain ? 0 : nf ); vector< string > labels( nc ); vector< vector< double > > hist; // every frame ever added
	std::map< size_t, vector< double > > slots; double fill = 0; string log; double next = 1;
	auto slot = [&]( size_t f ) -> vector< double >& { auto& s = slots[ f % nf ]; s.resize( nc, fill ); return s; };
	Seq s( g, g.chance( 1, 4 ) ? 160 : 60 ); size_t frames = 0; auto first = [&]() { return frames > nf ? frames - nf : 0; };
	if ( plain ) { CHECK( b.empty() && b.channel_size() == 0 && b.frame_size() == 0 ); fill = next++; b.resize_buffer( nf, nc, fill ); }
	if ( big ) { size_t n = g.size( 700 ); if ( g.noting ) log += " many(" + std::to_string( n ) + ")"; for ( size_t i = 0; i < n; ++i ) { b.add_frame(); ++frames; for ( size_t c = 0; c < nc; ++c ) { b[ c ] = next; slot( frames - 1 )[ c ] = next++; } } }
	while ( s.more() ) {
		size_t op = g.weighted( { 8, 8, 2, 1, 3, 3 } ); if ( g.noting ) log += " " + std::to_string( op );
		switch ( op ) {
		case 0: b.add_frame(); ++frames; break;
		case 1: if ( nc && !labels.back().empty() && g.chance( 1, 8 ) ) CHECK_THROWS( b.add_channel( labels.back() ) ); // refused: the contents stay
			if ( frames && nc ) { size_t f = first() + g.below( frames - first() ), c = g.below( nc ); switch ( g.below( 4 ) ) { case 0: b( f, c ) = next; break; case 1: b.at( f, c ) = next; break; case 2: f = frames - 1; b[ c ] = next; break; default: b.reverse( frames - 1 - f, c ) = next; } slot( f )[ c ] = next++; } break;
		case 2: { string l = "ch" + std::to_string( nc ); CHECK_EQ( b.find_channel( l ), flut::no_index ); CHECK_EQ( g.coin() ? b.add_channel( l ) : b.find_or_add_channel( l ), nc ); ++nc; labels.push_back( l ); slots.clear(); fill = 0; if ( g.coin() ) CHECK_THROWS( b.add_channel( labels[ nc - 1 ] ) ); if ( nc > 8 && !big ) return; break; } // resets the contents
		case 3: { nf = 1 + g.size( g.chance( 1, 4 ) ? 30 : 6 ); fill = next++; if ( g.coin() ) b.resize_buffer( nf, nc, fill ); else b.resize_buffer( nf, fill ); slots.clear(); break; }
		case 4: { size_t f = g.size( frames + 3 ), c = g.size( nc + 1 ); bool ok = f >= first() && f < frames && c < nc; if ( ok ) { CHECK_EQ( b.at( f, c ), slot( f )[ c ] ); } else { CHECK_THROWS( b.at( f, c ) ); CHECK_THROWS( ( (const buf&)b ).at( f, c ) ); CHECK_THROWS( b.get_interpolated_value( f, c, 0.5 ) ); } break; }
		default: if ( frames > first() + 1 && nc ) { size_t f = first() + g.below( frames - first() - 1 ), c = g.below( nc ); double p = g.real( 0, 1 ), w = ( 1 - p ) * slot( f )[ c ] + p * slot( f + 1 )[ c ]; CHECK_CLOSE( b.get_interpolated_value( f, c, p ), w, 1e-12, 1e-12 ); }
		}
		CHECK_EQ( b.frame_size(), frames ); CHECK_EQ( b.channel_size(), nc );
	}
	g.note( "ops", log ).note( "frames", frames ).note( "held", nf ).note( "channels", nc ); g.nontrivial( frames > nf && nc > 0 );
	const buf& cb = b; CHECK_EQ( b.empty(), nc == 0 );
	for ( size_t c = 0; c < nc; ++c ) if ( !labels[ c ].empty() ) { CHECK_EQ( b.get_label( c ), labels[ c ] ); CHECK_EQ( b.find_channel( labels[ c ] ), c ); CHECK_EQ( b.find_or_add_channel( labels[ c ] ), c ); }
	for ( size_t f = first(); f < frames; ++f ) for ( size_t c = 0; c < nc; ++c ) { CHECK_EQ( cb( f, c ), slot( f )[ c ] ); CHECK_EQ( cb.at( f, c ), slot( f )[ c ] ); CHECK_EQ( cb.reverse( frames - 1 - f, c ), slot( f )[ c ] ); }
	if ( frames ) for ( size_t c = 0; c < nc; ++c ) CHECK_EQ( cb[ c ], slot( frames - 1 )[ c ] );
}
