#include "common.hpp"
#include "flut/string_tools.hpp"
#include "flut/system/log_sink.hpp"
#include <thread>
#include <atomic>
PROPERTY( "C05", "printf-style formats built from literal text and one to three conversions of known argument types with flags, widths and precisions, results up to 6000 characters (lengths next to powers of two included), alone and in up to four threads at once. Non-trivial: the result is longer than the format's literal text and at least 8 characters." )
using std::string;

static string conv( Gen& g, const char* types ) {
	string f = "%"; if ( g.chance( 1, 4 ) ) f += g.pick( { "-", "0", "+", " ", "#" } );
	char t = g.byte( types, false );
	if ( g.chance( 1, 3 ) ) f += std::to_string( g.size( g.chance( 1, 6 ) ? 2000 : g.chance( 1, 200 ) ? 150000 : 40 ) );
	if ( t != 'c' && g.chance( 1, 3 ) ) { f += "."; f += std::to_string( g.size( t == 's' ? 300 : 30 ) ); }
	if ( t == 'l' ) { f += "lld"; return f; }
	f += t; return f;
}
struct collect : flut::log::sink { collect( flut::log::level l ) : sink( l ) {} std::vector< std::pair< int, string > > msgs; void send_log_message( flut::log::level l, const string& m ) override { msgs.push_back( { (int)l, m } ); } };

template< typename... A > static void compare( Gen& g, const string& f, A... a ) {
	int n = snprintf( nullptr, 0, f.c_str(), a... ); if ( n < 0 ) return; std::vector< char > buf( n + 1 ); snprintf( buf.data(), buf.size(), f.c_str(), a... );
	string want( buf.data(), n );
	g.nontrivial( want.size() >= 8 && want != f ); g.label( "over-255", want.size() > 255 ); g.label( "over-1023", want.size() > 1023 );
	CHECK_EQ( flut::stringf( f.c_str(), a... ), want );
	// three sinks of any level: each gets the messages of its level and above, in order, with that text
	namespace fl = flut::log; int lv[ 3 ]; for ( int& l : lv ) l = 1 + (int)g.below( 7 );
	collect s0( (fl::level)lv[ 0 ] ), s1( (fl::level)lv[ 1 ] ), s2( (fl::level)lv[ 2 ] ); collect* cs[ 3 ] = { &s0, &s1, &s2 };
	int ml = 1 + (int)g.below( 6 ); g.note( "sink levels", std::vector< int >( lv, lv + 3 ) ).note( "level", ml );
	fl::messagef( (fl::level)ml, f.c_str(), a... );
	fl::tracef( f.c_str(), a... ); fl::debugf( f.c_str(), a... ); fl::infof( f.c_str(), a... ); fl::warningf( f.c_str(), a... ); fl::errorf( f.c_str(), a... ); fl::criticalf( f.c_str(), a... );
	for ( int k = 0; k < 3; ++k ) {
		std::vector< int > levels, got; if ( ml >= lv[ k ] ) levels.push_back( ml ); for ( int l = 1; l <= 6; ++l ) if ( l >= lv[ k ] ) levels.push_back( l );
		for ( auto& m : cs[ k ]->msgs ) { got.push_back( m.first ); CHECK_EQ( m.second, want ); }
		CHECK_EQ( got, levels );
	}
}

LAW( like_snprintf, 250000 )
{
	string pre = g.str( 200, "ab c\n", true, "%" ), post = g.str( 60, "xy ", true, "%" );
	if ( g.chance( 1, 4 ) ) pre += "%%";
	switch ( g.below( 8 ) ) {
	case 6: { string f = g.chance( 1, 2 ) ? string( "%s" ) : pre + "%s" + post; size_t n = edge_size( g, g.chance( 1, 4 ) ? 70000 : 5000 ), lit = f.size() - 2; string v( n > lit ? n - lit : n, 'v' ); if ( g.coin() ) v.back() = 'e'; g.note( "format", f ).note( "length", v.size() ); compare( g, f, v.c_str() ); break; } // results that just fit or just do not
	case 7: { string f = pre + conv( g, "c" ) + post + conv( g, "c" ) + ( g.chance( 1, 3 ) ? "%%" : "" ); int v = (unsigned char)g.byte( "a z%\n", true ), w = g.chance( 1, 4 ) ? 0 : 'w'; g.note( "format", f ).note( "arg", v ).note( "arg2", w ); compare( g, f, v, w ); break; } // also a character with code 0
	case 0: { string f = pre + conv( g, "dixX" ) + post; int v = g.i( INT32_MIN, INT32_MAX ); g.note( "format", f ).note( "arg", v ); compare( g, f, v ); break; }
	case 1: { string f = ( g.chance( 1, 4 ) ? string() : pre ) + conv( g, "s" ) + ( g.chance( 1, 8 ) ? "%%" : g.chance( 1, 4 ) ? "" : post ), v = g.str( g.chance( 1, 8 ) ? 5000 : 400, "ab%", true ); g.note( "format", f ).note( "arg", v ); compare( g, f, v.c_str() ); break; }
	case 2: { string f = pre + conv( g, "fgeE" ) + post; double v = g.real( 1e12 ); g.note( "format", f ).note( "arg", v ); compare( g, f, v ); break; }
	case 3: { string f = pre + conv( g, "l" ) + post; long long v = g.i64( INT64_MIN, INT64_MAX ); g.note( "format", f ).note( "arg", v ); compare( g, f, v ); break; }
	case 4: { string f = pre + conv( g, "s" ) + post + conv( g, "di" ) + conv( g, "f" ); string s = g.str( 300, "ab" ); int i = g.i( -1000, 1000 ); double d = g.real( 1000 ); g.note( "format", f ).note( "s", s ).note( "i", i ).note( "d", d ); compare( g, f, s.c_str(), i, d ); break; }
	default: { string f = pre + post; g.note( "format", f ); compare( g, f ); }
	}
}

// every thread gets its own text, whatever the others format at the same time
LAW( in_threads, 400 )
{
	const int n = 2 + (int)g.below( 3 ); size_t base = g.size( 3000 ); std::atomic< int > bad( 0 ), ready( 0 ); std::vector< std::thread > ts; g.note( "threads", n ).note( "length", base ); g.nontrivial( base > 7 );
	for ( int t = 0; t < n; ++t ) ts.emplace_back( [&, t]() { string v( base, char( 'a' + t ) ); ++ready; while ( ready < n ) std::this_thread::yield(); for ( int k = 0; k < 300; ++k ) if ( flut::stringf( "%s%d", v.c_str(), k ) != v + std::to_string( k ) ) ++bad; } );
	for ( auto& t : ts ) t.join(); CHECK_EQ( bad.load(), 0 );
}
