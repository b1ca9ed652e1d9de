#include "common.hpp"
#include "flut/system/log_sink.hpp"
PROPERTY( "C21", "histories of up to 80 operations over up to 24 sinks: sinks of every level created, removed, re-added and re-levelled, the global level set, messages of any bytes logged at every level by every function. Non-trivial: at least two live sinks with different levels and three messages." )
using std::string; using std::vector; namespace flog = flut::log;
struct Msg { int sink; int level; string text; bool operator==( const Msg& o ) const { return sink == o.sink && level == o.level && text == o.text; } };
static vector< Msg > got;
struct rec : flog::sink { int id; rec( int i, flog::level l ) : sink( l ), id( i ) {} void send_log_message( flog::level l, const string& m ) override { got.push_back( { id, (int)l, m } ); } };
static string show( const vector< Msg >& v ) { string o; for ( auto& m : v ) o += std::to_string( m.sink ) + "/" + std::to_string( m.level ) + ":" + Gen::esc( m.text ) + " "; return o; }
static void send( Gen& g, flog::level l, const string& a, int n, string& want ) {
	std::ostringstream o; o << a << n << ' ' << 1.5 << 'c'; want = o.str(); size_t how = g.below( 4 ); if ( how == 3 && a.find( '\0' ) != string::npos ) how = 0;
	if ( how == 0 ) flog::message( l, a, n, ' ', 1.5, 'c' );
	else if ( how == 1 ) { switch ( l ) { case flog::trace_level: flog::trace( a, n, ' ', 1.5, 'c' ); break; case flog::debug_level: flog::debug( a, n, ' ', 1.5, 'c' ); break; case flog::info_level: flog::info( a, n, ' ', 1.5, 'c' ); break; case flog::warning_level: flog::warning( a, n, ' ', 1.5, 'c' ); break; case flog::error_level: flog::error( a, n, ' ', 1.5, 'c' ); break; default: flog::critical( a, n, ' ', 1.5, 'c' ); } }
	else if ( how == 2 ) flog::log_string( l, want );
	else { switch ( l ) { case flog::trace_level: flog::tracef( "%s%d %.1fc", a.c_str(), n, 1.5 ); break; case flog::debug_level: flog::debugf( "%s%d %.1fc", a.c_str(), n, 1.5 ); break; case flog::info_level: flog::infof( "%s%d %.1fc", a.c_str(), n, 1.5 ); break; case flog::warning_level: flog::warningf( "%s%d %.1fc", a.c_str(), n, 1.5 ); break; case flog::error_level: flog::errorf( "%s%d %.1fc", a.c_str(), n, 1.5 ); break; default: flog::criticalf( "%s%d %.1fc", a.c_str(), n, 1.5 ); } }
}

LAW( routing, 300000 )
{
	struct Live { std::unique_ptr< rec > s; int level; bool added; }; vector< Live > live; vector< int > order; got.clear(); string log; vector< Msg > want; bool dull = g.chance( 1, 8 ); string same = g.chance( 1, 2 ) ? string() : g.str( 4, "ab" ); int ids = 0, msgs = 0, n = 0; bool differ = false; // order: ids of registered sinks
	auto by_id = [&]( int id ) -> Live& { for ( auto& l : live ) if ( l.s->id == id ) return l; FAIL( "harness" ); };
	const size_t most = dull ? 2 : g.chance( 1, 6 ) ? 24 : 6; Seq s( g, most == 24 ? 80 : 40 );
	while ( s.more() ) {
		size_t op = g.weighted( { most == 24 ? 10 : 4, 8, 1, 2, 1, 1 } ); if ( g.noting ) log += " " + std::to_string( op );
		switch ( op ) {
		case 0: if ( live.size() < most ) { int l = 1 + (int)g.below( 7 ); Live x; x.s.reset( new rec( ids, (flog::level)l ) ); x.level = l; x.added = true; live.push_back( std::move( x ) ); order.push_back( ids++ ); if ( g.noting ) log += "(" + std::to_string( l ) + ")"; } break;
		case 1: { int l = 1 + (int)g.below( 6 ); string text; string a = swell( g, g.str( 20, "ab %", true ), 5000 ); if ( g.chance( 1, 10 ) ) a.insert( g.below( a.size() + 1 ), 1, '\0' ); ++n; size_t before = got.size(); (void)before; if ( dull || g.chance( 1, 10 ) ) { text = same; if ( g.coin() ) flog::message( (flog::level)l, same ); else flog::log_string( (flog::level)l, same ); } else send( g, (flog::level)l, a, n, text ); ++msgs; // the same or an empty message over and over too
			 if ( g.noting ) log += "(" + std::to_string( l ) + ")";
			for ( int id : order ) if ( l >= by_id( id ).level ) want.push_back( { id, l, text } ); break; }
		case 2: if ( !live.empty() ) { size_t i = g.below( live.size() ); int id = live[ i ].s->id; live.erase( live.begin() + i ); order.erase( std::remove( order.begin(), order.end(), id ), order.end() ); } break; // destruction unregisters
		case 3: if ( !live.empty() ) { size_t i = g.below( live.size() ); int l = 1 + (int)g.below( 7 ); live[ i ].s->set_log_level( (flog::level)l ); live[ i ].level = l; CHECK_EQ( (int)live[ i ].s->get_log_level(), l ); } break;
		case 4: { int l = 1 + (int)g.below( 7 ); flog::set_global_log_level( (flog::level)l ); for ( auto& x : live ) if ( x.added ) x.level = l; break; }
		default: if ( !live.empty() ) { size_t i = g.below( live.size() ); auto* p = live[ i ].s.get(); if ( g.coin() ) { flog::remove_sink( p ); flog::remove_sink( p ); live[ i ].added = false; order.erase( std::remove( order.begin(), order.end(), p->id ), order.end() ); } else { flog::add_sink( p ); if ( !live[ i ].added ) order.push_back( p->id ); live[ i ].added = true; } }
		}
		if ( got != want ) FAIL( "received " + show( got ) + ", expected " + show( want ) + " after" + log );
	}
	for ( auto& a : live ) for ( auto& b : live ) differ |= a.level != b.level; g.note( "ops", log ).note( "messages", msgs ); g.nontrivial( differ && msgs > 2 );
	// a level passes the global test if some sink accepts it
	{ int low = 7; for ( int id : order ) low = std::min( low, by_id( id ).level ); if ( low <= 6 ) CHECK_EQ( (int)flog::get_global_log_level(), low ); } // the global level is that of the most talkative sink
	CHECK_THROWS( flog::add_sink( nullptr ) ); flog::get_global_log_level(); for ( int l = 1; l <= 6; ++l ) { bool any = false; for ( int id : order ) any |= l >= by_id( id ).level; if ( any ) CHECK( flog::test_log_level( (flog::level)l ) ); }
}

LAW( streams_and_files, 20000 )
{
	std::ostringstream out; string f = pbt::scratch_dir() + "/log.txt"; pbt::write_file( f, "old contents" ); int sl = 1 + (int)g.below( 7 ), fl = 1 + (int)g.below( 7 ); string ws, wf; g.note( "stream level", sl ).note( "file level", fl ); int n = 0;
	{
		flog::stream_sink ss( (flog::level)sl, out ); flog::file_sink fs( (flog::level)fl, flut::path( f ) ); CHECK( fs.good() ); Seq s( g, 20 );
		while ( s.more() ) { int l = 1 + (int)g.below( 6 ); string a = swell( g, g.str( g.chance( 1, 6 ) ? 3000 : 30, "ab\n", true ), 1000 ), t; if ( g.chance( 1, 10 ) ) a.insert( g.below( a.size() + 1 ), 1, '\0' ); send( g, (flog::level)l, a, ++n, t ); if ( l >= sl ) ws += t + "\n"; if ( l >= fl ) wf += t + "\n"; CHECK( pbt::read_file( f ) == wf ); } // each message is in the file at once
	}
	g.note( "messages", n ); g.nontrivial( n > 2 && ws.size() != wf.size() ); CHECK_EQ( out.str(), ws ); CHECK_EQ( pbt::read_file( f ), wf );
	string t; send( g, flog::critical_level, "x", 1, t ); CHECK_EQ( pbt::read_file( f ), wf ); CHECK_EQ( out.str(), ws );
	flog::file_sink bad( flog::trace_level, flut::path( pbt::scratch_dir() + "/no/log.txt" ) ); CHECK( !bad.good() ); flog::info( "still fine" );
}
