#include "common.hpp"
#include "flut/system/version.hpp"
#include "flut/math/random.hpp"
#include "flut/system/debug_storage.hpp"
#include "flut/debug_tools.hpp"
#include "flut/interruptible.hpp"
#include "flut/system_tools.hpp"
#include "flut/system/log_sink.hpp"
#include <sys/wait.h>
#include <signal.h>
#include <sys/resource.h>
#include <thread>
#include <unistd.h>
#include <time.h>
#include <fstream>
PROPERTY( "C33", "version numbers and postfixes, generator seeds and ranges, histories of up to 40 debug values under up to 5 labels, functions sampled over intervals. Non-trivial: at least two different values, labels or components." )
using std::string; using std::vector;

LAW( versions, 400000 )
{
	auto num = [&]() { return g.chance( 1, 8 ) ? INT32_MAX : g.i( 0, g.chance( 1, 2 ) ? 20 : 100000 ); }; int a = num(), b = num(), c = num(), d = g.coin() ? 0 : num(); string post = g.coin() ? "" : g.coin() ? g.ident( 10 ) : g.chance( 1, 3 ) ? string( g.pick( { "0", "00", "1", "-1", "1.2", ".5", "+3" } ) ) : g.str( 6, "0123456789.-+abc" ); g.note( "major", a ).note( "minor", b ).note( "patch", c ).note( "build", d ).note( "postfix", post ); g.nontrivial( d > 0 || !post.empty() );
	flut::version v( a, b, c, d, post ); string want = std::to_string( a ) + "." + std::to_string( b ) + "." + std::to_string( c ); if ( d > 0 ) want += "." + std::to_string( d ); if ( !post.empty() ) want += " " + post; CHECK_EQ( v.to_str(), want ); flut::version v3( a, b, c ); CHECK_EQ( v3.to_str(), std::to_string( a ) + "." + std::to_string( b ) + "." + std::to_string( c ) ); std::ostringstream o; o << v; CHECK_EQ( o.str(), want );
	flut::version r( want ); CHECK_EQ( r.major, a ); CHECK_EQ( r.minor, b ); CHECK_EQ( r.patch, c ); CHECK_EQ( r.build, d ); CHECK_EQ( r.postfix, post ); CHECK_EQ( r.to_str(), want );
}

template< typename T > static void numbers( Gen& g ) {
	using R = flut::math::random_number_generator; unsigned seed = (unsigned)g.u64( 0, UINT32_MAX ); T lo = (T)g.real( 1000 ), hi = lo + (T)g.positive( 0.01, 1000 ), mean = (T)g.real( 100 ), sd = (T)g.positive( 0.01, g.chance( 1, 4 ) ? 10000 : 10 ); R a( seed ), b( seed + 1 ), u( seed ), n( seed ); b.uni< T >(); b.seed( seed ); int k = g.i( 1, 40 ); g.note( "seed", seed ).note( "min", lo ).note( "max", hi ).note( "draws", k ); g.nontrivial( k > 1 ); std::set< T > seen;
	for ( int i = 0; i < k; ++i ) { T x = a.uni( lo, hi ), y = b.uni( lo, hi ); CHECK_EQ( x, y ); CHECK( x >= lo && x <= hi ); seen.insert( x ); T z = u.template uni< T >(); CHECK( z >= 0 && z <= 1 ); CHECK_CLOSE( ( (double)x - lo ) / ( (double)hi - lo ), z, 0, sizeof( T ) == 4 ? 0.05 : 1e-9 ); }
	if ( k > 10 && hi - lo > 1 ) CHECK( seen.size() > 3 ); R p( seed ), q( seed ); for ( int i = 0; i < k; ++i ) CHECK_CLOSE( p.norm( mean, sd ), mean + (double)sd * q.norm( T( 0 ), T( 1 ) ), 1e-4, 1e-4 );
	auto& gl = R::global_instance(); CHECK( &gl == &R::global_instance() ); gl.seed( seed ); T x = flut::rand_uni( lo, hi ); R w( seed ); CHECK_EQ( x, w.uni( lo, hi ) ); CHECK_EQ( flut::rand_norm( mean, sd ), w.norm( mean, sd ) );
}
LAW( random_double, 200000 ) { numbers< double >( g ); }
LAW( random_float, 200000 ) { numbers< float >( g ); }

LAW( random_moments, 1500 )
{
	flut::math::random_number_generator r( (unsigned)g.u64( 0, UINT32_MAX ) ); const int n = 4000; double lo = g.real( 10 ), w = g.positive( 0.1, g.coin() ? 10 : 1e6 ), m = g.real( 10 ), sd = g.positive( 0.1, g.coin() ? 10 : 1e6 ); double s = 0, s2 = 0, t = 0, t2 = 0; g.note( "min", lo ).note( "width", w ).note( "mean", m ).note( "stdev", sd ); g.nontrivial( true );
	for ( int i = 0; i < n; ++i ) { double x = ( r.uni( lo, lo + w ) - lo ) / w, y = ( r.norm( m, sd ) - m ) / sd; s += x; s2 += x * x; t += y; t2 += y * y; }
	CHECK_CLOSE( s / n, 0.5, 0, 8 * 0.289 / std::sqrt( n ) ); CHECK_CLOSE( s2 / n, 1 / 3.0, 0, 8 * 0.3 / std::sqrt( n ) ); CHECK_CLOSE( t / n, 0, 0, 8 / std::sqrt( n ) ); CHECK_CLOSE( t2 / n, 1, 0, 8 * 1.42 / std::sqrt( n ) );
}

LAW( debug_values, 2400 )
{
	// the file is written when the program ends: run the history in a child process
	vector< std::pair< string, float > > w; bool lots = g.chance( 1, 10 ); Seq s( g, lots ? 150 : 40 ); while ( s.more() ) w.push_back( { lots ? "L" + std::to_string( g.below( 40 ) ) : string( g.pick( { "a", "b", "c", "dd", "e" } ) ), (float)g.i( -1000, 1000 ) / 4 } ); bool named = g.coin(); string f = pbt::scratch_dir() + ( named ? "/named.txt" : "/debug.txt" ); unlink( f.c_str() );
	vector< string > labels; vector< std::map< string, float > > frames; string log; for ( auto& x : w ) { log += " " + x.first; if ( std::find( labels.begin(), labels.end(), x.first ) == labels.end() ) labels.push_back( x.first ); if ( frames.empty() || frames.back().count( x.first ) ) frames.emplace_back(); frames.back()[ x.first ] = x.second; } g.note( "labels", log ); g.nontrivial( labels.size() > 1 && frames.size() > 1 );
	pid_t p = fork(); if ( p == 0 ) { pbt::stop_coverage(); if ( chdir( pbt::scratch_dir().c_str() ) ) _exit( 9 ); bool late = named && g.coin(); if ( named && !late ) flut::set_debug_output( flut::path( f ) ); for ( auto& x : w ) flut::write_debug( x.first, x.second ); if ( late ) flut::set_debug_output( flut::path( f ) ); exit( 0 ); } int st = 0; waitpid( p, &st, 0 ); CHECK( WIFEXITED( st ) && WEXITSTATUS( st ) == 0 ); if ( named ) CHECK( !pbt::file_there( pbt::scratch_dir() + "/debug.txt" ) );
	if ( w.empty() ) { CHECK( !pbt::file_there( f ) ); return; } std::istringstream in( pbt::read_file( f ) ); string line, cell; CHECK( (bool)std::getline( in, line ) ); std::istringstream hs( line ); for ( auto& l : labels ) { CHECK( (bool)( hs >> cell ) ); CHECK_EQ( cell, l ); } CHECK( !( hs >> cell ) );
	size_t row = 0; while ( std::getline( in, line ) ) { if ( flut::trim_str( line ).empty() ) continue; CHECK( row < frames.size() ); std::istringstream ls( line ); for ( auto& l : labels ) { double v = 0; CHECK( (bool)( ls >> v ) ); if ( frames[ row ].count( l ) ) CHECK_CLOSE( v, frames[ row ][ l ], 1e-4, 1e-4 ); else CHECK( !( std::fabs( v ) <= 300 ) ); } ++row; } CHECK_EQ( row, frames.size() ); unlink( f.c_str() );
}

static double c0, c1, c2; static double fn( double x ) { return c0 + c1 * x + c2 * x * x; }
LAW( function_output, 30000 )
{
	c0 = g.real( 10 ); c1 = g.real( 10 ); c2 = g.real( 1 ); double lo = g.real( 100 ), hi = lo + g.positive( 0.1, 100 ); int n = g.chance( 1, 4 ) ? 101 : g.i( 2, 60 ); string f = pbt::scratch_dir() + "/fn.txt"; pbt::write_file( f, "old\n" ); if ( n == 101 ) flut::output_function( flut::path( f ), lo, hi, &fn ); else flut::output_function( flut::path( f ), lo, hi, &fn, n ); g.note( "min", lo ).note( "max", hi ).note( "samples", n ); g.nontrivial( n > 2 );
	std::istringstream in( pbt::read_file( f ) ); string line; int i = 0; while ( std::getline( in, line ) ) { double x = 0, y = 0; CHECK_EQ( sscanf( line.c_str(), "%lf\t%lf", &x, &y ), 2 ); double wx = lo + ( hi - lo ) * i / ( n - 1 ), wy = fn( wx ); CHECK_CLOSE( x, wx, 1e-5, 1e-9 ); CHECK_CLOSE( y, wy, 1e-5, 1e-9 ); ++i; } CHECK_EQ( i, n );
}

struct job : flut::interruptible { mutable int hits = 0; void interrupt() const override { ++hits; flut::interruptible::interrupt(); } };
LAW( interruption_and_time, 20000 )
{
	flut::interruptible a, b; job j; bool fa = false, fb = false; Seq s( g, 10 ); int n = 0; while ( s.more() ) { if ( g.chance( 1, 4 ) ) { a.interrupt(); fa = true; } if ( g.chance( 1, 4 ) ) { const flut::interruptible& r = b; r.interrupt(); fb = true; } if ( g.chance( 1, 4 ) ) { static_cast< flut::interruptible& >( j ).interrupt(); ++n; } CHECK_EQ( a.test_interrupt_flag(), fa ); CHECK_EQ( b.test_interrupt_flag(), fb ); CHECK_EQ( j.test_interrupt_flag(), n > 0 ); CHECK_EQ( j.hits, n ); } g.note( "a", fa ).note( "b", fb ).note( "job", n ); g.nontrivial( fa != fb );
	// current local time in the given format
	const char* fm = g.pick( { "%Y-%m-%d_%H.%M.%S", "%Y", "%H:%M", "%d %b %Y", "week %U", "%%" } ); time_t from = time( nullptr ) - 1; string got = flut::get_date_time_str( fm ); time_t to = time( nullptr ) + 1; bool found = false; char text[ 200 ]; for ( time_t t = from; t <= to && !found; ++t ) { text[ strftime( text, sizeof text, fm, localtime( &t ) ) ] = 0; found = got == text; } if ( !found ) FAIL( "get_date_time_str gave " + got + " around " + text ); // the clocks may differ by a tick
}

LAW( sleeping_and_crashing, 160 )
{
	int ms = (int)g.below( 9 ); g.note( "ms", ms ); g.nontrivial( ms > 1 ); auto t = std::chrono::steady_clock::now(); flut::sleep( ms ); CHECK( std::chrono::steady_clock::now() - t >= std::chrono::milliseconds( ms ) );
	// a deliberate crash first logs its message, if there is one, and ends the process
	string m = g.str( 12, "ab %d" ), f = pbt::scratch_dir() + "/crash.txt"; g.note( "message", m ); pbt::write_file( f, "" );
	pid_t p = fork(); if ( p == 0 ) { pbt::stop_coverage(); for ( int s : { SIGSEGV, SIGBUS, SIGILL, SIGABRT, SIGTRAP } ) signal( s, SIG_DFL ); struct rlimit none = { 0, 0 }; setrlimit( RLIMIT_CORE, &none ); flut::log::file_sink fs( flut::log::trace_level, flut::path( f ) ); flut::crash( m ); _exit( 0 ); }
	int st = 0; waitpid( p, &st, 0 ); CHECK( WIFSIGNALED( st ) || WEXITSTATUS( st ) != 0 ); CHECK_EQ( pbt::read_file( f ), m.empty() ? string() : m + "\n" );
}
