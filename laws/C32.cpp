#include "common.hpp"
#include "flut/system/profiler.hpp"
#include "flut/stopwatch.hpp"
#include "flut/timer.hpp"
#include <chrono>
#include <thread>
#include <time.h>
#include <list>
PROPERTY( "C32", "histories of up to 60 operations on timers, stopwatches and the profiler (nested and repeated sections, equal names in different places, reports at any point) under a virtual clock. Non-trivial: at least two sections or tags, one of them used twice." )
using std::string; using std::vector; using flut::prop_node;

// All clocks that a timer can be built on follow a virtual time while a case runs.
static bool virt = false; static long long vnow = 0;
static long long real_ns( clockid_t c ) { timespec t; clock_gettime( c, &t ); return t.tv_sec * 1000000000ll + t.tv_nsec; }
namespace std { namespace chrono { inline namespace _V2 {
	system_clock::time_point system_clock::now() noexcept { return time_point( duration( virt ? vnow : real_ns( CLOCK_REALTIME ) ) ); }
	steady_clock::time_point steady_clock::now() noexcept { return time_point( duration( virt ? vnow : real_ns( CLOCK_MONOTONIC ) ) ); }
} } }
struct Virtual { Virtual() { vnow = 1500000000ll * 1000000000ll; virt = true; } ~Virtual() { virt = false; } };
static long long advance( Gen& g ) { long long d = g.chance( 1, 4 ) ? 0 : g.chance( 1, 4 ) ? std::max( 0ll, (long long)g.i64( 0, 20000 ) * g.pick( { 1000ll, 1000000ll, 1000000000ll } ) + g.i64( -1, 1 ) ) : g.chance( 1, 6 ) ? g.i64( 0, 20000ll * 1000000000ll ) : g.i64( 0, 3000000000ll ); vnow += d; return d; }

LAW( timer_units, 200000 )
{
	Virtual v; flut::timer t; long long e = 0; Seq s( g, 20, 1 ); int n = 0;
	while ( s.more() ) {
		e += advance( g ); ++n; if ( g.chance( 1, 6 ) ) { t.reset(); e = 0; }
		CHECK_CLOSE( t.seconds(), e / 1e9, 1e-12, 1e-12 ); CHECK_CLOSE( t.minutes(), e / 6e10, 1e-12, 1e-12 ); CHECK_CLOSE( t.hours(), e / 3.6e12, 1e-12, 1e-12 ); CHECK_EQ( t.milliseconds(), e / 1000000 ); CHECK_EQ( t.microseconds(), e / 1000 ); CHECK_EQ( t.nanoseconds(), e ); CHECK_EQ( t.ticks(), e );
		flut::timer c( t ); CHECK_EQ( c.nanoseconds(), e );
	}
	g.note( "elapsed", e ).note( "reads", n ); g.nontrivial( e > 0 && n > 1 );
}

LAW( stopwatch_report, 150000 )
{
	Virtual v; flut::stopwatch w; vector< std::pair< string, long long > > m; long long e = 0; bool many = g.chance( 1, 25 ); Seq s( g, many ? 300 : 40 ); bool twice = false; string log;
	while ( s.more() ) {
		e += advance( g ); if ( g.chance( 1, 10 ) ) { w.start_first_measure(); e = 0; continue; }
		string tag = many ? "t" + std::to_string( g.below( 80 ) ) : string( g.pick( { "a", "b", "load", "save", "", "a b", "A", "a fairly long description of the first step", "a fairly long description of the first stage" } ) ); if ( g.noting ) log += " " + tag; w.add_measure( tag ); auto it = std::find_if( m.begin(), m.end(), [&]( std::pair< string, long long >& p ) { return p.first == tag; } ); if ( it == m.end() ) m.push_back( { tag, e } ); else { it->second += e; twice = true; } e = 0;
	}
	g.note( "tags", log ); g.nontrivial( m.size() > 1 && twice ); string third = flut::to_str( 1.0 / 3 ); const int prec = int( g.below( 12 ) ), before = flut::set_to_str_precision( prec ); prop_node r = g.coin() ? w.get_report() : w.get_report( 6 + int( g.below( 6 ) ) ); CHECK_EQ( flut::to_str_precision(), prec ); flut::set_to_str_precision( before ); CHECK_EQ( flut::to_str( 1.0 / 3 ), third ); CHECK_EQ( r.size(), m.size() + 1 ); size_t i = 0; // number formatting is as before
	for ( auto& c : r ) { if ( i < m.size() ) { CHECK_EQ( c.first, m[ i ].first ); CHECK_CLOSE( c.second.get< double >(), m[ i ].second / 1e9, 1e-9, 1e-5 ); } else { CHECK_EQ( c.first, string( "internal" ) ); CHECK_CLOSE( c.second.get< double >(), 0, 0, 1e-5 ); } ++i; }
}

struct Node { string name; Node* up; long long total, start; std::list< Node > kids; };
static void compare( const prop_node& pn, const Node& n, double root, bool values, const string& log ) {
	if ( pn.size() != n.kids.size() ) FAIL( "section " + n.name + " reports " + pbt::show( pn.size() ) + " children, expected " + pbt::show( n.kids.size() ) + " after" + log );
	long long last = std::numeric_limits< long long >::max(), kids = 0; for ( auto& c : pn ) { const Node* k = nullptr; for ( auto& x : n.kids ) if ( x.name == c.first ) k = &x; if ( !k ) FAIL( "unexpected section " + c.first + " under " + n.name + " after" + log ); CHECK( &pn.get_child( c.first ) == &c.second ); kids += k->total; if ( values ) { if ( k->total > last ) FAIL( "sections not ordered by time after" + log ); last = k->total; } compare( c.second, *k, root, values, log ); }
	if ( values && root > 0 ) { double ms = -1, rel = -1, ex = -1; sscanf( pn.get_value().c_str(), "%lfms %lf%% (%lf%% exclusive", &ms, &rel, &ex ); CHECK_CLOSE( ms, n.total / 1e6, 1e-9, 0.51 ); CHECK_CLOSE( rel, 100.0 * n.total / root, 1e-9, 0.0051 ); CHECK_CLOSE( ex, 100.0 * ( n.total - kids ) / root, 1e-9, 0.0051 ); }
}
static void tree( Gen& g, size_t len )
{
	// the same name comes from different places in memory
	static const char a1[] = "alpha", a2[] = "alpha", b1[] = "beta", b2[] = "beta"; static const vector< const char* > names = { a1, a2, b1, b2, "gamma", "delta", "TOTAL", "step", "step2", "alphabet", "a_rather_long_section_name_of_the_first_kind", "a_rather_long_section_name_of_the_other_kind", "" };
	Virtual v; auto& p = flut::profiler::instance(); p.reset(); Node root{ "TOTAL", nullptr, 0, vnow, {} }; Node* cur = &root; string log; bool again = false; size_t made = 0; Seq s( g, len );
	while ( s.more() ) {
		advance( g ); size_t op = g.weighted( { 6, 5, 1, 1, 1 } ); size_t depth = 0; for ( Node* n = cur; n->up; n = n->up ) ++depth;
		auto enter = [&]( const char* nm ) { if ( g.noting ) log += string( " +" ) + nm; Node* k = nullptr; for ( auto& x : cur->kids ) if ( x.name == nm ) k = &x; if ( k ) again = true; else { cur->kids.push_back( Node{ nm, cur, 0, 0, {} } ); k = &cur->kids.back(); ++made; } k->start = vnow; cur = k; };
		auto leave = [&]() { if ( g.noting ) log += " -"; cur->total += vnow - cur->start; cur = cur->up; };
		switch ( op ) {
		case 0: { const char* nm = g.pick( names ); p.start_section( nm ); enter( nm ); break; }
		case 1: if ( depth ) { p.end_section(); leave(); } break;
		case 2: { const char* nm = g.pick( names ); { flut::scoped_section_profiler sp( nm ); enter( nm ); advance( g ); if ( g.coin() ) { const char* in = g.pick( names ); flut::scoped_section_profiler inner( in ); enter( in ); advance( g ); leave(); } } leave(); break; }
		case 3: if ( g.noting ) log += " report"; { prop_node r = p.report(); CHECK_EQ( r.size(), size_t( 1 ) ); CHECK_EQ( r.begin()->first, string( "TOTAL" ) ); compare( r.begin()->second, root, 0, false, log ); } break;
		default: if ( depth == 0 && g.chance( 1, 6 ) ) { if ( g.noting ) log += " reset"; p.reset(); root = Node{ "TOTAL", nullptr, 0, vnow, {} }; made = 0; }
		}
	}
	while ( cur != &root ) { advance( g ); p.end_section(); cur->total += vnow - cur->start; cur = cur->up; }
	advance( g ); root.total = vnow - root.start; g.note( "ops", log ); g.nontrivial( made > 1 && again );
	prop_node r = p.report(); CHECK_EQ( r.size(), size_t( 1 ) ); CHECK_EQ( r.begin()->first, string( "TOTAL" ) ); compare( r.begin()->second, root, (double)root.total, true, log );
	prop_node r2 = p.report(); CHECK( r2 == r ); // reporting changes nothing
}

LAW( profiler_tree, 120000 ) { tree( g, 60 ); }
LAW( profiler_many, 1500 ) { tree( g, 300 ); }

LAW( profiler_thread, 300 )
{
	auto& p = flut::profiler::instance(); p.reset(); bool a = false, b = false, c = false; g.nontrivial( true ); g.note( "section", "x" ); p.start_section( "x" );
	std::thread t( [&]() { try { p.start_section( "y" ); } catch ( const std::exception& ) { a = true; } try { p.end_section(); } catch ( const std::exception& ) { b = true; } try { p.report(); } catch ( const std::exception& ) { c = true; } } ); t.join(); CHECK( a && b && c ); p.end_section(); prop_node r = p.report(); CHECK_EQ( r.begin()->second.size(), size_t( 1 ) ); CHECK( r.begin()->second.has_key( "x" ) );
}
