#include "common.hpp"
#include "proptree.hpp"
#include "flut/container_tools.hpp"
#include "flut/system/log_sink.hpp"
#include "flut/system/path.hpp"
#include "flut/system/version.hpp"
PROPERTY( "C35", "trees of up to 60 nodes, vectors of up to 60 numbers or strings, and variables of every kind, printed to streams and through the log macros. Non-trivial: at least two nodes, elements or variables." )
using std::string; using std::vector; using flut::prop_node;

static string label( Gen& g ) { string s = g.chance( 1, 2 ) ? g.ident( 30 ) : g.str( 20, "ab =_", true, "\n" ); return s.empty() ? string( "x" ) : s; }
static string value( Gen& g ) { return g.chance( 1, 4 ) ? string() : g.str( 40, "ab 01=\"", true ); }
static size_t width( const Tree& t, size_t depth ) { size_t w = 0; for ( auto& k : t.kids ) w = std::max( { w, 2 * depth + k.first.size(), width( k.second, depth + 1 ) } ); return w; }
static void render( const Tree& t, size_t depth, size_t w, string& out ) {
	for ( auto& k : t.kids ) {
		string key = string( 2 * depth, ' ' ) + k.first; key.resize( std::max( w, key.size() ), ' ' ); out += key;
		if ( !k.second.value.empty() || k.second.kids.empty() ) out += " = " + k.second.value;
		out += "\n"; render( k.second, depth + 1, w, out );
	}
}
LAW( node_text, 80000 )
{
	size_t budget = 60; Tree t = gen_tree( g, budget, 6, 8, label, value, true ); deepen( g, t, 60, 100 ); if ( g.chance( 1, 4 ) ) t.value = value( g ); prop_node pn = to_prop( t ); g.note( "tree", str_of( t ) ); g.nontrivial( t.count() > 2 );
	string want; render( t, 0, width( t, 0 ), want ); std::ostringstream o; o << pn; CHECK_EQ( o.str(), want );
	std::ostringstream p; p << "[" << pn << "]" << pn; CHECK_EQ( p.str(), "[" + want + "]" + want ); // again, to the same stream
	std::ostringstream q; flut::to_stream( q, pn ); CHECK_EQ( q.str(), want ); CHECK_TREE( from_prop( pn ), t );
	int depth = g.i( 0, 5 ), align = g.i( 1, 40 ); g.note( "depth", depth ).note( "align", align ); string deep, fixed; render( t, depth, width( t, depth ), deep ); render( t, depth, align, fixed ); std::ostringstream d, f; flut::to_stream( d, pn, depth ); CHECK_EQ( d.str(), deep ); flut::to_stream( f, pn, depth, align ); CHECK_EQ( f.str(), fixed );
}

LAW( sequences, 100000 )
{
	vector< int > a; vector< double > b; vector< string > c; vector< flut::path > p; { Seq s( g, 60 ); while ( s.more() ) a.push_back( g.i( -100000, 100000 ) ); } { Seq s( g, 20 ); while ( s.more() ) b.push_back( g.real( 1e6 ) ); } { Seq s( g, 20 ); while ( s.more() ) { c.push_back( g.str( 10, "ab\t ", true ) ); p.emplace_back( c.back() ); } }
	g.note( "ints", a ).note( "reals", b ).note( "strings", c ); g.nontrivial( a.size() > 1 || c.size() > 1 ); std::ostringstream o, w; using flut::operator<<;
	flut::operator<<( o, a ); flut::operator<<( o, b ); flut::operator<<( o, c ); flut::operator<<( o, p );
	for ( size_t i = 0; i < a.size(); ++i ) w << ( i ? "\t" : "" ) << a[ i ]; w << "\n"; for ( size_t i = 0; i < b.size(); ++i ) w << ( i ? "\t" : "" ) << b[ i ]; w << "\n";
	for ( int k = 0; k < 2; ++k ) { for ( size_t i = 0; i < c.size(); ++i ) w << ( i ? "\t" : "" ) << c[ i ]; w << "\n"; }
	CHECK_EQ( o.str(), w.str() );
}

LAW( periodic, 1500 )
{
	// the counters belong to the places in the code: every case makes a multiple of 840 calls, so that all start alike
	int total = 840 * g.i( 1, 3 ), got[ 9 ] = {}, want[ 9 ] = {}, sum = 0, expr = 0, three = 3; g.note( "calls", total ); g.nontrivial( true );
	for ( int n = 0; n < total; ++n ) {
		flut_do_periodic( 1, got[ 1 ] += n ); flut_do_periodic( 2, got[ 2 ] += n ); flut_do_periodic( 3, got[ 3 ] += n; ++sum ); flut_do_periodic( 4, got[ 4 ] += n ); flut_do_periodic( 5, got[ 5 ] += n ); flut_do_periodic( 6, got[ 6 ] += n ); flut_do_periodic( three + 4, got[ 7 ] += n ); flut_do_periodic( 8, got[ 8 ] += n );
		if ( n % 2 ) flut_do_periodic( three * 2 - 1, ++expr ); // counts the passes, not the calls of others
		for ( int i = 1; i <= 8; ++i ) if ( n % i == 0 ) want[ i ] += n;
	}
	for ( int i = 1; i <= 8; ++i ) CHECK_MSG( got[ i ] == want[ i ], "interval " + std::to_string( i ) + ": " + std::to_string( got[ i ] ) + " instead of " + std::to_string( want[ i ] ) );
	CHECK_EQ( sum, total / 3 ); CHECK_EQ( expr, total / 10 );
}

struct keep : flut::log::sink { keep( flut::log::level l ) : sink( l ) {} void send_log_message( flut::log::level l, const string& m ) override { got.push_back( { (int)l, m } ); } vector< std::pair< int, string > > got; };
static int calls; static void some_function( int, const string& ) { ++calls; flut::log::trace( "inside" ); }
LAW( log_variables, 100000 )
{
	keep k( flut::log::trace_level ); int count = g.i( -100000, 100000 ); double size = g.real( 1e6 ); string name = g.str( 20, "ab =\t", true ); bool flag = g.coin(); unsigned long long big = g.u64( 0, UINT64_MAX ); flut::path file( name + "/f" ); int dec = g.i( 0, 9 ); char ch = 'a' + (char)g.below( 26 );
	g.note( "count", count ).note( "size", size ).note( "name", name ).note( "decimals", dec ); g.nontrivial( !name.empty() );
	auto text = []( std::initializer_list< std::function< void( std::ostream& ) > > l ) { std::ostringstream o; for ( auto& f : l ) f( o ); return o.str(); };
	vector< string > want; std::ostringstream so, fo; so << size; fo << std::fixed << std::setprecision( dec ) << size; string cs = std::to_string( count ), ss = so.str(), bs = std::to_string( big ), fs = flag ? "1" : "0";
	flut_logvar( count ); want.push_back( "count=" + cs ); flut_logvar( name ); want.push_back( "name=" + name ); flut_logvar( size * 2 + 1 ); { std::ostringstream o; o << size * 2 + 1; want.push_back( "size * 2 + 1=" + o.str() ); }
	flut_logvar2( size, name ); want.push_back( "size=" + ss + "\tname=" + name ); flut_logvar3( name, flag, count ); want.push_back( "name=" + name + "\tflag=" + fs + "\tcount=" + cs );
	flut_logvar4( big, count, flag, size ); want.push_back( "big=" + bs + "\tcount=" + cs + "\tflag=" + fs + "\tsize=" + ss );
	calls = 0; flut_trace_call( some_function( count, name ) ); CHECK_EQ( calls, 1 ); want.push_back( "--> some_function( count, name )" ); want.push_back( "inside" ); want.push_back( "<-- some_function( count, name )" );
	flut::log::trace( flut::setfixed( dec ), size, ' ', name, ' ', count ); want.push_back( fo.str() + " " + name + " " + cs );
	flut::log::trace( size ); want.push_back( ss ); // the format of one message does not leak into the next
	flut::log::trace( file, ch, "literal", big ); want.push_back( file.str() + ch + "literal" + bs ); flut::log::trace( flut::version( 1, 2, 3 ) ); want.push_back( "1.2.3" );
	vector< string > got; for ( auto& m : k.got ) { CHECK_EQ( m.first, (int)flut::log::trace_level ); got.push_back( m.second ); } CHECK_EQ( got, want );
}
